prop, pkg = "C23", "gcode"
needs = "retraction switched on and less filament extruded since the last reset than the retraction distance"
breaks = "no retraction is made before the first travels and after every reset of the extruder axis"
edits = [("gcode/cmds.go", "	if !sett.Retraction {", "	if !sett.Retraction || state.eOff < sett.RetractionDistance {")]
demo = '''
package gcode

import (
	"bytes"
	"strings"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	p := Path{Points: []Point{{0, 0, 1}, {0, 5, 1}}}
	var b bytes.Buffer
	g := NewGcode(GcodeSettings{BarDiameter: 1.75, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 900, PrintSpeedLayer1: 800, PrintSpeedWall: 700,
		Retraction: true, RetractionSpeed: 1234, RetractionDistance: 2})
	g.AddLayers([]Layer{{Paths: []Path{p, p, p}}})
	g.ToOutput(&b)
	if n := strings.Count(b.String(), "F1234 E"); n != 3 {
		t.Fatalf("%d retractions for 3 paths", n)
	}
}
'''
