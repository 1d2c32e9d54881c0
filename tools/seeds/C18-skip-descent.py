prop, pkg = "C18", "gcode"
needs = "two paths after each other at the same height"
breaks = "the head is raised for the travel and only lowered again if the next path is at another height, so the next path is printed half a millimetre too high"
edits = [("gcode/cmds.go", '''		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\\n")
''', '''		if p.Points[0].Z != state.pos.Z {
			b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\\n")
		}
''')]
demo = '''
package gcode

import (
	"bytes"
	"strings"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	a := Path{Points: []Point{{0, 0, 1}, {5, 0, 1}}}
	c := Path{Points: []Point{{0, 5, 1}, {5, 5, 1}}}
	var b bytes.Buffer
	g := NewGcode(GcodeSettings{BarDiameter: 1.75, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 900, PrintSpeedLayer1: 800, PrintSpeedWall: 700})
	g.AddLayers([]Layer{{Paths: []Path{a, c}}})
	g.ToOutput(&b)
	z := ""
	for _, l := range strings.Split(b.String(), "\\n") {
		for _, w := range strings.Fields(l) {
			if w[0] == 'Z' {
				z = w
			}
		}
		if strings.HasPrefix(l, "G1 ") && strings.Contains(l, " E") && z != "Z1.000" {
			t.Fatalf("extruding at %s: %s", z, l)
		}
	}
}
'''
