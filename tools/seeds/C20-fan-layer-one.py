prop, pkg = "C20", "gcode"
needs = "settings that keep the fan on in the first layer"
breaks = "the fan is never switched on in the first layer, whatever the settings say"
edits = [("gcode/cmds.go", '''	if state.layerIndex == 0 && sett.FanOffLayer1 {
		if state.fan {''', '''	if state.layerIndex == 0 {
		if sett.FanOffLayer1 && state.fan {''')]
demo = '''
package gcode

import (
	"bytes"
	"strings"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	p := Path{Points: []Point{{0, 0, 1}, {0, 100, 1}, {0, 0, 1}}}
	var b bytes.Buffer
	g := NewGcode(GcodeSettings{BarDiameter: 1.75, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 900, PrintSpeedLayer1: 800, PrintSpeedWall: 700})
	g.AddLayers([]Layer{{Paths: []Path{p}}})
	g.ToOutput(&b)
	if !strings.Contains(b.String(), "M106") {
		t.Fatal("the fan stays off in the first layer although it is not configured so")
	}
}
'''
