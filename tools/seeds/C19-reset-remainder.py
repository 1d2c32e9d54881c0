prop, pkg = "C19", "gcode"
needs = "more than 4000 mm of filament extruded before the end of a layer, and a layer after that"
breaks = "after the reset of the extruder axis to 0 the program goes on counting from the amount above 4000"
edits = [("gcode/cmds.go", '''		b.WriteString("G92 E0\\n")
		state.eOff = 0
''', '''		b.WriteString("G92 E0\\n")
		state.eOff -= 4000
''')]
demo = '''
package gcode

import (
	"bytes"
	"strconv"
	"strings"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	p := Path{Points: []Point{{0, 0, 1}, {0, 100, 1}, {0, 0, 1}}}
	lay := Layer{Paths: []Path{p}}
	var b bytes.Buffer
	// 100 mm of a 10 x 10 line take 100*4*100/(pi*1*1) = 12732 mm
	g := NewGcode(GcodeSettings{BarDiameter: 1, LayerHeight: 10, LineWidth: 10, PrintSpeed: 900, PrintSpeedLayer1: 800, PrintSpeedWall: 700})
	g.AddLayers([]Layer{lay, lay, lay})
	g.ToOutput(&b)
	e := 0.0
	for _, l := range strings.Split(b.String(), "\\n") {
		f := strings.Fields(l)
		if len(f) == 0 || (f[0] != "G1" && f[0] != "G92") {
			continue
		}
		for _, w := range f[1:] {
			if w[0] == 'E' {
				v, _ := strconv.ParseFloat(w[1:], 64)
				if f[0] == "G1" && (v-e < 12732.2 || v-e > 12732.6) {
					t.Fatalf("%s extrudes %v", l, v-e)
				}
				e = v
			}
		}
	}
}
'''
