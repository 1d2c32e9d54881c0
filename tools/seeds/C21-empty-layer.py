prop, pkg = "C21", "gcode"
needs = "a layer without any walls, contours and fill"
breaks = "an empty layer is not announced, while the layer count includes it"
edits = [("gcode/cmds.go", '''		b.WriteString(";LAYER:" +''', '''		if l := lm.Layers[i]; len(l.Paths)+len(l.MiddlePs)+len(l.InnerPs)+len(l.Fill) == 0 {
			continue
		}
		b.WriteString(";LAYER:" +''')]
demo = '''
package gcode

import (
	"bytes"
	"strings"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	p := Path{Points: []Point{{0, 0, 1}, {0, 100, 1}, {0, 0, 1}}}
	var b bytes.Buffer
	g := NewGcode(GcodeSettings{BarDiameter: 1.75, LayerHeight: 0.2, LineWidth: 0.4, PrintSpeed: 900, PrintSpeedLayer1: 800, PrintSpeedWall: 700})
	g.AddLayers([]Layer{{Paths: []Path{p}}, {}, {Paths: []Path{p}}})
	g.ToOutput(&b)
	if n := strings.Count(b.String(), ";LAYER:"); n != g.LayerCount() {
		t.Fatalf("%d layers counted, %d announced", g.LayerCount(), n)
	}
}
'''
