prop, pkg = "C17", "slicers/vip"
needs = "a layer of several contours and at least two inner walls per contour"
breaks = "only the last contour of a layer keeps its middle walls"
edits = [("slicers/vip/utils.go", '''					layers[i].MiddlePs = append(layers[i].MiddlePs, offs[:len(offs)-1]...)
''', '''					layers[i].MiddlePs = append(layer.MiddlePs, offs[:len(offs)-1]...)
''')]
demo = '''
package vip

import (
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	. "github.com/l1va/goosli/slicers"
)

func TestSeedDemo(t *testing.T) {
	ring := func(x float64) Path {
		return Path{Points: []Point{{x, 0, 0}, {x, 20, 0}, {x + 20, 20, 0}, {x + 20, 0, 0}, {x, 0, 0}}}
	}
	layers := []Layer{{Norm: AxisZ, Paths: []Path{ring(0), ring(100)}}}
	s := Settings{WallThickness: 3.2, GcodeSettings: &gcode.GcodeSettings{LineWidth: 1}}
	r := PrepareLayers(layers, s, nil, nil)
	if len(r[0].MiddlePs) != 2 || len(r[0].InnerPs) != 2 {
		t.Fatal(len(r[0].MiddlePs), len(r[0].InnerPs))
	}
}
'''
