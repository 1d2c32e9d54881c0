prop, pkg = "C17", "slicers/vip"
needs = "a wall thickness that is not a multiple of the line width, with a remainder above half of it"
breaks = "a wall more than fits into the wall thickness"
edits = [("slicers/vip/utils.go", '''	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
''', '''	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+0.5) - 1
''')]
demo = '''
package vip

import (
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	. "github.com/l1va/goosli/slicers"
)

func TestSeedDemo(t *testing.T) {
	ring := Path{Points: []Point{{0, 0, 0}, {0, 20, 0}, {20, 20, 0}, {20, 0, 0}, {0, 0, 0}}}
	for _, th := range []float64{2, 2.2, 2.8} {
		layers := []Layer{{Norm: AxisZ, Paths: []Path{ring}}}
		s := Settings{WallThickness: th, GcodeSettings: &gcode.GcodeSettings{LineWidth: 1}}
		r := PrepareLayers(layers, s, nil, nil)
		if len(r[0].MiddlePs) != 0 || len(r[0].InnerPs) != 1 {
			t.Fatal(th, len(r[0].MiddlePs), len(r[0].InnerPs))
		}
	}
}
'''
