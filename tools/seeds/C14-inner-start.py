prop, pkg = "C14", "slicers"
needs = "a model reaching into its farthest negative corner by more than the rest of a spacing"
breaks = "the planes start at the first multiple of the spacing inside the circle around the model and then skip one, so the far negative side lies more than one spacing from any plane"
edits = [("slicers/fill_layer.go", '''	minx_step := float64(math.Floor((minx)/step)) * step
''', '''	minx_step := float64(math.Ceil((minx)/step)) * step
''')]
demo = '''
package slicers

import (
	"math"
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	m := NewMesh([]Triangle{NewTriangle(Point{-10.5, 0, 0}, Point{0, 0.1, 0}, Point{0, 0, 1})})
	ps, _ := CalcFillPlanes(&m, Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 1}, FillDensity: 50, FillingType: "Lines"})
	best := 100.0
	for _, p := range ps {
		best = math.Min(best, math.Abs(p.P.X+10.5))
	}
	if best > 2 {
		t.Fatal("nearest plane is ", best, " away, the spacing is 2")
	}
}
'''
