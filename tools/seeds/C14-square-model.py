prop, pkg = "C14", "slicers"
needs = "a model whose extent along Y differs from that along X"
breaks = "the extent along X is used for both axes, so models longer in Y are not filled at their ends"
edits = [("slicers/fill_layer.go", '''	minb, maxb := mesh.MinMaxZ(AxisY)
''', '''	minb, maxb := mina, maxa // models are centred on the bed
''')]
demo = '''
package slicers

import (
	"math"
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	m := NewMesh([]Triangle{NewTriangle(Point{-1, 40, 0}, Point{1, -40, 0}, Point{0, 0, 1})})
	ps, _ := CalcFillPlanes(&m, Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 1}, FillDensity: 100, FillingType: "Squares"})
	best := 100.0
	for _, p := range ps {
		if p.N.X > 0 {
			best = math.Min(best, math.Abs(p.P.VectorTo(Point{-1, 40, 0}).Dot(p.N)))
		}
	}
	if best > 2.01 {
		t.Fatal("nearest plane is ", best, " away, the spacing is 2")
	}
}
'''
