package helpers

import (
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C25(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var m Mesh
		n := v.Intn(12)
		for i := 0; i < n; i++ {
			tr := NewTriangle(v.pt(), v.pt(), v.pt())
			if v.Intn(3) == 0 {
				tr.N = v.vec() // the stored normal counts
			}
			m.Triangles = append(m.Triangles, tr)
		}
		dir, bias := v.vecNZ(), v.Float64()*120-15
		if v.Intn(3) == 0 {
			dir = Vector{0, 0, 1}
		}
		var fl []bool
		var ts []Triangle
		v.guard("ColorizeTriangles", func() { fl = ColorizeTriangles(m, bias, dir) })
		v.guard("FilterTrianglesByColor", func() { ts = FilterTrianglesByColor(m, bias, dir) })
		if v.t.Failed() {
			return
		}
		if len(fl) != n {
			v.fail("ColorizeTriangles gives %d flags for %d triangles", len(fl), n)
			return
		}
		var want []Triangle
		for i, tr := range m.Triangles {
			c := -vpDot(tr.N, dir) / vpLen(tr.N) / vpLen(dir)
			if vpLen(tr.N) > 0 {
				a := math.Acos(math.Max(-1, math.Min(1, c))) * 180 / math.Pi
				if math.Abs(a-(90-bias)) > 1e-5 && fl[i] != (a < 90-bias) {
					v.fail("ColorizeTriangles(bias %v, direction %v): triangle %d with normal %v is flagged %v, its angle to the reversed direction is %v", bias, dir, i, tr.N, fl[i], a)
				}
			}
			if fl[i] {
				want = append(want, tr)
			}
		}
		if len(ts) != len(want) {
			v.fail("FilterTrianglesByColor gives %d triangles, %d are flagged", len(ts), len(want))
			return
		}
		for i := range ts {
			if ts[i] != want[i] {
				v.fail("FilterTrianglesByColor: triangle %d is %v, the flagged one is %v", i, ts[i], want[i])
			}
		}
	}
}
