package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C08(t *testing.T) {
	v := newVP(t)
	for v.more() {
		scale := []float64{1, 1, 100, 1e-2, 1e-3}[v.Intn(5)]
		pt := func() Point { p := v.pt(); return Point{p.X * scale, p.Y * scale, p.Z * scale} }
		tr := NewTriangle(pt(), pt(), pt())
		if v.Intn(4) == 0 { // sliver
			tr = NewTriangle(tr.P1, tr.P2, vpShift(vpShift(tr.P1, vpMul(v.Float64(), vpVec(tr.P1, tr.P2))), vpMul(1e-5*scale, v.vecNZ())))
		}
		far := func(a, b Point) bool { return vpDist(a, b) > 1e-5 }
		n := vpCross(vpVec(tr.P1, tr.P2), vpVec(tr.P1, tr.P3))
		longest := vpDist(tr.P1, tr.P2) + vpDist(tr.P1, tr.P3)
		if !far(tr.P1, tr.P2) || !far(tr.P1, tr.P3) || !far(tr.P2, tr.P3) || vpLen(n) < 1e-7*longest*longest {
			continue
		}
		ps := []Point{tr.P1, tr.P2, tr.P3}
		i := v.Intn(3)
		c, p, q := ps[i], ps[(i+1)%3], ps[(i+2)%3]
		a, b := v.Float64(), v.Float64()
		if v.Intn(5) == 0 {
			a = float64(v.Intn(2))
		}
		if v.Intn(5) == 0 {
			b = float64(v.Intn(2))
		}
		x, y := vpShift(c, vpMul(a, vpVec(c, p))), vpShift(c, vpMul(b, vpVec(c, q)))
		if a+b < 1e-3 {
			continue
		}
		l := Line{x, y}
		if v.Intn(2) == 0 {
			l = Line{y, x}
		}
		var r []Triangle
		v.guard("splitOnThree", func() { r = splitOnThree(c, l, tr) })
		if v.t.Failed() {
			return
		}
		if len(r) != 3 {
			v.fail("splitOnThree gives %d pieces", len(r))
			return
		}
		sum := 0.0
		for k, s := range r {
			m := vpCross(vpVec(s.P1, s.P2), vpVec(s.P1, s.P3))
			if d := vpDot(m, n) / vpDot(n, n); d < -1e-6 {
				v.fail("splitOnThree(%v, %v, %v): piece %d faces the other way: %v", c, l, tr, k, s)
			}
			if !vpNearV(m, s.N, 1e-9*(1+vpLen(m))) {
				v.fail("splitOnThree(%v, %v, %v): piece %d has the normal %v", c, l, tr, k, s.N)
			}
			sum += vpLen(m)
			for _, o := range []Point{s.P1, s.P2, s.P3} {
				if o != c && o != p && o != q && o != x && o != y || k > 0 && o == c && o != x && o != y {
					v.fail("splitOnThree(%v, %v, %v): piece %d has a foreign vertex %v", c, l, tr, k, o)
				}
			}
		}
		if d := sum/vpLen(n) - 1; d > 1e-5 || d < -1e-5 {
			v.fail("splitOnThree(%v, %v, %v): the pieces have %v of the area: %v", c, l, tr, sum/vpLen(n), r)
		}
		m := vpCross(vpVec(r[0].P1, r[0].P2), vpVec(r[0].P1, r[0].P3))
		if d := vpLen(m)/vpLen(n) - a*b; d > 1e-5 || d < -1e-5 {
			v.fail("splitOnThree(%v, %v, %v): the first piece is not the corner: %v", c, l, tr, r[0])
		}
	}
}
