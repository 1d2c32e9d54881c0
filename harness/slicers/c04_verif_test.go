package slicers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C04(t *testing.T) {
	v := newVP(t)
	for v.more() {
		m := vpApart(v)
		z, s, r, ok := vpSlice(v, m)
		if !ok || len(m.Triangles) == 0 {
			continue
		}
		n := vpMul(1/vpLen(z), z)
		lo, hi := vpExtent(m.Triangles, n)
		for _, l := range r {
			if len(l.Paths) == 0 {
				continue
			}
			h := vpDot(l.Paths[0].Points[0].ToVector(), n)
			if h < lo || h > hi {
				continue
			}
			for _, t := range m.Triangles {
				seg, ok := vpCut(t, n, h)
				if ok && !vpDrawn(l.Paths, seg.P1, seg.P2) {
					v.fail("triangle %v is cut at height %v of direction %v (height %v, supports %v), but layer %d of %d has no such line; triangles %v", t, h, z, s.LayerHeight, s.SupportsOn, l.Order, len(r), m.Triangles)
				}
			}
		}
	}
}

// vpDrawn: the middle of the segment lies on some path
func vpDrawn(ps []Path, a, b Point) bool {
	m := Point{(a.X + b.X) / 2, (a.Y + b.Y) / 2, (a.Z + b.Z) / 2}
	for _, p := range ps {
		for i := 1; i < len(p.Points); i++ {
			x, y := p.Points[i-1], p.Points[i]
			d := vpVec(x, y)
			k := 0.0
			if q := vpDot(d, d); q > 0 {
				k = vpDot(vpVec(x, m), d) / q
			}
			if k < 0 {
				k = 0
			}
			if k > 1 {
				k = 1
			}
			if vpDist(m, vpShift(x, vpMul(k, d))) < 0.01 {
				return true
			}
		}
	}
	return false
}
