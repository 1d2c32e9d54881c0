package primitives

import (
	"math"
	"testing"
)

func TestVP_C01(t *testing.T) {
	v := newVP(t)
	for v.more() {
		p := Plane{P: v.pt(), N: v.vecNZ()}
		a, b := v.pt(), v.pt()
		switch v.Intn(4) {
		case 0: // an end on the plane
			a = p.P
		case 1: // parallel
			d := vpCross(p.N, v.vecNZ())
			b = vpShift(a, d)
		case 2: // a short segment around the plane's point, a short normal
			a, b = vpShift(p.P, vpMul(1e-3, v.vec())), vpShift(p.P, vpMul(1e-3, v.vec()))
			p.N = vpMul(1e-3, p.N)
		}
		r := p.IntersectSegment(a, b)
		s1, s2 := vpSide(p, a), vpSide(p, b)
		l := vpLen(p.N) * (1 + vpDist(a, b) + vpDist(p.P, a))
		eps := 1e-9 * l
		if r == nil {
			if s1 < -eps && s2 > eps || s1 > eps && s2 < -eps {
				v.fail("IntersectSegment(%v, %v, %v) = nil although the ends are on both sides (%g, %g)", p, a, b, s1, s2)
			}
			if s1 == 0 && math.Abs(s2) > eps || s2 == 0 && math.Abs(s1) > eps {
				// an end exactly on the plane
				if vpNear(a, p.P, 0) || vpNear(b, p.P, 0) {
					v.fail("IntersectSegment(%v, %v, %v) = nil although an end is the plane's point", p, a, b)
				}
			}
			continue
		}
		if s1 > eps && s2 > eps || s1 < -eps && s2 < -eps {
			v.fail("IntersectSegment(%v, %v, %v) = %v although both ends are on one side", p, a, b, *r)
		}
		if math.Abs(s1-s2) < 1e-6*l {
			continue
		}
		if vpNaN(r.X, r.Y, r.Z) || math.Abs(vpSide(p, *r)) > 1e-7*l {
			v.fail("IntersectSegment(%v, %v, %v) = %v is not on the plane", p, a, b, *r)
		}
		if vpDist(a, *r)+vpDist(*r, b) > vpDist(a, b)+1e-7*(1+vpDist(a, b)) {
			v.fail("IntersectSegment(%v, %v, %v) = %v is not between the ends", p, a, b, *r)
		}
	}
}
