package primitives

import "testing"

// an edge in the plane next to a vertex off it gives crossings at its two ends, unless it is the whole triangle
func inPlane(exact bool, p Plane, ps []Point) bool {
	n := 0
	for _, q := range ps {
		if vpSide(p, q) == 0 {
			n++
		}
	}
	return exact && n == 3
}

func TestVP_C02(t *testing.T) {
	v := newVP(t)
	for v.more() {
		p := Plane{P: v.pt(), N: v.vecNZ()}
		tr := NewTriangle(v.pt(), v.pt(), v.pt())
		if v.Intn(3) == 0 {
			p.P = tr.P2
		}
		if v.Intn(8) == 0 {
			p.P = tr.P1
			d := vpVec(tr.P1, tr.P3)
			p.N = vpCross(d, v.vecNZ())
			if vpLen(p.N) < 0.1 {
				continue
			}
		}
		exact := v.Intn(3) == 0 // small integers: everything below is exact
		if exact {
			in := func() Point {
				return Point{float64(v.Intn(7) - 3), float64(v.Intn(7) - 3), float64(v.Intn(7) - 3)}
			}
			tr = NewTriangle(in(), in(), in())
			p = Plane{P: in(), N: in().ToVector()}
			if v.Intn(2) == 0 {
				p.P = []Point{tr.P1, tr.P2, tr.P3}[v.Intn(3)]
			}
			if vpLen(p.N) == 0 {
				continue
			}
		}
		tn := vpCross(vpVec(tr.P1, tr.P2), vpVec(tr.P1, tr.P3))
		var xs []Point
		amb := false
		ps := []Point{tr.P1, tr.P2, tr.P3}
		strict := true
		for i := range ps {
			a, b := ps[i], ps[(i+1)%3]
			s1, s2 := vpSide(p, a), vpSide(p, b)
			l := 1e-9 * vpLen(p.N) * (1 + vpDist(a, b))
			if s1 > -l && s1 < l && !exact {
				amb = true
			}
			if s1 < -l && s2 > l || s1 > l && s2 < -l {
				strict = false
				k := s1 / (s1 - s2)
				xs = append(xs, vpShift(a, vpMul(k, vpVec(a, b))))
			}
			if s1 > -l && s1 < l {
				strict = false
				if exact && s2 == 0 && vpSide(p, ps[(i+2)%3]) == 0 {
					continue // the triangle lies in the plane
				}
				xs = append(xs, a)
			}
		}
		r := p.IntersectTriangle(&tr)
		if r == nil {
			for i := range xs {
				for j := range xs {
					if !amb && !inPlane(exact, p, ps) && vpDist(xs[i], xs[j]) > 1e-5 {
						v.fail("IntersectTriangle(%v, %v) = nil although edges cross at %v and %v", p, tr, xs[i], xs[j])
					}
				}
			}
			continue
		}
		if strict {
			v.fail("IntersectTriangle(%v, %v) = %v although all vertices are on one side", p, tr, *r)
		}
		if vpDist(r.P1, r.P2) < 1e-7 {
			v.fail("IntersectTriangle(%v, %v) = %v: ends coincide", p, tr, *r)
		}
		for _, e := range []Point{r.P1, r.P2} {
			ok := false
			for _, x := range xs {
				if vpNear(e, x, 2e-8) {
					ok = true
				}
			}
			if !ok && !amb {
				v.fail("IntersectTriangle(%v, %v) = %v: end %v is no crossing of an edge, crossings are %v", p, tr, *r, e, xs)
			}
		}
		if o := vpDot(vpCross(vpVec(r.P1, r.P2), p.N), tn); o > 1e-5*(1+vpLen(p.N))*(1+vpLen(tn)) {
			v.fail("IntersectTriangle(%v, %v) = %v is directed with the solid on the wrong hand (%g)", p, tr, *r, o)
		}
	}
}
