package primitives

import (
	"math"
	"testing"
)

func TestVP_C13(t *testing.T) {
	v := newVP(t)
	for v.more() {
		a, b := v.vec(), v.vec()
		if v.Intn(6) == 0 {
			b = vpMul(-3.3, a)
		}
		if v.Intn(12) == 0 {
			a = Vector{}
		}
		eps := 1e-8 * (1 + vpLen(a)) * (1 + vpLen(b))
		if r := a.Cross(b); !vpNearV(r, vpCross(a, b), eps) {
			v.fail("%v.Cross(%v) = %v", a, b, r)
		}
		if r := a.Dot(b); math.Abs(r-vpDot(a, b)) > eps {
			v.fail("%v.Dot(%v) = %v", a, b, r)
		}
		if r := a.Length(); math.Abs(r-vpLen(a)) > eps || math.Abs(a.LengthSquare()-vpDot(a, a)) > eps {
			v.fail("%v.Length() = %v, LengthSquare() = %v", a, r, a.LengthSquare())
		}
		n := a.Normalize()
		if vpLen(a) == 0 && n != a || vpLen(a) > 0 && (math.Abs(vpLen(n)-1) > 1e-9 || !vpNearV(vpMul(vpLen(a), n), a, eps)) {
			v.fail("%v.Normalize() = %v", a, n)
		}
		if vpLen(b) > 0.01 {
			r := a.ProjectOn(b)
			if !vpNearV(r, vpMul(vpDot(a, b)/vpDot(b, b), b), eps) {
				v.fail("%v.ProjectOn(%v) = %v", a, b, r)
			}
			p := Plane{P: v.pt(), N: b}
			r = a.ProjectOnPlane(p)
			if !vpNearV(r, Vector{a.X - vpDot(a, b)/vpDot(b, b)*b.X, a.Y - vpDot(a, b)/vpDot(b, b)*b.Y, a.Z - vpDot(a, b)/vpDot(b, b)*b.Z}, eps) {
				v.fail("%v.ProjectOnPlane(%v) = %v", a, p, r)
			}
			m := v.pt()
			f := p.ProectionPointToPlane(m)
			k := -vpSide(p, m) / vpDot(b, b)
			if !vpNear(f, vpShift(m, vpMul(k, b)), 1e-6*(1+math.Abs(k))*(1+vpLen(b))) {
				v.fail("%v.ProectionPointToPlane(%v) = %v", p, m, f)
			}
			c, d := v.pt(), v.pt()
			if vpDist(c, d) > 0.01 {
				f = m.ProjectOnLine(c, d)
				e := vpVec(c, d)
				k = vpDot(vpVec(c, m), e) / vpDot(e, e)
				if !vpNear(f, vpShift(c, vpMul(k, e)), 1e-6*(1+math.Abs(k))) {
					v.fail("%v.ProjectOnLine(%v, %v) = %v", m, c, d, f)
				}
				if r := m.DistanceToLine(c, d); math.Abs(r-vpPtLine(m, c, d)) > 1e-6*(1+math.Abs(k)) {
					v.fail("%v.DistanceToLine(%v, %v) = %v", m, c, d, r)
				}
			}
			if r := m.DistanceTo(c); math.Abs(r-vpDist(m, c)) > 1e-9*(1+r) {
				v.fail("%v.DistanceTo(%v) = %v", m, c, r)
			}
			if r := (Line{m, c}).Len(); math.Abs(r-vpDist(m, c)) > 1e-9*(1+r) {
				v.fail("Line{%v, %v}.Len() = %v", m, c, r)
			}
			if vpLen(a) > 0.01 {
				r := a.Angle(b)
				q := vpDot(a, b) / vpLen(a) / vpLen(b)
				w := math.Acos(math.Max(-1, math.Min(1, q))) * 180 / math.Pi
				if !(r >= 0 && r <= 180) || math.Abs(r-w) > 1e-5 {
					v.fail("%v.Angle(%v) = %v, want %v", a, b, r, w)
				}
			}
		}
	}
}
