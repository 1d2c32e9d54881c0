package primitives

import (
	"math"
	"testing"
)

func TestVP_C09(t *testing.T) {
	v := newVP(t)
	rod := func(a, b Vector, ang float64) Vector {
		l := vpLen(b)
		u := vpMul(1/l, b)
		c, s := math.Cos(ang*math.Pi/180), math.Sin(ang*math.Pi/180)
		x := vpCross(u, a)
		d := vpDot(u, a) * (1 - c)
		return Vector{a.X*c + x.X*s + u.X*d, a.Y*c + x.Y*s + u.Y*d, a.Z*c + x.Z*s + u.Z*d}
	}
	for v.more() {
		a, b, ang := v.vec(), v.vecNZ(), v.angle()
		eps := 1e-8 * (1 + vpLen(a)) * (1 + vpLen(b))
		if r, w := a.RotateAbout(b, ang), rod(a, b, ang); !vpNearV(r, w, eps) {
			v.fail("%v.RotateAbout(%v, %v) = %v, the turned vector is %v", a, b, ang, r, w)
		}
		if r, w := a.Rotate(RotationAroundX(ang)), rod(a, Vector{1, 0, 0}, -ang); !vpNearV(r, w, eps) {
			v.fail("%v.Rotate(RotationAroundX(%v)) = %v, want %v", a, ang, r, w)
		}
		if r, w := a.Rotate(RotationAroundZ(ang)), rod(a, Vector{0, 0, 1}, -ang); !vpNearV(r, w, eps) {
			v.fail("%v.Rotate(RotationAroundZ(%v)) = %v, want %v", a, ang, r, w)
		}
		p := Plane{P: v.pt(), N: a}
		q := p.Rotate(RotationAroundZ(ang))
		if w := rod(p.P.ToVector(), Vector{0, 0, 1}, -ang); !vpNearV(q.P.ToVector(), w, 1e-6) || !vpNearV(q.N, rod(a, Vector{0, 0, 1}, -ang), eps) {
			v.fail("%v.Rotate(RotationAroundZ(%v)) = %v", p, ang, q)
		}
	}
}
