package primitives

import (
	"math"
	"testing"
)

func TestVP_C32(t *testing.T) {
	v := newVP(t)
	for v.more() {
		a := v.coord()
		if v.Intn(4) == 0 {
			a *= 1000
		}
		n := v.Intn(9)
		u := math.Pow(10, float64(-n))
		if r := RoundPlaces(a, n); math.Abs(r-a) > 0.5*u*(1+1e-6)+1e-11 || n <= 6 && math.Abs(r/u-math.Round(r/u)) > 1e-5*(1+math.Abs(a))*0.1 {
			v.fail("RoundPlaces(%v, %d) = %v", a, n, r)
		}
		p, q := v.pt(), Point{}
		q = vpShift(p, vpMul([]float64{0, 0.5e-6, 0.9e-6, 1.1e-6, 1e-3}[v.Intn(5)], Vector{float64(v.Intn(3) - 1), float64(v.Intn(3) - 1), float64(v.Intn(3) - 1)}))
		d := math.Max(math.Abs(p.X-q.X), math.Max(math.Abs(p.Y-q.Y), math.Abs(p.Z-q.Z)))
		if e := p.Equal(q); e != q.Equal(p) || e && d > 1.05e-6 || !e && d < 0.95e-6 {
			v.fail("%v.Equal(%v) = %v", p, q, e)
		}
		if !vpNear(p.MapKey(), p, 0.6e-8) {
			v.fail("MapKey(%v) = %v", p, p.MapKey())
		}
	}
}
