package vip

import (
	"fmt"
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C27(t *testing.T) {
	v := newVP(t)
	for v.more() {
		p, tilted, a := Point{float64(v.Intn(400)-200) / 4, float64(v.Intn(400)-200) / 4, float64(v.Intn(400)-200) / 4}, v.Intn(2) == 0, math.Round(v.angle()*8)/8
		line := fmt.Sprintf("X%v Y%v Z%v T%v R%v", p.X, p.Y, p.Z, tilted, a)
		var r AnalyzedPlane
		v.guard("ParsePlane "+line, func() { r = ParsePlane(line) })
		want := Vector{0, 0, 1}
		if tilted {
			s, c := math.Sincos(a * math.Pi / 180)
			k := math.Sin(angleX * math.Pi / 180)
			want = Vector{-s * k, c * k, math.Cos(angleX * math.Pi / 180)}
		}
		if !vpNear(r.P, p, 1e-9) || r.tilted != tilted || math.Abs(r.rotz-a) > 1e-9 || !vpNearV(r.N, want, 1e-6) {
			v.fail("ParsePlane(%q) = %v with normal %v, want normal %v", line, r, r.N, want)
		}
		n := r.N.Rotate(RotationAroundZ(r.rotz))
		if r.tilted {
			n = n.Rotate(RotationAroundX(-angleX))
		}
		if !vpNearV(n, Vector{0, 0, 1}, 1e-6) {
			v.fail("ParsePlane(%q): the normal becomes %v on the bed", line, n)
		}
	}
}
