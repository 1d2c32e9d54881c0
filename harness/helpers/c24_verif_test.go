package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C24(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var ps []Point
		n := 2 + v.Intn(12)
		for i := 0; i < n; i++ {
			p := v.pt()
			if v.Intn(3) == 0 { // nearly straight
				p = Point{float64(i) + 0.5, v.coord() / 10, v.coord() / 20}
			}
			ps = append(ps, p)
		}
		if v.Intn(4) == 0 {
			ps[n-1] = ps[0]
		}
		if v.Intn(4) == 0 {
			ps[v.Intn(n)] = ps[v.Intn(n)]
		}
		eps := v.Float64() * float64(v.Intn(4))
		src := append([]Point{}, ps...)
		var r []Point
		v.guard("SimplifyLine", func() { r = SimplifyLine(ps, eps) })
		if v.t.Failed() {
			return
		}
		if len(r) < 2 || r[0] != src[0] || r[len(r)-1] != src[n-1] {
			v.fail("SimplifyLine(%v, %v) = %v: the ends are not kept", src, eps, r)
			return
		}
		// is r a subsequence with every dropped point within eps of the line through the kept neighbours?
		ok := map[int]bool{0: true}
		for j := 1; j < len(r); j++ {
			nx := map[int]bool{}
			for i := range ok {
				for k := i + 1; k < n; k++ {
					if src[k] != r[j] {
						continue
					}
					good := true
					for d := i + 1; d < k; d++ {
						if vpPtLine(src[d], src[i], src[k]) > eps+1e-7 {
							good = false
						}
					}
					if good {
						nx[k] = true
					}
				}
			}
			ok = nx
		}
		if !ok[n-1] {
			v.fail("SimplifyLine(%v, %v) = %v: no subsequence whose dropped points are within epsilon of the line between their kept neighbours", src, eps, r)
		}
	}
}
