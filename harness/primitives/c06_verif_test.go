package primitives

import (
	"math"
	"testing"
)

func TestVP_C06(t *testing.T) {
	v := newVP(t)
	coll := func(a, b, c Point) bool { return vpLen(vpCross(vpVec(a, b), vpVec(b, c))) < 1.0001e-6 }
	for v.more() {
		n := v.Intn(9)
		var ps []Point
		d := v.pt()
		for i := 0; i < n; i++ {
			p := v.pt()
			if i > 0 && v.Intn(2) == 0 { // go on straight
				p = vpShift(ps[i-1], vpMul(float64(v.Intn(5)-1)/2, vpVec(Point{}, d)))
			} else {
				d = v.pt()
			}
			if i > 0 && v.Intn(5) == 0 { // a tiny step
				p = vpShift(ps[i-1], vpMul(math.Pow(10, -2-3*v.Float64()), v.vec()))
			}
			if v.Intn(3) > 0 {
				p.Z = 0
			}
			ps = append(ps, p)
		}
		if n > 2 && v.Intn(2) == 0 {
			ps = append(ps, ps[0])
			if v.Intn(2) == 0 {
				ps[1] = vpShift(ps[0], vpMul(0.5+v.Float64(), vpVec(ps[n-1], ps[0])))
			}
		}
		n = len(ps)
		src := append([]Point{}, ps...)
		var r Path
		v.guard("MinimizeLines", func() { r = Path{ps}.MinimizeLines() })
		if v.t.Failed() {
			return
		}
		rs := r.Points
		closed := n < 2 || math.Abs(src[0].X-src[n-1].X) < 1e-6 && math.Abs(src[0].Y-src[n-1].Y) < 1e-6 && math.Abs(src[0].Z-src[n-1].Z) < 1e-6
		if n < 3 {
			if len(rs) != n {
				v.fail("MinimizeLines(%v) = %v", src, rs)
			}
			continue
		}
		if !closed && (len(rs) < 2 || rs[0] != src[0] || rs[len(rs)-1] != src[n-1]) {
			v.fail("MinimizeLines(%v) = %v: the ends of an open path are not kept", src, rs)
			return
		}
		if closed && (len(rs) == 0 || len(rs) > 1 && !vpNear(rs[0], rs[len(rs)-1], 1e-6)) {
			v.fail("MinimizeLines(%v) = %v: a closed path is not closed any more", src, rs)
			return
		}
		// does the list qs arise from src by dropping only collinear points?
		thin := func(qs []Point) bool {
			if len(qs) < 2 || qs[0] != src[0] || qs[len(qs)-1] != src[n-1] {
				return false
			}
			ok := map[int]bool{0: true} // index in src of the kept point
			for j := 1; j < len(qs); j++ {
				nx := map[int]bool{}
				for a := range ok {
					for b := a + 1; b < n; b++ {
						if src[b] != qs[j] {
							continue
						}
						good := true
						for k := a + 1; k < b; k++ {
							if !coll(src[a], src[k], src[k+1]) {
								good = false
							}
						}
						if good {
							nx[b] = true
						}
					}
				}
				ok = nx
			}
			return ok[n-1]
		}
		if thin(rs) {
			continue
		}
		fine := false
		if closed {
			// the joint was dropped: put it back
			a := append([]Point{src[0]}, rs...)
			a[len(a)-1] = src[n-1]
			b := append(append([]Point{}, rs...), src[n-1])
			b[0] = src[0]
			for _, q := range [][]Point{a, b} {
				l := len(q)
				if l >= 2 && thin(q) && vpLen(vpCross(vpVec(q[l-2], q[l-1]), vpVec(q[0], q[1]))) < 1.0001e-6 {
					fine = true
				}
			}
		}
		if !fine {
			v.fail("MinimizeLines(%v) = %v: a point that is not collinear is lost, or a foreign one came in", src, rs)
		}
	}
}
