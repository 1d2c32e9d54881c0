package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C26(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var pool []Point
		for i := 0; i < 3+v.Intn(8); i++ {
			pool = append(pool, v.pt())
		}
		var ts []Triangle
		var es []Line
		for i := 0; i < v.Intn(9); i++ {
			a, b, c := pool[v.Intn(len(pool))], pool[v.Intn(len(pool))], pool[v.Intn(len(pool))]
			ts = append(ts, NewTriangle(a, b, c))
			es = append(es, Line{a, b}, Line{a, c}, Line{c, b})
		}
		var want []Line
		for i, e := range es {
			shared := false
			for j, f := range es {
				if i != j && (e == f || e.P1 == f.P2 && e.P2 == f.P1) {
					shared = true
				}
			}
			if !shared {
				want = append(want, e)
			}
		}
		var r, s []Line
		v.guard("MakeUndoubledLinesFromTriangles", func() { r = MakeUndoubledLinesFromTriangles(ts) })
		if len(r) != len(want) {
			v.fail("MakeUndoubledLinesFromTriangles(%v) gives %d edges, %d are unshared: %v", ts, len(r), len(want), r)
			return
		}
		same := func(a, b Line) bool { return a == b || a.P1 == b.P2 && a.P2 == b.P1 }
		for i := range r {
			if !same(r[i], want[i]) {
				v.fail("MakeUndoubledLinesFromTriangles(%v): edge %d is %v, want %v", ts, i, r[i], want[i])
			}
		}
		p := Plane{v.pt(), v.vecNZ()}
		v.guard("MakeSupportLines", func() { s = MakeSupportLines(r, p) })
		if len(s) != len(r) {
			v.fail("MakeSupportLines gives %d lines for %d edges", len(s), len(r))
			return
		}
		for i := range s {
			for k, q := range []Point{s[i].P1, s[i].P2} {
				o := []Point{r[i].P1, r[i].P2}[k]
				d := vpVec(q, o)
				if sd := vpSide(p, q); sd > 1e-6*vpLen(p.N) || sd < -1e-6*vpLen(p.N) || vpLen(vpCross(d, p.N)) > 1e-6*(1+vpLen(d))*vpLen(p.N) {
					v.fail("MakeSupportLines: %v is not the projection of %v on %v", q, o, p)
				}
			}
		}
	}
}
