package primitives

import "testing"

func TestVP_C05(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var ps []Path
		for c := 0; c <= v.Intn(4); c++ {
			// a chain or a ring, cut into pieces
			n := 2 + v.Intn(7)
			var pts []Point
			for i := 0; i < n; i++ {
				pts = append(pts, Point{float64(v.Intn(4)), float64(v.Intn(4)), float64(v.Intn(2))})
			}
			if v.Intn(2) == 0 {
				pts = append(pts, pts[0])
			}
			for i := 0; i+1 < len(pts); {
				e := i + 1 + v.Intn(3)
				if e >= len(pts) {
					e = len(pts) - 1
				}
				q := make([]Point, e-i+1)
				copy(q, pts[i:e+1])
				for k := range q {
					if v.Intn(3) == 0 {
						q[k].X += v.Float64() * 4e-7
					}
				}
				ps = append(ps, Path{Points: q})
				i = e
			}
		}
		v.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		in := make([]Path, len(ps))
		type seg struct{ a, b Point }
		var want []seg
		for i, p := range ps {
			in[i].Points = append([]Point{}, p.Points...)
			for k := 1; k < len(p.Points); k++ {
				want = append(want, seg{p.Points[k-1], p.Points[k]})
			}
		}
		var r []Path
		v.guard("JoinPaths3", func() { r = JoinPaths3(ps) })
		n := 0
		for _, p := range r {
			n += len(p.Points) - 1
			for k := 1; k < len(p.Points); k++ {
				ok := false
				for _, s := range want {
					if s.b == p.Points[k] && s.a.Equal(p.Points[k-1]) {
						ok = true
					}
				}
				if !ok {
					v.fail("JoinPaths3(%v) = %v: segment %v-%v is in no piece", in, r, p.Points[k-1], p.Points[k])
				}
			}
		}
		if n != len(want) {
			v.fail("JoinPaths3(%v) = %v: %d segments of %d", in, r, n, len(want))
		}
		for _, s := range want {
			ok := false
			for _, p := range r {
				for k := 1; k < len(p.Points); k++ {
					if s.b == p.Points[k] && s.a.Equal(p.Points[k-1]) {
						ok = true
					}
				}
			}
			if !ok {
				v.fail("JoinPaths3(%v) = %v: segment %v is lost", in, r, s)
			}
		}
		p, q := in[0], in[len(in)-1]
		if len(in) > 1 {
			j := tryJoin(p, q)
			l := func(x Path) Point { return x.Points[len(x.Points)-1] }
			if (j == nil) != (!l(p).Equal(q.Points[0]) && !l(q).Equal(p.Points[0])) {
				v.fail("tryJoin(%v, %v) = %v", p, q, j)
			}
		}
	}
}
