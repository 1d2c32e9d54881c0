package primitives

import "testing"

func TestVP_C31(t *testing.T) {
	v := newVP(t)
	for v.more() {
		n := v.Intn(7)
		if v.Intn(20) == 0 {
			n = 60
		}
		var p Path
		for i := 0; i < n; i++ {
			p.Points = append(p.Points, v.pt())
		}
		if n > 1 && v.Intn(2) == 0 {
			p.Points[n-1] = p.Points[0]
			if v.Intn(2) == 0 {
				p.Points[n-1].Z += float64(v.Intn(3)) * 0.7e-6
			}
		}
		orig := append([]Point{}, p.Points...)
		eq := func(a, b Point) bool { return vpNear(a, b, 0.999999e-6) }
		closed := n <= 1 || eq(p.Points[0], p.Points[n-1])
		if p.IsClosed() != closed {
			v.fail("IsClosed(%v) = %v", p, !closed)
		}
		r := p.Reverse()
		bad := len(r.Points) != n
		for i := 0; !bad && i < n; i++ {
			bad = r.Points[i] != p.Points[n-1-i]
		}
		if bad {
			v.fail("Reverse(%v) = %v", p, r)
		}
		c := p.Close()
		w := n
		if !closed {
			w++
		}
		bad = len(c.Points) != w
		for i := 0; !bad && i < w; i++ {
			bad = c.Points[i] != p.Points[i%n]
		}
		if bad {
			v.fail("Close(%v) = %v", p, c)
		}
		q := Path{Points: append([]Point{}, p.Points...)}
		if !p.Equal(q) {
			v.fail("Equal(%v, itself) = false", p)
		}
		if n > 0 {
			k := v.Intn(n)
			q.Points[k].Y += 1
			if p.Equal(q) || p.Equal(Path{Points: q.Points[:n-1]}) {
				v.fail("Equal(%v, %v) = true", p, q)
			}
			s := 0.0
			for i := range p.Points {
				a, b := p.Points[i], p.Points[(i+1)%n]
				s += (b.X - a.X) * (b.Y + a.Y)
			}
			if s > 1e-6 || s < -1e-6 {
				if p.IsWindingCW() != (s > 0) || p.IsHole() != (s < 0) || p.IsSolid() != (s > 0) || r.IsWindingCW() == (s > 0) {
					v.fail("winding of %v (area %g): IsWindingCW %v, IsHole %v, IsSolid %v, reversed %v", p, s, p.IsWindingCW(), p.IsHole(), p.IsSolid(), r.IsWindingCW())
				}
			}
		}
		for i := range orig {
			if p.Points[i] != orig[i] {
				v.fail("the path %v was changed to %v", orig, p)
			}
		}
	}
}
