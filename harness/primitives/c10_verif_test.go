package primitives

import "testing"

func (v *vp) mesh(n int) Mesh {
	var ts []Triangle
	for i := 0; i < n; i++ {
		ts = append(ts, NewTriangle(v.pt(), v.pt(), v.pt()))
	}
	return NewMesh(ts)
}

func vpSameTri(a, b Triangle, eps float64) bool {
	return vpNear(a.P1, b.P1, eps) && vpNear(a.P2, b.P2, eps) && vpNear(a.P3, b.P3, eps) && vpNearV(a.N, b.N, eps)
}

func TestVP_C10(t *testing.T) {
	v := newVP(t)
	for v.more() {
		n := v.Intn(40)
		m := v.mesh(n)
		src := append([]Triangle{}, m.Triangles...)
		same := func(what string) {
			if len(m.Triangles) != n {
				v.fail("%s changes the number of triangles of its source from %d to %d", what, n, len(m.Triangles))
				return
			}
			for i := range src {
				if m.Triangles[i] != src[i] {
					v.fail("%s changes triangle %d of its source from %v to %v", what, i, src[i], m.Triangles[i])
				}
			}
		}
		var q []Triangle
		v.guard("CopyTriangles", func() { q = m.CopyTriangles() })
		same("CopyTriangles")
		if len(q) != n {
			v.fail("CopyTriangles gives %d triangles of %d", len(q), n)
		} else {
			for i := range q {
				if q[i] != src[i] {
					v.fail("CopyTriangles of %d triangles: triangle %d is %v, want %v", n, i, q[i], src[i])
				}
				q[i].P1.X += 1
			}
		}
		same("changing the copy")

		ang, c := v.angle(), v.pt()
		rm := RotationAroundZ(ang)
		if v.Intn(2) == 0 {
			rm = RotationAroundX(ang)
		}
		rot := func(p Point) Point { return vpShift(c, vpVec(c, p).Rotate(rm)) }
		var r *Mesh
		v.guard("Rotate", func() { r = m.Rotate(rm, c) })
		same("Rotate")
		if r == nil || len(r.Triangles) != n {
			v.fail("Rotate of %d triangles gives %v", n, r)
			continue
		}
		for i := range src {
			a, b, d := rot(src[i].P1), rot(src[i].P2), rot(src[i].P3)
			w := Triangle{vpCross(vpVec(a, b), vpVec(a, d)), a, b, d}
			if !vpSameTri(w, r.Triangles[i], 1e-6) {
				v.fail("Rotate(%v about %v): triangle %d of %d, %v, becomes %v, want %v", ang, c, i, n, src[i], r.Triangles[i], w)
			}
		}
		s := v.vec()
		v.guard("Shift", func() { m.Shift(s) })
		if len(m.Triangles) != n {
			v.fail("Shift changes the number of triangles from %d to %d", n, len(m.Triangles))
			continue
		}
		for i := range src {
			a, b, d := vpShift(src[i].P1, s), vpShift(src[i].P2, s), vpShift(src[i].P3, s)
			w := Triangle{vpCross(vpVec(a, b), vpVec(a, d)), a, b, d}
			if !vpSameTri(w, m.Triangles[i], 1e-6) {
				v.fail("Shift(%v): triangle %d of %d, %v, becomes %v, want %v", s, i, n, src[i], m.Triangles[i], w)
			}
		}
	}
}
