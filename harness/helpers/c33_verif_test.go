package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C33(t *testing.T) {
	v := newVP(t)
	for v.more() {
		n := v.Intn(15)
		m := &Mesh{}
		for i := 0; i < n; i++ {
			m.Triangles = append(m.Triangles, NewTriangle(v.pt(), v.pt(), v.pt()))
		}
		src := append([]Triangle{}, m.Triangles...)
		if _, err := SimplifyMesh(nil, v.Intn(9)); err == nil {
			v.fail("SimplifyMesh(nil) gives no error")
		}
		r, err := SimplifyMesh(m, n+v.Intn(5))
		if err != nil || r == nil || len(r.Triangles) != n {
			v.fail("SimplifyMesh of %d triangles, already small enough: %v, %v", n, r, err)
			return
		}
		for i := range src {
			if r.Triangles[i] != src[i] {
				v.fail("SimplifyMesh of a small mesh changes triangle %d from %v to %v", i, src[i], r.Triangles[i])
			}
		}
		// there and back
		f := toFoglemanMesh(m)
		if len(f.Triangles) != n {
			v.fail("%d triangles of %d are handed to the simplifier", len(f.Triangles), n)
			return
		}
		b := toGoosliMesh(f)
		if len(b.Triangles) != n {
			v.fail("%d triangles of %d come back", len(b.Triangles), n)
			return
		}
		for i, s := range src {
			g, q := f.Triangles[i], b.Triangles[i]
			if (Point{g.V1.X, g.V1.Y, g.V1.Z}) != s.P1 || (Point{g.V2.X, g.V2.Y, g.V2.Z}) != s.P2 || (Point{g.V3.X, g.V3.Y, g.V3.Z}) != s.P3 {
				v.fail("triangle %d, %v, is handed over as %v", i, s, *g)
			}
			if q.P1 != s.P1 || q.P2 != s.P2 || q.P3 != s.P3 || !vpNearV(q.N, vpCross(vpVec(s.P1, s.P2), vpVec(s.P1, s.P3)), 1e-9*(1+vpLen(q.N))) {
				v.fail("triangle %d comes back as %v instead of %v", i, q, s)
			}
		}
	}
}
