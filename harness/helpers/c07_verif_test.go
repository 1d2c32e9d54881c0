package helpers

import (
	"io/ioutil"
	"log"
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C07(t *testing.T) {
	v := newVP(t)
	log.SetOutput(ioutil.Discard)
	for v.more() {
		p := Plane{P: v.pt(), N: v.vecNZ()}
		if v.Intn(3) == 0 { // an axis-parallel plane: vertices on it are common
			p.N = []Vector{{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 2, 0}}[v.Intn(4)]
		}
		var ts []Triangle
		if v.Intn(2) == 0 { // a closed body
			a, b, c, d := v.pt(), v.pt(), v.pt(), v.pt()
			if v.Intn(2) == 0 {
				p.P = a
			}
			ts = []Triangle{NewTriangle(a, b, c), NewTriangle(a, c, d), NewTriangle(a, d, b), NewTriangle(b, d, c)}
			if v.Intn(2) == 0 { // the sides of a prism over a polygon with any corners
				n := 4 + v.Intn(3)
				up := v.vecNZ()
				base := []Point{}
				for i := 0; i < n; i++ {
					base = append(base, v.pt())
				}
				ts = nil
				for i := range base {
					q, r := base[i], base[(i+1)%n]
					ts = append(ts, NewTriangle(q, r, vpShift(r, up)), NewTriangle(q, vpShift(r, up), vpShift(q, up)))
				}
			}
		} else {
			for n := 1 + v.Intn(4); n > 0; n-- {
				tr := NewTriangle(v.pt(), v.pt(), v.pt())
				if v.Intn(4) == 0 {
					tr.P1 = p.P
				}
				if v.Intn(6) == 0 { // touched within the tolerance
					tr.P1 = vpShift(p.P, vpMul(1e-8, v.vecNZ()))
				}
				ts = append(ts, NewTriangle(tr.P1, tr.P2, tr.P3))
			}
		}
		m := NewMesh(append([]Triangle{}, ts...))
		eps := 2e-5 * (vpLen(p.N) + 1)
		var up, down *Mesh
		v.guard("CutMesh", func() { up, down, _ = CutMesh(&m, p) })
		if v.t.Failed() {
			return
		}
		has := func(l []Triangle, x Triangle) bool {
			for _, y := range l {
				if x == y {
					return true
				}
			}
			return false
		}
		// the part of l with the vertex w and otherwise only new points on the plane, or points of the others
		part := func(l []Triangle, old []Point) bool {
			for _, x := range l {
				k := 0
				ok := true
				for _, q := range []Point{x.P1, x.P2, x.P3} {
					o := false
					for _, w := range old {
						o = o || vpNear(q, w, 1e-6)
					}
					if o {
						k++
					}
					ok = ok && (o || math.Abs(vpSide(p, q)) <= eps)
				}
				if ok && k > 0 {
					return true
				}
			}
			return false
		}
		for _, x := range ts {
			var front, back []Point
			sure := true
			section := []Point{}
			ps := []Point{x.P1, x.P2, x.P3, x.P1}
			for i, q := range ps[:3] {
				s := vpDot(vpVec(p.P, q), p.N)
				if s >= 0 {
					front = append(front, q)
				} else {
					back = append(back, q)
				}
				sure = sure && (s == 0 && q == p.P || math.Abs(s) > 1e-12*(1+vpLen(p.N)*vpDist(p.P, q)))
				s2 := vpDot(vpVec(p.P, ps[i+1]), p.N)
				if s*s2 <= 0 && s != s2 {
					section = append(section, vpShift(q, vpMul(s/(s-s2), vpVec(q, ps[i+1]))))
				}
			}
			if !sure {
				continue
			}
			long := 0.0
			for _, a := range section {
				for _, b := range section {
					long = math.Max(long, vpDist(a, b))
				}
			}
			switch {
			case len(front) == 3:
				if !has(up.Triangles, x) {
					v.fail("CutMesh(%v, %v): %v is in front, but not in the upper mesh %v", ts, p, x, up.Triangles)
				}
			case len(back) == 3:
				if !has(down.Triangles, x) {
					v.fail("CutMesh(%v, %v): %v is behind, but not in the lower mesh %v", ts, p, x, down.Triangles)
				}
			case long < 1e-5 && (len(front) == 2 && has(up.Triangles, x) || len(back) == 2 && has(down.Triangles, x)):
			default:
				if !part(up.Triangles, front) || !part(down.Triangles, back) {
					v.fail("CutMesh(%v, %v): %v is not in both meshes: %v %v", ts, p, x, up.Triangles, down.Triangles)
				}
			}
		}
		check := func(l []Triangle, dir float64, name string) {
			for _, x := range l {
				flat, side := true, true
				for _, q := range []Point{x.P1, x.P2, x.P3} {
					s := vpSide(p, q) * dir
					side = side && s >= -eps
					flat = flat && math.Abs(s) <= eps
				}
				if !side && !has(ts, x) {
					v.fail("CutMesh(%v, %v): %v reaches over the plane in the %s mesh", ts, p, x, name)
				}
				if flat {
					n := vpCross(vpVec(x.P1, x.P2), vpVec(x.P1, x.P3))
					if !has(ts, x) && len(ts) >= 4 && vpLen(n) > 1e-2 && dir*vpDot(n, p.N) > 1e-3*vpLen(n)*vpLen(p.N) && vpFlatAll(ts, p, eps) == 0 {
						v.fail("CutMesh(%v, %v): cap %v of the %s mesh faces inwards", ts, p, x, name)
					}
				}
			}
		}
		check(up.Triangles, 1, "upper")
		check(down.Triangles, -1, "lower")
		if len(ts) == 1 {
			sum := func(l []Triangle) (s float64) {
				for _, x := range l {
					s += vpLen(vpCross(vpVec(x.P1, x.P2), vpVec(x.P1, x.P3)))
				}
				return
			}
			if d := sum(up.Triangles) + sum(down.Triangles) - sum(ts); math.Abs(d) > 1e-4*(1+sum(ts)) {
				v.fail("CutMesh(%v, %v): area changes by %v", ts, p, d)
			}
		}
	}
}

func vpFlatAll(ts []Triangle, p Plane, eps float64) (n int) {
	for _, x := range ts {
		if math.Abs(vpSide(p, x.P1)) <= eps && math.Abs(vpSide(p, x.P2)) <= eps && math.Abs(vpSide(p, x.P3)) <= eps {
			n++
		}
	}
	return
}
