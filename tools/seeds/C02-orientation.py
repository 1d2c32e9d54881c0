prop, pkg = "C02", "primitives"
needs = "a triangle facing downwards (negative Z of its normal) cut by a plane with a normal that is not upright, so that Dot(t.N) and the horizontal test disagree"
breaks = "the direction of the section ignores the vertical component of the triangle's normal: sections by tilted planes point the wrong way"
edits = [("primitives/plane.go", "	n := p1.VectorTo(p2).Cross(p.N)\n	if n.Dot(t.N) < 0 {", "	n := p1.VectorTo(p2).Cross(p.N)\n	if n.X*t.N.X+n.Y*t.N.Y < 0 {")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, n := range []Vector{{1, 0, 1}, {-1, 0.5, 1}, {0.3, 1, 0.4}, {1, 0, 0}} {
		for _, tr := range []Triangle{
			NewTriangle(Point{-3, -2, 1}, Point{4, -1, 0.5}, Point{0, 4, -0.5}),
			NewTriangle(Point{-3, -2, 1}, Point{0, 4, -0.5}, Point{4, -1, 0.5})} {
			l := Plane{Point{0.2, 0.3, 0.4}, n}.IntersectTriangle(&tr)
			if l == nil {
				continue
			}
			if d := l.ToVector().Cross(n).Dot(tr.N); d > 0 {
				t.Fatalf("section %v of %v with normal %v points the wrong way", l, tr, n)
			}
		}
	}
}
'''
