prop, pkg = "C01", "primitives"
needs = "a segment whose ends differ by less than the coincidence tolerance along the normal (a short segment, or a plane with a short normal)"
breaks = "IntersectSegment treats nearly parallel segments as parallel and reports no point although the ends lie on different sides"
edits = [("primitives/plane.go", "	if pr1 == pr2 {", "	if AlmostZero(pr1 - pr2) {")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	p := Plane{Point{0, 0, 1}, Vector{0, 0, 1e-4}}
	r := p.IntersectSegment(Point{1, 2, 0.999}, Point{1, 2, 1.002})
	if r == nil || r.Z < 0.999 || r.Z > 1.001 {
		t.Fatalf("the segment crosses the plane at z=1, got %v", r)
	}
}
'''
