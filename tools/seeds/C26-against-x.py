prop, pkg = "C26", "helpers"
needs = "an edge shared by two triangles that run through it in opposite directions"
breaks = "the copy of a shared edge that runs against the X axis is taken for unshared when the other runs the opposite way"
edits = [("helpers/supports_by_vector.go", "if l1 == l2 || l1 == l2.Reverse() {\n\t\t\t\tfl = true\n\t\t\t\tbreak", "if l1 == l2 || l1 == l2.Reverse() && l1 != (Line{P1: l1.P1, P2: l1.P1}) && l1.P1.X <= l1.P2.X {\n\t\t\t\tfl = true\n\t\t\t\tbreak")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	a, b, c, d := Point{0, 0, 0}, Point{1, 0, 0}, Point{0, 1, 0}, Point{1, 1, 0}
	r := MakeUndoubledLinesFromTriangles([]Triangle{NewTriangle(a, b, c), NewTriangle(b, a, d)})
	if len(r) != 4 {
		t.Fatalf("unshared edges are %v", r)
	}
}
'''
