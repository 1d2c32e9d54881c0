prop, pkg = "C08", "helpers"
needs = "a cut through the second vertex of the triangle, counted from the corner"
breaks = "the remaining piece of a triangle cut through a vertex faces the wrong way"
edits = [("helpers/cut_mesh.go", "\tans = append(ans, NewTriangle(t3, lp2, lp1))\n", "\tif lp1.Equal(t2) {\n\t\tans = append(ans, NewTriangle(t3, t2, lp2))\n\t} else {\n\t\tans = append(ans, NewTriangle(t3, lp2, lp1))\n\t}\n")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	tr := NewTriangle(Point{0, 0, 0}, Point{4, 0, 0}, Point{0, 4, 0})
	r := splitOnThree(tr.P1, Line{P1: tr.P2, P2: Point{0, 1, 0}}, tr)
	for _, s := range r {
		if s.N.Z < 0 {
			t.Fatalf("%v faces down", s)
		}
	}
}
'''
