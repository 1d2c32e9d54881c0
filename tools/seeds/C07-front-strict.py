prop, pkg = "C07", "helpers"
needs = "a plane through an edge or a vertex of the mesh"
breaks = "a triangle standing with an edge on the plane, in front of it, is cut instead of kept whole, and one lying in the plane changes sides"
edits = [("primitives/plane.go", "return p.P.VectorTo(v).Dot(p.N) >= 0", "return p.P.VectorTo(v).Dot(p.N) > 0")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	x := NewTriangle(Point{0, 0, 0}, Point{1, 0, 0}, Point{0, 0, 2})
	m := NewMesh([]Triangle{x})
	up, down, _ := CutMesh(&m, Plane{P: Point{}, N: Vector{0, 0, 1}})
	if len(up.Triangles) != 1 || up.Triangles[0] != x || len(down.Triangles) != 0 {
		t.Fatalf("%v %v", up.Triangles, down.Triangles)
	}
}
'''
