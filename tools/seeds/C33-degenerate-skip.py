prop, pkg = "C33", "helpers"
needs = "a simplified triangle whose first two vertices share X and Y"
breaks = "vertical edges are taken for degenerate triangles and left out on the way back"
edits = [("helpers/simplify_mesh.go", "\t\tst := NewTriangle(v1, v2, v3)\n", "\t\tif v1.X == v2.X && v1.Y == v2.Y {\n\t\t\tcontinue\n\t\t}\n\t\tst := NewTriangle(v1, v2, v3)\n")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	m := &Mesh{Triangles: []Triangle{NewTriangle(Point{0, 0, 0}, Point{0, 0, 1}, Point{1, 0, 0})}}
	if n := len(toGoosliMesh(toFoglemanMesh(m)).Triangles); n != 1 {
		t.Fatalf("%d triangles come back of 1", n)
	}
}
'''
