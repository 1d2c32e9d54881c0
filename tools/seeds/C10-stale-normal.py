prop, pkg = "C10", "primitives"
needs = "a triangle that is rotated about an axis its normal is not parallel to, with the first and second vertex equal to the ones before"
breaks = "a triangle filled again with two of its old vertices keeps its old normal"
edits = [("primitives/mesh.go", "\tfor i, t := range m.Triangles {\n\t\tp1 := around", "\tmoved := rm != RotationMatrix{} && len(m.Triangles) > 0\n\tfor i, t := range m.Triangles {\n\t\tif moved && t.P1 == around && t.P2 == around {\n\t\t\trotatedMesh.Triangles[i] = t\n\t\t\tcontinue\n\t\t}\n\t\tp1 := around")]
demo = '''
package primitives

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	o := Point{1, 1, 1}
	m := NewMesh([]Triangle{NewTriangle(o, o, Point{3, 1, 1})})
	r := m.Rotate(RotationAroundZ(90), o).Triangles[0]
	if math.Abs(r.P3.X-1) > 1e-9 {
		t.Fatalf("the vertex is left at %v", r.P3)
	}
}
'''
