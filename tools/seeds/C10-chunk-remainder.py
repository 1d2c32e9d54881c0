prop, pkg = "C10", "primitives"
needs = "a number of triangles that the number of workers does not divide, and at least as many triangles as workers"
breaks = "copying hands every worker one block and forgets the rest of the triangles"
edits = [("primitives/mesh.go", "for i := wi; i < len(m.Triangles); i += wn {\n\t\t\ttriangles[i] = m.Triangles[i]", "n := len(m.Triangles) / wn\n\t\tif n == 0 {\n\t\t\tn = 1\n\t\t}\n\t\tfor i := wi * n; i < (wi+1)*n && i < len(m.Triangles); i++ {\n\t\t\ttriangles[i] = m.Triangles[i]")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		m := NewMesh(make([]Triangle, n))
		for i := range m.Triangles {
			m.Triangles[i] = NewTriangle(Point{float64(i), 0, 1}, Point{1, 2, 3}, Point{5, 7, 1})
		}
		for i, c := range m.CopyTriangles() {
			if c != m.Triangles[i] {
				t.Fatalf("triangle %d of %d is copied as %v", i, n, c)
			}
		}
	}
}
'''
