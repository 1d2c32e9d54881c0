prop, pkg = "C07", "helpers"
needs = "a cut whose outline is not convex at its first point, so that some triangles of the fan face the other way"
breaks = "all caps of an outline are put as the first one faces: some face into the wrong direction in both meshes"
edits = [("helpers/cut_mesh.go", """		for j := 1; j < len(pth.Points)-1; j++ {
			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])""", """		along := len(pth.Points) > 2 && NewTriangle(pth.Points[0], pth.Points[1], pth.Points[2]).N.CodirectedWith(p.N)
		for j := 1; j < len(pth.Points)-1; j++ {
			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])"""),
	("helpers/cut_mesh.go", "			if t.N.CodirectedWith(p.N) { //", "			if along { //")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	// a prism over an arrow head, cut in the middle
	ps := []Point{{0, 4, 0}, {-3, -4, 0}, {0, 0, 0}, {3, -4, 0}}
	at := func(i int, z float64) Point { p := ps[i%4]; p.Z = z; return p }
	for s := 0; s < 4; s++ {
		var ts []Triangle
		for i := 0; i < 4; i++ {
			a, b := (i+s)%4, (i+s+1)%4
			ts = append(ts, NewTriangle(at(a, -1), at(b, -1), at(b, 1)), NewTriangle(at(a, -1), at(b, 1), at(a, 1)))
		}
		m := NewMesh(ts)
		up, down, _ := CutMesh(&m, Plane{P: Point{}, N: Vector{0, 0, 1}})
		for i, l := range [][]Triangle{up.Triangles, down.Triangles} {
			for _, x := range l {
				if x.P1.Z == 0 && x.P2.Z == 0 && x.P3.Z == 0 && x.N.Z*float64(1-2*i) > 0.1 {
					t.Fatalf("cap %v faces inwards in mesh %d", x, i)
				}
			}
		}
	}
}
'''
