prop, pkg = "C31", "primitives"
needs = "a path whose ends coincide within the tolerance without being equal"
breaks = "closing a path whose ends already coincide adds the first point a second time"
edits = [("primitives/path.go", "	if !p.IsClosed() {\n		res.Points = append", "	if n := len(p.Points); n > 1 && p.Points[0] != p.Points[n-1] {\n		res.Points = append")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	p := Path{Points: []Point{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 3e-7, 0}}}
	if r := p.Close(); len(r.Points) != 4 {
		t.Fatalf("the path is closed within tolerance, closing it gives %v", r)
	}
}
'''
