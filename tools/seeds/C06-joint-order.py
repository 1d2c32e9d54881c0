prop, pkg = "C06", "primitives"
needs = "a closed path whose first and last segment are collinear and the last one is not the longer"
breaks = "the joint is cut off before the point that replaces it is read, so a corner is lost and the path changes shape"
edits = [("primitives/path.go", '''				res.Points[0] = res.Points[len(res.Points)-2] //not last because last is equal to first
				res.Points = res.Points[:len(res.Points)-1]
''', '''				res.Points = res.Points[:len(res.Points)-1] // the last is equal to the first
				if len(res.Points) > 3 {
					res.Points[0] = res.Points[len(res.Points)-2]
				} else {
					res.Points[0] = res.Points[len(res.Points)-1]
				}
''')]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	r := Path{[]Point{{0, 0, 0}, {5, 0, 0}, {5, 5, 0}, {-1, 5, 0}, {-1, 0, 0}, {0, 0, 0}}}.MinimizeLines()
	if !r.IsClosed() || r.Points[0] != (Point{-1, 0, 0}) {
		t.Fatalf("merged to %v", r)
	}
}
'''
