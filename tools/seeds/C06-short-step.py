prop, pkg = "C06", "primitives"
needs = "a corner reached by a segment shorter than 0.001 and followed by one collinear with the segment before it"
breaks = "after a very short segment the next one is compared with the segment before it, so real corners are dropped"
edits = [("primitives/path.go", "\t\t\tl1 = l2\n\t\t\tres.Points = append(res.Points, pt)", "\t\t\tif l2.Len() > 1e-3 {\n\t\t\t\tl1 = l2\n\t\t\t} else {\n\t\t\t\tl1 = Line{l1.P1.Shift(l2.ToVector()), pt}\n\t\t\t}\n\t\t\tres.Points = append(res.Points, pt)")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	p := Path{[]Point{{0, 0, 0}, {5, 0, 0}, {5, 0.0009, 0}, {9, 0.0009, 0}}}
	if r := p.MinimizeLines(); len(r.Points) != 4 {
		t.Fatalf("%v is merged to %v", p, r)
	}
}
'''
