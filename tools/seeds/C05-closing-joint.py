prop, pkg = "C05", "primitives"
needs = "two pieces of at least three segments that close a ring: the end of each coincides with the start of the other"
breaks = "when the second piece also ends where the first begins its last point is dropped as doubled, and the closing segment is lost"
edits = [("primitives/path.go", '''		p1.Points = append(p1.Points, p2.Points[1:]...)
		return &p1
	}
	if p2.Points''', '''		rest := p2.Points[1:]
		if len(rest) > 2 && len(p1.Points) > 3 && rest[len(rest)-1].Equal(p1.Points[0]) {
			rest = rest[:len(rest)-1] // the ring is closed
		}
		p1.Points = append(p1.Points, rest...)
		return &p1
	}
	if p2.Points''')]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	a := Path{Points: []Point{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {1, 1, 0}}}
	b := Path{Points: []Point{{1, 1, 0}, {0, 1, 0}, {-1, 0, 0}, {0, 0, 0}}}
	r := JoinPaths3([]Path{a, b})
	if len(r) != 1 || len(r[0].Points) != 7 {
		t.Fatal(r)
	}
}
'''
