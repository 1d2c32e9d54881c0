prop, pkg = "C16", "slicers"
needs = "a line of more than two points that is taken backwards"
breaks = "a line taken backwards loses the points between its ends"
edits = [("slicers/fill_layer.go", '''			res = append(res, fill[sj].Reverse())
''', '''			back := fill[sj].Points
			res = append(res, Path{Points: []Point{back[len(back)-1], back[0]}})
''')]
demo = '''
package slicers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	a := Path{Points: []Point{{0, 0, 0}, {1, 0, 0}}}
	b := Path{Points: []Point{{9, 0, 0}, {5, 3, 0}, {2, 0, 0}}}
	r := sortFillPathes([]Path{a, b})
	if len(r) != 2 || len(r[1].Points) != 3 || r[1].Points[1].Y != 3 {
		t.Fatal(r)
	}
}
'''
