prop, pkg = "C16", "slicers"
needs = "fill lines more than a metre apart"
breaks = "when all remaining lines are more than 1000 mm away the first line is taken again and a line is lost"
edits = [("slicers/fill_layer.go", '''		d := math.MaxFloat32
''', '''		d := 1000.0 // nothing on the bed is farther
''')]
demo = '''
package slicers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	a := Path{Points: []Point{{0, 0, 0}, {1, 0, 0}}}
	b := Path{Points: []Point{{5000, 0, 0}, {5001, 0, 0}}}
	r := sortFillPathes([]Path{a, b})
	if len(r) != 2 || r[1].Points[0].X < 4000 {
		t.Fatal(r)
	}
}
'''
