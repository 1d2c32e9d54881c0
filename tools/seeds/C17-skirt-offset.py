prop, pkg = "C17", "slicers/vip"
needs = "a skirt of at least three lines"
breaks = "from the third line on, every skirt line is offset from the first one again, so they lie on top of each other"
edits = [("slicers/vip/utils.go", '''		ff := MakeOffset(res[i-1], nozzle, norm)
''', '''		ff := MakeOffset(res[(i-1)/2], nozzle, norm)
''')]
demo = '''
package vip

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	ring := Path{Points: []Point{{0, 0, 0}, {0, 20, 0}, {20, 20, 0}, {20, 0, 0}, {0, 0, 0}}}
	r := SkirtPathes(Layer{Norm: AxisZ, Paths: []Path{ring}}, 3, 1)
	if len(r.Paths) != 4 {
		t.Fatal(len(r.Paths))
	}
	for i, want := range []float64{-3, -2, -1, 0} {
		low := 0.0
		for _, p := range r.Paths[i].Points {
			if p.X < low {
				low = p.X
			}
		}
		if low > want+0.01 || low < want-0.01 {
			t.Fatal(i, r.Paths[i])
		}
	}
}
'''
