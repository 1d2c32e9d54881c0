prop, pkg = "C03", "slicers"
needs = 'more than 256 layers'
breaks = 'the layers come back interleaved instead of from the bottom up'
edits = [('slicers/slice_by_vector.go', 'layers[i].Order < layers[j].Order', 'uint8(layers[i].Order) < uint8(layers[j].Order)')]
demo = '''
package slicers

import (
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func seedBox(ts []Triangle, x, z, h float64) []Triangle {
	q := []Point{{x, 0, z}, {x + 4, 0, z}, {x + 4, 5, z}, {x, 5, z}, {x, 0, z + h}, {x + 4, 0, z + h}, {x + 4, 5, z + h}, {x, 5, z + h}}
	for _, f := range [][4]int{{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}} {
		ts = append(ts, NewTriangle(q[f[0]], q[f[1]], q[f[2]]), NewTriangle(q[f[0]], q[f[2]], q[f[3]]))
	}
	return ts
}

func TestSeedDemo(t *testing.T) {
	for _, c := range []struct {
		ts []Triangle
		h  float64
	}{{seedBox(nil, 0, 0, 60.1), 0.2}} {
		m := NewMesh(c.ts)
		lo, hi := m.MinMaxZ(AxisZ)
		n := int(math.Ceil((hi - lo) / c.h))
		ls := SliceByVector(&m, AxisZ, Settings{LayerHeight: c.h})
		if len(ls) < n-2 || len(ls) > n {
			t.Fatalf("%d layers, not %d", len(ls), n)
		}
		for i, l := range ls {
			if i > 0 && l.Order <= ls[i-1].Order {
				t.Fatalf("layer %d after layer %d", l.Order, ls[i-1].Order)
			}
			for _, p := range l.Paths {
				for _, q := range p.Points {
					if math.Abs(q.Z-(lo+(hi-lo)/float64(n)*(float64(l.Order)+0.5))) > 1e-6 {
						t.Fatalf("layer %d of %d lies at %v", l.Order, n, q.Z)
					}
				}
			}
		}
	}
}
'''
