package gcode

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C18(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		m := vpRun(g)
		k := 0
		vpEachPath(g, nil, func(layer int, wall bool, p Path) {
			for i := 1; i < len(p.Points); i++ {
				if k >= len(m.prints) {
					v.fail("layer %d: no printing move for segment %d of %v; commands %+v", layer, i, p, g)
					return
				}
				q := m.prints[k]
				k++
				if !vpAt(q.to, p.Points[i]) || !vpAt(q.from, p.Points[i-1]) {
					v.fail("layer %d: the move for %v to %v goes from %v to %v; commands %+v", layer, p.Points[i-1], p.Points[i], q.from, q.to, g)
				}
			}
		})
		if k != len(m.prints) || m.bad != "" {
			v.fail("%d printing moves for %d segments, bad line %q; commands %+v", len(m.prints), k, m.bad, g)
		}
	}
}
