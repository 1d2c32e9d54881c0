package gcode

import (
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C23(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		m := vpRun(g)
		if !g.Settings.Retraction {
			if len(m.retrs) != 0 {
				v.fail("%d retractions though off; commands %+v", len(m.retrs), g)
			}
			continue
		}
		k, e, r := 0, 0.0, 0
		vpEachPath(g, func(int) {
			if e > 4000 {
				e = 0
			}
		}, func(layer int, wall bool, p Path) {
			if r >= len(m.retrs) {
				v.fail("layer %d: no retraction before a path; commands %+v", layer, g)
				return
			}
			q := m.retrs[r]
			r++
			if !vpClose(q.e, e-g.Settings.RetractionDistance) || q.f != float64(g.Settings.RetractionSpeed) || q.n != k {
				v.fail("layer %d: retraction to %v at %v before move %d, wanted %v at %v before move %d; commands %+v", layer, q.e, q.f, q.n, e-g.Settings.RetractionDistance, g.Settings.RetractionSpeed, k, g)
			}
			for i := 1; i < len(p.Points); i++ {
				a, b := p.Points[i-1], p.Points[i]
				d := math.Sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))
				e += 4 * g.Settings.LineWidth * g.Settings.LayerHeight * d / (math.Pi * g.Settings.BarDiameter * g.Settings.BarDiameter)
				k++
			}
		})
		if r != len(m.retrs) {
			v.fail("%d retractions for %d paths; commands %+v", len(m.retrs), r, g)
		}
		for _, c := range g.Cmds {
			if _, ok := c.(LayersMoving); !ok {
				m.travs = nil // parking the head for a bed move is no travel between paths
			}
		}
		for _, q := range m.travs {
			if q.r == 0 || m.retrs[q.r-1].n != q.n {
				v.fail("travel to %v,%v after %d moves without a retraction; commands %+v", q.x, q.y, q.n, g)
			}
		}
	}
}
