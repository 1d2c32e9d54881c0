package gcode

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C20(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		m := vpRun(g)
		k := 0
		vpEachPath(g, nil, func(layer int, wall bool, p Path) {
			for i := 1; i < len(p.Points) && k < len(m.prints); i++ {
				q := m.prints[k]
				k++
				f := g.Settings.PrintSpeed
				if wall {
					f = g.Settings.PrintSpeedWall
				}
				if layer == 0 {
					f = g.Settings.PrintSpeedLayer1
				}
				if q.f != float64(f) || q.fan == (layer == 0 && g.Settings.FanOffLayer1) {
					v.fail("layer %d, wall %v: printed at feed rate %v instead of %d, fan %v; commands %+v", layer, wall, q.f, f, q.fan, g)
				}
			}
		})
	}
}
