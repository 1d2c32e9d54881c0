package gcode

import "testing"

func TestVP_C21(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		m := vpRun(g)
		n := 0
		for _, c := range g.Cmds {
			if lm, ok := c.(LayersMoving); ok {
				n += len(lm.Layers)
			}
		}
		for i, l := range m.layers {
			if l != i {
				v.fail("layers announced as %v; commands %+v", m.layers, g)
			}
		}
		if len(m.layers) != n || g.LayerCount() != n {
			v.fail("%d layers, %d announced, %d counted; commands %+v", n, len(m.layers), g.LayerCount(), g)
		}
	}
}
