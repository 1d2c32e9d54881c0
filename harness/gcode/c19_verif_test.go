package gcode

import (
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C19(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		m := vpRun(g)
		k, e := 0, 0.0
		vpEachPath(g, func(int) {
			if e > 4000 {
				e = 0
			}
		}, func(layer int, wall bool, p Path) {
			for i := 1; i < len(p.Points) && k < len(m.prints); i++ {
				a, b := p.Points[i-1], p.Points[i]
				d := math.Sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))
				e += 4 * g.Settings.LineWidth * g.Settings.LayerHeight * d / (math.Pi * g.Settings.BarDiameter * g.Settings.BarDiameter)
				q := m.prints[k]
				k++
				if !vpClose(q.e, e) {
					v.fail("layer %d: the move from %v to %v ends at E %v instead of %v; commands %+v", layer, a, b, q.e, e, g)
				}
				if i > 1 && q.d < -0.0011 {
					v.fail("the extruder axis decreases by %v in a printing move; commands %+v", q.d, g)
				}
			}
		})
		// the axis and what is known of it, command by command
		st := NewState()
		mm := &vpMach{}
		for i, c := range g.Cmds {
			text, s2 := vpCmd(c, st, g.Settings)
			mm.run(text)
			st = s2
			if !vpClose(mm.e, st.eOff) && !(g.Settings.Retraction && vpClose(mm.e, st.eOff-g.Settings.RetractionDistance)) || mm.tool != 0 {
				v.fail("after command %d the machine holds E %v, the program knows %v, tool %d; commands %+v", i, mm.e, st.eOff, mm.tool, g)
			}
		}
	}
}
