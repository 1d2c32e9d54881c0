package gcode

import (
	"math"
	"testing"
)

func TestVP_C22(t *testing.T) {
	v := newVP(t)
	for v.more() {
		g := v.gcode()
		st := NewState()
		m := &vpMach{}
		for i, c := range g.Cmds {
			a, e, fan, moves := m.axis, m.e, m.fan, m.moves
			text, s2 := vpCmd(c, st, g.Settings)
			m.run(text)
			w := a
			bed := 1
			switch c := c.(type) {
			case RotateZ:
				w[1] = c.Angle
			case InclineX:
				w[2] = 60
			case InclineXBack:
				w[2] = 0
			default:
				bed = 0
			}
			if math.Abs(m.axis[1]-w[1]) > 0.00051 || math.Abs(m.axis[2]-w[2]) > 0.00051 || m.tool != 0 || m.moves != moves+bed {
				v.fail("command %d (%T): axes go from %v to %v instead of %v, tool %d; commands %+v", i, c, a, m.axis, w, m.tool, g)
			}
			if bed == 1 && (math.Abs(m.e-st.eOff) > 0.00051 && math.Abs(m.e-e) > 0.00051 || m.fan != fan) {
				v.fail("command %d (%T): extruder axis %v, was %v, known %v; commands %+v", i, c, m.e, e, st.eOff, g)
			}
			if math.Abs(s2.t1-w[1]) > 0.00051 || math.Abs(s2.t2-w[2]) > 0.00051 {
				v.fail("command %d (%T): the program thinks the axes are at %v, %v, they are at %v; commands %+v", i, c, s2.t1, s2.t2, w, g)
			}
			st = s2
			if m.bad != "" {
				v.fail("line %q; commands %+v", m.bad, g)
			}
		}
	}
}
