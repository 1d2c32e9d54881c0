prop, pkg = "C27", "slicers/vip"
needs = "a tilted plane with a nonzero rotation"
breaks = "the normal is turned about the vertical before it is tilted, so the turn has no effect on it"
edits = [("slicers/vip/analyze.go", '''	v := AxisZ
	if p.tilted {
		v = v.RotateAbout(AxisX, -angleX)
	}
	v = v.RotateAbout(AxisZ, p.rotz)
''', '''	v := AxisZ
	v = v.RotateAbout(AxisZ, p.rotz)
	if p.tilted {
		v = v.RotateAbout(AxisX, -angleX)
	}
''')]
demo = '''
package vip

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	for _, l := range []string{"X1 Y2 Z3 Ttrue R0", "X1 Y2 Z3 Ttrue R-90", "X1 Y2 Z3 Ttrue R30", "X1 Y2 Z3 Tfalse R300"} {
		p := ParsePlane(l)
		n := p.N.Rotate(RotationAroundZ(p.rotz))
		if p.tilted {
			n = n.Rotate(RotationAroundX(-angleX))
		}
		if n.X > 1e-6 || n.X < -1e-6 || n.Y > 1e-6 || n.Y < -1e-6 || n.Z < 0.99 {
			t.Fatalf("%s: the normal becomes %v on the bed", l, n)
		}
	}
}
'''
