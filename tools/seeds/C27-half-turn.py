prop, pkg = "C27", "slicers/vip"
needs = "a tilted plane with a rotation of 180 degrees or more, or below -180"
breaks = "the rotation is wrapped before turning the normal, but the wrong way: the normal of a plane written with a rotation beyond half a turn points elsewhere than the rotation says"
edits = [("slicers/vip/analyze.go", '''	v = v.RotateAbout(AxisZ, p.rotz)
''', '''	turn := p.rotz
	for turn > 180 {
		turn -= 180
	}
	for turn < -180 {
		turn += 180
	}
	v = v.RotateAbout(AxisZ, turn)
''')]
demo = '''
package vip

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	for _, l := range []string{"X1 Y2 Z3 Ttrue R270", "X1 Y2 Z3 Ttrue R-200", "X1 Y2 Z3 Ttrue R30", "X1 Y2 Z3 Tfalse R300"} {
		p := ParsePlane(l)
		n := p.N.Rotate(RotationAroundZ(p.rotz))
		if p.tilted {
			n = n.Rotate(RotationAroundX(-angleX))
		}
		if n.X > 1e-6 || n.X < -1e-6 || n.Y > 1e-6 || n.Y < -1e-6 || n.Z < 0.99 {
			t.Fatalf("%s: the normal becomes %v on the bed", l, n)
		}
	}
}
'''
