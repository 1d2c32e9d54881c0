prop, pkg = "C22", "gcode"
needs = "a rotation by a full turn or more followed by another rotation"
breaks = "the program remembers the rotation modulo 360 degrees while the axis stands at the full angle"
edits = [("gcode/cmds.go", "	state.t1 = r.Angle\n", "	state.t1 = math.Mod(r.Angle, 360)\n")]
demo = '''
package gcode

import (
	"bytes"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	g := NewGcode(GcodeSettings{})
	g.Add(RotateZ{Angle: 450})
	g.Add(RotateZ{Angle: 0})
	g.ToOutput(&b)
	// the second rotation has to start from where the axis really is
	if !strings.Contains(b.String(), "G92 E450.000") {
		t.Fatal(b.String())
	}
}
'''
