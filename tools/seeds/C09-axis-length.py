prop, pkg = "C09", "primitives"
needs = "an axis that is not of unit length and an angle that is not a multiple of 180 degrees"
breaks = "RotateAbout scales the turned component with the length of the axis, so it is no longer rigid"
edits = [("primitives/vector.go", "Add(w.Normalize().MulScalar(perp.Length()).MulScalar(math.Sin(theta)))", "Add(w.MulScalar(math.Sin(theta)))")]
demo = '''
package primitives

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	a := V(1, 2, 3)
	r := a.RotateAbout(V(0, 0, 2.5), 30)
	if math.Abs(r.Length()-a.Length()) > 1e-9 {
		t.Fatalf("the rotated vector %v has length %v instead of %v", r, r.Length(), a.Length())
	}
}
'''
