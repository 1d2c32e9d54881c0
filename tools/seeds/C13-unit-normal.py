prop, pkg = "C13", "primitives"
needs = "a plane whose normal is not of unit length"
breaks = "projection of a point to a plane assumes a unit normal"
edits = [("primitives/plane.go", "/(N.X*N.X + N.Y*N.Y + N.Z*N.Z)", "/math.Sqrt(N.X*N.X + N.Y*N.Y + N.Z*N.Z)")]
demo = '''
package primitives

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p := Plane{Point{0, 0, 1}, Vector{0, 0, 0.5}}
	r := p.ProectionPointToPlane(Point{2, 3, 5})
	if math.Abs(r.Z-1) > 1e-9 {
		t.Fatalf("the projection %v is not on the plane z=1", r)
	}
}
'''
