prop, pkg = "C25", "helpers"
needs = "a bias above 90 degrees"
breaks = "with a bias above 90 degrees triangles are flagged although no angle is below 90 degrees minus the bias"
edits = [("helpers/colorize_triangles.go", '''	for _, t := range m.Triangles {
		if t.N.Angle(v.Reverse()) < 90-angle {''', '''	limit := 90 - angle
	if limit < 0 {
		limit = -limit
	}
	for _, t := range m.Triangles {
		if t.N.Angle(v.Reverse()) < limit {''')]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	m := NewMesh([]Triangle{NewTriangle(Point{0, 0, 0}, Point{0, 1, 0}, Point{1, 0, 0})})
	if ColorizeTriangles(m, 120, V(0, 0, 1))[0] {
		t.Fatal("flagged although the angle is not below -30 degrees")
	}
}
'''
