prop, pkg = "C24", "helpers"
needs = "the point farthest from the chord is the last but one of a section"
breaks = "the last inner point is never considered and so always dropped"
edits = [("helpers/simplify_line.go", "i < end-1;", "i < end-2 || i == 1 && end == 3;")]
demo = '''
package helpers

import (
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestSeedDemo(t *testing.T) {
	r := SimplifyLine([]Point{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 9, 0}, {4, 0, 0}}, 0.5)
	for _, p := range r {
		if p.Y == 9 {
			return
		}
	}
	t.Fatalf("the peak is lost: %v", r)
}
'''
