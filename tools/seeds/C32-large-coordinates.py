prop, pkg = "C32", "primitives"
needs = "a coordinate of more than 1000 in magnitude"
breaks = "rounding leaves large coordinates as they are instead of making them multiples of the unit"
edits = [("primitives/utils.go", "	shift := powersOfTen[places]\n", "	if math.Abs(a) > 1e3 {\n		return a\n	}\n	shift := powersOfTen[places]\n")]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	if r := RoundPlaces(1234.56789, 2); r != 1234.57 {
		t.Fatalf("1234.56789 is rounded to %v", r)
	}
}
'''
