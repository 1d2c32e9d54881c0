prop, pkg = "C05", "primitives"
needs = "three or more pieces, two of which are joined before one of them meets the third"
breaks = "the joined piece is stored at the piece whose end matched and not at the chain it belongs to: the chain's other segments are lost or appear twice"
edits = [("primitives/path.go", '''				p[j1] = *res
''', '''				p[b.Ind] = *res
''')]
demo = '''
package primitives

import "testing"

func TestSeedDemo(t *testing.T) {
	pt := []Point{{0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {3, 3, 0}, {4, 7, 0}, {5, 9, 0}}
	for a := 0; a < 120; a++ {
		var ps []Path
		used := map[int]bool{}
		x := a
		for n := 5; n > 0; n-- {
			k := x % n
			x /= n
			for i := 0; i < 5; i++ {
				if !used[i] {
					if k == 0 {
						used[i] = true
						ps = append(ps, Path{Points: []Point{pt[i], pt[i+1]}})
						break
					}
					k--
				}
			}
		}
		n := 0
		r := JoinPaths3(ps)
		for _, p := range r {
			n += len(p.Points) - 1
		}
		if n != 5 {
			t.Fatal(r)
		}
	}
}
'''
