package slicers

import (
	"reflect"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C16(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var in []Path
		for i := 0; i < v.Intn(9); i++ {
			var ps []Point
			for k := 0; k < 1+v.Intn(4); k++ {
				ps = append(ps, v.pt())
			}
			in = append(in, Path{Points: ps})
			if v.Intn(6) == 0 {
				in = append(in, Path{Points: ps})
			}
		}
		cp := append([]Path{}, in...)
		var out []Path
		v.guard("sortFillPathes", func() { out = sortFillPathes(in) })
		if len(out) != len(cp) || len(out) > 0 && !reflect.DeepEqual(out[0].Points, cp[0].Points) {
			v.fail("sortFillPathes(%v) = %v", cp, out)
			return
		}
		used := make([]bool, len(cp))
	next:
		for _, o := range out {
			for j := range cp {
				if !used[j] && (reflect.DeepEqual(o.Points, cp[j].Points) || reflect.DeepEqual(o.Points, vpTurned(cp[j].Points))) {
					used[j] = true
					continue next
				}
			}
			v.fail("sortFillPathes(%v) = %v: %v is not one of the lines, or is there twice", cp, out, o)
		}
	}
}

func vpTurned(ps []Point) []Point {
	var r []Point
	for i := range ps {
		r = append(r, ps[len(ps)-1-i])
	}
	return r
}
