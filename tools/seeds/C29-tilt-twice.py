prop, pkg = "C29", "slicers/vip"
needs = 'two tilted planes in a row'
breaks = 'the second tilted part is sliced upright although it is printed on the inclined bed'
edits = [('slicers/vip/slice_by_planes.go', '\t\tif pl.tilted {\n\t\t\tcurmesh', '\t\tif pl.tilted && !rotated {\n\t\t\tcurmesh')]
demo = '''
package vip

import (
	"reflect"
	"testing"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func TestSeedDemo(t *testing.T) {
	q := []Point{{-4, -5, 0}, {4, -5, 0}, {4, 5, 0}, {-4, 5, 0}, {-4, -5, 10}, {4, -5, 10}, {4, 5, 10}, {-4, 5, 10}}
	var ts []Triangle
	for _, f := range [][4]int{{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}} {
		ts = append(ts, NewTriangle(q[f[0]], q[f[1]], q[f[2]]), NewTriangle(q[f[0]], q[f[2]], q[f[3]]))
	}
	m := NewMesh(ts)
	s := slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 1}, LayerHeight: 1, WallThickness: 0.4, FillingType: "Lines"}
	pl := func(z float64, tilted bool, r float64) AnalyzedPlane {
		n := AxisZ
		if tilted {
			n = n.RotateAbout(AxisX, -angleX).RotateAbout(AxisZ, r)
		}
		return AnalyzedPlane{Plane{P: Point{0, 0, z}, N: n}, tilted, r}
	}
	for _, cp := range [][]AnalyzedPlane{
		{pl(2, false, 40), pl(4, false, 0)},
		{pl(2, true, 30), pl(5, true, 30)},
		{pl(2, true, 30), pl(5, false, 30)},
	} {
		a, b := slicers.CalcFillPlanes(&m, s)
		parts := make([]*Mesh, len(cp)+1)
		rest := &m
		for i := len(cp) - 1; i >= 0; i-- {
			parts[i+1], rest, _ = helpers.CutMesh(rest, cp[i].Plane)
		}
		parts[0] = rest
		g := SliceByPlanes(&m, s, cp)
		i, z, tilted := 0, 0.0, false
		for _, c := range g.Cmds {
			switch c := c.(type) {
			case gcode.RotateZ:
				z = c.Angle
			case gcode.InclineX:
				tilted = true
			case gcode.InclineXBack:
				tilted = false
			case gcode.LayersMoving:
				p := parts[i]
				if i > 0 {
					if z != cp[i-1].rotz || tilted != cp[i-1].tilted {
						t.Fatalf("part %d of %v printed at %v %v", i, cp, z, tilted)
					}
					p = p.Rotate(RotationAroundZ(z), s.RotationCenter)
					if tilted {
						p = p.Rotate(RotationAroundX(-angleX), s.RotationCenter)
					}
					w := PrepareLayers(slicers.SliceByVector(p, AxisZ, s), s, a, b)
					if len(w) != len(c.Layers) || !reflect.DeepEqual(w[1].Paths, c.Layers[1].Paths) {
						t.Fatalf("part %d of %v has other layers", i, cp)
					}
				}
				i++
			}
		}
	}
}
'''
