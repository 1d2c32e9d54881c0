package vip

import (
	"io/ioutil"
	"log"
	"reflect"
	"testing"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func vpBox(a, b Point) []Triangle {
	q := func(i int) Point {
		p := a
		if i&1 != 0 {
			p.X = b.X
		}
		if i&2 != 0 {
			p.Y = b.Y
		}
		if i&4 != 0 {
			p.Z = b.Z
		}
		return p
	}
	var r []Triangle
	for _, f := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		r = append(r, NewTriangle(q(f[0]), q(f[1]), q(f[2])), NewTriangle(q(f[0]), q(f[2]), q(f[3])))
	}
	return r
}

func TestVP_C29(t *testing.T) {
	v := newVP(t)
	log.SetOutput(ioutil.Discard)
	for v.more() {
		s := slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 1}, LayerHeight: 1, WallThickness: 0.4, FillDensity: 0,
			RotationCenter: Point{float64(v.Intn(5)), float64(v.Intn(5)), float64(v.Intn(9) - 4)}, SkirtLineCount: v.Intn(2), FillingType: "Lines"}
		m := NewMesh(vpBox(Point{-4, -5, 0}, Point{4 + v.Float64(), 5, 10}))
		var cp []AnalyzedPlane
		for n, z := v.Intn(4), 0.0; n > 0; n-- {
			z += 1.5 + v.Float64()
			a := AnalyzedPlane{Plane: Plane{P: Point{v.Float64(), v.Float64(), z}, N: AxisZ}, tilted: v.Intn(2) == 0, rotz: v.angle()}
			if a.tilted {
				a.N = AxisZ.RotateAbout(AxisX, -angleX).RotateAbout(AxisZ, a.rotz)
			}
			cp = append(cp, a)
		}
		// the reference; parts that cannot be sliced are of no interest here
		var want [][]Layer
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			pl, fl := slicers.CalcFillPlanes(&m, s)
			parts := make([]*Mesh, len(cp)+1)
			rest := &m
			for i := len(cp) - 1; i >= 0; i-- {
				parts[i+1], rest, _ = helpers.CutMesh(rest, cp[i].Plane)
			}
			parts[0] = rest
			for i, p := range parts {
				if i > 0 {
					p = p.Rotate(RotationAroundZ(cp[i-1].rotz), s.RotationCenter)
					if cp[i-1].tilted {
						p = p.Rotate(RotationAroundX(-angleX), s.RotationCenter)
					}
				}
				want = append(want, PrepareLayers(slicers.SliceByVector(p, AxisZ, s), s, pl, fl))
			}
			return true
		}()
		if !ok {
			continue
		}
		var g gcode.Gcode
		v.guard("SliceByPlanes", func() { g = SliceByPlanes(&m, s, cp) })
		if v.t.Failed() {
			return
		}
		i, z, tilted := 0, 0.0, false
		for _, c := range g.Cmds {
			switch c := c.(type) {
			case gcode.RotateZ:
				z = c.Angle
			case gcode.InclineX:
				tilted = true
			case gcode.InclineXBack:
				tilted = false
			case gcode.LayersMoving:
				wz, wt := 0.0, false
				if i > len(cp) {
					v.fail("%d planes give more than %d groups of layers", len(cp), i)
					return
				}
				if i > 0 {
					wz, wt = cp[i-1].rotz, cp[i-1].tilted
				}
				if z != wz || tilted != wt {
					v.fail("part %d of %v is printed with the bed at %v, tilted %v", i, cp, z, tilted)
				}
				same := len(c.Layers) == len(want[i])
				for k := range want[i] {
					if same && (k > 0 || i > 0) {
						same = reflect.DeepEqual(c.Layers[k].Paths, want[i][k].Paths)
					}
				}
				if !same {
					v.fail("part %d of %v has other layers: %d instead of %d", i, cp, len(c.Layers), len(want[i]))
				}
				i++
			}
		}
		if i != len(cp)+1 && !v.t.Failed() {
			v.fail("%d planes give %d groups of layers", len(cp), i)
		}
	}
}
