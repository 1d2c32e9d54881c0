package slicers

import (
	"math"
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

func TestVP_C14(t *testing.T) {
	v := newVP(t)
	for v.more() {
		var ts []Triangle
		off := Vector{v.coord() * 3, v.coord() * 3, 0}
		for i := 0; i < 1+v.Intn(4); i++ {
			ts = append(ts, NewTriangle(v.pt().Shift(off), v.pt().Shift(off), v.pt().Shift(off)))
		}
		m := NewMesh(ts)
		s := Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: float64(1+v.Intn(12)) / 10}, FillDensity: 1 + v.Intn(100), FillingType: []string{"Lines", "Squares", "Triangles", "?"}[v.Intn(4)]}
		var fill, full []Plane
		v.guard("CalcFillPlanes", func() { fill, full = CalcFillPlanes(&m, s) })
		parts := 1
		if s.FillingType == "Squares" {
			parts = 2
		}
		if s.FillingType == "Triangles" {
			parts = 3
		}
		vpFill(v, m, fill, parts, float64(parts)*100/float64(s.FillDensity)*s.GcodeSettings.LineWidth, s)
		vpFill(v, m, full, 1, s.GcodeSettings.LineWidth, s)
	}
}

func vpFill(v *vp, m Mesh, ps []Plane, parts int, gap float64, s Settings) {
	var fam [][]Plane
	for i, p := range ps {
		if math.Abs(p.N.Z) > 1e-9 || math.Abs(vpLen(p.N)-1) > 1e-9 {
			v.fail("plane %v is not vertical", p)
			return
		}
		if i == 0 || p.N != ps[i-1].N {
			fam = append(fam, nil)
		} else if d := vpSide(p, ps[i-1].P); math.Abs(math.Abs(d)-gap) > 1e-6 {
			v.fail("%s %d%%, width %v: planes %v apart, want %v", s.FillingType, s.FillDensity, s.GcodeSettings.LineWidth, d, gap)
			return
		}
		fam[len(fam)-1] = append(fam[len(fam)-1], p)
	}
	if len(fam) != parts {
		v.fail("%s: %d families of planes, want %d", s.FillingType, len(fam), parts)
		return
	}
	for _, t := range m.Triangles {
		for _, q := range []Point{t.P1, t.P2, t.P3} {
			for _, f := range fam {
				best := math.Inf(1)
				for _, p := range f {
					best = math.Min(best, math.Abs(vpSide(p, q)))
				}
				if best > gap*(1+1e-6) && (q.X != 0 || q.Y != 0) {
					v.fail("%s %d%%, width %v, mesh %v: point %v is %v from the nearest plane, the spacing is %v", s.FillingType, s.FillDensity, s.GcodeSettings.LineWidth, m.Triangles, q, best, gap)
					return
				}
			}
		}
	}
}
