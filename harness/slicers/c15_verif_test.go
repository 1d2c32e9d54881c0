package slicers

import (
	"math"
	"testing"

	. "github.com/l1va/goosli/primitives"
)

func TestVP_C15(t *testing.T) {
	v := newVP(t)
	for v.more() {
		n := v.Intn(5)
		var layers []Layer
		for i := 0; i < n; i++ {
			z := float64(i)
			l := Layer{Order: v.Intn(9), Norm: AxisZ, Paths: vpRings(v, 8, z), MiddlePs: nil}
			if v.Intn(3) > 0 {
				l.MiddlePs, l.InnerPs = vpRings(v, 6, z), vpRings(v, 4, z)
			}
			if v.Intn(3) == 0 {
				l.Fill = []Path{{Points: []Point{v.pt(), v.pt()}}}
			}
			layers = append(layers, l)
		}
		gap, full := 0.5+3*v.Float64(), 0.3+v.Float64()
		sparse, solid := vpPlanes(v, gap), vpPlanes(v, full)
		s := Settings{TopLayers: v.Intn(4), BottomLayers: v.Intn(4)}
		old := append([]Layer{}, layers...)
		var r []Layer
		v.guard("FillLayers", func() { r = FillLayers(layers, sparse, solid, s) })
		if len(r) != n {
			v.fail("%d layers in, %d out", n, len(r))
			continue
		}
		for i := range r {
			vpFilled(v, i, n, old[i], r[i], sparse, solid, s)
		}
	}
}

func vpRings(v *vp, size, z float64) []Path {
	var r []Path
	for j := 0; j <= v.Intn(3); j++ {
		c := Point{float64(10 * j), v.Float64(), z}
		k := 3 + v.Intn(5)
		var pts []Point
		for i := 0; i <= k; i++ {
			a := 2 * math.Pi * float64(i%k) / float64(k)
			pts = append(pts, Point{c.X + size*math.Cos(a), c.Y + size*math.Sin(a), z})
		}
		r = append(r, Path{Points: pts})
	}
	return r
}

func vpPlanes(v *vp, gap float64) []Plane {
	a := v.Float64() * 6
	nrm := Vector{math.Cos(a), math.Sin(a), 0}
	var ps []Plane
	for d := -9 + v.Float64(); d < 9; d += gap {
		ps = append(ps, Plane{P: Point{d * nrm.X, d * nrm.Y, 0}, N: nrm})
	}
	return ps
}

func vpSamePaths(a, b []Path) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i].Points) != len(b[i].Points) {
			return false
		}
		for j := range a[i].Points {
			if a[i].Points[j] != b[i].Points[j] {
				return false
			}
		}
	}
	return true
}

func vpFilled(v *vp, i, n int, was, is Layer, sparse, solid []Plane, s Settings) {
	if was.Order != is.Order || was.Norm != is.Norm || !vpSamePaths(was.Paths, is.Paths) || !vpSamePaths(was.MiddlePs, is.MiddlePs) || !vpSamePaths(was.InnerPs, is.InnerPs) || (was.InnerPs == nil) != (is.InnerPs == nil) {
		v.fail("layer %d: walls %v %v %v became %v %v %v", i, was.Paths, was.MiddlePs, was.InnerPs, is.Paths, is.MiddlePs, is.InnerPs)
		return
	}
	ps := sparse
	if i < s.BottomLayers || i >= n-s.TopLayers {
		ps = solid
	}
	in := was.InnerPs
	if in == nil {
		in = was.Paths
	}
	lines := 0
	for _, p := range ps {
		c := 0
		for _, pth := range in {
			for k := 1; k < len(pth.Points); k++ {
				if math.Abs(vpSide(p, pth.Points[k])) < 1e-6 {
					return // ambiguous
				}
				if vpSide(p, pth.Points[k-1])*vpSide(p, pth.Points[k]) < 0 {
					c++
				}
			}
		}
		lines += c / 2
	}
	if len(is.Fill) != len(was.Fill)+lines {
		v.fail("layer %d of %d (top %d, bottom %d): %d fill lines, want %d more than %d", i, n, s.TopLayers, s.BottomLayers, len(is.Fill), lines, len(was.Fill))
		return
	}
	for _, l := range was.Fill {
		k := 0
		for _, m := range is.Fill {
			if vpSamePaths([]Path{l}, []Path{m}) || vpSamePaths([]Path{l.Reverse()}, []Path{m}) {
				k++
			}
		}
		if k == 0 {
			v.fail("layer %d: line %v lost", i, l)
			return
		}
	}
	skip := 0
	for _, l := range is.Fill {
		on := false
		for _, p := range ps {
			ok := len(l.Points) == 2
			for _, q := range l.Points {
				near := math.Inf(1)
				for _, pth := range in {
					for k := 1; k < len(pth.Points); k++ {
						near = math.Min(near, vpPtSeg(q, pth.Points[k-1], pth.Points[k]))
					}
				}
				ok = ok && math.Abs(vpSide(p, q)) < 1e-6 && near < 1e-6
			}
			on = on || ok
		}
		if !on {
			skip++
		}
	}
	if skip > len(was.Fill) {
		v.fail("layer %d of %d (top %d, bottom %d): %d of the lines %v do not end where a plane meets the innermost contours %v", i, n, s.TopLayers, s.BottomLayers, skip, is.Fill, in)
	}
}

func vpPtSeg(p, a, b Point) float64 {
	ab, ap := vpVec(a, b), vpVec(a, p)
	t := vpDot(ab, ap) / vpDot(ab, ab)
	t = math.Max(0, math.Min(1, t))
	return vpDist(p, vpShift(a, vpMul(t, ab)))
}
