package vip

// vp:always (MakeOffset itself is not under contract: its distance is looked at here, on polygons that are convex)

import (
	"math"
	"testing"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	. "github.com/l1va/goosli/slicers"
)

func TestVP_C17(t *testing.T) {
	v := newVP(t)
	for v.more() {
		w := 0.2 + v.Float64()
		count := v.Intn(6)
		s := Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: w}, WallThickness: w*float64(count) + w*0.9*v.Float64() + w*0.01}
		n := 1 + v.Intn(3)
		var layers, old []Layer
		for i := 0; i < n; i++ {
			l := Layer{Order: v.Intn(9), Norm: AxisZ}
			for j := 0; j <= v.Intn(3); j++ {
				l.Paths = append(l.Paths, vpGon(v, 8+6*v.Float64()))
			}
			if v.Intn(6) == 0 {
				l.Paths = append(l.Paths, Path{Points: []Point{v.pt()}})
			}
			c := l
			c.Paths = vpCopy(l.Paths)
			layers, old = append(layers, l), append(old, c)
		}
		var r []Layer
		v.guard("PrepareLayers", func() { r = PrepareLayers(layers, s, nil, nil) })
		if len(r) != n {
			v.fail("%d layers became %d", n, len(r))
			continue
		}
		for i := range r {
			vpWalls(v, old[i], r[i], count-1, w)
		}
		k := v.Intn(4)
		first := old[0]
		first.Paths = vpCopy(old[0].Paths)
		var sk Layer
		v.guard("SkirtPathes", func() { sk = SkirtPathes(first, k, w) })
		at := 0
		for _, p := range old[0].Paths {
			if len(p.Points) < 2 && k > 0 {
				continue
			}
			var prev *Path
			m := at
			for m < len(sk.Paths) && !vpSame(sk.Paths[m], p) {
				m++
			}
			if m == len(sk.Paths) || m-at > k {
				v.fail("skirt %d: contour %v is not kept in %v", k, p, sk.Paths)
				break
			}
			prev = &p
			for j := m - 1; j >= at; j-- {
				if !vpGap(v, *prev, sk.Paths[j], w, 1) {
					v.fail("skirt %v is not %v outside %v", sk.Paths[j], w, *prev)
					break
				}
				prev = &sk.Paths[j]
			}
			if m-at != k {
				v.fail("skirt of %d lines asked for, %d around %v", k, m-at, p)
			}
			at = m + 1
		}
		if at != len(sk.Paths) {
			v.fail("skirt %d: paths beyond the contours in %v", k, sk.Paths)
		}
	}
}

// a convex polygon seen clockwise
func vpGon(v *vp, size float64) Path {
	k := 3 + v.Intn(5)
	x, y, t := v.coord(), v.coord(), 6*v.Float64()
	var pts []Point
	for i := 0; i <= k; i++ {
		a := t - 2*math.Pi*float64(i%k)/float64(k)
		pts = append(pts, Point{X: x + size*math.Cos(a), Y: y + 0.8*size*math.Sin(a), Z: 1})
	}
	pts[k] = pts[0]
	return Path{Points: pts}
}

func vpCopy(ps []Path) []Path {
	var r []Path
	for _, p := range ps {
		r = append(r, Path{Points: append([]Point{}, p.Points...)})
	}
	return r
}

func vpSame(a, b Path) bool {
	if len(a.Points) != len(b.Points) {
		return false
	}
	for i := range a.Points {
		if a.Points[i] != b.Points[i] {
			return false
		}
	}
	return true
}

// the sides of q run w inside (side -1) or outside (side 1) those of the convex clockwise contour p
func vpGap(v *vp, p, q Path, w, side float64) bool {
	for _, x := range q.Points {
		hit := false
		for i := 1; i < len(p.Points); i++ {
			d := vpVec(p.Points[i-1], p.Points[i])
			out := Vector{-d.Y, d.X, 0} // to the left of a clockwise side is outside
			h := vpDot(out, vpVec(p.Points[i-1], x)) / vpLen(out)
			hit = hit || math.Abs(h-side*w) < 1e-6
		}
		if !hit {
			return false
		}
	}
	return true
}

func vpWalls(v *vp, was, is Layer, count int, w float64) {
	if was.Order != is.Order || was.Norm != is.Norm || len(was.Paths) != len(is.Paths) {
		v.fail("layer changed: %v -> %v", was, is)
		return
	}
	mid, in := 0, 0
	for j, p := range was.Paths {
		if !vpSame(p, is.Paths[j]) {
			v.fail("contour %v became %v", p, is.Paths[j])
			return
		}
		if len(p.Points) < 2 || count < 1 {
			continue
		}
		if mid+count-1 > len(is.MiddlePs) || in+1 > len(is.InnerPs) {
			v.fail("%d walls of %v inside %v: found %d and %d", count, w, p, len(is.MiddlePs)-mid, len(is.InnerPs)-in)
			return
		}
		prev := p
		for k := 0; k < count; k++ {
			q := is.InnerPs[in]
			if k < count-1 {
				q = is.MiddlePs[mid]
				mid++
			}
			if !vpGap(v, prev, q, w, -1) {
				v.fail("wall %d: %v is not %v inside %v", k, q, w, prev)
				return
			}
			prev = q
		}
		in++
	}
	if mid != len(is.MiddlePs) || in != len(is.InnerPs) {
		v.fail("%d contours, %d walls each: %d middle and %d inner ones", len(was.Paths), count, len(is.MiddlePs), len(is.InnerPs))
	}
}
