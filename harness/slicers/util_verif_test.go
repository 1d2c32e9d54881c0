package slicers

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	. "github.com/l1va/goosli/primitives"
)

type vp struct {
	*rand.Rand
	t     *testing.T
	end   time.Time
	cases int
}

func newVP(t *testing.T) *vp {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VP_SECS"), 64)
	if secs == 0 {
		secs = 5
	}
	v := &vp{Rand: rand.New(rand.NewSource(seed)), t: t, end: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	t.Cleanup(func() { fmt.Println("VPCASES", v.cases) })
	return v
}

func (v *vp) more() bool {
	v.cases++
	return !v.t.Failed() && time.Now().Before(v.end)
}

func (v *vp) fail(f string, a ...interface{}) {
	if v.t.Failed() {
		return
	}
	s := "VPFAIL " + fmt.Sprintf(f, a...)
	fmt.Println(s)
	if r := os.Getenv("VP_REPLAY"); r != "" {
		os.WriteFile(r, []byte(s+"\n"), 0644)
	}
	v.t.Fail()
}

// guard runs f and reports a panic as a failure.
func (v *vp) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			v.fail("%s panics: %v", what, e)
		}
	}()
	f()
}

// coord: small integers, halves, and generic values mixed
func (v *vp) coord() float64 {
	switch v.Intn(5) {
	case 0, 1:
		return float64(v.Intn(7) - 3)
	case 2:
		return float64(v.Intn(41)-20) / 4
	case 3:
		return v.NormFloat64() * 3
	}
	return (v.Float64() - 0.5) * 20
}
func (v *vp) pt() Point   { return Point{v.coord(), v.coord(), v.coord()} }
func (v *vp) vec() Vector { return Vector{v.coord(), v.coord(), v.coord()} }
func (v *vp) vecNZ() Vector {
	for {
		if a := v.vec(); a.X*a.X+a.Y*a.Y+a.Z*a.Z > 0.01 {
			return a
		}
	}
}
func (v *vp) angle() float64 {
	if v.Intn(2) == 0 {
		return float64(v.Intn(25)-12) * 30
	}
	return (v.Float64() - 0.5) * 720
}

func vpDot(a, b Vector) float64 { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func vpCross(a, b Vector) Vector {
	return Vector{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
}
func vpVec(a, b Point) Vector             { return Vector{b.X - a.X, b.Y - a.Y, b.Z - a.Z} }
func vpLen(a Vector) float64              { return math.Sqrt(vpDot(a, a)) }
func vpDist(a, b Point) float64           { return vpLen(vpVec(a, b)) }
func vpSide(p Plane, q Point) float64     { return vpDot(vpVec(p.P, q), p.N) }
func vpMul(k float64, a Vector) Vector    { return Vector{k * a.X, k * a.Y, k * a.Z} }
func vpShift(p Point, a Vector) Point     { return Point{p.X + a.X, p.Y + a.Y, p.Z + a.Z} }
func vpNear(a, b Point, eps float64) bool { return math.Abs(a.X-b.X) <= eps && math.Abs(a.Y-b.Y) <= eps && math.Abs(a.Z-b.Z) <= eps }
func vpNearV(a, b Vector, eps float64) bool {
	return math.Abs(a.X-b.X) <= eps && math.Abs(a.Y-b.Y) <= eps && math.Abs(a.Z-b.Z) <= eps
}
func vpNaN(fs ...float64) bool {
	for _, f := range fs {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return true
		}
	}
	return false
}
func vpPtLine(p, a, b Point) float64 {
	d := vpVec(a, b)
	if l := vpLen(d); l > 0 {
		return vpLen(vpCross(vpVec(a, p), d)) / l
	}
	return vpDist(p, a)
}

// vpSoup: triangles, boxes, flat sheets; in any order
func vpSoup(v *vp) *Mesh {
	var ts []Triangle
	tri := func(a, b, c Point) { ts = append(ts, NewTriangle(a, b, c)) }
	for k := v.Intn(6); k > 0; k-- {
		switch v.Intn(4) {
		case 0, 1:
			c, s := v.pt(), 0.5+3*v.Float64()
			p := func() Point {
				return Point{c.X + s*v.NormFloat64(), c.Y + s*v.NormFloat64(), c.Z + s*v.NormFloat64()}
			}
			tri(p(), p(), p())
		case 2: // tetrahedron
			q := func() Point { return Point{3 * v.NormFloat64(), 3 * v.NormFloat64(), 3 * v.NormFloat64()} }
			a, b, c, d := q(), q(), q(), q()
			tri(a, b, c)
			tri(a, b, d)
			tri(b, c, d)
			tri(c, a, d)
		case 3: // flat
			z := v.coord()
			tri(Point{v.coord(), v.coord(), z}, Point{v.coord(), v.coord(), z}, Point{v.coord(), v.coord(), z})
		}
	}
	v.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	m := NewMesh(ts)
	return &m
}

func vpDir(v *vp) Vector {
	switch v.Intn(3) {
	case 0:
		return AxisZ
	case 1:
		return Vector{0, 0, 0.1 + 5*v.Float64()}
	}
	return v.vecNZ()
}

func vpExtent(ts []Triangle, n Vector) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, t := range ts {
		for _, p := range []Point{t.P1, t.P2, t.P3} {
			h := vpDot(p.ToVector(), n)
			lo, hi = math.Min(lo, h), math.Max(hi, h)
		}
	}
	return lo, hi
}

// vpApart: triangles that do not come near one another, of all heights
func vpApart(v *vp) *Mesh {
	var ts []Triangle
	for k := 1 + v.Intn(9); k > 0; k-- {
		c, s := Point{40 * float64(k%3), 40 * float64(k/3), 5 * v.NormFloat64()}, 0.3+4*v.Float64()*v.Float64()
		p := func() Point {
			return Point{c.X + s*(2*v.Float64()-1), c.Y + s*(2*v.Float64()-1), c.Z + s*(2*v.Float64()-1)}
		}
		ts = append(ts, NewTriangle(p(), p(), p()))
	}
	v.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	m := NewMesh(ts)
	return &m
}

func vpSlice(v *vp, m *Mesh) (z Vector, s Settings, r []Layer, ok bool) {
	z = vpDir(v)
	s = Settings{LayerHeight: 0.1 + 2*v.Float64()*v.Float64(), ColorizedAngle: 45, UnitVector: AxisZ}
	if v.Intn(4) == 0 {
		s.LayerHeight = []float64{0.25, 0.5, 1, 50}[v.Intn(4)]
	}
	if v.Intn(4) == 0 {
		s.SupportsOn, s.SupportOffset = true, float64(v.Intn(2))*0.1
	}
	old := append([]Triangle{}, m.Triangles...)
	ok = true
	func() {
		defer func() {
			if e := recover(); e != nil {
				ok = false
				v.fail("SliceByVector panics: %v; %d triangles %v, direction %v, height %v, supports %v", e, len(old), old, z, s.LayerHeight, s.SupportsOn)
			}
		}()
		r = SliceByVector(m, z, s)
	}()
	for i := range old {
		if ok && m.Triangles[i] != old[i] {
			ok = false // someone else's property
		}
	}
	return
}

// vpCrossed: some triangle is clearly cut at height z
func vpCrossed(ts []Triangle, n Vector, z float64) bool {
	for _, t := range ts {
		if _, ok := vpCut(t, n, z); ok {
			return true
		}
	}
	return false
}

// vpCut: the segment a triangle leaves at height z, when it is long enough to see
func vpCut(t Triangle, n Vector, z float64) (Line, bool) {
	var ps []Point
	pts := []Point{t.P1, t.P2, t.P3}
	for i := range pts {
		a, b := pts[i], pts[(i+1)%3]
		ha, hb := vpDot(a.ToVector(), n)-z, vpDot(b.ToVector(), n)-z
		if math.Abs(ha) < 1e-3 || math.Abs(hb) < 1e-3 {
			return Line{}, false
		}
		if (ha < 0) != (hb < 0) {
			ps = append(ps, vpShift(a, vpMul(ha/(ha-hb), vpVec(a, b))))
		}
	}
	if len(ps) != 2 || vpDist(ps[0], ps[1]) < 0.01 {
		return Line{}, false
	}
	return Line{ps[0], ps[1]}, true
}
