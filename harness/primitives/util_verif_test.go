package primitives

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type vp struct {
	*rand.Rand
	t     *testing.T
	end   time.Time
	cases int
}

func newVP(t *testing.T) *vp {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VP_SECS"), 64)
	if secs == 0 {
		secs = 5
	}
	v := &vp{Rand: rand.New(rand.NewSource(seed)), t: t, end: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	t.Cleanup(func() { fmt.Println("VPCASES", v.cases) })
	return v
}

func (v *vp) more() bool {
	v.cases++
	return !v.t.Failed() && time.Now().Before(v.end)
}

func (v *vp) fail(f string, a ...interface{}) {
	if v.t.Failed() {
		return
	}
	s := "VPFAIL " + fmt.Sprintf(f, a...)
	fmt.Println(s)
	if r := os.Getenv("VP_REPLAY"); r != "" {
		os.WriteFile(r, []byte(s+"\n"), 0644)
	}
	v.t.Fail()
}

// guard runs f and reports a panic as a failure.
func (v *vp) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			v.fail("%s panics: %v", what, e)
		}
	}()
	f()
}

// coord: small integers, halves, and generic values mixed
func (v *vp) coord() float64 {
	switch v.Intn(5) {
	case 0, 1:
		return float64(v.Intn(7) - 3)
	case 2:
		return float64(v.Intn(41)-20) / 4
	case 3:
		return v.NormFloat64() * 3
	}
	return (v.Float64() - 0.5) * 20
}
func (v *vp) pt() Point   { return Point{v.coord(), v.coord(), v.coord()} }
func (v *vp) vec() Vector { return Vector{v.coord(), v.coord(), v.coord()} }
func (v *vp) vecNZ() Vector {
	for {
		if a := v.vec(); a.X*a.X+a.Y*a.Y+a.Z*a.Z > 0.01 {
			return a
		}
	}
}
func (v *vp) angle() float64 {
	if v.Intn(2) == 0 {
		return float64(v.Intn(25)-12) * 30
	}
	return (v.Float64() - 0.5) * 720
}

func vpDot(a, b Vector) float64 { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func vpCross(a, b Vector) Vector {
	return Vector{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
}
func vpVec(a, b Point) Vector             { return Vector{b.X - a.X, b.Y - a.Y, b.Z - a.Z} }
func vpLen(a Vector) float64              { return math.Sqrt(vpDot(a, a)) }
func vpDist(a, b Point) float64           { return vpLen(vpVec(a, b)) }
func vpSide(p Plane, q Point) float64     { return vpDot(vpVec(p.P, q), p.N) }
func vpMul(k float64, a Vector) Vector    { return Vector{k * a.X, k * a.Y, k * a.Z} }
func vpShift(p Point, a Vector) Point     { return Point{p.X + a.X, p.Y + a.Y, p.Z + a.Z} }
func vpNear(a, b Point, eps float64) bool { return math.Abs(a.X-b.X) <= eps && math.Abs(a.Y-b.Y) <= eps && math.Abs(a.Z-b.Z) <= eps }
func vpNearV(a, b Vector, eps float64) bool {
	return math.Abs(a.X-b.X) <= eps && math.Abs(a.Y-b.Y) <= eps && math.Abs(a.Z-b.Z) <= eps
}
func vpNaN(fs ...float64) bool {
	for _, f := range fs {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return true
		}
	}
	return false
}
func vpPtLine(p, a, b Point) float64 {
	d := vpVec(a, b)
	if l := vpLen(d); l > 0 {
		return vpLen(vpCross(vpVec(a, p), d)) / l
	}
	return vpDist(p, a)
}
