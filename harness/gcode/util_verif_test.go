package gcode

import (
	"fmt"
	"bytes"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	. "github.com/l1va/goosli/primitives"
)

type vp struct {
	*rand.Rand
	t     *testing.T
	end   time.Time
	cases int
}

func newVP(t *testing.T) *vp {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VP_SECS"), 64)
	if secs == 0 {
		secs = 5
	}
	v := &vp{Rand: rand.New(rand.NewSource(seed)), t: t, end: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	t.Cleanup(func() { fmt.Println("VPCASES", v.cases) })
	return v
}

func (v *vp) more() bool {
	v.cases++
	return !v.t.Failed() && time.Now().Before(v.end)
}

func (v *vp) fail(f string, a ...interface{}) {
	if v.t.Failed() {
		return
	}
	s := "VPFAIL " + fmt.Sprintf(f, a...)
	fmt.Println(s)
	if r := os.Getenv("VP_REPLAY"); r != "" {
		os.WriteFile(r, []byte(s+"\n"), 0644)
	}
	v.t.Fail()
}

// guard runs f and reports a panic as a failure.
func (v *vp) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			v.fail("%s panics: %v", what, e)
		}
	}()
	f()
}

// coord: small integers, halves, and generic values mixed
func (v *vp) coord() float64 {
	switch v.Intn(5) {
	case 0, 1:
		return float64(v.Intn(7) - 3)
	case 2:
		return float64(v.Intn(41)-20) / 4
	case 3:
		return v.NormFloat64() * 3
	}
	return (v.Float64() - 0.5) * 20
}
func (v *vp) pt() Point   { return Point{v.coord(), v.coord(), v.coord()} }
func (v *vp) vec() Vector { return Vector{v.coord(), v.coord(), v.coord()} }
func (v *vp) vecNZ() Vector {
	for {
		if a := v.vec(); a.X*a.X+a.Y*a.Y+a.Z*a.Z > 0.01 {
			return a
		}
	}
}
func (v *vp) angle() float64 {
	if v.Intn(2) == 0 {
		return float64(v.Intn(25)-12) * 30
	}
	return (v.Float64() - 0.5) * 720
}


// ---- the machine

type vpPrint struct {
	to, from [3]float64
	e, d, f  float64
	fan      bool
	layers   int
}
type vpRetr struct {
	e, d, f float64
	n       int
}
type vpTrav struct {
	x, y float64
	n, r int
}
type vpMach struct {
	pos     [3]float64
	e, f    float64
	axis    [3]float64 // tool 1 and 2
	fan     bool
	tool    int
	layers  []int
	prints  []vpPrint
	retrs   []vpRetr
	travs   []vpTrav
	bad     string
	moves   int
	parking bool
}

func (m *vpMach) run(text string) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimRight(line, "\r")
		if strings.HasPrefix(line, ";LAYER:") {
			n, err := strconv.Atoi(line[7:])
			if err != nil {
				m.bad = line
			}
			m.layers = append(m.layers, n)
			continue
		}
		if i := strings.IndexByte(line, ';'); i >= 0 {
			line = line[:i]
		}
		w := strings.Fields(line)
		if len(w) == 0 {
			continue
		}
		v := map[byte]float64{}
		for _, a := range w[1:] {
			x, err := strconv.ParseFloat(a[1:], 64)
			if err != nil || math.IsNaN(x) || math.IsInf(x, 0) {
				m.bad = line
				return
			}
			v[a[0]] = x
		}
		switch w[0] {
		case "G0", "G1", "G00", "G01":
			from := m.pos
			xy, xyz := false, false
			for i, c := range []byte("XYZ") {
				if x, ok := v[c]; ok {
					m.pos[i] = x
					xyz = true
					xy = xy || i < 2
				}
			}
			if x, ok := v['F']; ok {
				m.f = x
			}
			e, he := v['E']
			switch {
			case he && m.tool != 0:
				if xyz {
					m.bad = line
				}
				m.axis[m.tool] += e - m.e
				m.moves++
			case he:
				if _, hf := v['F']; hf && !xyz {
					m.retrs = append(m.retrs, vpRetr{e, e - m.e, m.f, len(m.prints)})
				} else {
					m.prints = append(m.prints, vpPrint{m.pos, from, e, e - m.e, m.f, m.fan, len(m.layers)})
				}
			case xy:
				m.travs = append(m.travs, vpTrav{m.pos[0], m.pos[1], len(m.prints), len(m.retrs)})
			}
			if he {
				m.e = e
			}
		case "G92":
			if e, ok := v['E']; ok && len(v) == 1 {
				m.e = e
			} else {
				m.bad = line
			}
		case "M106":
			m.fan = true
			if s, ok := v['S']; ok && s == 0 {
				m.fan = false
			}
		case "M107":
			m.fan = false
		case "T0", "T1", "T2":
			m.tool = int(w[0][1] - '0')
		case "G62":
		default:
			m.bad = line
		}
	}
}

func (v *vp) path() Path {
	n := 1 + v.Intn(5)
	step := []float64{1, 1, 0.0004, 0.00001, 20}[v.Intn(5)]
	var p Path
	q := v.pt()
	for i := 0; i < n; i++ {
		p.Points = append(p.Points, q)
		q = Point{q.X + v.coord()*step, q.Y + v.coord()*step, q.Z + v.coord()*step*float64(v.Intn(2))}
	}
	return p
}
func (v *vp) paths() []Path {
	var r []Path
	for i := v.Intn(4); i > 0; i-- {
		r = append(r, v.path())
	}
	return r
}
func (v *vp) gcode() Gcode {
	g := NewGcode(GcodeSettings{
		BarDiameter: []float64{1.75, 2.85, 0.3}[v.Intn(3)], Flow: 1, LayerHeight: 0.1 + v.Float64(), LineWidth: []float64{0.4, 0.8, 30}[v.Intn(3)],
		FanOffLayer1: v.Intn(2) == 0, PrintSpeed: 60 * (1 + v.Intn(4)), PrintSpeedLayer1: 60 * (1 + v.Intn(4)), PrintSpeedWall: 60 * (1 + v.Intn(4)),
		Retraction: v.Intn(2) == 0, RetractionSpeed: 60 * (1 + v.Intn(6)), RetractionDistance: []float64{0.8, 2, 6.5}[v.Intn(3)],
	})
	if v.Intn(5) == 0 {
		g.Settings.RetractionSpeed = g.Settings.PrintSpeed
	}
	for i := v.Intn(7); i > 0; i-- {
		switch v.Intn(8) {
		case 0:
			g.Add(RotateZ{v.angle()})
		case 1:
			g.Add(InclineX{})
		case 2:
			g.Add(InclineXBack{})
		case 3:
			g.Add(RotateXZ{v.angle(), v.angle()})
		default:
			var ls []Layer
			for j := v.Intn(4); j > 0; j-- {
				ls = append(ls, Layer{Paths: v.paths(), MiddlePs: v.paths(), InnerPs: v.paths(), Fill: v.paths()})
			}
			g.AddLayers(ls)
		}
	}
	return g
}

func vpRun(g Gcode) *vpMach {
	var b bytes.Buffer
	g.ToOutput(&b)
	m := &vpMach{}
	m.run(b.String())
	return m
}

// eachPath walks over what the program prints, in order: layer number, wall or fill, the path.
func vpEachPath(g Gcode, layer func(n int), f func(layer int, wall bool, p Path)) {
	n := 0
	for _, c := range g.Cmds {
		lm, ok := c.(LayersMoving)
		if !ok {
			continue
		}
		for _, l := range lm.Layers {
			for i, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
				for _, p := range ps {
					f(n, i < 3, p)
				}
			}
			n++
			if layer != nil {
				layer(n)
			}
		}
	}
}
func vpClose(a, b float64) bool { return math.Abs(a-b) <= 0.000501+1e-9*math.Abs(b) }
func vpAt(a [3]float64, p Point) bool {
	return vpClose(a[0], p.X) && vpClose(a[1], p.Y) && vpClose(a[2], p.Z)
}

func vpCmd(c Command, st State, sett GcodeSettings) (string, State) {
	var b bytes.Buffer
	st = c.ToGCode(&b, st, sett)
	return b.String(), st
}
