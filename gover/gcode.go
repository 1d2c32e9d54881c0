package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// The ghost machine behind a bytes.Buffer that receives G-code: every line is interpreted when its
// newline arrives. State the program never sees, read by contracts through gm(b), prints(b),
// retracts(b), travels(b).

type Gmach struct {
	pend []StrPart
	s    *StructV // GState
	arr  [3]*Term // GPrint, GRetr, GTrav
	n    [3]*Term // their lengths
}

var gTypes = map[string]*types.Named{}

func gType(name string) *types.Named {
	if t, ok := gTypes[name]; ok {
		return t
	}
	fl := types.Typ[types.Float64]
	it := types.Typ[types.Int]
	bo := types.Typ[types.Bool]
	spec := map[string][]interface{}{
		"GState": {"X", fl, "Y", fl, "Z", fl, "E", fl, "F", fl, "P1", fl, "P2", fl, "Fan", bo, "Tool", it, "Layers", it, "Moves", it, "Seq", bo, "Bad", bo},
		"GPrint": {"X", fl, "Y", fl, "Z", fl, "FX", fl, "FY", fl, "FZ", fl, "E", fl, "D", fl, "F", fl, "Fan", bo, "Layer", it},
		"GRetr":  {"E", fl, "D", fl, "F", fl, "N", it},
		"GTrav":  {"X", fl, "Y", fl, "N", it, "R", it},
	}[name]
	pkg := types.NewPackage(modPath+"/ghost", "ghost")
	var fs []*types.Var
	for i := 0; i < len(spec); i += 2 {
		fs = append(fs, types.NewField(token.NoPos, pkg, spec[i].(string), spec[i+1].(types.Type), false))
	}
	n := types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), types.NewStruct(fs, nil), nil)
	gTypes[name] = n
	return n
}

func gIdx(t *types.Named, f string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	panic("ghost field " + f)
}

var gArr = []string{"GPrint", "GRetr", "GTrav"}

func freshGmach(hint string) *Gmach {
	g := &Gmach{s: &StructV{Typ: gType("GState")}}
	st := gType("GState").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		g.s.F = append(g.s.F, freshT(hint+"."+st.Field(i).Name(), sortOf(st.Field(i).Type())))
	}
	for i, n := range gArr {
		g.arr[i] = freshT(hint+"."+n, SArr(sortOf(gType(n))))
		g.n[i] = freshT(hint+".n"+n, SInt)
	}
	return g
}

// a new buffer: nothing is known about the machine behind it
func newGcode(st *State) interface{} {
	g := freshGmach("mach")
	for _, n := range g.n {
		st.assume(Le(IntT(0), n))
	}
	return g
}

func havocObj(o interface{}, st *State) interface{} {
	switch g := o.(type) {
	case *Gmach:
		if len(g.pend) != 0 {
			bad("unfinished G-code line at a loop or call")
		}
		n := freshGmach("mach")
		for i := range n.n {
			st.assume(Le(IntT(0), n.n[i]))
		}
		return n
	}
	return o
}

func (g *Gmach) get(f string) *Term { return g.s.F[gIdx(gType("GState"), f)].(*Term) }
func (g *Gmach) set(f string, t *Term) {
	n := &StructV{Typ: g.s.Typ, F: append([]Value{}, g.s.F...)}
	n.F[gIdx(gType("GState"), f)] = t
	g.s = n
}
func (g *Gmach) add(i int, fs map[string]*Term) {
	t := gType(gArr[i])
	s := t.Underlying().(*types.Struct)
	v := &StructV{Typ: t}
	for j := 0; j < s.NumFields(); j++ {
		v.F = append(v.F, fs[s.Field(j).Name()])
	}
	g.arr[i] = Store(g.arr[i], g.n[i], embed(v, t, nil))
	g.n[i] = Add(g.n[i], IntT(1))
}

func (x *Exec) bufWrite(a *act, st *State, args []Value, e *ast.CallExpr, k K) {
	p, ok := args[0].(*PtrV)
	if !ok {
		bad("buffer write")
	}
	o, ok := p.Val.(*ObjV)
	if !ok {
		bad("write to an unknown buffer")
	}
	g, ok := st.objs[o.ID].(*Gmach)
	if !ok {
		bad("write to an unknown buffer")
	}
	s, ok := args[1].(*StrV)
	if !ok {
		bad("write of %T", args[1])
	}
	n := *g
	line := append([]StrPart{}, n.pend...)
	for _, part := range s.Parts {
		if part.Kind != 'l' {
			line = append(line, part)
			continue
		}
		rest := part.Lit
		for {
			i := strings.IndexByte(rest, '\n')
			if i < 0 {
				break
			}
			if i > 0 {
				line = append(line, StrPart{Kind: 'l', Lit: rest[:i]})
			}
			n.line(line)
			line = nil
			rest = rest[i+1:]
		}
		if rest != "" {
			line = append(line, StrPart{Kind: 'l', Lit: rest})
		}
	}
	n.pend = line
	st.objs[o.ID] = &n
	k(st, &TupleV{V: []Value{freshT("n", SInt), nilIface}})
}

// plainStr: the text has no line break.
func plainStr(s *StrV) *Term {
	r := True
	for _, p := range s.Parts {
		switch p.Kind {
		case 'l':
			if strings.ContainsAny(p.Lit, "\n\r") {
				return False
			}
		case 'o':
			r = And(r, App("plain", SBool, p.T))
		}
	}
	return r
}

// line interprets one complete line.
func (g *Gmach) line(parts []StrPart) {
	parts = normStr(&StrV{Parts: parts}).Parts
	// words separated by blanks
	var words [][]StrPart
	var cur []StrPart
	flush := func() {
		if len(cur) > 0 {
			words = append(words, cur)
			cur = nil
		}
	}
	if len(parts) > 0 && parts[0].Kind == 'l' && strings.HasPrefix(strings.TrimLeft(parts[0].Lit, " "), ";") {
		lit := strings.TrimLeft(parts[0].Lit, " ")
		if lit == ";LAYER:" && len(parts) == 2 && parts[1].Kind == 'i' {
			g.layer(parts[1].T)
		} else if strings.HasPrefix(lit, ";LAYER:") {
			v, ok := num(lit[7:])
			if ok && len(parts) == 1 {
				g.layer(v)
			} else {
				g.set("Bad", True)
			}
		} else {
			g.set("Bad", Or(g.get("Bad"), Not(plainStr(&StrV{Parts: parts}))))
		}
		return
	}
	for _, p := range parts {
		if p.Kind != 'l' {
			cur = append(cur, p)
			continue
		}
		lit := p.Lit
		if i := strings.IndexByte(lit, ';'); i >= 0 { // trailing comment
			lit = lit[:i]
		}
		fs := strings.Split(lit, " ")
		for i, f := range fs {
			if i > 0 {
				flush()
			}
			if f != "" {
				cur = append(cur, StrPart{Kind: 'l', Lit: f})
			}
		}
		if len(lit) < len(p.Lit) {
			break
		}
	}
	flush()
	if len(words) == 0 {
		return
	}
	lit := func(w []StrPart) string {
		if len(w) == 1 && w[0].Kind == 'l' {
			return strings.ToUpper(w[0].Lit)
		}
		return ""
	}
	fail := func() { g.set("Bad", True) }
	vals := map[byte]*Term{}
	for _, w := range words[1:] {
		if w[0].Kind != 'l' || w[0].Lit == "" {
			fail()
			return
		}
		l := w[0].Lit[0]
		rest := append([]StrPart{}, w...)
		rest[0].Lit = rest[0].Lit[1:]
		if rest[0].Lit == "" {
			rest = rest[1:]
		}
		var v *Term
		switch {
		case len(rest) == 1 && rest[0].Kind == 'l':
			n, ok := num(rest[0].Lit)
			if !ok {
				fail()
				return
			}
			v = ToReal(n)
		case len(rest) == 1 && rest[0].Kind == 'r':
			v = rounded(rest[0].T, rest[0].Prec)
		case len(rest) == 1 && rest[0].Kind == 'i':
			v = ToReal(rest[0].T)
		case len(rest) == 2 && rest[0].Kind == 'l' && rest[0].Lit == "-" && rest[1].Kind == 'i':
			v = Neg(ToReal(rest[1].T)) // a negative number printed after a minus sign would not be a number at all
			fail()
			return
		default:
			fail()
			return
		}
		if _, dup := vals[l]; dup {
			fail()
			return
		}
		vals[l] = v
	}
	only := func(set string) bool {
		for c := range vals {
			if strings.IndexByte(set, c) < 0 {
				return false
			}
		}
		return true
	}
	switch lit(words[0]) {
	case "G0", "G1", "G00", "G01":
		if !only("XYZEF") {
			fail()
			return
		}
		g.move(vals)
	case "G92":
		if !only("E") || len(vals) != 1 {
			fail()
			return
		}
		g.set("E", vals['E'])
	case "M106":
		// "M106 S0" would be fan off
		if v, ok := vals['S']; ok && v.isZero() {
			g.set("Fan", False)
		} else if len(vals) == 0 || ok && v.isNum() {
			g.set("Fan", True)
		} else {
			fail()
		}
	case "M107":
		g.set("Fan", False)
	case "T0", "T1", "T2":
		if len(vals) != 0 {
			fail()
			return
		}
		g.set("Tool", IntT(int64(lit(words[0])[1]-'0')))
	case "G62":
		// rotation of the program, not of the bed
	default:
		fail()
	}
}

func num(s string) (*Term, bool) {
	for i := 0; i < len(s); i++ {
		if (s[i] < '0' || s[i] > '9') && s[i] != '.' && !(i == 0 && s[i] == '-') {
			return nil, false
		}
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil, false
	}
	if r.IsInt() {
		return NumR(r, SInt), true
	}
	return NumR(r, SReal), true
}

// rounded is the decimal number written for t: within half a unit of the last place.
func rounded(t *Term, prec int) *Term {
	if t.isNum() {
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil))
		if q := new(big.Rat).Mul(t.Num, p); q.IsInt() {
			return t
		}
	}
	return App("r"+string(rune('0'+prec)), SReal, t)
}

func (g *Gmach) layer(n *Term) {
	g.set("Seq", And(g.get("Seq"), Eq(n, g.get("Layers"))))
	g.set("Layers", Add(g.get("Layers"), IntT(1)))
}

func (g *Gmach) move(v map[byte]*Term) {
	_, hx := v['X']
	_, hy := v['Y']
	_, hz := v['Z']
	xyz := hx || hy || hz
	fx, fy, fz := g.get("X"), g.get("Y"), g.get("Z")
	if t, ok := v['F']; ok {
		g.set("F", t)
	}
	for _, a := range []string{"X", "Y", "Z"} {
		if t, ok := v[a[0]]; ok {
			g.set(a, t)
		}
	}
	e, he := v['E']
	if he {
		d := Sub(e, g.get("E"))
		t0 := g.get("Tool").isNum()
		tool := g.get("Tool")
		switch {
		case !xyz && (t0 && !tool.isZero()):
			// a bed axis
			ax := "P1"
			if tool.Num.Num().Int64() == 2 {
				ax = "P2"
			}
			g.set(ax, Add(g.get(ax), d))
			g.set("Moves", Add(g.get("Moves"), IntT(1)))
		default:
			// the print tool must be selected
			g.set("Bad", Or(g.get("Bad"), Not(Eq(tool, IntT(0)))))
			if _, hf := v['F']; hf && !xyz {
				g.add(1, map[string]*Term{"E": e, "D": d, "F": g.get("F"), "N": g.n[0]})
			} else {
				g.add(0, map[string]*Term{"X": g.get("X"), "Y": g.get("Y"), "Z": g.get("Z"), "FX": fx, "FY": fy, "FZ": fz, "E": e, "D": d, "F": g.get("F"), "Fan": g.get("Fan"), "Layer": g.get("Layers")})
			}
		}
		g.set("E", e)
		return
	}
	if hx || hy {
		g.add(2, map[string]*Term{"X": g.get("X"), "Y": g.get("Y"), "N": g.n[0], "R": g.n[1]})
	}
}

func gmachOf(env *SEnv, e ast.Expr) *Gmach {
	v := env.eval(e)
	if p, ok := v.(*PtrV); ok {
		v = p.Val
	}
	o, ok := v.(*ObjV)
	if !ok {
		bad("not a buffer")
	}
	g, ok := env.st.objs[o.ID].(*Gmach)
	if !ok {
		bad("not a G-code buffer")
	}
	if len(g.pend) != 0 {
		bad("unfinished G-code line")
	}
	return g
}

func (env *SEnv) ghostCall(name string, e *ast.CallExpr) (Value, bool) {
	switch name {
	case "gm":
		return gmachOf(env, e.Args[0]).s, true
	case "prints", "retracts", "travels":
		i := map[string]int{"prints": 0, "retracts": 1, "travels": 2}[name]
		g := gmachOf(env, e.Args[0])
		return &SliceV{Elem: gType(gArr[i]), Arr: g.arr[i], Off: IntT(0), Len: g.n[i], Nil: False}, true
	case "kept": // what the machine has done before is still recorded
		g := gmachOf(env, e.Args[0])
		oe := *env
		oe.st = env.old
		o := gmachOf(&oe, e.Args[0])
		r := True
		for i := range gArr {
			k := BVar("k", SInt)
			r = And(r, Le(o.n[i], g.n[i]), Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, o.n[i])), Eq(Select(g.arr[i], k), Select(o.arr[i], k))), []*Term{Select(g.arr[i], k)}))
		}
		return r, true
	case "idle": // no move of any kind since the start
		g := gmachOf(env, e.Args[0])
		oe := *env
		oe.st = env.old
		o := gmachOf(&oe, e.Args[0])
		r := True
		for _, f := range []string{"X", "Y", "Z", "E", "P1", "P2", "Moves", "Tool"} {
			r = And(r, Eq(g.get(f), o.get(f)))
		}
		for i := range gArr {
			r = And(r, Eq(g.n[i], o.n[i]), Eq(g.arr[i], o.arr[i]))
		}
		return r, true
	case "rounded":
		return rounded(ToReal(env.term(e.Args[0])), 3), true
	}
	return nil, false
}

// machCands: what a loop may leave alone on the machine.
func (x *Exec) machCands(m *modset, st *State, add func(string, func(x *Exec, h, e *State) *Term)) {
	for id := range m.objs {
		id := id
		if _, ok := st.objs[id].(*Gmach); !ok {
			continue
		}
		get := func(s *State) *Gmach { return s.objs[id].(*Gmach) }
		gs := gType("GState").Underlying().(*types.Struct)
		for i := 0; i < gs.NumFields(); i++ {
			i := i
			add("machine "+gs.Field(i).Name()+" == entry", func(x *Exec, h, e *State) *Term {
				return Eq(get(h).s.F[i].(*Term), get(e).s.F[i].(*Term))
			})
		}
		for i := range gArr {
			i := i
			add("machine "+gArr[i]+" prefix", func(x *Exec, h, e *State) *Term {
				k := BVar("k", SInt)
				return And(Le(get(e).n[i], get(h).n[i]), Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, get(e).n[i])), Eq(Select(get(h).arr[i], k), Select(get(e).arr[i], k))), []*Term{Select(get(h).arr[i], k)}))
			})
			add("machine "+gArr[i]+" count == entry", func(x *Exec, h, e *State) *Term { return Eq(get(h).n[i], get(e).n[i]) })
		}
	}
}
