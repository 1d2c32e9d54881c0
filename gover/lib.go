package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

var rat0 = new(big.Rat)

func real0() *Term { return ToReal(IntT(0)) }

// piMult: t = c*pi
func piMult(t *Term) (*big.Rat, bool) {
	if t == Pi {
		return big.NewRat(1, 1), true
	}
	if t.isZero() {
		return new(big.Rat), true
	}
	if t.Op == "*" && t.Args[0].isNum() && t.Args[1] == Pi {
		return t.Args[0].Num, true
	}
	if t.Op == "neg" {
		if c, ok := piMult(t.Args[0]); ok {
			return new(big.Rat).Neg(c), true
		}
	}
	return nil, false
}

// trig of a known multiple of pi, when rational
func trigConst(name string, c *big.Rat) *Term {
	two := big.NewRat(2, 1)
	q := new(big.Rat).Quo(c, two)
	fl := new(big.Int).Div(q.Num(), q.Denom())
	r := new(big.Rat).Sub(c, new(big.Rat).Mul(two, new(big.Rat).SetInt(fl))) // in [0,2)
	if name == "cos" {                                                       // cos x = sin(x+pi/2)
		r.Add(r, big.NewRat(1, 2))
		if r.Cmp(two) >= 0 {
			r.Sub(r, two)
		}
	}
	sign := big.NewRat(1, 1)
	if r.Cmp(big.NewRat(1, 1)) >= 0 {
		r.Sub(r, big.NewRat(1, 1))
		sign.Neg(sign)
	}
	if r.Cmp(big.NewRat(1, 2)) > 0 {
		r.Sub(big.NewRat(1, 1), r)
	}
	switch r.RatString() {
	case "0":
		return RealT(new(big.Rat))
	case "1/6":
		return RealT(new(big.Rat).Mul(sign, big.NewRat(1, 2)))
	case "1/2":
		return RealT(sign)
	case "1/3":
		return Mul(RealT(new(big.Rat).Mul(sign, big.NewRat(1, 2))), App("sqrt", SReal, RealT(big.NewRat(3, 1))))
	case "1/4":
		return Mul(RealT(new(big.Rat).Mul(sign, big.NewRat(1, 2))), App("sqrt", SReal, RealT(big.NewRat(2, 1))))
	}
	return nil
}

func mathApp(name string, t *Term) *Term {
	if t.Op == "ite" {
		return Ite(t.Args[0], mathApp(name, t.Args[1]), mathApp(name, t.Args[2]))
	}
	switch name {
	case "sin", "cos":
		return trigNorm(name, t)
	case "sqrt":
		if t.isNum() {
			n, d := new(big.Int).Sqrt(t.Num.Num()), new(big.Int).Sqrt(t.Num.Denom())
			r := new(big.Rat).SetFrac(n, d)
			if new(big.Rat).Mul(r, r).Cmp(t.Num) == 0 {
				return RealT(r)
			}
		}
	}
	return App(name, SReal, t)
}

func minT(a, b *Term) *Term { a, b = coerce(a, b); return Ite(Le(a, b), a, b) }
func maxT(a, b *Term) *Term { a, b = coerce(a, b); return Ite(Le(a, b), b, a) }

var maxFloat = RealF("179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747970")

func (x *Exec) libCall(a *act, key string, f *FuncV, args []Value, st *State, e *ast.CallExpr, k K) {
	x.libs[key] = true
	tm := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			bad("argument %d of %s", i, key)
		}
		return t
	}
	r := func(i int) *Term { return ToReal(tm(i)) }
	switch key {
	case "math.Sqrt":
		k(st, mathApp("sqrt", r(0)))
	case "math.Abs":
		k(st, absT(r(0)))
	case "math.Min":
		k(st, minT(r(0), r(1)))
	case "math.Max":
		k(st, maxT(r(0), r(1)))
	case "math.Floor":
		k(st, ToReal(ToIntFloor(r(0))))
	case "math.Ceil":
		k(st, ToReal(Neg(ToIntFloor(Neg(r(0))))))
	case "math.Sin":
		k(st, mathApp("sin", r(0)))
	case "math.Cos":
		k(st, mathApp("cos", r(0)))
	case "math.Tan":
		k(st, Div(mathApp("sin", r(0)), mathApp("cos", r(0))))
	case "math.Acos":
		k(st, mathApp("acos", r(0)))
	case "math.Atan2":
		k(st, App("atan2", SReal, r(0), r(1)))
	case "math.Hypot":
		k(st, mathApp("sqrt", Add(Mul(r(0), r(0)), Mul(r(1), r(1)))))
	case "math.Pow":
		if n := tm(1); n.isNum() && n.Num.IsInt() && n.Num.Sign() >= 0 && n.Num.Num().Int64() <= 4 {
			p := ToReal(IntT(1))
			for i := int64(0); i < n.Num.Num().Int64(); i++ {
				p = Mul(p, r(0))
			}
			k(st, p)
			return
		}
		k(st, App("pow", SReal, r(0), r(1)))
	case "math.IsNaN", "math.IsInf":
		x.assumed["floating point values are finite reals: math.IsNaN and math.IsInf are false"] = true
		k(st, False)
	case "math.Float32frombits":
		k(st, App("f32bits", SReal, tm(0)))
	case "encoding/binary.littleEndian.Uint32":
		s, ok := args[1].(*SliceV)
		if !ok {
			bad("Uint32 argument")
		}
		x.oblige(st, Le(IntT(4), s.Len), "bounds", "Uint32 reads 4 bytes", e.Pos())
		if st.stop {
			return
		}
		t := App("le32", SInt, st.elemTerm(s, IntT(0)), st.elemTerm(s, IntT(1)), st.elemTerm(s, IntT(2)), st.elemTerm(s, IntT(3)))
		k(st, t)
	case "runtime.NumCPU":
		n := freshT("numcpu", SInt)
		st.assume(Le(IntT(1), n))
		k(st, n)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		x.assumed["log.Fatal ends the program"] = true
	case "log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf":
		k(st, &TupleV{V: []Value{freshT("n", SInt), nilIface}})
	case "strconv.Itoa":
		k(st, &StrV{Parts: []StrPart{{Kind: 'i', T: tm(0)}}})
	case "strconv.FormatFloat":
		if fm, ok := args[1].(*Term); ok && fm.isNum() && fm.Num.Num().Int64() == 'f' && tm(2).isNum() {
			k(st, &StrV{Parts: []StrPart{{Kind: 'r', T: r(0), Prec: int(tm(2).Num.Num().Int64())}}})
			return
		}
		k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: App("formatfloat", SStr, r(0))}}})
	case "strconv.FormatBool":
		k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: App("formatbool", SStr, tm(0))}}})
	case "strconv.ParseFloat":
		s := strTerm(args[0].(*StrV))
		ok := App("isfloat", SBool, s)
		err := Ite(ok, nilIface, App("parseerr", SIfc, s))
		st.assume(Not(Eq(App("parseerr", SIfc, s), nilIface)))
		k(st, &TupleV{V: []Value{App("parsefloat", SReal, s), err}})
	case "strconv.ParseBool":
		s := strTerm(args[0].(*StrV))
		err := Ite(App("isbool", SBool, s), nilIface, App("parseerr", SIfc, s))
		st.assume(Not(Eq(App("parseerr", SIfc, s), nilIface)))
		k(st, &TupleV{V: []Value{App("parsebool", SBool, s), err}})
	case "strings.TrimSpace":
		s := args[0].(*StrV)
		t := strTerm(s)
		rr := App("trimspace", SStr, t)
		st.assume(And(Le(IntT(0), App("strlen", SInt, rr)), Le(App("strlen", SInt, rr), strLen(s))))
		k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: rr}}})
	case "strings.Fields":
		t := strTerm(args[0].(*StrV))
		so := SArr(SStr)
		n := App("nfields", SInt, t)
		st.assume(Le(IntT(0), n))
		s := &SliceV{Elem: types.Typ[types.String], Tag: st.newTag(App("fields", so, t)), Off: IntT(0), Len: n, Nil: False}
		k(st, s)
	case "strings.Replace":
		k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: freshT("replaced", SStr)}}})
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		k(st, x.sprintf(args))
	case "fmt.Errorf", "errors.New":
		t := freshT("err", SIfc)
		st.assume(Not(Eq(t, nilIface)))
		k(st, t)
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(a, args, st, e, k)
	case "bytes.Buffer.WriteString":
		x.bufWrite(a, st, args, e, k)
	case "bytes.Buffer.Bytes":
		x.bufBytes(st, args, k)
	case "bytes.Buffer.String":
		k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: freshT("bufstr", SStr)}}})
	default:
		if x.ioCall(a, key, args, st, e, k) {
			return
		}
		bad("no model of %s", key)
	}
}

func (x *Exec) bufBytes(st *State, args []Value, k K) {
	so := SArr(SInt)
	n := freshT("nbytes", SInt)
	st.assume(Le(IntT(0), n))
	k(st, &SliceV{Elem: types.Typ[types.Uint8], Tag: st.newTag(freshT("bytes", so)), Off: IntT(0), Len: n, Nil: False})
}

func (x *Exec) sprintf(args []Value) Value {
	f, ok := args[0].(*StrV)
	if !ok {
		return &StrV{Parts: []StrPart{{Kind: 'o', T: freshT("sprintf", SStr)}}}
	}
	lit, ok := litOf(f)
	tv, ok2 := args[len(args)-1].(*TupleV)
	if !ok || !ok2 {
		return &StrV{Parts: []StrPart{{Kind: 'o', T: freshT("sprintf", SStr)}}}
	}
	vs := tv.V
	out := &StrV{}
	i := 0
	for len(lit) > 0 {
		p := strings.IndexByte(lit, '%')
		if p < 0 {
			out.Parts = append(out.Parts, StrPart{Kind: 'l', Lit: lit})
			break
		}
		out.Parts = append(out.Parts, StrPart{Kind: 'l', Lit: lit[:p]})
		lit = lit[p+1:]
		j := 0
		for j < len(lit) && strings.IndexByte("+-# 0123456789.", lit[j]) >= 0 {
			j++
		}
		if j >= len(lit) {
			break
		}
		verb, flags := lit[j], lit[:j]
		lit = lit[j+1:]
		if verb == '%' {
			out.Parts = append(out.Parts, StrPart{Kind: 'l', Lit: "%"})
			continue
		}
		if i >= len(vs) {
			out.Parts = append(out.Parts, StrPart{Kind: 'o', T: freshT("sprintf", SStr)})
			continue
		}
		v := vs[i]
		i++
		switch w := v.(type) {
		case *StrV:
			out.Parts = append(out.Parts, w.Parts...)
		case *Term:
			if w.Sort == SInt && (verb == 'd' || verb == 'v') && flags == "" {
				out.Parts = append(out.Parts, StrPart{Kind: 'i', T: w})
			} else if w.Sort == SReal && verb == 'f' && strings.HasPrefix(flags, ".") {
				var pr int
				fmt.Sscan(flags[1:], &pr)
				out.Parts = append(out.Parts, StrPart{Kind: 'r', T: w, Prec: pr})
			} else {
				out.Parts = append(out.Parts, StrPart{Kind: 'o', T: App("fmt_"+string(verb)+w.Sort.Name, SStr, w)})
			}
		default:
			out.Parts = append(out.Parts, StrPart{Kind: 'o', T: freshT("sprintf", SStr)})
		}
	}
	return normStr(out)
}

// sort.Slice permutes the slice; afterwards no element is less than an earlier one, provided the
// comparison is a strict weak order (proved here: irreflexive, transitive, incomparability transitive).
func (x *Exec) sortSlice(a *act, args []Value, st *State, e *ast.CallExpr, k K) {
	s, ok := args[0].(*SliceV)
	if !ok {
		bad("sort of %T", args[0])
	}
	if s.Tag == 0 {
		if s.Nil == True {
			k(st, &TupleV{})
			return
		}
		bad("sort of a slice held by value")
	}
	if st.tagEmb[s.Tag] {
		bad("sort of slice contents stored elsewhere")
	}
	less, ok := args[1].(*FuncV)
	if !ok {
		bad("sort comparison")
	}
	old := st.heap[s.Tag]
	// evaluate the comparison on two symbolic positions in the given contents
	var facts []*Term
	cmp := func(arr *Term, i, j *Term, base *State) *Term {
		sub := base.clone()
		sub.heap[s.Tag] = arr
		save := x.mode
		nobl := len(x.obls)
		x.mode = mDry
		defer func() { x.mode = save; x.obls = x.obls[:nobl] }()
		n0 := len(sub.pc)
		var ds, last []*Term
		var val *Term
		x.apply(a, less, []Value{i, j}, sub, e, func(s2 *State, v Value) {
			var c []*Term
			last = s2.pc[n0:]
			val = v.(*Term)
			c = append(c, last...)
			c = append(c, val)
			ds = append(ds, And(c...))
		})
		if len(ds) == 1 { // no branching: what is assumed on the way holds for all values
			facts = append(facts, last...)
			return val
		}
		return Or(ds...)
	}
	// bounds and other safety of the comparison
	{
		sub := st.clone()
		i, j := freshT("i", SInt), freshT("j", SInt)
		sub.assume(And(Le(IntT(0), i), Lt(i, s.Len), Le(IntT(0), j), Lt(j, s.Len)))
		x.apply(a, less, []Value{i, j}, sub, e, func(*State, Value) {})
	}
	w := freshT("sorted", old.Sort)
	// attr anyorder: only that the contents are permuted is used, which holds for any comparison
	ordered := x.con == nil || !x.con.Attrs["anyorder"]
	// strict weak order on arbitrary contents
	if ordered {
		i, j, l := freshT("i", SInt), freshT("j", SInt), freshT("l", SInt)
		sub := st.clone()
		rng := And(Le(IntT(0), i), Lt(i, s.Len), Le(IntT(0), j), Lt(j, s.Len), Le(IntT(0), l), Lt(l, s.Len))
		sub.assume(rng)
		c := func(p, q *Term) *Term { return cmp(old, p, q, sub) }
		goal := And(Not(c(i, i)), Imp(And(c(i, j), c(j, l)), c(i, l)), Imp(And(Not(c(i, j)), Not(c(j, l))), Not(c(i, l))))
		for _, f := range facts {
			sub.assume(f)
		}
		x.oblige(sub, goal, "sort", "comparison is a strict weak order", e.Pos())
	}
	// permutation: w[i] = old[p(i)], p a bijection of [off, off+len)
	p := freshT("perm", SArr(SInt))
	q := freshT("perminv", SArr(SInt))
	lo, hi := s.Off, Add(s.Off, s.Len)
	i := BVar("i", SInt)
	in := And(Le(lo, i), Lt(i, hi))
	pi, qi := Select(p, i), Select(q, i)
	st.assume(Forall([]*Term{i}, Imp(in, And(Le(lo, pi), Lt(pi, hi), Eq(Select(q, pi), i), Eq(Select(w, i), Select(old, pi)))), []*Term{pi}, []*Term{Select(w, i)}))
	st.assume(Forall([]*Term{i}, Imp(in, And(Le(lo, qi), Lt(qi, hi), Eq(Select(p, qi), i), Eq(Select(old, i), Select(w, qi)))), []*Term{qi}, []*Term{Select(old, i)}))
	st.assume(Forall([]*Term{i}, Imp(Not(in), Eq(Select(w, i), Select(old, i))), []*Term{Select(w, i)}))
	if ordered {
		b1, b2 := BVar("a", SInt), BVar("b", SInt)
		cc := cmp(w, b2, b1, st)
		trig := []*Term{Select(w, Add(lo, b1)), Select(w, Add(lo, b2))}
		st.assume(Forall([]*Term{b1, b2}, Imp(And(Le(IntT(0), b1), Lt(b1, b2), Lt(b2, s.Len)), Not(cc)), trig))
	}
	st.heap[s.Tag] = w
	st.clobberGroup(s.Tag)
	for _, cl := range x.chanClauses("sorted", s.Elem) { // sorted.<Element>(slice): holds after every sort of such elements
		x.oblige(st, x.clauseTerm(cl, []Value{s}, st), "call", cl.Label(), e.Pos())
		if st.stop {
			return
		}
	}
	k(st, &TupleV{})
}

// ---- canonical arguments of sin and cos

type pmono struct {
	c  *big.Rat
	fs []*Term
}

// polyOf writes t as a sum of monomials over non-polynomial atoms.
func polyOf(t *Term, limit int) ([]pmono, bool) {
	switch {
	case t.isNum():
		return []pmono{{c: t.Num}}, true
	case t.Op == "+" || t.Op == "-":
		var r []pmono
		for i, a := range t.Args {
			p, ok := polyOf(a, limit)
			if !ok {
				return nil, false
			}
			for _, m := range p {
				if t.Op == "-" && i > 0 {
					m.c = new(big.Rat).Neg(m.c)
				}
				r = append(r, m)
			}
		}
		return r, len(r) <= limit
	case t.Op == "neg":
		p, ok := polyOf(t.Args[0], limit)
		if !ok {
			return nil, false
		}
		for i := range p {
			p[i].c = new(big.Rat).Neg(p[i].c)
		}
		return p, true
	case t.Op == "*":
		acc := []pmono{{c: big.NewRat(1, 1)}}
		for _, a := range t.Args {
			p, ok := polyOf(a, limit)
			if !ok {
				return nil, false
			}
			var n []pmono
			for _, u := range acc {
				for _, v := range p {
					n = append(n, pmono{c: new(big.Rat).Mul(u.c, v.c), fs: append(append([]*Term{}, u.fs...), v.fs...)})
				}
			}
			acc = n
			if len(acc) > limit {
				return nil, false
			}
		}
		return acc, true
	case t.Op == "/" && t.Args[1].isNum() && !t.Args[1].isZero():
		p, ok := polyOf(t.Args[0], limit)
		if !ok {
			return nil, false
		}
		for i := range p {
			p[i].c = new(big.Rat).Quo(p[i].c, t.Args[1].Num)
		}
		return p, true
	}
	return []pmono{{c: big.NewRat(1, 1), fs: []*Term{t}}}, true
}

// polyNorm collects equal monomials, in a canonical order.
func polyNorm(t *Term) ([]pmono, bool) {
	p, ok := polyOf(t, 40)
	if !ok {
		return nil, false
	}
	type ent struct {
		m   pmono
		key string
	}
	idx := map[string]int{}
	var es []ent
	for _, m := range p {
		var names []string
		fs := append([]*Term{}, m.fs...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			names = append(names, f.String())
		}
		key := strings.Join(names, "*")
		if i, ok := idx[key]; ok {
			es[i].m.c = new(big.Rat).Add(es[i].m.c, m.c)
			continue
		}
		idx[key] = len(es)
		es = append(es, ent{pmono{c: new(big.Rat).Set(m.c), fs: fs}, key})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key > es[j].key })
	var r []pmono
	for _, e := range es {
		if e.m.c.Sign() != 0 {
			r = append(r, e.m)
		}
	}
	return r, true
}

func polyTerm(p []pmono) *Term {
	var r *Term
	for _, m := range p {
		var t *Term
		for _, f := range m.fs {
			if t == nil {
				t = f
			} else {
				t = Mul(t, f)
			}
		}
		if t == nil {
			t = RealT(m.c)
		} else if m.c.Cmp(big.NewRat(1, 1)) != 0 {
			t = Mul(RealT(m.c), t)
		}
		if r == nil {
			r = t
		} else {
			r = mk("+", "", SReal, r, t)
		}
	}
	if r == nil {
		return RealT(new(big.Rat))
	}
	return r
}

// trigNorm evaluates sin or cos of a canonical argument.
func trigNorm(name string, t *Term) *Term {
	p, ok := polyNorm(t)
	if !ok {
		return App(name, SReal, t)
	}
	var rest []pmono
	c := new(big.Rat)
	for _, m := range p {
		if len(m.fs) == 1 && m.fs[0] == Pi {
			c.Add(c, m.c)
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == 0 {
		if r := trigConst(name, c); r != nil {
			return r
		}
		if c.Sign() < 0 {
			r := App(name, SReal, Mul(RealT(new(big.Rat).Neg(c)), Pi))
			if name == "sin" {
				return Neg(r)
			}
			return r
		}
		return App(name, SReal, Mul(RealT(c), Pi))
	}
	if c.Sign() != 0 {
		sc, ss := trigConst("cos", c), trigConst("sin", c)
		a := polyTerm(rest)
		if sc == nil || ss == nil {
			sc, ss = trigNorm("cos", Mul(RealT(c), Pi)), trigNorm("sin", Mul(RealT(c), Pi))
		}
		if name == "sin" {
			return Add(Mul(sc, trigNorm("sin", a)), Mul(ss, trigNorm("cos", a)))
		}
		return Sub(Mul(sc, trigNorm("cos", a)), Mul(ss, trigNorm("sin", a)))
	}
	if rest[0].c.Sign() < 0 {
		for i := range rest {
			rest[i].c = new(big.Rat).Neg(rest[i].c)
		}
		if name == "sin" {
			return Neg(trigNorm("sin", polyTerm(rest)))
		}
		return trigNorm("cos", polyTerm(rest))
	}
	if len(rest) > 1 {
		a, b := polyTerm(rest[:1]), polyTerm(rest[1:])
		if name == "sin" {
			return Add(Mul(trigNorm("sin", a), trigNorm("cos", b)), Mul(trigNorm("cos", a), trigNorm("sin", b)))
		}
		return Sub(Mul(trigNorm("cos", a), trigNorm("cos", b)), Mul(trigNorm("sin", a), trigNorm("sin", b)))
	}
	return App(name, SReal, polyTerm(rest))
}
