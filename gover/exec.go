package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Obl struct {
	Func  string
	Name  string // stable name: function / clause
	Kind  string // post, pre, bounds, nil, div, frame, inv, ...
	Pos   string
	PC    []*Term
	Goal  *Term
	Trace []string
	// filled by the solver
	Result  string
	Backend string
	Secs    float64
	Model   string
	Query   string
	Hints   *Hints
}

type Hints struct {
	Timeout int
	NoSplit bool
}

type mode int

const (
	mFinal mode = iota
	mHoudini
	mDry
)

type Exec struct {
	hid         map[int]ast.Node // hidden loop indices
	prog        *Prog
	db          *SpecDB
	fn          *Func
	con         *Contract
	mode        mode
	obls        []*Obl
	stack       []*Func
	names       map[string]Value // contract names -> entry values
	old         *State
	used        map[string]bool // contracts used
	inlined     map[string]bool
	libs        map[string]bool
	assumed     map[string]bool
	loopN       int
	loopKeep    map[string]map[string]bool
	verbose     bool
	dumpCand    string
	lemCache    map[string]*Term
	usedLemmas  map[string]bool
	extraLemmas []string
	entryPC     []*Term
	exitPCs     [][]*Term
	candChk     func(st *State, head *State)
	paths       int
	solver      *Solver
	posStk      token.Pos
	collect     func(kind string, st *State) // end-of-body collector used by loops
	stats       map[string]int
	reveal      map[string]bool
	rettags     bool
	chans       map[int]*chanInfo
	farms       map[int]*farmInfo // by channel of results
	worker      *workerCtx        // the worker being verified
	proving     bool              // evaluating the statement of the lemma to be proved
}

type act struct {
	pkg *Pkg
	fn  *Func
	ret func(*State, []Value)
	res []types.Object // named results
}

type ctl struct {
	brk, cont func(*State)
	label     string
	up        *ctl
}

type K func(*State, Value)

func (x *Exec) oblige(st *State, goal *Term, kind, name string, pos token.Pos) {
	if goal == True || st.stop {
		return
	}
	if x.mode == mFinal {
		if x.con != nil {
			if kind == "div" && x.con.Attrs["nodiv"] || kind == "bounds" && x.con.Attrs["nobounds"] || kind == "nil" && x.con.Attrs["nonil"] {
				x.assumed["unchecked "+kind+" obligations in "+x.fn.Key+" (attribute)"] = true
				st.assume(goal)
				return
			}
		}
		o := &Obl{Func: x.fn.Key, Kind: kind, Name: name, Pos: x.prog.pos(pos), PC: append([]*Term{}, st.pc...), Goal: goal, Trace: append([]string{}, st.trace...)}
		if x.con != nil {
			o.Hints = &Hints{Timeout: x.con.Timeout}
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// ------------------------------------------------------------- expressions

func piExpr(info *types.Info, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if c, ok := info.Uses[s.Sel].(*types.Const); ok && c.Pkg() != nil && c.Pkg().Path() == "math" && c.Name() == "Pi" {
				found = true
			}
		}
		return true
	})
	return found
}

var Pi = Var("pi", SReal)

func constTerm(v constant.Value, t types.Type) Value {
	switch v.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(v))
	case constant.String:
		return &StrV{Parts: []StrPart{{Kind: 'l', Lit: constant.StringVal(v)}}}
	case constant.Int, constant.Float:
		r := new(big.Rat)
		iv := constant.ToInt(v)
		if iv.Kind() == constant.Int {
			r.SetString(iv.ExactString())
		} else {
			// the decimal that denotes this float64
			f, _ := constant.Float64Val(v)
			if _, ok := r.SetString(strconv.FormatFloat(f, 'g', -1, 64)); !ok {
				bad("constant %s", v)
			}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return NumR(r, SReal)
		}
		if r.IsInt() {
			return NumR(r, SInt)
		}
		return NumR(r, SReal)
	}
	bad("constant kind")
	return nil
}

func (x *Exec) evList(a *act, es []ast.Expr, st *State, k func(*State, []Value)) {
	var rec func(i int, st *State, acc []Value)
	rec = func(i int, st *State, acc []Value) {
		if st.stop {
			return
		}
		if i == len(es) {
			k(st, acc)
			return
		}
		x.ev(a, es[i], st, func(st *State, v Value) {
			rec(i+1, st, append(append([]Value{}, acc...), v))
		})
	}
	rec(0, st, nil)
}

func (x *Exec) globalVal(o types.Object, st *State) Value {
	g := x.prog.Globals[o]
	if g == nil {
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil { // library variable (io.EOF, os.Stdout, binary.LittleEndian)
			if sortOf(v.Type()) == SIfc {
				return App("lib_"+v.Pkg().Name()+"_"+v.Name(), SIfc)
			}
			return freshV(v.Type(), v.Name(), st)
		}
		bad("unknown variable %s", o.Name())
	}
	if g.Mutable {
		return freshV(o.Type(), "global_"+o.Name(), st)
	}
	if g.Expr == nil {
		return zeroV(o.Type(), st)
	}
	var r Value
	ac := &act{pkg: g.Pkg}
	x.ev(ac, g.Expr, st, func(s *State, v Value) { r = v })
	if r == nil {
		bad("initialiser of %s", o.Name())
	}
	// keep shared slices shared: snapshot
	if s, ok := r.(*SliceV); ok && s.Tag != 0 {
		return &SliceV{Elem: s.Elem, Arr: st.heap[s.Tag], Off: s.Off, Len: s.Len, Nil: s.Nil}
	}
	return r
}

// ev evaluates; the continuation may be called several times, each time with its own state.
func (x *Exec) ev(a *act, e ast.Expr, st *State, k K) {
	if st.stop {
		return
	}
	tv, hasT := a.pkg.Info.Types[e]
	if hasT && tv.Value != nil && !piExpr(a.pkg.Info, e) {
		k(st, constTerm(tv.Value, tv.Type))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.ev(a, e.X, st, k)
	case *ast.Ident:
		if e.Name == "nil" && hasT && tv.IsNil() {
			k(st, nilIface)
			return
		}
		o := a.pkg.Info.Uses[e]
		if o == nil {
			o = a.pkg.Info.Defs[e]
		}
		switch o := o.(type) {
		case *types.Var:
			if c, ok := st.env[o]; ok {
				k(st, st.cells[c])
				return
			}
			k(st, x.globalVal(o, st))
		case *types.Func:
			k(st, &FuncV{Obj: o, Decl: x.prog.ByObj[o]})
		case *types.Nil:
			k(st, nilIface)
		default:
			bad("identifier %s", e.Name)
		}
	case *ast.BasicLit:
		k(st, constTerm(tv.Value, tv.Type))
	case *ast.SelectorExpr:
		x.evSelector(a, e, st, k)
	case *ast.StarExpr:
		x.ev(a, e.X, st, func(st *State, v Value) {
			k(st, x.deref(st, v, e.Pos()))
		})
	case *ast.UnaryExpr:
		x.evUnary(a, e, st, k)
	case *ast.BinaryExpr:
		x.evBinary(a, e, st, k)
	case *ast.IndexExpr:
		x.ev(a, e.X, st, func(st *State, b Value) {
			x.ev(a, e.Index, st, func(st *State, iv Value) {
				switch s := b.(type) {
				case *SliceV:
					i := iv.(*Term)
					x.oblige(st, And(Le(IntT(0), i), Lt(i, s.Len)), "bounds", "index in range", e.Pos())
					if st.stop {
						return
					}
					if st.par != nil && s.Tag != 0 {
						st.par.read(st, s.Tag, Add(s.Off, i))
					}
					k(st, unembed(st.elemTerm(s, i), s.Elem, st))
				case *StructV:
					k(st, st.readSel(s, LSel{Idx: iv.(*Term), Arr: true}))
				case *Term:
					if s.Sort.Kind == KArr {
						k(st, Select(s, iv.(*Term)))
						return
					}
					bad("index of %s", s.Sort.Name)
				case *StrV:
					i := iv.(*Term)
					x.oblige(st, And(Le(IntT(0), i), Lt(i, strLen(s))), "bounds", "index in range", e.Pos())
					k(st, App("strbyte", SInt, strTerm(s), i))
				default:
					bad("index of %T", b)
				}
			})
		})
	case *ast.SliceExpr:
		x.evSlice(a, e, st, k)
	case *ast.CompositeLit:
		x.evComposite(a, e, st, k)
	case *ast.FuncLit:
		k(st, &FuncV{Lit: e, Pkg: a.pkg})
	case *ast.CallExpr:
		x.evCall(a, e, st, k)
	default:
		bad("expression %T", e)
	}
}

func strLen(s *StrV) *Term {
	n := IntT(0)
	for _, p := range normStr(s).Parts {
		if p.Kind == 'l' {
			n = Add(n, IntT(int64(len(p.Lit))))
		} else {
			n = Add(n, App("strlen", SInt, strTerm(&StrV{Parts: []StrPart{p}})))
		}
	}
	return n
}

func (x *Exec) deref(st *State, v Value, pos token.Pos) Value {
	p, ok := v.(*PtrV)
	if !ok {
		if v == nilIface {
			x.oblige(st, False, "nil", "nil dereference", pos)
			return nil
		}
		if t, ok := v.(*Term); ok && t.Sort == SIfc {
			return t
		}
		bad("dereference of %T", v)
	}
	x.oblige(st, Not(p.Nil), "nil", "nil dereference", pos)
	if st.stop {
		return nil
	}
	if p.LV != nil {
		if st.par != nil {
			st.par.read(st, p.LV.Tag, p.LV.Idx)
		}
		return st.readLV(p.LV)
	}
	if p.Val == nil {
		bad("dereference of pointer without target")
	}
	return p.Val
}

func (x *Exec) evSelector(a *act, e *ast.SelectorExpr, st *State, k K) {
	sel, ok := a.pkg.Info.Selections[e]
	if !ok { // qualified identifier
		switch o := a.pkg.Info.Uses[e.Sel].(type) {
		case *types.Const:
			if o.Pkg().Path() == "math" && o.Name() == "Pi" {
				k(st, Pi)
				return
			}
			k(st, constTerm(o.Val(), o.Type()))
		case *types.Var:
			k(st, x.globalVal(o, st))
		case *types.Func:
			k(st, &FuncV{Obj: o, Decl: x.prog.ByObj[o]})
		default:
			bad("selector %s", e.Sel.Name)
		}
		return
	}
	if sel.Kind() == types.MethodVal {
		x.ev(a, e.X, st, func(st *State, v Value) {
			f := sel.Obj().(*types.Func)
			k(st, &FuncV{Obj: f, Decl: x.prog.ByObj[f], Recv: v})
		})
		return
	}
	x.ev(a, e.X, st, func(st *State, v Value) {
		t := a.pkg.Info.Types[e.X].Type
		for _, i := range sel.Index() {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				v = x.deref(st, v, e.Pos())
				if st.stop {
					return
				}
				t = pt.Elem()
			}
			sv, ok := v.(*StructV)
			if !ok {
				bad("field of %T (%s)", v, t)
			}
			v = sv.F[i]
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		k(st, v)
	})
}

func (x *Exec) evUnary(a *act, e *ast.UnaryExpr, st *State, k K) {
	switch e.Op {
	case token.AND:
		if cl, ok := e.X.(*ast.CompositeLit); ok {
			x.ev(a, cl, st, func(st *State, v Value) {
				t := a.pkg.Info.Types[cl].Type
				k(st, &PtrV{Elem: t, Nil: False, LV: &LV{Cell: st.newCell(v, t)}})
			})
			return
		}
		t := a.pkg.Info.Types[e.X].Type
		x.lv(a, e.X, st, func(st *State, l *LV) {
			if o, ok := st.readLV(l).(*ObjV); ok {
				k(st, &PtrV{Elem: t, Nil: False, Val: o})
				return
			}
			k(st, &PtrV{Elem: t, Nil: False, LV: l})
		})
	case token.ARROW:
		x.ev(a, e.X, st, func(st *State, v Value) { x.chanRecv(st, v, e.Pos(), k) })
	default:
		x.ev(a, e.X, st, func(st *State, v Value) {
			t := v.(*Term)
			switch e.Op {
			case token.SUB:
				k(st, Neg(t))
			case token.ADD:
				k(st, t)
			case token.NOT:
				k(st, Not(t))
			default:
				bad("unary %s", e.Op)
			}
		})
	}
}

// pureBool evaluates e under assumption c; succeeds when there is exactly one outcome without effects.
func (x *Exec) evBinary(a *act, e *ast.BinaryExpr, st *State, k K) {
	if e.Op == token.LAND || e.Op == token.LOR {
		x.ev(a, e.X, st, func(st *State, lv Value) {
			l := lv.(*Term)
			c := l
			if e.Op == token.LOR {
				c = Not(l)
			}
			if c == False {
				k(st, l)
				return
			}
			if c == True {
				x.ev(a, e.Y, st, k)
				return
			}
			// try: single outcome without effects
			nobl := len(x.obls)
			sub := st.clone()
			n0 := len(sub.pc)
			sub.assume(c)
			type oc struct {
				st *State
				v  Value
			}
			var outs []oc
			x.ev(a, e.Y, sub, func(s *State, v Value) { outs = append(outs, oc{s, v}) })
			if len(outs) == 1 && sameEffects(st, outs[0].st) {
				s := outs[0].st
				r := outs[0].v.(*Term)
				for id, v := range s.cells {
					if _, ok := st.cells[id]; !ok {
						st.cells[id] = v
						st.ctyp[id] = s.ctyp[id]
					}
				}
				for id, v := range s.heap {
					if _, ok := st.heap[id]; !ok {
						st.heap[id] = v
					}
				}
				for _, f := range s.pc[n0:] {
					if f == c {
						continue
					}
					st.assume(Imp(c, f))
				}
				if e.Op == token.LAND {
					k(st, And(l, r))
				} else {
					k(st, Or(l, r))
				}
				return
			}
			x.obls = x.obls[:nobl]
			s1 := st.clone()
			s1.assume(Not(c))
			if !s1.stop {
				k(s1, B(e.Op == token.LOR))
			}
			st.assume(c)
			if !st.stop {
				x.ev(a, e.Y, st, k)
			}
		})
		return
	}
	x.ev(a, e.X, st, func(st *State, l Value) {
		x.ev(a, e.Y, st, func(st *State, r Value) {
			tx := a.pkg.Info.Types[e.X].Type
			k(st, x.binop(st, e.Op, l, r, tx, e.Pos()))
		})
	})
}

func sameEffects(a, b *State) bool {
	for id, v := range a.cells {
		if !sameVal(b.cells[id], v) {
			return false
		}
	}
	for id, v := range a.heap {
		if b.heap[id] != v {
			return false
		}
	}
	for id, v := range a.objs {
		if b.objs[id] != v {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Tag == y.Tag && x.Arr == y.Arr && x.Off == y.Off && x.Len == y.Len && x.Nil == y.Nil
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Nil != y.Nil {
			return false
		}
		if (x.LV == nil) != (y.LV == nil) {
			return false
		}
		if x.LV != nil {
			return sameLV(x.LV, y.LV)
		}
		return sameVal(x.Val, y.Val)
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return false
		}
		return strTerm(x) == strTerm(y)
	case *ObjV:
		y, ok := b.(*ObjV)
		return ok && x.ID == y.ID
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.Lit == y.Lit && x.Obj == y.Obj && x.Name == y.Name
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		for i := range x.V {
			if !sameVal(x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameLV(a, b *LV) bool {
	if a.Cell != b.Cell || a.Tag != b.Tag || a.Idx != b.Idx || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	return true
}

func isNilV(v Value) (*Term, bool) {
	switch y := v.(type) {
	case *SliceV:
		return y.Nil, true
	case *PtrV:
		return y.Nil, true
	case *Term:
		if y.Sort == SIfc {
			return Eq(y, nilIface), true
		}
	case *ObjV, *FuncV, *StructV:
		return False, true
	}
	return nil, false
}

// wholeTerm: the term a structure with slices was read from as a whole, if it was
func wholeTerm(v *StructV, st *State) *Term {
	slices := false
	var plain func(v Value) bool
	plain = func(v Value) bool {
		switch x := v.(type) {
		case *Term:
			return true
		case *StructV:
			for _, f := range x.F {
				if !plain(f) {
					return false
				}
			}
			return true
		case *SliceV:
			slices = true
			return x.Tag == 0 && x.Off.isZero()
		}
		return false
	}
	if v.Typ == nil || !plain(v) || !slices {
		return nil
	}
	if t := embed(v, v.Typ, st); t.Op != "mk" {
		return t
	}
	return nil
}

func eqV(a, b Value, st *State) *Term {
	if a == nilIface {
		if n, ok := isNilV(b); ok {
			return n
		}
	}
	if b == nilIface {
		if n, ok := isNilV(a); ok {
			return n
		}
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			if s, t := wholeTerm(p, st), wholeTerm(q, st); s != nil && t != nil && s.Sort == t.Sort {
				return Eq(s, t)
			}
			var cs []*Term
			for i := range p.F {
				cs = append(cs, eqV(p.F[i], q.F[i], st))
			}
			return And(cs...)
		}
	case *StrV:
		if q, ok := b.(*StrV); ok {
			return strEq(p, q)
		}
	case *PtrV:
		if q, ok := b.(*PtrV); ok {
			if p.LV != nil && q.LV != nil && sameLV(p.LV, q.LV) {
				return True
			}
			if p.LV == nil && q.LV == nil && p.Val != nil && q.Val != nil {
				// snapshots (specifications only): equal targets
				return And(Eq(p.Nil, q.Nil), Imp(Not(p.Nil), eqV(p.Val, q.Val, st)))
			}
			return freshT("ptreq", SBool)
		}
	case *SliceV:
		if q, ok := b.(*SliceV); ok { // specifications only: same header and contents
			return And(Eq(p.Len, q.Len), Eq(p.Nil, q.Nil), Eq(st.contents(p), st.contents(q)))
		}
	}
	bad("comparison of %T and %T", a, b)
	return nil
}

func strEq(p, q *StrV) *Term {
	p, q = normStr(p), normStr(q)
	lp, okp := litOf(p)
	lq, okq := litOf(q)
	if okp && okq {
		return B(lp == lq)
	}
	return Eq(strTerm(p), strTerm(q))
}
func litOf(p *StrV) (string, bool) {
	p = normStr(p)
	if len(p.Parts) == 0 {
		return "", true
	}
	if len(p.Parts) == 1 && p.Parts[0].Kind == 'l' {
		return p.Parts[0].Lit, true
	}
	return "", false
}

func (x *Exec) binop(st *State, op token.Token, l, r Value, t types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return eqV(l, r, st)
	case token.NEQ:
		return Not(eqV(l, r, st))
	}
	if s, ok := l.(*StrV); ok {
		q, ok2 := r.(*StrV)
		if op == token.ADD && ok2 {
			return normStr(&StrV{Parts: append(append([]StrPart{}, s.Parts...), q.Parts...)})
		}
		return freshT("strcmp", SBool)
	}
	a, ok1 := l.(*Term)
	b, ok2 := r.(*Term)
	if !ok1 || !ok2 {
		bad("operator %s on %T and %T", op, l, r)
	}
	isInt := false
	if t != nil {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			isInt = true
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedFloat {
			isInt = false
		}
	}
	if isInt && (a.Sort == SReal || b.Sort == SReal) {
		isInt = false
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		x.oblige(st, Not(Eq(b, NumR(new(big.Rat), b.Sort))), "div", "divisor is not zero", pos)
		if isInt {
			return IDiv(a, b)
		}
		return Div(a, b)
	case token.REM:
		x.oblige(st, Not(Eq(b, IntT(0))), "div", "divisor is not zero", pos)
		return IMod(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.LAND:
		return And(a, b)
	case token.LOR:
		return Or(a, b)
	}
	bad("operator %s", op)
	return nil
}

func (x *Exec) evSlice(a *act, e *ast.SliceExpr, st *State, k K) {
	x.ev(a, e.X, st, func(st *State, b Value) {
		opt := func(ex ast.Expr, st *State, def *Term, k func(*State, *Term)) {
			if ex == nil {
				k(st, def)
				return
			}
			x.ev(a, ex, st, func(st *State, v Value) { k(st, v.(*Term)) })
		}
		if s, ok := b.(*StrV); ok {
			n := strLen(s)
			opt(e.Low, st, IntT(0), func(st *State, lo *Term) {
				opt(e.High, st, n, func(st *State, hi *Term) {
					x.oblige(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), "bounds", "slice bounds", e.Pos())
					if st.stop {
						return
					}
					r := App("substr", SStr, strTerm(s), lo, hi)
					st.assume(Eq(App("strlen", SInt, r), Sub(hi, lo)))
					k(st, &StrV{Parts: []StrPart{{Kind: 'o', T: r}}})
				})
			})
			return
		}
		if pt, ok := b.(*PtrV); ok {
			b = x.deref(st, pt, e.Pos())
		}
		s, ok := b.(*SliceV)
		if !ok {
			bad("slicing %T", b)
		}
		opt(e.Low, st, IntT(0), func(st *State, lo *Term) {
			opt(e.High, st, s.Len, func(st *State, hi *Term) {
				x.oblige(st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, s.Len)), "bounds", "slice bounds", e.Pos())
				if st.stop {
					return
				}
				n := *s
				n.Off = Add(s.Off, lo)
				n.Len = Sub(hi, lo)
				k(st, &n)
			})
		})
	})
}

func (x *Exec) evComposite(a *act, e *ast.CompositeLit, st *State, k K) {
	t := a.pkg.Info.Types[e].Type
	if p, ok := t.Underlying().(*types.Pointer); ok { // &T elided in literals
		t = p.Elem()
		x.evCompositeT(a, e, t, st, func(st *State, v Value) {
			k(st, &PtrV{Elem: t, Nil: False, LV: &LV{Cell: st.newCell(v, t)}})
		})
		return
	}
	x.evCompositeT(a, e, t, st, k)
}

func (x *Exec) evCompositeT(a *act, e *ast.CompositeLit, t types.Type, st *State, k K) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isRepoType(t) {
			k(st, freshT("lit_"+san(tname(t)), SIfc))
			return
		}
		v := &StructV{Typ: t}
		idx := []int{}
		es := []ast.Expr{}
		set := map[int]bool{}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						idx = append(idx, j)
						set[j] = true
					}
				}
				es = append(es, kv.Value)
			} else {
				idx = append(idx, i)
				set[i] = true
				es = append(es, el)
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if set[i] {
				v.F = append(v.F, nil)
			} else {
				v.F = append(v.F, zeroV(u.Field(i).Type(), st))
			}
		}
		x.evList(a, es, st, func(st *State, vs []Value) {
			n := &StructV{Typ: t, F: append([]Value{}, v.F...)}
			for i, j := range idx {
				n.F[j] = x.conv(vs[i], u.Field(j).Type(), st)
			}
			k(st, n)
		})
	case *types.Slice:
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				bad("keyed slice literal")
			}
		}
		x.evList(a, e.Elts, st, func(st *State, vs []Value) {
			arr := Var("nilarr_"+sortOf(t).Name, SArr(sortOf(u.Elem())))
			for i, v := range vs {
				arr = Store(arr, IntT(int64(i)), embed(x.conv(v, u.Elem(), st), u.Elem(), st))
			}
			k(st, &SliceV{Elem: u.Elem(), Tag: st.newTag(arr), Off: IntT(0), Len: IntT(int64(len(vs))), Nil: False})
		})
	default:
		bad("composite literal of %s", t)
	}
}

// conv adapts a value to a static type (nil literals, int constants to reals).
func (x *Exec) conv(v Value, t types.Type, st *State) Value {
	if tm, ok := v.(*Term); ok {
		if tm == nilIface {
			switch t.Underlying().(type) {
			case *types.Slice, *types.Pointer:
				return zeroV(t, st)
			}
			return v
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return ToReal(tm)
		}
	}
	if sv, ok := v.(*StructV); ok {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return boxV(sv, sv.Typ, st)
		}
	}
	return v
}

// ------------------------------------------------------------- places

func (x *Exec) lv(a *act, e ast.Expr, st *State, k func(*State, *LV)) {
	if st.stop {
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.lv(a, e.X, st, k)
	case *ast.Ident:
		o := a.pkg.Info.Uses[e]
		if o == nil {
			o = a.pkg.Info.Defs[e]
		}
		c, ok := st.env[o]
		if !ok {
			bad("assignment to or address of package variable %s", e.Name)
		}
		k(st, &LV{Cell: c})
	case *ast.StarExpr:
		x.ev(a, e.X, st, func(st *State, v Value) {
			p, ok := v.(*PtrV)
			if !ok || p.LV == nil {
				bad("write through pointer without known target")
			}
			x.oblige(st, Not(p.Nil), "nil", "nil dereference", e.Pos())
			k(st, p.LV)
		})
	case *ast.SelectorExpr:
		sel, ok := a.pkg.Info.Selections[e]
		if !ok {
			bad("assignment to package variable %s", e.Sel.Name)
		}
		t := a.pkg.Info.Types[e.X].Type
		fin := func(st *State, l *LV) {
			tt := t
			if p, ok := tt.Underlying().(*types.Pointer); ok {
				tt = p.Elem()
			}
			for n, i := range sel.Index() {
				if n > 0 {
					if _, ok := tt.Underlying().(*types.Pointer); ok {
						pv, ok := st.readLV(l).(*PtrV)
						if !ok || pv.LV == nil {
							bad("write through embedded pointer")
						}
						l = pv.LV
						tt = tt.Underlying().(*types.Pointer).Elem()
					}
				}
				l = l.sel(LSel{Field: i})
				tt = tt.Underlying().(*types.Struct).Field(i).Type()
			}
			k(st, l)
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			x.ev(a, e.X, st, func(st *State, v Value) {
				p, ok := v.(*PtrV)
				if !ok || p.LV == nil {
					bad("write through pointer without known target")
				}
				x.oblige(st, Not(p.Nil), "nil", "nil dereference", e.Pos())
				if st.stop {
					return
				}
				fin(st, p.LV)
			})
			return
		}
		if !x.addressable(a, e.X) {
			// temporary: materialise
			x.ev(a, e.X, st, func(st *State, v Value) {
				fin(st, &LV{Cell: st.newCell(v, t)})
			})
			return
		}
		x.lv(a, e.X, st, fin)
	case *ast.IndexExpr:
		x.ev(a, e.X, st, func(st *State, b Value) {
			x.ev(a, e.Index, st, func(st *State, iv Value) {
				i := iv.(*Term)
				switch s := b.(type) {
				case *SliceV:
					x.oblige(st, And(Le(IntT(0), i), Lt(i, s.Len)), "bounds", "index in range", e.Pos())
					if st.stop {
						return
					}
					if s.Tag != 0 {
						k(st, &LV{Tag: s.Tag, Idx: Add(s.Off, i), Elem: s.Elem})
						return
					}
					if !x.addressable(a, e.X) {
						bad("write through a slice returned by value")
					}
					if _, ok := e.X.(*ast.Ident); ok {
						bad("write through a copied nested slice")
					}
					x.lv(a, e.X, st, func(st *State, l *LV) { k(st, l.sel(LSel{Idx: i})) })
				default:
					x.lv(a, e.X, st, func(st *State, l *LV) { k(st, l.sel(LSel{Idx: i, Arr: true})) })
				}
			})
		})
	case *ast.CompositeLit, *ast.CallExpr:
		t := a.pkg.Info.Types[e.(ast.Expr)].Type
		x.ev(a, e.(ast.Expr), st, func(st *State, v Value) { k(st, &LV{Cell: st.newCell(v, t)}) })
	default:
		bad("place %T", e)
	}
}

func (x *Exec) addressable(a *act, e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addressable(a, e.X)
	case *ast.Ident, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.SelectorExpr:
		if _, ok := a.pkg.Info.Types[e.X].Type.Underlying().(*types.Pointer); ok {
			return true
		}
		return x.addressable(a, e.X)
	}
	return false
}

// ------------------------------------------------------------- statements

func (x *Exec) block(a *act, ss []ast.Stmt, st *State, c *ctl, k func(*State)) {
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if st.stop {
			return
		}
		if i == len(ss) {
			k(st)
			return
		}
		x.stmt(a, ss[i], "", st, c, func(st *State) { rec(i+1, st) })
	}
	rec(0, st)
}

func (x *Exec) declare(st *State, o types.Object, v Value) {
	st.env[o] = st.newCell(v, o.Type())
}

func (x *Exec) stmt(a *act, s ast.Stmt, label string, st *State, c *ctl, k func(*State)) {
	if st.stop {
		return
	}
	x.posStk = s.Pos()
	switch s := s.(type) {
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.block(a, s.List, st, c, k)
	case *ast.LabeledStmt:
		x.stmt(a, s.Stmt, s.Label.Name, st, c, k)
	case *ast.ExprStmt:
		if id, ok := s.X.(*ast.Ident); ok && id.Name == "_" {
			k(st)
			return
		}
		x.ev(a, s.X, st, func(st *State, v Value) { k(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(gd.Specs) {
				k(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := a.pkg.Info.Defs[n]; o != nil {
						x.declare(st, o, x.zeroVar(o.Type(), st))
					}
				}
				rec(i+1, st)
				return
			}
			x.evList(a, vs.Values, st, func(st *State, vals []Value) {
				vals = flatten(vals)
				for j, n := range vs.Names {
					if o := a.pkg.Info.Defs[n]; o != nil {
						x.declare(st, o, x.conv(vals[j], o.Type(), st))
					}
				}
				rec(i+1, st)
			})
		}
		rec(0, st)
	case *ast.AssignStmt:
		x.assign(a, s, st, k)
	case *ast.IncDecStmt:
		x.lv(a, s.X, st, func(st *State, l *LV) {
			v := st.readLV(l).(*Term)
			d := int64(1)
			if s.Tok == token.DEC {
				d = -1
			}
			st.writeLV(l, Add(v, IntT(d)))
			k(st)
		})
	case *ast.IfStmt:
		run := func(st *State) {
			x.cond(a, s.Cond, st, func(st *State) {
				x.block(a, s.Body.List, st, c, k)
			}, func(st *State) {
				if s.Else == nil {
					k(st)
				} else {
					x.stmt(a, s.Else, "", st, c, k)
				}
			})
		}
		if s.Init != nil {
			x.stmt(a, s.Init, "", st, c, run)
		} else {
			run(st)
		}
	case *ast.SwitchStmt:
		x.switchStmt(a, s, label, st, c, k)
	case *ast.ForStmt:
		x.forStmt(a, s, label, st, c, k)
	case *ast.RangeStmt:
		x.rangeStmt(a, s, label, st, c, k)
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			var vs []Value
			for _, o := range a.res {
				vs = append(vs, st.cells[st.env[o]])
			}
			a.ret(st, vs)
			return
		}
		x.evList(a, s.Results, st, func(st *State, vs []Value) {
			a.ret(st, flatten(vs))
		})
	case *ast.BranchStmt:
		t := c
		switch s.Tok {
		case token.BREAK:
			for t != nil && (t.brk == nil || s.Label != nil && t.label != s.Label.Name) {
				t = t.up
			}
			if t == nil {
				bad("break")
			}
			t.brk(st)
		case token.CONTINUE:
			for t != nil && (t.cont == nil || s.Label != nil && t.label != s.Label.Name) {
				t = t.up
			}
			if t == nil {
				bad("continue")
			}
			t.cont(st)
		default:
			bad("%s statement", s.Tok)
		}
	case *ast.DeferStmt:
		// closing files at the end is not modelled
		if sel, ok := s.Call.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Close" {
			x.assumed["deferred Close of a file is ignored"] = true
			k(st)
			return
		}
		bad("defer")
	case *ast.SendStmt:
		x.ev(a, s.Chan, st, func(st *State, ch Value) {
			x.ev(a, s.Value, st, func(st *State, v Value) {
				x.chanSend(a, st, ch, v, s.Pos())
				k(st)
			})
		})
	case *ast.GoStmt:
		bad("go statement")
	default:
		bad("statement %T", s)
	}
}

func (x *Exec) zeroVar(t types.Type, st *State) Value { return zeroV(t, st) }

func flatten(vs []Value) []Value {
	if len(vs) == 1 {
		if t, ok := vs[0].(*TupleV); ok {
			return t.V
		}
	}
	return vs
}

// cond evaluates a condition, forking at && and || so that each branch has a conjunction of simple facts.
func (x *Exec) cond(a *act, e ast.Expr, st *State, yes, no func(*State)) {
	if p, ok := e.(*ast.ParenExpr); ok {
		x.cond(a, p.X, st, yes, no)
		return
	}
	x.ev(a, e, st, func(st *State, v Value) {
		t := v.(*Term)
		s2 := st.clone()
		st.assume(t)
		tr := x.prog.pos(e.Pos())
		if !st.stop && x.feasible(st) {
			st.trace = append(st.trace, tr+":T")
			yes(st)
		}
		s2.assume(Not(t))
		if !s2.stop && x.feasible(s2) {
			s2.trace = append(s2.trace, tr+":F")
			no(s2)
		}
	})
}

// feasible drops paths whose condition is contradictory on its face.
func (x *Exec) feasible(st *State) bool {
	if len(st.pc) == 0 {
		return true
	}
	last := st.pc[len(st.pc)-1]
	neg := Not(last)
	for _, p := range st.pc[:len(st.pc)-1] {
		if p == neg {
			return false
		}
	}
	return true
}

func (x *Exec) switchStmt(a *act, s *ast.SwitchStmt, label string, st *State, c *ctl, k func(*State)) {
	cc := &ctl{brk: k, label: label, up: c}
	run := func(st *State, tag Value, tagT types.Type) {
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if st.stop {
				return
			}
			if i == len(s.Body.List) {
				for _, cl := range s.Body.List {
					if cl.(*ast.CaseClause).List == nil {
						x.block(a, cl.(*ast.CaseClause).Body, st, cc, k)
						return
					}
				}
				k(st)
				return
			}
			cl := s.Body.List[i].(*ast.CaseClause)
			for _, b := range cl.Body {
				if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					bad("fallthrough")
				}
			}
			if cl.List == nil {
				rec(i+1, st)
				return
			}
			x.evList(a, cl.List, st, func(st *State, vs []Value) {
				var ors []*Term
				for _, v := range vs {
					if tag == nil {
						ors = append(ors, v.(*Term))
					} else {
						ors = append(ors, eqV(tag, v, st))
					}
				}
				t := Or(ors...)
				s2 := st.clone()
				st.assume(t)
				if !st.stop && x.feasible(st) {
					st.trace = append(st.trace, x.prog.pos(cl.Pos())+":case")
					x.block(a, cl.Body, st, cc, k)
				}
				s2.assume(Not(t))
				if !s2.stop && x.feasible(s2) {
					rec(i+1, s2)
				}
			})
		}
		rec(0, st)
	}
	start := func(st *State) {
		if s.Tag == nil {
			run(st, nil, nil)
			return
		}
		x.ev(a, s.Tag, st, func(st *State, v Value) { run(st, v, a.pkg.Info.Types[s.Tag].Type) })
	}
	if s.Init != nil {
		x.stmt(a, s.Init, "", st, c, start)
	} else {
		start(st)
	}
}

func (x *Exec) assign(a *act, s *ast.AssignStmt, st *State, k func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE { // op=
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}[s.Tok]
		if op == 0 {
			bad("assignment %s", s.Tok)
		}
		x.lv(a, s.Lhs[0], st, func(st *State, l *LV) {
			x.ev(a, s.Rhs[0], st, func(st *State, v Value) {
				r := x.binop(st, op, st.readLV(l), v, a.pkg.Info.Types[s.Lhs[0]].Type, s.Pos())
				if st.stop {
					return
				}
				st.writeLV(l, r)
				k(st)
			})
		})
		return
	}
	if s.Tok == token.DEFINE {
		x.evList(a, s.Rhs, st, func(st *State, vs []Value) {
			vs = flatten(vs)
			for i, l := range s.Lhs {
				id := l.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if o := a.pkg.Info.Defs[id]; o != nil {
					x.declare(st, o, x.conv(vs[i], o.Type(), st))
				} else if o := a.pkg.Info.Uses[id]; o != nil {
					st.writeLV(&LV{Cell: st.env[o]}, x.conv(vs[i], o.Type(), st))
				}
			}
			k(st)
		})
		return
	}
	// plain assignment: places first
	var rec func(i int, st *State, ls []*LV)
	rec = func(i int, st *State, ls []*LV) {
		if st.stop {
			return
		}
		if i < len(s.Lhs) {
			if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				rec(i+1, st, append(append([]*LV{}, ls...), nil))
				return
			}
			x.lv(a, s.Lhs[i], st, func(st *State, l *LV) {
				rec(i+1, st, append(append([]*LV{}, ls...), l))
			})
			return
		}
		x.evList(a, s.Rhs, st, func(st *State, vs []Value) {
			vs = flatten(vs)
			for i, l := range ls {
				if l == nil {
					continue
				}
				st.writeLV(l, x.conv(vs[i], a.pkg.Info.Types[s.Lhs[i]].Type, st))
			}
			k(st)
		})
	}
	rec(0, st, nil)
}

func sortedTags(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

var _ = fmt.Sprintf
var _ = strings.Join
