package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) evCall(a *act, e *ast.CallExpr, st *State, k K) {
	info := a.pkg.Info
	fun := e.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if tv := info.Types[fun]; tv.IsType() {
		x.ev(a, e.Args[0], st, func(st *State, v Value) { k(st, x.convert(st, v, info.Types[e.Args[0]].Type, tv.Type)) })
		return
	}
	if tv := info.Types[fun]; tv.IsBuiltin() {
		name := ""
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		x.builtin(a, name, e, st, k)
		return
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if s, ok := info.Selections[sel]; ok && s.Kind() == types.MethodVal {
			x.methodCall(a, e, sel, s, st, k)
			return
		}
	}
	x.ev(a, fun, st, func(st *State, fv Value) {
		f, ok := fv.(*FuncV)
		if !ok {
			bad("call of %T", fv)
		}
		var sig *types.Signature
		if tv, ok := info.Types[fun]; ok {
			sig, _ = tv.Type.Underlying().(*types.Signature)
		}
		x.evArgs(a, e, sig, st, func(st *State, args []Value) {
			x.apply(a, f, args, st, e, k)
		})
	})
}

func (x *Exec) evArgs(a *act, e *ast.CallExpr, sig *types.Signature, st *State, k func(*State, []Value)) {
	x.evList(a, e.Args, st, func(st *State, vs []Value) {
		vs = flatten(vs)
		if sig == nil {
			k(st, vs)
			return
		}
		n := sig.Params().Len()
		out := []Value{}
		for i := 0; i < n; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == n-1 {
				if e.Ellipsis.IsValid() {
					out = append(out, vs[i])
					break
				}
				et := pt.(*types.Slice).Elem()
				if sortOf(et) == SIfc { // ...interface{}: keep the values
					out = append(out, &TupleV{V: append([]Value{}, vs[min(i, len(vs)):]...)})
					break
				}
				arr := Var("nilarr_"+sortOf(pt).Name, SArr(sortOf(et)))
				for j, v := range vs[i:] {
					arr = Store(arr, IntT(int64(j)), embed(x.conv(v, et, st), et, st))
				}
				out = append(out, &SliceV{Elem: et, Tag: st.newTag(arr), Off: IntT(0), Len: IntT(int64(len(vs) - i)), Nil: B(len(vs) == i)})
				break
			}
			out = append(out, x.conv(vs[i], pt, st))
		}
		k(st, out)
	})
}

func (x *Exec) methodCall(a *act, e *ast.CallExpr, sel *ast.SelectorExpr, s *types.Selection, st *State, k K) {
	f := s.Obj().(*types.Func)
	sig := f.Type().(*types.Signature)
	recvT := sig.Recv().Type()
	_, ptrRecv := recvT.Underlying().(*types.Pointer)
	if types.IsInterface(recvT.Underlying()) {
		ptrRecv = false
	}
	xt := a.pkg.Info.Types[sel.X].Type
	fin := func(st *State, recv Value) {
		x.evArgs(a, e, sig, st, func(st *State, args []Value) {
			x.apply(a, &FuncV{Obj: f, Decl: x.prog.ByObj[f], Recv: recv}, args, st, e, k)
		})
	}
	path := s.Index()
	path = path[:len(path)-1]
	_, xptr := xt.Underlying().(*types.Pointer)
	if ptrRecv {
		if xptr && len(path) == 0 {
			x.ev(a, sel.X, st, func(st *State, v Value) { fin(st, v) })
			return
		}
		if xptr {
			bad("promoted pointer method through pointer")
		}
		if !x.addressable(a, sel.X) {
			bad("pointer method on temporary")
		}
		x.lv(a, sel.X, st, func(st *State, l *LV) {
			t := xt
			for _, i := range path {
				l = l.sel(LSel{Field: i})
				t = t.Underlying().(*types.Struct).Field(i).Type()
			}
			if o, ok := st.readLV(l).(*ObjV); ok {
				fin(st, &PtrV{Elem: t, Nil: False, Val: o})
				return
			}
			fin(st, &PtrV{Elem: t, Nil: False, LV: l})
		})
		return
	}
	x.ev(a, sel.X, st, func(st *State, v Value) {
		t := xt
		for _, i := range path {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				v = x.deref(st, v, e.Pos())
				if st.stop {
					return
				}
				t = pt.Elem()
			}
			v = v.(*StructV).F[i]
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && !types.IsInterface(recvT.Underlying()) {
			_ = pt
			v = x.deref(st, v, e.Pos())
			if st.stop {
				return
			}
		}
		fin(st, v)
	})
}

func funcKey(f *types.Func) string {
	if f.Pkg() == nil {
		return f.Name()
	}
	sig := f.Type().(*types.Signature)
	p := f.Pkg().Path()
	if strings.HasPrefix(p, modPath) {
		p = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return p + "." + f.Name()
}

// apply calls a function value.
func (x *Exec) apply(a *act, f *FuncV, args []Value, st *State, e *ast.CallExpr, k K) {
	if st.stop {
		return
	}
	if f.Lit != nil {
		x.callLit(f, args, st, k)
		return
	}
	if f.Obj == nil {
		if f.Name != "" {
			x.callOpaque(f, args, st, k)
			return
		}
		bad("call of unknown function")
	}
	key := funcKey(f.Obj)
	all := args
	if f.Obj.Type().(*types.Signature).Recv() != nil {
		all = append([]Value{f.Recv}, args...)
	}
	if x.con != nil {
		for _, cl := range x.con.AtCalls {
			if cl.Call == key {
				x.atCall(a, cl, all, st, e.Pos())
				if st.stop {
					return
				}
			}
		}
	}
	if x.con != nil && hasWord(x.con.Args["opaquecalls"], key) {
		x.opaqueCall(key, f.Obj.Type().(*types.Signature), all, st, k)
		return
	}
	c := x.db.Contracts[key]
	if c == nil && f.Decl == nil { // external function: the contract is written under the package's name
		if c = x.db.Contracts[key[strings.LastIndex(key, "/")+1:]]; c != nil && !c.Attrs["trusted"] {
			c = nil
		}
	}
	if c != nil {
		if c.Attrs["farm"] {
			x.farmCall(a, all, st, e, k)
			return
		}
		if c.Attrs["par"] {
			x.parFor(a, all, st, e, k)
			return
		}
		x.applyContract(c, f.Obj, all, st, e.Pos(), k)
		return
	}
	if f.Decl != nil {
		x.inline(f.Decl, all, st, k)
		return
	}
	x.libCall(a, key, f, all, st, e, k)
}

// linkResult: the slices in the result may share their contents with those of the arguments
func linkResult(v Value, args []Value, st *State) {
	tags := map[int]bool{}
	collectTags(v, tags)
	atags := map[int]bool{}
	for _, a := range args {
		collectTags(a, atags)
		if p, ok := a.(*PtrV); ok && p.LV != nil {
			collectTags(st.readLV(p.LV), atags)
		}
	}
	for _, t := range sortedTags(tags) {
		for _, u := range sortedTags(atags) {
			if st.heap[t].Sort == st.heap[u].Sort {
				st.link(t, u)
			}
		}
	}
}

// opaqueCall: the results are unknown functions of the arguments; what the contract says may be modified is unknown
func (x *Exec) opaqueCall(key string, sig *types.Signature, all []Value, st *State, k K) {
	x.assumed["calls of "+key+" in "+x.fn.Key+" return a function of their arguments (same arguments, same results)"] = true
	env := &SEnv{x: x, st: st, pkg: x.fn.Pkg}
	var ts []*Term
	for _, v := range all {
		ts = append(ts, env.flat(v, "")...)
	}
	if c := x.db.Contracts[key]; c != nil && len(c.Modifies) > 0 {
		names := map[string]Value{}
		for i, p := range c.Params {
			names[p] = all[i]
		}
		cenv := &SEnv{x: x, names: names, st: st, old: st, pkg: c.Pkg, con: c}
		for _, m := range c.Modifies {
			x.havocSpec(st, cenv, m)
		}
	}
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		nm := "call_" + key
		if i > 0 {
			nm += fmt.Sprintf("#%d", i)
		}
		t := sig.Results().At(i).Type()
		r := unembed(App(nm, sortOf(t), ts...), t, st)
		if s, ok := r.(*SliceV); ok && s.Tag == 0 { // the contents may be written later
			r = &SliceV{Elem: s.Elem, Tag: st.newTag(s.Arr), Off: s.Off, Len: s.Len, Nil: s.Nil}
			if c := x.db.Contracts[key]; c == nil || !c.Attrs["fresh"] {
				linkResult(r, all, st)
			}
		}
		rs = append(rs, r)
	}
	k(st, pack(rs))
}

// atCall: an obligation of the function under contract at a call of another one
func (x *Exec) atCall(a *act, cl *Clause, all []Value, st *State, pos token.Pos) {
	if len(cl.Pars) != len(all) {
		bad("atcall %s: %d names for %d arguments", cl.Call, len(cl.Pars), len(all))
	}
	names := map[string]Value{}
	for k, v := range x.names {
		names[k] = v
	}
	for i, p := range cl.Pars {
		names[p] = all[i]
	}
	env := &SEnv{x: x, names: names, st: st, old: x.old, pkg: x.con.Pkg, con: x.con}
	x.oblige(st, env.boolean(cl), "call", cl.Label(), pos)
}

func (x *Exec) callLit(f *FuncV, args []Value, st *State, k K) {
	lit := f.Lit.(*ast.FuncLit)
	sig := f.Pkg.Info.Types[lit].Type.(*types.Signature)
	na := &act{pkg: f.Pkg}
	i := 0
	for _, fl := range lit.Type.Params.List {
		for _, n := range fl.Names {
			if o := f.Pkg.Info.Defs[n]; o != nil && n.Name != "_" {
				x.declare(st, o, x.conv(args[i], o.Type(), st))
			}
			i++
		}
		if len(fl.Names) == 0 {
			i++
		}
	}
	if lit.Type.Results != nil {
		for _, fl := range lit.Type.Results.List {
			for _, n := range fl.Names {
				if o := f.Pkg.Info.Defs[n]; o != nil {
					x.declare(st, o, zeroV(o.Type(), st))
					na.res = append(na.res, o)
				}
			}
		}
	}
	na.ret = func(st *State, vs []Value) { k(st, pack(convAll(x, vs, sig.Results(), st))) }
	x.block(na, lit.Body.List, st, nil, func(st *State) {
		var vs []Value
		for _, o := range na.res {
			vs = append(vs, st.cells[st.env[o]])
		}
		na.ret(st, vs)
	})
}

func convAll(x *Exec, vs []Value, t *types.Tuple, st *State) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = v
		if t != nil && i < t.Len() {
			out[i] = x.conv(v, t.At(i).Type(), st)
		}
	}
	return out
}

func pack(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return &TupleV{V: vs}
}

func (x *Exec) bindParams(fn *Func, na *act, args []Value, st *State) {
	i := 0
	bind := func(fl *ast.Field) {
		if len(fl.Names) == 0 {
			i++
		}
		for _, n := range fl.Names {
			o := fn.Pkg.Info.Defs[n]
			if o != nil && n.Name != "_" {
				x.declare(st, o, x.conv(args[i], o.Type(), st))
			}
			i++
		}
	}
	if fn.Decl.Recv != nil {
		for _, fl := range fn.Decl.Recv.List {
			bind(fl)
		}
	}
	for _, fl := range fn.Decl.Type.Params.List {
		bind(fl)
	}
	if fn.Decl.Type.Results != nil {
		for _, fl := range fn.Decl.Type.Results.List {
			for _, n := range fl.Names {
				if o := fn.Pkg.Info.Defs[n]; o != nil {
					x.declare(st, o, zeroV(o.Type(), st))
					na.res = append(na.res, o)
				}
			}
		}
	}
}

func (x *Exec) inline(fn *Func, args []Value, st *State, k K) {
	if len(x.stack) > 14 {
		bad("inlining too deep at %s", fn.Key)
	}
	for _, s := range x.stack {
		if s == fn {
			bad("recursive function %s needs a contract", fn.Key)
		}
	}
	x.inlined[fn.Key] = true
	x.stack = append(append([]*Func{}, x.stack...), fn)
	na := &act{pkg: fn.Pkg, fn: fn}
	x.bindParams(fn, na, args, st)
	sig := fn.Obj.Type().(*types.Signature)
	depth := len(x.stack)
	na.ret = func(st *State, vs []Value) {
		save := x.stack
		x.stack = x.stack[: depth-1 : depth-1]
		k(st, pack(convAll(x, vs, sig.Results(), st)))
		x.stack = save
	}
	x.block(na, fn.Decl.Body.List, st, nil, func(st *State) {
		var vs []Value
		for _, o := range na.res {
			vs = append(vs, st.cells[st.env[o]])
		}
		na.ret(st, vs)
	})
	x.stack = x.stack[:depth-1]
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	tb, _ := to.Underlying().(*types.Basic)
	switch t := v.(type) {
	case *Term:
		if tb == nil {
			return x.conv(v, to, st)
		}
		if t.Sort == SIfc {
			return t
		}
		switch {
		case tb.Info()&types.IsFloat != 0:
			r := ToReal(t)
			if tb.Kind() == types.Float32 {
				if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.Float32 {
					return r
				}
				x.libs["float32 rounding (uninterpreted function f32)"] = true
				return App("f32", SReal, r)
			}
			return r
		case tb.Info()&types.IsInteger != 0:
			if t.Sort == SReal {
				fl := ToIntFloor(t)
				if t.Op == "toreal" || t.isNum() && t.Num.IsInt() {
					return fl
				}
				if t.Op == "neg" && t.Args[0].Op == "toreal" {
					return Neg(t.Args[0].Args[0])
				}
				if t.Op == "ite" {
					return Ite(t.Args[0], x.convert(st, t.Args[1], from, to).(*Term), x.convert(st, t.Args[2], from, to).(*Term))
				}
				return Ite(Le(ToReal(IntT(0)), t), fl, Neg(ToIntFloor(Neg(t))))
			}
			return t
		case tb.Info()&types.IsString != 0:
			return &StrV{Parts: []StrPart{{Kind: 'o', T: App("stringof_"+t.Sort.Name, SStr, t)}}}
		}
		return t
	case *SliceV:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return &StrV{Parts: []StrPart{{Kind: 'o', T: App("bytes2str", SStr, embed(t, to, st))}}}
		}
		return v
	case *StructV:
		n := *t
		n.Typ = to
		return &n
	}
	return v
}

func (x *Exec) builtin(a *act, name string, e *ast.CallExpr, st *State, k K) {
	switch name {
	case "len", "cap":
		x.ev(a, e.Args[0], st, func(st *State, v Value) {
			switch s := v.(type) {
			case *SliceV:
				if name == "cap" {
					c := freshT("cap", SInt)
					st.assume(Le(s.Len, c))
					k(st, c)
					return
				}
				k(st, s.Len)
			case *StrV:
				k(st, strLen(s))
			case *StructV:
				k(st, IntT(int64(len(s.F))))
			default:
				bad("len of %T", v)
			}
		})
	case "append":
		x.evList(a, e.Args, st, func(st *State, vs []Value) {
			s, ok := x.conv(vs[0], a.pkg.Info.Types[e].Type, st).(*SliceV)
			if !ok {
				bad("append to %T", vs[0])
			}
			if e.Ellipsis.IsValid() {
				if tt, ok := x.conv(vs[1], a.pkg.Info.Types[e].Type, st).(*SliceV); ok {
					k(st, x.appendSlice(st, s, tt))
					return
				}
				bad("append of %T...", vs[1])
			}
			k(st, x.appendElems(st, s, vs[1:]))
		})
	case "copy":
		x.evList(a, e.Args, st, func(st *State, vs []Value) {
			d, ok1 := vs[0].(*SliceV)
			s, ok2 := vs[1].(*SliceV)
			if !ok1 || !ok2 {
				bad("copy of %T", vs[1])
			}
			if d.Tag == 0 {
				bad("copy into a slice held by value")
			}
			if st.tagEmb[d.Tag] {
				bad("copy into slice contents stored elsewhere")
			}
			n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
			if d.Len == s.Len && d.Off.isZero() {
				n = d.Len
				st.heap[d.Tag] = st.contents(s)
			} else {
				w := freshT("copied", st.heap[d.Tag].Sort)
				old := st.heap[d.Tag]
				i := BVar("i", SInt)
				in := And(Le(d.Off, i), Lt(i, Add(d.Off, n)))
				st.assume(Forall([]*Term{i}, Eq(Select(w, i), Ite(in, st.elemTerm(s, Sub(i, d.Off)), Select(old, i))), []*Term{Select(w, i)}))
				st.heap[d.Tag] = w
			}
			st.clobberGroup(d.Tag)
			k(st, n)
		})
	case "make":
		t := a.pkg.Info.Types[e].Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			x.evList(a, e.Args[1:], st, func(st *State, vs []Value) {
				n := vs[0].(*Term)
				x.oblige(st, Le(IntT(0), n), "bounds", "make length is not negative", e.Pos())
				if st.stop {
					return
				}
				z := embed(zeroV(u.Elem(), st), u.Elem(), st)
				k(st, &SliceV{Elem: u.Elem(), Tag: st.newTag(ConstArr(SArr(sortOf(u.Elem())), z)), Off: IntT(0), Len: n, Nil: False})
			})
		case *types.Chan:
			x.evList(a, e.Args[1:], st, func(st *State, vs []Value) {
				k(st, x.newChan(st, u.Elem(), vs))
			})
		default:
			bad("make %s", t)
		}
	case "print", "println":
		x.evList(a, e.Args, st, func(st *State, vs []Value) { k(st, &TupleV{}) })
	case "panic":
		x.evList(a, e.Args, st, func(st *State, vs []Value) {
			x.oblige(st, False, "panic", "panic is unreachable", e.Pos())
		})
	case "new":
		t := a.pkg.Info.Types[e].Type.Underlying().(*types.Pointer).Elem()
		k(st, &PtrV{Elem: t, Nil: False, LV: &LV{Cell: st.newCell(zeroV(t, st), t)}})
	case "close":
		x.evList(a, e.Args, st, func(st *State, vs []Value) {
			x.chanClose(st, vs[0])
			k(st, &TupleV{})
		})
	default:
		bad("builtin %s", name)
	}
}

// otherViews returns the live slices that may share memory with s at and beyond its end.
func (x *Exec) growInPlace(st *State, s *SliceV, f func(old *Term) *Term) {
	if s.Tag == 0 {
		return
	}
	for _, t := range st.liveTags(s.Tag) {
		st.heap[t] = f(st.heap[t])
	}
	// other headers on the same tag: only if some live slice header with this tag reaches beyond
	n := 0
	var walk func(v Value)
	walk = func(v Value) {
		switch y := v.(type) {
		case *SliceV:
			if y.Tag == s.Tag && !(y.Len == s.Len && y.Off == s.Off) {
				n++
			}
		case *StructV:
			for _, f := range y.F {
				walk(f)
			}
		case *PtrV:
			if y.LV != nil && y.LV.Tag == s.Tag {
				n++
			}
		}
	}
	for _, v := range st.cells {
		walk(v)
	}
	if n > 0 {
		st.heap[s.Tag] = f(st.heap[s.Tag])
	}
}

func (x *Exec) appendElems(st *State, s *SliceV, vs []Value) *SliceV {
	if len(vs) == 0 {
		return s
	}
	arr := st.contents(s)
	var ts []*Term
	for i, v := range vs {
		t := embed(x.conv(v, s.Elem, st), s.Elem, st)
		ts = append(ts, t)
		arr = Store(arr, Add(s.Len, IntT(int64(i))), t)
	}
	x.growInPlace(st, s, func(old *Term) *Term {
		b := freshT("inplace", SBool)
		n := old
		for i, t := range ts {
			n = Store(n, Add(s.Off, Add(s.Len, IntT(int64(i)))), t)
		}
		return Ite(b, n, old)
	})
	r := &SliceV{Elem: s.Elem, Tag: st.newTag(arr), Off: IntT(0), Len: Add(s.Len, IntT(int64(len(vs)))), Nil: False}
	if s.Tag != 0 && s.Off.isZero() {
		st.link(r.Tag, s.Tag)
	} else if s.Tag != 0 {
		// different base: any later write to either clobbers the other
		st.link(r.Tag, s.Tag)
	}
	return r
}

func (x *Exec) appendSlice(st *State, s, t *SliceV) *SliceV {
	if t.Len.isNum() && t.Len.Num.IsInt() && t.Len.Num.Num().Int64() <= 4 {
		var vs []Value
		for i := int64(0); i < t.Len.Num.Num().Int64(); i++ {
			vs = append(vs, unembed(st.elemTerm(t, IntT(i)), s.Elem, st))
		}
		if len(vs) == 0 {
			return s
		}
		return x.appendElems(st, s, vs)
	}
	sa, ta := st.contents(s), st.contents(t)
	if s.Len.isZero() {
		r := &SliceV{Elem: s.Elem, Tag: st.newTag(ta), Off: IntT(0), Len: t.Len, Nil: And(s.Nil, Eq(t.Len, IntT(0)))}
		x.growInPlace(st, s, func(old *Term) *Term { return freshT("grown", old.Sort) })
		if s.Tag != 0 {
			st.link(r.Tag, s.Tag)
		}
		return r
	}
	w := freshT("appended", sa.Sort)
	i := BVar("i", SInt)
	n := Add(s.Len, t.Len)
	// one clause per part, so that instantiation stays simple
	st.assume(Forall([]*Term{i}, Imp(And(Le(IntT(0), i), Lt(i, s.Len)), Eq(Select(w, i), Select(sa, i))), []*Term{Select(w, i)}))
	st.assume(Forall([]*Term{i}, Imp(And(Le(s.Len, i), Lt(i, n)), Eq(Select(w, i), Select(ta, Sub(i, s.Len)))), []*Term{Select(w, i)}))
	j := BVar("j", SInt)
	st.assume(Forall([]*Term{j}, Imp(And(Le(IntT(0), j), Lt(j, t.Len)), Eq(Select(w, Add(s.Len, j)), Select(ta, j))), []*Term{Select(ta, j)}))
	st.assume(Forall([]*Term{j}, Imp(And(Le(IntT(0), j), Lt(j, s.Len)), Eq(Select(w, j), Select(sa, j))), []*Term{Select(sa, j)}))
	x.growInPlace(st, s, func(old *Term) *Term {
		f := freshT("grown", old.Sort)
		i := BVar("i", SInt)
		lo := Add(s.Off, s.Len)
		st.assume(Forall([]*Term{i}, Imp(Or(Lt(i, lo), Le(Add(lo, t.Len), i)), Eq(Select(f, i), Select(old, i))), []*Term{Select(f, i)}))
		return f
	})
	r := &SliceV{Elem: s.Elem, Tag: st.newTag(w), Off: IntT(0), Len: n, Nil: And(s.Nil, Eq(t.Len, IntT(0)))}
	if s.Tag != 0 {
		st.link(r.Tag, s.Tag)
	}
	return r
}

// ------------------------------------------------------------- contracts at call sites

func (x *Exec) applyContract(c *Contract, f *types.Func, args []Value, st *State, pos token.Pos, k K) {
	x.used[c.Key] = true
	sig := f.Type().(*types.Signature)
	if len(c.Params) != len(args) {
		bad("contract of %s has %d parameters, call has %d", c.Key, len(c.Params), len(args))
	}
	if c.Iface != nil && len(c.Iface.Requires) > 0 {
		bad("direct call of %s, which is specified through its interface", c.Key)
	}
	names := map[string]Value{}
	for i, p := range c.Params {
		names[p] = args[i]
	}
	env := &SEnv{x: x, names: names, st: st, old: st, pkg: c.Pkg, con: c}
	for _, r := range c.Requires {
		g := env.boolean(r)
		x.oblige(st, g, "pre", fmt.Sprintf("%s requires %s", c.Key, r.Label()), pos)
		if st.stop {
			return
		}
	}
	for _, r := range c.Emits { // proof duties towards interface contracts etc
		_ = r
	}
	old := st.clone()
	env.old = old
	for _, m := range c.Modifies {
		x.havocSpec(st, env, m)
	}
	if c.Ghost != nil {
		c.Ghost(x, st, args)
	}
	var results []Value
	for i := 0; i < sig.Results().Len(); i++ {
		nm := fmt.Sprintf("%s.r%d", c.Key, i)
		var v Value
		if i < len(c.Returns) && c.Returns[i] != nil {
			renv := *env
			v = x.conv(renv.eval(c.Returns[i].Expr), sig.Results().At(i).Type(), st)
		} else {
			v = freshV(sig.Results().At(i).Type(), nm, st)
			if !c.Attrs["fresh"] {
				linkResult(v, args, st)
			}
		}
		results = append(results, v)
		if i < len(c.Results) {
			names[c.Results[i]] = v
		}
	}
	env.st = st
	for _, r := range c.Assumes {
		x.assumed["assumed at calls of "+c.Key+": "+r.Src] = true
		st.assume(env.boolean(r))
	}
	for _, r := range c.Ensures {
		st.assume(env.boolean(r))
		if st.stop {
			return
		}
	}
	if st.stop {
		return
	}
	k(st, pack(results))
}

func (x *Exec) havocSpec(st *State, env *SEnv, m *Clause) {
	// forms: p[*]  contents of a slice;  *p  pointee;  p.Field[*]
	src := strings.TrimSpace(m.Src)
	if strings.HasSuffix(src, "[*]") {
		v := env.eval(m.Expr)
		s, ok := v.(*SliceV)
		if !ok {
			bad("modifies %s: not a slice", src)
		}
		if s.Tag == 0 {
			if s.Nil == True || s.Len.isZero() {
				return
			}
			bad("call modifies the contents of a slice held by value")
		}
		if st.par != nil && st.par.tags[s.Tag] {
			bad("a worker calls a function that modifies a shared array")
		}
		if st.tagEmb[s.Tag] {
			bad("call modifies slice contents that were also stored elsewhere")
		}
		old := st.heap[s.Tag]
		w := freshT("mod", old.Sort)
		if !s.Off.isZero() {
			i := BVar("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(Or(Lt(i, s.Off), Le(Add(s.Off, s.Len), i)), Eq(Select(w, i), Select(old, i))), []*Term{Select(w, i)}))
		}
		st.heap[s.Tag] = w
		st.clobberGroup(s.Tag)
		return
	}
	v := env.eval(m.Expr)
	p, ok := v.(*PtrV)
	if !ok {
		bad("modifies %s: not a pointer", src)
	}
	if o, ok := p.Val.(*ObjV); ok {
		st.objs[o.ID] = havocObj(st.objs[o.ID], st)
		return
	}
	if p.LV == nil {
		bad("call modifies the target of a pointer held by value")
	}
	st.writeLV(p.LV, freshV(p.Elem, "mod", st))
}

func (x *Exec) callOpaque(f *FuncV, args []Value, st *State, k K) {
	bad("call of a function parameter %s", f.Name)
}

func hasWord(s, w string) bool {
	for _, f := range strings.Fields(s) {
		if f == w {
			return true
		}
	}
	return false
}
