package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// A loop is cut at its head: the entry state is checked against the invariants, the head state is
// the entry state with everything the body may change made arbitrary, and every path through the
// body is checked to re-establish the invariants. Invariants are candidates: from the contract
// (`cand`) and a few built in; those that are not inductive are dropped (Houdini).

type loopDesc struct {
	node   ast.Node
	label  string
	act    *act
	cond   func(a *act, st *State, yes, no func(*State))
	body   func(a *act, st *State, c *ctl, k func(*State)) // body and post statement; k at the end
	hidden int                                             // cell of the hidden index
	relax  func(st *State) *Term                           // relaxed loop condition, or nil
	pos    token.Pos
}

type modset struct {
	keys  map[string]bool
	tags  map[string]int          // allocated loop tags
	links map[string]map[int]bool // tags to link
	heap  map[int]bool
	objs  map[int]bool
	cemb  map[int]bool
	temb  map[int]bool
	glink map[[2]int]bool
}

func newModset() *modset {
	return &modset{keys: map[string]bool{}, tags: map[string]int{}, links: map[string]map[int]bool{}, heap: map[int]bool{}, objs: map[int]bool{}, cemb: map[int]bool{}, temb: map[int]bool{}, glink: map[[2]int]bool{}}
}

func (m *modset) size() int {
	n := len(m.keys) + len(m.heap) + len(m.objs) + len(m.cemb) + len(m.temb) + len(m.glink)
	for _, l := range m.links {
		n += len(l)
	}
	return n
}

func (m *modset) has(prefix string) bool {
	for k := range m.keys {
		if k == prefix || strings.HasPrefix(k, prefix+".") {
			return true
		}
	}
	return false
}

// diffV records where e differs from h.
func (m *modset) diffV(path string, h, e Value, hs, es *State) {
	if h == e {
		return
	}
	switch a := h.(type) {
	case *StructV:
		b, ok := e.(*StructV)
		if !ok || len(a.F) != len(b.F) {
			bad("loop changes the shape of a variable")
		}
		for i := range a.F {
			m.diffV(fmt.Sprintf("%s.%d", path, i), a.F[i], b.F[i], hs, es)
		}
	case *SliceV:
		b, ok := e.(*SliceV)
		if !ok {
			bad("loop changes the shape of a variable")
		}
		if a.Tag != b.Tag || a.Tag == 0 && a.Arr != b.Arr {
			m.keys[path+".tag"] = true
			if a.Tag != 0 || b.Tag != 0 {
				m.keys[path+".tagged"] = true
			}
			if m.links[path] == nil {
				m.links[path] = map[int]bool{}
			}
			if b.Tag != 0 {
				for t := range hs.heap {
					if t == b.Tag || es.grp(t) == es.grp(b.Tag) {
						m.links[path][t] = true
					}
				}
				if es.tagEmb[b.Tag] {
					m.keys[path+".emb"] = true
				}
			} else if b.Nil != True && !b.Len.isZero() {
				m.keys[path+".emb"] = true
			}
			if a.Tag == 0 && a.Nil != True && !a.Len.isZero() {
				m.keys[path+".emb"] = true
			}
		}
		if a.Off != b.Off {
			m.keys[path+".off"] = true
		}
		if a.Len != b.Len {
			m.keys[path+".len"] = true
		}
		if a.Nil != b.Nil {
			m.keys[path+".nil"] = true
		}
	case *PtrV:
		b, ok := e.(*PtrV)
		if !ok {
			bad("loop changes the shape of a variable")
		}
		if (a.LV == nil) != (b.LV == nil) || a.LV != nil && !sameLV(a.LV, b.LV) || a.LV == nil && !sameVal(a.Val, b.Val) {
			m.keys[path+".ptr"] = true
			for _, p := range []*PtrV{a, b} {
				if p.LV != nil {
					if p.LV.Tag != 0 {
						if _, ok := hs.heap[p.LV.Tag]; ok {
							m.temb[p.LV.Tag] = true
						}
					} else if _, ok := hs.cells[p.LV.Cell]; ok {
						m.cemb[p.LV.Cell] = true
					}
				}
			}
			return
		}
		if a.Nil != b.Nil {
			m.keys[path+".nil"] = true
		}
	case *Term:
		m.keys[path] = true
	case *StrV:
		if !sameVal(h, e) {
			m.keys[path] = true
		}
	default:
		if !sameVal(h, e) {
			bad("loop changes a %T", h)
		}
	}
}

func (m *modset) diff(h, e *State) {
	ids := make([]int, 0, len(h.cells))
	for id := range h.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		m.diffV(fmt.Sprintf("c%d", id), h.cells[id], e.cells[id], h, e)
	}
	for id, t := range h.heap {
		if e.heap[id] != t {
			m.heap[id] = true
		}
	}
	for id, t := range h.objs {
		if e.objs[id] != t {
			m.objs[id] = true
		}
	}
	for id := range e.cellEmb {
		if _, ok := h.cells[id]; ok && e.cellEmb[id] && !h.cellEmb[id] {
			m.cemb[id] = true
		}
	}
	for id := range e.tagEmb {
		if _, ok := h.heap[id]; ok && e.tagEmb[id] && !h.tagEmb[id] {
			m.temb[id] = true
		}
	}
	var tags []int
	for t := range h.heap {
		if _, ok := e.group[t]; ok {
			tags = append(tags, t)
		}
	}
	sort.Ints(tags)
	for i, t := range tags {
		for _, u := range tags[:i] {
			if e.grp(t) == e.grp(u) && h.grp(t) != h.grp(u) {
				m.glink[[2]int{u, t}] = true
			}
		}
	}
}

func (m *modset) gen(path string, v Value, t types.Type, st *State, hint string) Value {
	switch a := v.(type) {
	case *StructV:
		if !m.has(path) {
			return v
		}
		n := &StructV{Typ: a.Typ, F: append([]Value{}, a.F...)}
		for i := range a.F {
			var ft types.Type
			fh := fmt.Sprintf("%s.%d", hint, i)
			switch u := a.Typ.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
				fh = hint + "." + u.Field(i).Name()
			case *types.Array:
				ft = u.Elem()
			}
			n.F[i] = m.gen(fmt.Sprintf("%s.%d", path, i), a.F[i], ft, st, fh)
		}
		return n
	case *SliceV:
		if !m.has(path) {
			return v
		}
		n := *a
		if m.keys[path+".tag"] {
			so := SArr(sortOf(a.Elem))
			n.Off = IntT(0)
			n.Arr = nil
			n.Tag = 0
			n.Len = freshT(hint+".len", SInt)
			n.Nil = freshT(hint+".nil", SBool)
			if m.keys[path+".tagged"] {
				id := m.tags[path]
				if id == 0 {
					id = newID()
					m.tags[path] = id
				}
				n.Tag = id
				st.heap[id] = freshT(hint+".arr", so)
				for _, l := range sortedTags(m.links[path]) {
					if _, ok := st.heap[l]; ok && l != id {
						st.link(id, l)
					}
				}
				if m.keys[path+".emb"] {
					st.tagEmb[id] = true
				}
			} else {
				n.Arr = freshT(hint+".arr", so)
			}
		} else {
			if m.keys[path+".off"] {
				n.Off = freshT(hint+".off", SInt)
				st.assume(Le(IntT(0), n.Off))
			}
			if m.keys[path+".len"] {
				n.Len = freshT(hint+".len", SInt)
			}
			if m.keys[path+".nil"] {
				n.Nil = freshT(hint+".nil", SBool)
			}
		}
		st.assume(Le(IntT(0), n.Len))
		st.assume(Imp(n.Nil, Eq(n.Len, IntT(0))))
		return &n
	case *PtrV:
		if m.keys[path+".ptr"] {
			p := &PtrV{Elem: a.Elem, Nil: freshT(hint+".isnil", SBool)}
			if isRepoType(a.Elem) {
				// a snapshot: nothing may write through it
				p.Val = unembed(freshT(hint+".val", sortOf(a.Elem)), a.Elem, st)
			} else {
				p.Val = freshT(hint+".val", SIfc)
			}
			return p
		}
		if m.keys[path+".nil"] {
			n := *a
			n.Nil = freshT(hint+".isnil", SBool)
			return &n
		}
		return v
	case *Term:
		if m.keys[path] {
			if t != nil && sortOf(t) == a.Sort && t.Underlying() != nil {
				if _, ok := t.Underlying().(*types.Basic); ok {
					return freshV(t, hint, st)
				}
			}
			return freshT(hint, a.Sort)
		}
		return v
	case *StrV:
		if m.keys[path] {
			return &StrV{Parts: []StrPart{{Kind: 'o', T: freshT(hint, SStr)}}}
		}
		return v
	}
	return v
}

func cellName(st *State, id int) string {
	for o, c := range st.env {
		if c == id {
			return o.Name()
		}
	}
	return "cell"
}

func (m *modset) havoc(st *State) *State {
	h := st.clone()
	// heaps first, so that links see them
	var hs []int
	for id := range m.heap {
		if _, ok := h.heap[id]; ok {
			hs = append(hs, id)
		}
	}
	sort.Ints(hs)
	for _, id := range hs {
		h.heap[id] = freshT("heap", h.heap[id].Sort)
	}
	var ids []int
	for id := range st.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		h.cells[id] = m.gen(fmt.Sprintf("c%d", id), h.cells[id], h.ctyp[id], h, cellName(st, id))
	}
	var os []int
	for id := range m.objs {
		os = append(os, id)
	}
	sort.Ints(os)
	for _, id := range os {
		if _, ok := h.objs[id]; ok {
			h.objs[id] = havocObj(h.objs[id], h)
		}
	}
	for id := range m.cemb {
		h.cellEmb[id] = true
	}
	for id := range m.temb {
		h.tagEmb[id] = true
	}
	var gl [][2]int
	for g := range m.glink {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i][0] < gl[j][0] || gl[i][0] == gl[j][0] && gl[i][1] < gl[j][1] })
	for _, g := range gl {
		_, ok1 := h.heap[g[0]]
		_, ok2 := h.heap[g[1]]
		if ok1 && ok2 {
			h.link(g[0], g[1])
		}
	}
	return h
}

func deadCtl(c *ctl) *ctl {
	if c == nil {
		return nil
	}
	n := &ctl{label: c.label, up: deadCtl(c.up)}
	if c.brk != nil {
		n.brk = func(*State) {}
	}
	if c.cont != nil {
		n.cont = func(*State) {}
	}
	return n
}

// iterate runs one iteration from h and collects the states that come back to the head.
func (x *Exec) iterate(l *loopDesc, h *State, c *ctl) []*State {
	var ends []*State
	a2 := *l.act
	a2.ret = func(*State, []Value) {}
	end := func(st *State) {
		if !st.stop {
			ends = append(ends, st)
		}
	}
	stk := x.stack
	l.cond(&a2, h, func(st *State) {
		st.depth++
		cc := &ctl{brk: func(*State) {}, label: l.label, up: deadCtl(c)}
		cc.cont = end
		l.body(&a2, st, cc, end)
	}, func(*State) {})
	x.stack = stk
	return ends
}

func (x *Exec) modified(l *loopDesc, st *State, c *ctl) *modset {
	m := newModset()
	save := x.mode
	nobl := len(x.obls)
	x.mode = mDry
	defer func() { x.mode = save; x.obls = x.obls[:nobl] }()
	for round := 0; ; round++ {
		if round > 12 {
			bad("loop: modified set does not settle")
		}
		h := m.havoc(st)
		n := m.size()
		h0 := h.clone()
		for _, e := range x.iterate(l, h, c) {
			m.diff(h0, e)
		}
		if m.size() == n {
			return m
		}
	}
}

func (x *Exec) loop(l *loopDesc, st *State, c *ctl, k func(*State)) {
	if st.stop {
		return
	}
	m := x.modified(l, st, c)
	h := m.havoc(st)
	if x.mode != mDry {
		invs := x.houdini(l, st, m, h, c)
		for _, inv := range invs {
			if t := inv.at(x, h, st); t != nil {
				h.assume(t)
			}
		}
		if h.stop {
			return
		}
	}
	d := st.depth
	cc := &ctl{brk: func(s *State) { s.depth = d; k(s) }, label: l.label, up: c}
	cc.cont = func(*State) {}
	l.cond(l.act, h, func(s *State) {
		s.depth = d + 1
		l.body(l.act, s, cc, func(*State) {})
	}, k)
}

// ------------------------------------------------------------- candidates

type metaBind struct {
	name  string
	cell  int
	obj   types.Object // stable identity; nil: hidden index
	label string
}

type candInst struct {
	clause *Clause
	binds  []metaBind
	auto   func(x *Exec, h, entry *State) *Term
	desc   string
	names  map[string]Value
	hidden int
}

func (ci *candInst) at(x *Exec, st, entry *State) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				if x.verbose {
					fmt.Printf("    %v\n", u)
				}
				res = nil
				return
			}
			panic(r)
		}
	}()
	if ci.auto != nil {
		return ci.auto(x, st, entry)
	}
	bind := func(s *State) map[string]Value {
		n := map[string]Value{}
		for k, v := range x.names {
			n[k] = v
		}
		for _, b := range ci.binds {
			v, ok := s.cells[b.cell]
			if !ok {
				bad("binding")
			}
			n[b.name] = v
		}
		if s.parLoop != nil {
			// the number of the worker and the number of workers of the enclosing parallel loop
			n["wi_"] = s.cells[s.parLoop.hid]
			n["wn_"] = s.parLoop.wn
		}
		return n
	}
	env := &SEnv{x: x, names: bind(st), st: st, old: x.old, pkg: x.fn.Pkg, con: x.con}
	env.entry = &SEnv{x: x, names: bind(entry), st: entry, old: x.old, pkg: x.fn.Pkg, con: x.con}
	return env.boolean(ci.clause)
}

type scopeVar struct {
	name string
	cell int
	obj  types.Object
	mod  bool
	typ  types.Type
}

func (x *Exec) scope(l *loopDesc, st *State, m *modset) []scopeVar {
	var out []scopeVar
	if l.hidden != 0 {
		out = append(out, scopeVar{"#i", l.hidden, nil, true, types.Typ[types.Int]})
	}
	for cell, nd := range x.hid {
		if _, ok := st.cells[cell]; ok && cell != l.hidden && nd.Pos() <= l.pos && l.pos < nd.End() && nd != l.node {
			out = append(out, scopeVar{"#" + x.prog.pos(nd.Pos()), cell, nil, false, types.Typ[types.Int]})
		}
	}
	var lo, hi token.Pos
	if n := len(x.stack); n > 0 {
		lo, hi = x.stack[n-1].Decl.Pos(), x.stack[n-1].Decl.End()
	}
	isMod := func(id int) bool {
		if m.has(fmt.Sprintf("c%d", id)) {
			return true
		}
		v := st.cells[id]
		tags := map[int]bool{}
		collectTags(v, tags)
		for t := range tags {
			if m.heap[t] {
				return true
			}
		}
		if p, ok := v.(*PtrV); ok && p.LV != nil {
			if m.has(fmt.Sprintf("c%d", p.LV.Cell)) {
				return true
			}
			tags := map[int]bool{}
			if p.LV.Tag == 0 {
				collectTags(st.cells[p.LV.Cell], tags)
			}
			for t := range tags {
				if m.heap[t] {
					return true
				}
			}
		}
		if o, ok := v.(*ObjV); ok && m.objs[o.ID] {
			return true
		}
		if p, ok := v.(*PtrV); ok {
			if o, ok := p.Val.(*ObjV); ok && m.objs[o.ID] {
				return true
			}
		}
		return false
	}
	for o, id := range st.env {
		if _, ok := st.cells[id]; !ok {
			continue
		}
		mod := isMod(id)
		local := o.Pos() >= lo && o.Pos() <= hi
		if !mod && !local {
			continue
		}
		out = append(out, scopeVar{o.Name(), id, o, mod, o.Type()})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].cell < out[j].cell })
	return out
}

func (x *Exec) candidates(l *loopDesc, st *State, m *modset) []*candInst {
	vars := x.scope(l, st, m)
	var out []*candInst
	add := func(desc string, f func(x *Exec, h, e *State) *Term) {
		out = append(out, &candInst{auto: f, desc: desc})
	}
	for _, v := range vars {
		v := v
		if !v.mod {
			continue
		}
		switch st.cells[v.cell].(type) {
		case *Term:
			if st.cells[v.cell].(*Term).Sort != SInt {
				continue
			}
			if v.cell == l.hidden {
				continue
			}
			get := func(s *State) *Term { return s.cells[v.cell].(*Term) }
			add(v.name+" >= entry", func(x *Exec, h, e *State) *Term { return Le(get(e), get(h)) })
			add(v.name+" <= entry", func(x *Exec, h, e *State) *Term { return Le(get(h), get(e)) })
			add(v.name+" >= -1", func(x *Exec, h, e *State) *Term { return Le(IntT(-1), get(h)) })
			add(v.name+" >= 0", func(x *Exec, h, e *State) *Term { return Le(IntT(0), get(h)) })
			for _, w := range vars {
				w := w
				if w.mod && w.cell != v.cell {
					if t, ok := st.cells[w.cell].(*Term); ok && t.Sort == SInt && (w.cell == l.hidden) {
						add(v.name+" <= "+w.name, func(x *Exec, h, e *State) *Term { return Le(get(h), h.cells[w.cell].(*Term)) })
					}
				}
			}
		case *SliceV:
			get := func(s *State) *SliceV { return s.cells[v.cell].(*SliceV) }
			if !m.has(fmt.Sprintf("c%d", v.cell)) {
				continue // only contents change
			}
			add("len "+v.name+" >= entry", func(x *Exec, h, e *State) *Term { return Le(get(e).Len, get(h).Len) })
			add("prefix "+v.name, func(x *Exec, h, e *State) *Term {
				i := BVar("i", SInt)
				hv, ev := get(h), get(e)
				if ev.Len.isZero() {
					return nil
				}
				return And(Le(ev.Len, hv.Len), Forall([]*Term{i}, Imp(And(Le(IntT(0), i), Lt(i, ev.Len)), Eq(h.elemTerm(hv, i), e.elemTerm(ev, i))), []*Term{h.elemTerm(hv, i)}))
			})
			add("nil iff empty "+v.name, func(x *Exec, h, e *State) *Term { return Eq(get(h).Nil, Eq(get(h).Len, IntT(0))) })
			if l.hidden != 0 {
				add("len "+v.name+" == entry + #i", func(x *Exec, h, e *State) *Term {
					return Eq(get(h).Len, Add(get(e).Len, Sub(h.cells[l.hidden].(*Term), e.cells[l.hidden].(*Term))))
				})
				add("len "+v.name+" <= entry + #i", func(x *Exec, h, e *State) *Term {
					return Le(get(h).Len, Add(get(e).Len, Sub(h.cells[l.hidden].(*Term), e.cells[l.hidden].(*Term))))
				})
			} else {
				for _, w := range vars {
					w := w
					if t, ok := st.cells[w.cell].(*Term); w.mod && ok && t.Sort == SInt {
						add("len "+v.name+" == entry + "+w.name+" - entry", func(x *Exec, h, e *State) *Term {
							return Eq(get(h).Len, Add(get(e).Len, Sub(h.cells[w.cell].(*Term), e.cells[w.cell].(*Term))))
						})
						add("len "+v.name+" <= "+w.name, func(x *Exec, h, e *State) *Term {
							return Le(get(h).Len, h.cells[w.cell].(*Term))
						})
					}
				}
			}
		case *PtrV:
			if m.has(fmt.Sprintf("c%d", v.cell)) {
				add("not nil "+v.name, func(x *Exec, h, e *State) *Term { return Not(h.cells[v.cell].(*PtrV).Nil) })
			}
		}
	}
	x.machCands(m, st, add)
	if l.relax != nil {
		add("relaxed condition", func(x *Exec, h, e *State) *Term { return l.relax(h) })
	}
	if x.con == nil {
		return out
	}
	for _, cl := range x.con.Cands {
		if cl.Depth == "outer" && st.depth > 0 || cl.Depth == "nested" && st.depth == 0 {
			continue
		}
		var rec func(i int, binds []metaBind)
		rec = func(i int, binds []metaBind) {
			if i == len(cl.Meta) {
				if len(cl.Meta) > 0 {
					// at least one bound variable must be modified
				}
				out = append(out, &candInst{clause: cl, binds: append([]metaBind{}, binds...), desc: bindDesc(binds) + " " + cl.Label()})
				return
			}
			mv := cl.Meta[i]
			for _, v := range vars {
				if mv.Mode == "mod" && !v.mod {
					continue
				}
				if mv.Mode == "const" && v.mod {
					continue
				}
				dup := false
				for _, b := range binds {
					if b.cell == v.cell {
						dup = true
					}
				}
				if dup {
					continue
				}
				if mv.Type == "idx" {
					if t, ok := st.cells[v.cell].(*Term); !ok || t.Sort != SInt {
						continue
					}
				} else {
					if v.obj == nil {
						continue
					}
					env := &SEnv{x: x, pkg: x.con.Pkg}
					want := env.typeOf(mv.Type)
					if !types.Identical(want, v.typ) {
						continue
					}
				}
				rec(i+1, append(binds, metaBind{mv.Name, v.cell, v.obj, v.name}))
			}
		}
		rec(0, nil)
	}
	return out
}

func bindDesc(bs []metaBind) string {
	var r []string
	for _, b := range bs {
		n := "#i"
		if b.obj != nil {
			n = b.obj.Name()
		} else if b.label != "" {
			n = b.label
		}
		r = append(r, b.name+"="+n)
	}
	return strings.Join(r, ",")
}

// loopKey identifies a loop on a path: stable across repeated executions.
func (x *Exec) loopKey(l *loopDesc, st *State) string {
	return x.prog.pos(l.pos) + "|" + strings.Join(st.trace, ",")
}

func (x *Exec) houdini(l *loopDesc, st *State, m *modset, h0 *State, c *ctl) []*candInst {
	key := x.loopKey(l, st)
	var cands []*candInst
	if keep, ok := x.loopKeep[key]; ok {
		for _, ci := range x.candidates(l, st, m) {
			if keep[ci.desc] {
				cands = append(cands, ci)
			}
		}
	} else {
		cands = x.candidates(l, st, m)
		// entry
		var qs []hq
		var cs []*candInst
		for _, ci := range cands {
			t := ci.at(x, st, st)
			if t == nil || ci.at(x, h0, st) == nil {
				if x.verbose {
					fmt.Printf("  [loop %s] not applicable: %s\n", x.prog.pos(l.pos), ci.desc)
				}
				continue
			}
			cs = append(cs, ci)
			qs = append(qs, hq{pc: st.pc, goal: t, ms: x.candTimeout(ci), desc: ci.desc, end: st, who: len(cs) - 1})
		}
		res := x.decide(cs, qs)
		cands = nil
		for i, ci := range cs {
			if res[i] {
				cands = append(cands, ci)
			} else if x.verbose {
				fmt.Printf("  [loop %s] fails at entry: %s\n", x.prog.pos(l.pos), ci.desc)
				if x.dumpCand != "" && strings.Contains(ci.desc, x.dumpCand) {
					fmt.Println(qs[i].goal)
				}
			}
		}
	}
	save := x.mode
	nobl := len(x.obls)
	x.mode = mHoudini
	defer func() { x.mode = save; x.obls = x.obls[:nobl] }()
	for round := 0; len(cands) > 0; round++ {
		h := m.havoc(st)
		for _, ci := range cands {
			if t := ci.at(x, h, st); t != nil {
				h.assume(t)
			}
		}
		if h.stop {
			break
		}
		ends := x.iterate(l, h, c)
		var qs []hq
		var who []int
		failed := map[int]bool{}
		for _, e := range ends {
			for i, ci := range cands {
				t := ci.at(x, e, st)
				if t == nil {
					failed[i] = true
					continue
				}
				if t == True {
					continue
				}
				qs = append(qs, hq{pc: e.pc, goal: t, ms: x.candTimeout(ci), desc: ci.desc, end: e, who: i})
				who = append(who, i)
			}
		}
		res := x.decide(cands, qs)
		for i, r := range res {
			if !r {
				if x.verbose && !failed[who[i]] {
					fmt.Printf("  [loop %s] not preserved (round %d): %s\n", x.prog.pos(l.pos), round, cands[who[i]].desc)
				}
				failed[who[i]] = true
			}
		}
		if len(failed) == 0 {
			x.stats["loop invariants"] += len(cands)
			x.stats["loop invariant obligations"] += len(qs)
			break
		}
		var next []*candInst
		for i, ci := range cands {
			if !failed[i] {
				next = append(next, ci)
			}
		}
		cands = next
	}
	keep := map[string]bool{}
	for _, ci := range cands {
		keep[ci.desc] = true
		if x.verbose && save == mFinal {
			fmt.Printf("  [loop %s] invariant: %s\n", x.prog.pos(l.pos), ci.desc)
		}
	}
	x.loopKeep[key] = keep
	return cands
}

// decide answers which candidates hold where the queries say: first with the quick back ends, then,
// for what failed, with all of them. What the contract's candidates establish in a state serves as a
// hypothesis for the others there.
func (x *Exec) decide(cands []*candInst, qs []hq) []bool {
	res := x.solver.batch(x, qs)
	retry := func(full bool) bool {
		known := map[*State][]*Term{}
		for i, q := range qs {
			if res[i] && q.end != nil && cands[q.who].auto == nil {
				known[q.end] = append(known[q.end], q.goal)
			}
		}
		var again []hq
		var idx []int
		for i, q := range qs {
			if res[i] {
				continue
			}
			if cands[q.who].auto == nil && len(known[q.end]) > 0 {
				q.pc = append(append([]*Term{}, q.pc...), known[q.end]...)
			} else if !full {
				continue
			}
			q.full = full
			again = append(again, q)
			idx = append(idx, i)
		}
		if full {
			// a clause one reading of which already holds: the other readings get little time
			bad := map[int]bool{}
			for i, q := range qs {
				if !res[i] {
					bad[q.who] = true
				}
			}
			fine := map[*Clause]bool{}
			for i, c := range cands {
				if c.clause != nil && !bad[i] {
					fine[c.clause] = true
				}
			}
			for i := range again {
				if c := cands[again[i].who].clause; c != nil && fine[c] && again[i].ms > 1000 {
					again[i].ms = 1000
				}
			}
		}
		ch := false
		for i, r := range x.solver.batch(x, again) {
			if r {
				res[idx[i]] = true
				ch = true
			}
		}
		return ch
	}
	for retry(false) {
	}
	for retry(true) {
		for retry(false) {
		}
	}
	return res
}

func (x *Exec) candTimeout(ci *candInst) int {
	if ci.auto != nil {
		return 800
	}
	if x.con != nil && x.con.Args["candtimeout"] != "" {
		var n int
		fmt.Sscan(x.con.Args["candtimeout"], &n)
		return n
	}
	return 4000
}

// ------------------------------------------------------------- for

func (x *Exec) forStmt(a *act, s *ast.ForStmt, label string, st *State, c *ctl, k func(*State)) {
	run := func(st *State) {
		l := &loopDesc{node: s, label: label, act: a, pos: s.Pos()}
		l.cond = func(a *act, st *State, yes, no func(*State)) {
			if s.Cond == nil {
				yes(st)
				return
			}
			x.cond(a, s.Cond, st, yes, no)
		}
		l.body = func(a *act, st *State, cc *ctl, k func(*State)) {
			post := func(st *State) {
				if s.Post == nil {
					k(st)
					return
				}
				x.stmt(a, s.Post, "", st, nil, k)
			}
			c2 := *cc
			c2.cont = post
			x.block(a, s.Body.List, st, &c2, post)
		}
		if b, ok := s.Cond.(*ast.BinaryExpr); ok {
			l.relax = x.relaxCond(a, b)
		}
		x.loop(l, st, c, k)
	}
	if s.Init != nil {
		x.stmt(a, s.Init, "", st, c, run)
	} else {
		run(st)
	}
}

func (x *Exec) relaxCond(a *act, b *ast.BinaryExpr) func(st *State) *Term {
	if b.Op == token.LAND {
		if l, ok := b.X.(*ast.BinaryExpr); ok {
			return x.relaxCond(a, l)
		}
		return nil
	}
	if b.Op != token.LSS && b.Op != token.GTR && b.Op != token.NEQ {
		return nil
	}
	return func(st *State) *Term {
		save := x.mode
		n := len(x.obls)
		x.mode = mDry
		defer func() { x.mode = save; x.obls = x.obls[:n] }()
		var l, r *Term
		cnt := 0
		x.ev(a, b.X, st.clone(), func(s *State, v Value) {
			x.ev(a, b.Y, s, func(s *State, w Value) {
				cnt++
				l, _ = v.(*Term)
				r, _ = w.(*Term)
			})
		})
		if cnt != 1 || l == nil || r == nil || l.Sort != SInt || r.Sort != SInt {
			return nil
		}
		if b.Op == token.GTR {
			return Le(r, l)
		}
		return Le(l, r)
	}
}

func (x *Exec) rangeStmt(a *act, s *ast.RangeStmt, label string, st *State, c *ctl, k func(*State)) {
	x.ev(a, s.X, st, func(st *State, v Value) {
		if _, ok := a.pkg.Info.Types[s.X].Type.Underlying().(*types.Chan); ok {
			p, ok := v.(*PtrV)
			if !ok {
				bad("range over a channel")
			}
			x.rangeChan(a, s, label, st, p, c, k)
			return
		}
		var n *Term
		var elem func(st *State, i *Term) Value
		switch sv := v.(type) {
		case *SliceV:
			n = sv.Len
			elem = func(st *State, i *Term) Value { return unembed(st.elemTerm(sv, i), sv.Elem, st) }
		case *StructV: // small array
			n = IntT(int64(len(sv.F)))
		case *Term:
			if sv.Sort == SInt {
				n = sv
			} else {
				bad("range over %s", sv.Sort.Name)
			}
		default:
			bad("range over %T", v)
		}
		get := func(e ast.Expr) types.Object {
			if e == nil {
				return nil
			}
			id, ok := e.(*ast.Ident)
			if !ok {
				bad("range variable")
			}
			if id.Name == "_" {
				return nil
			}
			if s.Tok == token.DEFINE {
				return a.pkg.Info.Defs[id]
			}
			return a.pkg.Info.Uses[id]
		}
		ko, vo := get(s.Key), get(s.Value)
		if s.Tok == token.DEFINE {
			// one variable for all iterations (go 1.12)
			if ko != nil {
				x.declare(st, ko, IntT(0))
			}
			if vo != nil {
				x.declare(st, vo, zeroV(vo.Type(), st))
			}
		}
		setv := func(st *State, i *Term) {
			if ko != nil {
				st.writeLV(&LV{Cell: st.env[ko]}, i)
			}
			if vo != nil {
				st.writeLV(&LV{Cell: st.env[vo]}, elem(st, i))
			}
		}
		// short known lengths are unrolled
		if sv, ok := v.(*StructV); ok || n.isNum() && n.Num.Num().Int64() <= 4 {
			cnt := n.Num.Num().Int64()
			var rec func(i int64, st *State)
			rec = func(i int64, st *State) {
				if st.stop {
					return
				}
				if i == cnt {
					k(st)
					return
				}
				if ok {
					if ko != nil {
						st.writeLV(&LV{Cell: st.env[ko]}, IntT(i))
					}
					if vo != nil {
						st.writeLV(&LV{Cell: st.env[vo]}, sv.F[i])
					}
				} else {
					setv(st, IntT(i))
				}
				next := func(st *State) { rec(i+1, st) }
				x.block(a, s.Body.List, st, &ctl{brk: k, cont: next, label: label, up: c}, next)
			}
			rec(0, st)
			return
		}
		hid := st.newCell(IntT(0), types.Typ[types.Int])
		x.hid[hid] = s
		l := &loopDesc{node: s, label: label, act: a, pos: s.Pos(), hidden: hid}
		l.cond = func(a *act, st *State, yes, no func(*State)) {
			i := st.cells[hid].(*Term)
			// the hidden index runs from 0 to n by construction
			st.assumeWF(And(Le(IntT(0), i), Le(i, n)))
			st.assumeWF(Le(IntT(0), i))
			st.assumeWF(Le(i, n))
			s2 := st.clone()
			st.assume(Lt(i, n))
			if !st.stop && x.feasible(st) {
				st.trace = append(st.trace, x.prog.pos(s.Pos())+":iter")
				yes(st)
			}
			s2.assume(Le(n, i))
			s2.assume(Eq(i, n))
			if !s2.stop && x.feasible(s2) {
				s2.trace = append(s2.trace, x.prog.pos(s.Pos())+":end")
				no(s2)
			}
		}
		l.body = func(a *act, st *State, cc *ctl, k func(*State)) {
			i := st.cells[hid].(*Term)
			setv(st, i)
			post := func(st *State) {
				st.cells[hid] = Add(i, IntT(1))
				k(st)
			}
			c2 := *cc
			c2.cont = post
			x.block(a, s.Body.List, st, &c2, post)
		}
		x.loop(l, st, c, k)
	})
}
