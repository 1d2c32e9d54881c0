package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Channels, as far as a farm of workers uses them: one goroutine sends all jobs and closes the channel, workers
// turn every job into one result, and the results are received in any order. A channel is a pointer to the list of
// what was sent on it. A call of a function whose contract has the attribute `farm` starts the workers: the closure
// is verified on the spot, for an arbitrary job in an arbitrary iteration, to send exactly one result that satisfies
// every clause `atcall work.<Result>(job, result)` of the function under contract, and to write nothing that exists
// outside. Once the jobs are closed, the results are a list with the same clauses, a permutation of the jobs.

type chanInfo struct {
	elem   types.Type
	recv   int // cell: number of values received
	closed int // cell: closed
}

type farmInfo struct {
	in, out         int
	perm, inv, res  *Term
	inElem, outElem types.Type
	assumed         bool
}

type workerCtx struct {
	in, out int
	job     Value
	jobT    types.Type
	sent    int // cell: results sent in this iteration
	outElem types.Type
	cells   map[int]Value // what exists outside
	heap    map[int]*Term
}

func chanCell(v Value) int {
	p, ok := v.(*PtrV)
	if !ok || p.LV == nil || p.LV.Cell == 0 {
		bad("channel %T", v)
	}
	return p.LV.Cell
}

func (x *Exec) chanOf(c int) *chanInfo {
	i := x.chans[c]
	if i == nil {
		bad("unknown channel")
	}
	return i
}

func (x *Exec) newChan(st *State, t types.Type, vs []Value) Value {
	if len(vs) > 0 {
		x.oblige(st, Le(IntT(0), vs[0].(*Term)), "bounds", "capacity of a channel is not negative", x.posStk)
		if st.stop {
			return nilIface
		}
	}
	sl := types.NewSlice(t)
	i := &chanInfo{elem: t}
	c := st.newCell(zeroV(sl, st), sl)
	i.recv = st.newCell(IntT(0), types.Typ[types.Int])
	i.closed = st.newCell(False, types.Typ[types.Bool])
	if x.chans == nil {
		x.chans = map[int]*chanInfo{}
		x.farms = map[int]*farmInfo{}
	}
	x.chans[c] = i
	return &PtrV{Elem: sl, Nil: False, LV: &LV{Cell: c}}
}

func typeShort(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (x *Exec) chanClauses(kind string, t types.Type) []*Clause {
	var out []*Clause
	if x.con == nil {
		return nil
	}
	for _, cl := range x.con.AtCalls {
		if cl.Call == kind+"."+typeShort(t) {
			out = append(out, cl)
		}
	}
	return out
}

// clauseTerm evaluates a clause for the given values
func (x *Exec) clauseTerm(cl *Clause, all []Value, st *State) *Term {
	if len(cl.Pars) != len(all) {
		bad("%s: %d names for %d values", cl.Call, len(cl.Pars), len(all))
	}
	names := map[string]Value{}
	for k, v := range x.names {
		names[k] = v
	}
	for i, p := range cl.Pars {
		names[p] = all[i]
	}
	env := &SEnv{x: x, names: names, st: st, old: x.old, pkg: x.con.Pkg, con: x.con}
	return env.boolean(cl)
}

func (x *Exec) chanSend(a *act, st *State, ch, v Value, pos token.Pos) {
	c := chanCell(ch)
	i := x.chanOf(c)
	v = x.conv(v, i.elem, st)
	if w := x.worker; w != nil {
		if c == w.in || w.out != 0 && c != w.out || w.job == nil {
			bad("a worker sends on another channel than that of its results")
		}
		w.out, w.outElem = c, i.elem
		for _, cl := range x.chanClauses("work", i.elem) {
			x.oblige(st, x.clauseTerm(cl, []Value{w.job, v}, st), "call", cl.Label(), pos)
			if st.stop {
				return
			}
		}
		st.cells[w.sent] = Add(st.cells[w.sent].(*Term), IntT(1))
		return
	}
	x.oblige(st, Not(st.cells[i.closed].(*Term)), "chan", "no send on a closed channel", pos)
	if st.stop {
		return
	}
	s := st.cells[c].(*SliceV)
	for _, cl := range x.chanClauses("send", i.elem) {
		x.oblige(st, x.clauseTerm(cl, []Value{s.Len, v}, st), "call", cl.Label(), pos)
		if st.stop {
			return
		}
	}
	arr := Store(st.contents(s), s.Len, embed(v, i.elem, st))
	st.cells[c] = &SliceV{Elem: i.elem, Tag: st.newTag(arr), Off: IntT(0), Len: Add(s.Len, IntT(1)), Nil: False}
}

func (x *Exec) chanClose(st *State, v Value) {
	c := chanCell(v)
	i := x.chanOf(c)
	x.oblige(st, Not(st.cells[i.closed].(*Term)), "chan", "no channel is closed twice", x.posStk)
	if st.stop {
		return
	}
	st.cells[i.closed] = True
	for _, f := range x.farms {
		if f.in == c {
			x.farmFacts(f, st)
		}
	}
}

// farmFacts: what the workers make of the jobs, now that all are known
func (x *Exec) farmFacts(f *farmInfo, st *State) {
	s := st.cells[f.in].(*SliceV)
	i := BVar("i", SInt)
	in := And(Le(IntT(0), i), Lt(i, s.Len))
	pi, qi := Select(f.perm, i), Select(f.inv, i)
	ri := Select(f.res, i)
	st.assume(Forall([]*Term{i}, Imp(in, And(Le(IntT(0), pi), Lt(pi, s.Len), Eq(Select(f.inv, pi), i))), []*Term{pi}, []*Term{ri}))
	st.assume(Forall([]*Term{i}, Imp(in, And(Le(IntT(0), qi), Lt(qi, s.Len), Eq(Select(f.perm, qi), i))), []*Term{qi}, []*Term{st.elemTerm(s, i)}))
	job := unembed(st.elemTerm(s, pi), f.inElem, st)
	res := unembed(ri, f.outElem, st)
	for _, cl := range x.chanClauses("work", f.outElem) {
		st.assume(Forall([]*Term{i}, Imp(in, x.clauseTerm(cl, []Value{job, res}, st)), []*Term{ri}))
	}
	st.farmed = append(append([]int{}, st.farmed...), f.out)
}

func (x *Exec) chanRecv(st *State, v Value, pos token.Pos, k K) {
	c := chanCell(v)
	i := x.chanOf(c)
	f := x.farms[c]
	if f == nil || x.worker != nil {
		bad("receive from a channel without workers")
	}
	known := false
	for _, o := range st.farmed {
		known = known || o == c
	}
	if !known {
		bad("receive before the jobs are closed")
	}
	n := st.cells[i.recv].(*Term)
	x.oblige(st, Lt(n, st.cells[f.in].(*SliceV).Len), "chan", "there is a job for every result awaited", pos)
	if st.stop {
		return
	}
	st.cells[i.recv] = Add(n, IntT(1))
	k(st, unembed(Select(f.res, n), i.elem, st))
}

func (x *Exec) farmCall(a *act, all []Value, st *State, e *ast.CallExpr, k K) {
	if len(all) != 1 {
		bad("farm with %d arguments", len(all))
	}
	fv, ok := all[0].(*FuncV)
	if !ok || st.par != nil || x.worker != nil {
		bad("farm of %T", all[0])
	}
	if x.mode == mDry {
		bad("a farm started in a loop")
	}
	x.assumed["goroutines started for a channel of jobs take every job exactly once and run until the channel is closed; what they share with the sender is the channels alone (no deductive treatment of scheduling)"] = true
	w := &workerCtx{cells: map[int]Value{}, heap: map[int]*Term{}}
	for c, v := range st.cells {
		w.cells[c] = v
	}
	for t, v := range st.heap {
		w.heap[t] = v
	}
	sub := st.clone()
	wi, wn := freshT("wi", SInt), freshT("wn", SInt)
	sub.assume(And(Le(IntT(0), wi), Lt(wi, wn)))
	x.worker = w
	x.apply(a, fv, []Value{wi, wn}, sub, e, func(s2 *State, _ Value) { x.untouched(s2) })
	x.worker = nil
	if w.in == 0 || w.out == 0 {
		bad("workers without jobs or results")
	}
	ie, oe := x.chanOf(w.in).elem, x.chanOf(w.out).elem
	f := &farmInfo{in: w.in, out: w.out, inElem: ie, outElem: oe,
		perm: freshT("ticket", SArr(SInt)), inv: freshT("turn", SArr(SInt)), res: freshT("results", SArr(sortOf(oe)))}
	x.farms[w.out] = f
	k(st, &TupleV{})
}

// untouched: a worker changes nothing that exists outside it
func (x *Exec) untouched(st *State) {
	for c, v := range x.worker.cells {
		if st.cells[c] != v {
			bad("a worker writes a variable shared with others")
		}
	}
	for t, v := range x.worker.heap {
		if st.heap[t] != v {
			bad("a worker writes an array shared with others")
		}
	}
}

// rangeChan: the loop of a worker over its jobs
func (x *Exec) rangeChan(a *act, s *ast.RangeStmt, label string, st *State, ch *PtrV, c *ctl, k func(*State)) {
	w := x.worker
	if w == nil || w.in != 0 && w.in != chanCell(ch) {
		bad("range over a channel outside a worker")
	}
	w.in = chanCell(ch)
	i := x.chanOf(w.in)
	var o types.Object
	if id, ok := s.Key.(*ast.Ident); ok && s.Tok == token.DEFINE && id.Name != "_" {
		o = a.pkg.Info.Defs[id]
	} else if s.Key != nil {
		bad("range variable")
	}
	if o != nil {
		x.declare(st, o, zeroV(o.Type(), st))
	}
	w.sent = st.newCell(IntT(0), types.Typ[types.Int])
	hid := st.newCell(IntT(0), types.Typ[types.Int])
	x.hid[hid] = s
	l := &loopDesc{node: s, label: label, act: a, pos: s.Pos(), hidden: hid}
	l.cond = func(a *act, st *State, yes, no func(*State)) {
		st.assumeWF(Le(IntT(0), st.cells[hid].(*Term)))
		s2 := st.clone()
		yes(st)
		no(s2)
	}
	l.body = func(a *act, st *State, cc *ctl, k func(*State)) {
		v := freshV(i.elem, "job", st)
		if o != nil {
			st.writeLV(&LV{Cell: st.env[o]}, v)
		}
		w.job = v
		st.cells[w.sent] = IntT(0)
		n := st.cells[hid].(*Term)
		post := func(st *State) {
			x.oblige(st, Eq(st.cells[w.sent].(*Term), IntT(1)), "chan", "every job gives exactly one result", s.Pos())
			if st.stop {
				return
			}
			x.untouched(st)
			st.cells[hid] = Add(n, IntT(1))
			k(st)
		}
		c2 := *cc
		c2.cont = post
		c2.brk = func(*State) { bad("a worker leaves its jobs") }
		x.block(a, s.Body.List, st, &c2, post)
	}
	x.loop(l, st, c, k)
}
