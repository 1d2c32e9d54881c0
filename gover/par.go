package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Parallel loops. A call of a function whose contract has the attribute `par` runs the given closure
// once for each worker number wi of wn. It is verified as the sequential loop over wi, which is the
// meaning of every schedule provided the workers do not interfere; non-interference is an obligation
// of its own: an element of an array that any worker writes is touched, by any worker, only at the
// indices that worker owns (modk(index, wn) == wi), and no worker writes a shared variable.
type parCtx struct {
	x       *Exec
	wi, wn  *Term
	tags    map[int]bool // arrays that exist before the loop
	cells   map[int]bool
	written map[int]bool // those any worker writes
	hid     int          // cell of the worker number
	pos     token.Pos
}

func (p *parCtx) own(i *Term) *Term {
	return Eq(App("modk", SInt, i, p.wn), p.wi)
}

func (p *parCtx) write(st *State, l *LV) {
	if l.Tag != 0 {
		if p.tags[l.Tag] {
			p.x.oblige(st, p.own(l.Idx), "par", "a worker writes only its own elements", p.pos)
		}
		return
	}
	if p.cells[l.Cell] {
		bad("a worker writes a variable shared with the others")
	}
}

func (p *parCtx) read(st *State, tag int, idx *Term) {
	if tag != 0 && p.written[tag] {
		p.x.oblige(st, p.own(idx), "par", "a worker reads only its own elements of what is written", p.pos)
	}
}

func (x *Exec) parFor(a *act, all []Value, st *State, e *ast.CallExpr, k K) {
	if len(all) != 1 {
		bad("parallel loop with %d arguments", len(all))
	}
	f, ok := all[0].(*FuncV)
	if !ok || st.par != nil {
		bad("parallel loop over %T", all[0])
	}
	x.assumed["goroutines started by a parallel loop all finish before it returns and run the closure once per worker number (no deductive treatment of scheduling)"] = true
	wn := freshT("wn", SInt)
	st.assume(Le(IntT(1), wn))
	hid := st.newCell(IntT(0), types.Typ[types.Int])
	x.hid[hid] = e
	pc := &parCtx{x: x, hid: hid, wn: wn, pos: e.Pos(), tags: map[int]bool{}, cells: map[int]bool{}, written: map[int]bool{}}
	for t := range st.heap {
		pc.tags[t] = true
	}
	for c := range st.cells {
		if c != hid {
			pc.cells[c] = true
		}
	}
	l := &loopDesc{node: e, act: a, pos: e.Pos(), hidden: hid}
	l.cond = func(a *act, st *State, yes, no func(*State)) {
		i := st.cells[hid].(*Term)
		st.assumeWF(And(Le(IntT(0), i), Le(i, wn)))
		s2 := st.clone()
		st.assume(Lt(i, wn))
		if !st.stop && x.feasible(st) {
			yes(st)
		}
		s2.assume(Eq(i, wn))
		if !s2.stop && x.feasible(s2) {
			no(s2)
		}
	}
	l.body = func(a *act, st *State, cc *ctl, k func(*State)) {
		i := st.cells[hid].(*Term)
		p := *pc
		p.wi = i
		st.par = &p
		x.apply(a, f, []Value{i, wn}, st, e, func(st *State, _ Value) {
			st.par = nil
			st.cells[hid] = Add(i, IntT(1))
			k(st)
		})
	}
	st.parLoop = pc
	// what any worker writes
	m := x.modified(l, st, nil)
	for t := range m.heap {
		pc.written[t] = true
	}
	x.loop(l, st, nil, func(st *State) {
		st.parLoop = nil
		k(st, &TupleV{})
	})
}
