package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

type FuncResult struct {
	Key      string
	Obls     []*Obl
	Exits    int
	Used     []string
	Inlined  []string
	Libs     []string
	Assumed  []string
	Stats    map[string]int
	Unsup    string
	Vacuous  string
	Requires int
	Ensures  int
}

type Run struct {
	prog    *Prog
	db      *SpecDB
	solver  *Solver
	verbose bool
	timeout int
	dumpC   string
	noProve bool
}

func (r *Run) newExec(fn *Func, con *Contract) *Exec {
	x := &Exec{prog: r.prog, db: r.db, fn: fn, con: con, solver: r.solver, names: map[string]Value{}, used: map[string]bool{}, inlined: map[string]bool{}, libs: map[string]bool{}, assumed: map[string]bool{}, stats: map[string]int{}, reveal: map[string]bool{}, hid: map[int]ast.Node{}, loopKeep: map[string]map[string]bool{}, verbose: r.verbose, dumpCand: r.dumpC, lemCache: map[string]*Term{}, usedLemmas: map[string]bool{}}
	if con != nil {
		for _, n := range con.Reveal {
			x.reveal[n] = true
		}
	}
	return x
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (r *Run) verify(key string) (res *FuncResult) {
	res = &FuncResult{Key: key}
	con := r.db.Contracts[key]
	fn := r.prog.Funcs[key]
	if fn == nil {
		if con != nil && con.Attrs["optional"] {
			return
		}
		res.Unsup = "function " + key + " does not exist any more"
		res.Obls = []*Obl{{Func: key, Kind: "exists", Name: "function exists", Goal: False, Result: "failed"}}
		return
	}
	x := r.newExec(fn, con)
	x.prune()
	finish := func() {
		res.Obls = x.obls
		res.Exits = x.paths
		for n := range x.usedLemmas {
			x.used["lemma "+n] = true
		}
		res.Used, res.Inlined, res.Libs, res.Assumed = sortedKeys(x.used), sortedKeys(x.inlined), sortedKeys(x.libs), sortedKeys(x.assumed)
		res.Stats = x.stats
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsup); ok {
				finish()
				p := u.pos
				if !p.IsValid() {
					p = x.posStk
				}
				res.Unsup = u.msg + " at " + r.prog.pos(p)
				res.Obls = append(res.Obls, &Obl{Func: key, Kind: "construct", Name: "within the verifier's reach: " + u.msg, Pos: r.prog.pos(p), Goal: False, Result: "failed"})
				return
			}
			panic(e)
		}
	}()
	res.Requires, res.Ensures = len(con.Requires), len(con.Ensures)+len(con.Returns)
	x.runFunc()
	finish()
	if x.paths == 0 {
		res.Vacuous = "no exit path"
	}
	if !r.noProve {
		r.solver.proveAll(x, x.obls, r.timeout)
		// vacuity: the precondition must be satisfiable, some exit must be reachable
		if s := x.vacuous(); s != "" {
			res.Vacuous = s
		}
	}
	for n := range x.usedLemmas {
		x.used["lemma "+n] = true
	}
	res.Used, res.Assumed = sortedKeys(x.used), sortedKeys(x.assumed)
	if res.Vacuous != "" {
		res.Obls = append(res.Obls, &Obl{Func: key, Kind: "vacuity", Name: res.Vacuous, Goal: False, Result: "failed"})
	}
	return
}

func (x *Exec) vacuous() string {
	q := x.solver.prep(x, x.entryPC)
	if x.solver.runq(smtQuery(q, false), 1000) == "unsat" {
		return "precondition is contradictory"
	}
	// look for one exit that is not refuted
	for i, pc := range x.exitPCs {
		if i > 40 {
			break
		}
		if x.solver.runq(smtQuery(x.solver.prep(x, pc), false), 700) != "unsat" {
			return ""
		}
	}
	if len(x.exitPCs) > 40 {
		return ""
	}
	return "every exit is unreachable"
}

// prune is a hook for later use
func (x *Exec) prune() {}

// runFunc symbolically executes the function under contract.
func (x *Exec) runFunc() {
	fn, con := x.fn, x.con
	st := newState()
	var params []*types.Var
	sig := fn.Obj.Type().(*types.Signature)
	if sig.Recv() != nil {
		params = append(params, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	if len(params) != len(con.Params) {
		bad("contract of %s has %d parameters, function has %d", con.Key, len(con.Params), len(params))
	}
	if sig.Results().Len() != len(con.Results) && len(con.Results) > 0 {
		bad("contract of %s has %d results, function has %d", con.Key, len(con.Results), sig.Results().Len())
	}
	var args []Value
	for i, p := range params {
		v := freshV(p.Type(), con.Params[i], st)
		args = append(args, v)
		x.names[con.Params[i]] = v
	}
	if ic := con.Iface; ic != nil {
		for i, n := range ic.Params {
			v := args[i]
			if i == 0 {
				sv, ok := v.(*StructV)
				if !ok {
					bad("interface receiver of kind %T", v)
				}
				v = boxV(sv, sv.Typ, st)
			} else if x.names[n] != nil && x.names[n] != v || n == con.Params[0] {
				bad("contract of %s: parameter names clash with those of %s", con.Key, ic.Key)
			}
			x.names[n] = v
		}
		x.used[ic.Key] = true
		ienv := &SEnv{x: x, names: x.names, st: st, old: st, pkg: ic.Pkg, con: ic}
		for _, r := range ic.Requires {
			st.assume(ienv.boolean(r))
		}
	}
	env := &SEnv{x: x, names: x.names, st: st, old: st, pkg: con.Pkg, con: con}
	for _, r := range con.Requires {
		if con.Iface != nil {
			x.oblige(st, env.boolean(r), "pre", con.Iface.Key+" guarantees "+r.Label(), fn.Decl.Pos())
		}
		st.assume(env.boolean(r))
	}
	if st.stop {
		bad("precondition of %s is false", con.Key)
	}
	x.entryPC = append([]*Term{}, st.pc...)
	x.old = st.clone()
	x.stack = []*Func{fn}
	na := &act{pkg: fn.Pkg, fn: fn}
	x.bindParams(fn, na, args, st)
	na.ret = func(st *State, vs []Value) {
		x.exit(st, args, params, convAll(x, vs, sig.Results(), st))
	}
	x.block(na, fn.Decl.Body.List, st, nil, func(st *State) {
		var vs []Value
		for _, o := range na.res {
			vs = append(vs, st.cells[st.env[o]])
		}
		na.ret(st, vs)
	})
}

func (x *Exec) exit(st *State, args []Value, params []*types.Var, vs []Value) {
	if st.stop {
		return
	}
	x.paths++
	con := x.con
	x.exitPCs = append(x.exitPCs, append([]*Term{}, st.pc...))
	pos := x.fn.Decl.End()
	names := map[string]Value{}
	for k, v := range x.names {
		names[k] = v
	}
	for i, n := range con.Results {
		names[n] = vs[i]
	}
	env := &SEnv{x: x, names: names, st: st, old: x.old, pkg: con.Pkg, con: con}
	save := st.clone()
	_ = save
	for i, r := range con.Returns {
		if r == nil {
			continue
		}
		want := x.conv(env.eval(r.Expr), x.fn.Obj.Type().(*types.Signature).Results().At(i).Type(), st)
		x.obligeC(st, eqV(vs[i], want, st), "returns", "returns "+r.Label(), pos)
	}
	for _, r := range con.Ensures {
		x.obligeC(st, env.boolean(r), "post", r.Label(), pos)
	}
	for _, r := range con.AtCalls { // obligations at the end that callers learn nothing from
		if r.Call == "return" {
			x.obligeC(st, env.boolean(r), "post", r.Label(), pos)
		}
	}
	if ic := con.Iface; ic != nil {
		ienv := *env
		ienv.pkg, ienv.con = ic.Pkg, ic
		ienv.names = map[string]Value{}
		for k, v := range names {
			ienv.names[k] = v
		}
		for i, n := range ic.Results {
			ienv.names[n] = vs[i]
		}
		for i, r := range ic.Returns {
			if r != nil {
				want := x.conv(ienv.eval(r.Expr), x.fn.Obj.Type().(*types.Signature).Results().At(i).Type(), st)
				x.obligeC(st, eqV(vs[i], want, st), "returns", "returns "+r.Label(), pos)
			}
		}
		for _, r := range ic.Ensures {
			x.obligeC(st, ienv.boolean(r), "post", r.Label(), pos)
		}
	}
	// frame
	mods := map[string]bool{}
	for _, m := range con.Modifies {
		mods[strings.TrimSpace(m.Src)] = true
	}
	if con.Iface != nil {
		for _, m := range con.Iface.Modifies {
			s := strings.TrimSpace(m.Src)
			for i, n := range con.Iface.Params {
				if s == "*"+n {
					s = "*" + con.Params[i]
				}
			}
			mods[s] = true
		}
	}
	var frame func(name string, v Value, t types.Type)
	frame = func(name string, v Value, t types.Type) {
		switch a := v.(type) {
		case *SliceV:
			if a.Tag == 0 || mods[name+"[*]"] {
				return
			}
			if st.heap[a.Tag] != x.old.heap[a.Tag] {
				i := BVar("i", SInt)
				o, n := x.old.elemTerm(a, i), st.elemTerm(a, i)
				x.obligeC(st, Forall([]*Term{i}, Imp(And(Le(IntT(0), i), Lt(i, a.Len)), Eq(n, o)), []*Term{n}), "frame", "contents of "+name+" unchanged", pos)
			}
		case *PtrV:
			if a.LV == nil {
				if o, ok := a.Val.(*ObjV); ok && !mods["*"+name] && st.objs[o.ID] != x.old.objs[o.ID] {
					x.obligeC(st, False, "frame", "target of "+name+" unchanged", pos)
				}
				return
			}
			ov := x.old.readLV(a.LV)
			if !mods["*"+name] {
				nv := st.readLV(a.LV)
				if !sameVal(ov, nv) {
					x.obligeC(st, eqV(nv, ov, st), "frame", "target of "+name+" unchanged", pos)
				}
			}
			if mods["*"+name] || mods[name+".**"] {
				return
			}
			frame(name, ov, a.Elem)
		case *StructV:
			u, ok := a.Typ.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := range a.F {
				frame(name+"."+u.Field(i).Name(), a.F[i], u.Field(i).Type())
			}
		}
	}
	for i := range args {
		frame(con.Params[i], args[i], params[i].Type())
	}
	if con.Attrs["fresh"] {
		rt, at := map[int]bool{}, map[int]bool{}
		for _, v := range vs {
			collectTags(v, rt)
		}
		for _, v := range args {
			collectTags(v, at)
			if p, ok := v.(*PtrV); ok && p.LV != nil {
				collectTags(x.old.readLV(p.LV), at)
			}
		}
		for a := range rt {
			for b := range at {
				if st.grp(a) == st.grp(b) {
					x.obligeC(st, False, "frame", "result does not share memory with an argument", pos)
				}
			}
		}
	}
}

// obligeC records an obligation without assuming it afterwards.
func (x *Exec) obligeC(st *State, goal *Term, kind, name string, pos interface{}) {
	if x.mode != mFinal || st.stop {
		return
	}
	if goal == True {
		x.stats["trivial"]++
		return
	}
	if goal.Op == "and" {
		for _, g := range goal.Args {
			x.obligeC(st, g, kind, name, pos)
		}
		return
	}
	o := &Obl{Func: x.fn.Key, Kind: kind, Name: name, PC: append([]*Term{}, st.pc...), Goal: goal, Trace: append([]string{}, st.trace...)}
	o.Hints = &Hints{Timeout: x.con.Timeout}
	x.obls = append(x.obls, o)
}

// ------------------------------------------------------------- lemmas and folds

type foldDef struct {
	params []*Term
	body   *Term
	app    *Term
}

var foldDefs = map[string]*foldDef{}

func (env *SEnv) foldApp(f *SpecFn, args []Value) Value {
	var ts []*Term
	for i, v := range args {
		ts = append(ts, env.flat(v, f.PTypes[i])...)
	}
	app := App(f.Name, sortOf(env.typeOf(f.Ret)), ts...)
	if _, ok := foldDefs[f.Name]; !ok {
		d := &foldDef{}
		foldDefs[f.Name] = d
		n := &SEnv{x: env.x, names: map[string]Value{}, st: newState(), pkg: f.Pkg, con: env.con}
		for i, p := range f.Params {
			t := env.typeOf(f.PTypes[i])
			var v Value
			if sl, ok := t.Underlying().(*types.Slice); ok {
				a, l := BVar(p, SArr(sortOf(sl.Elem()))), BVar(p+"len", SInt)
				d.params = append(d.params, a, l)
				v = &SliceV{Elem: sl.Elem(), Arr: a, Off: IntT(0), Len: l, Nil: Eq(l, IntT(0))}
			} else {
				var bs []*Term
				v = boundV(t, p, &bs)
				// flat order equals the field order for structs of scalars
				d.params = append(d.params, n.flat(v, f.PTypes[i])...)
			}
			n.names[p] = v
		}
		b, ok := n.eval(f.Body).(*Term)
		if !ok {
			bad("fold %s: not a scalar", f.Name)
		}
		if app.Sort == SReal {
			b = ToReal(b)
		}
		d.body = b
	}
	return app
}

// unfold adds definitional equations for the folds that occur.
func (x *Exec) unfold(as []*Term) []*Term {
	out := as
	done := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		var add []*Term
		visit(out, func(t *Term) {
			if t.Op != "app" || len(t.fvs) > 0 || done[t] {
				return
			}
			d := foldDefs[t.Name]
			if d == nil || d.body == nil || len(d.params) != len(t.Args) {
				return
			}
			done[t] = true
			m := map[*Term]*Term{}
			for i, p := range d.params {
				m[p] = t.Args[i]
			}
			add = append(add, Eq(t, Subst(d.body, m)))
		})
		if len(add) == 0 {
			break
		}
		out = append(append([]*Term{}, out...), add...)
	}
	return out
}

func (x *Exec) lemmaTerm(name string) *Term {
	if t, ok := x.lemCache[name]; ok {
		return t
	}
	l := x.db.Lemmas[name]
	if l == nil {
		bad("unknown lemma %s", name)
	}
	env := &SEnv{x: x, names: map[string]Value{}, st: newState(), pkg: l.Pkg}
	t := env.term(l.Expr)
	x.lemCache[name] = t
	if l.Axiom {
		x.assumed["axiom "+name+": "+strings.Join(strings.Fields(l.Src), " ")] = true
	} else {
		x.usedLemmas[name] = true
	}
	return t
}

// lemmaInst: a lemma applied to explicit arguments (over the entry state)
func (x *Exec) lemmaInst(ce *ast.CallExpr) *Term {
	st := x.old
	if st == nil {
		st = newState()
	}
	return x.lemmaAt(ce, &SEnv{x: x, names: x.names, st: st, old: st, pkg: x.con.Pkg, con: x.con})
}

// lemmaAt: the lemma applied to arguments evaluated in env
func (x *Exec) lemmaAt(ce *ast.CallExpr, env *SEnv) *Term {
	proving := x.proving
	x.proving = false
	t := x.lemmaTerm(ce.Fun.(*ast.Ident).Name)
	x.proving = proving
	if t.Op != "forall" {
		return t
	}
	var ts []*Term
	for _, a := range ce.Args {
		ts = append(ts, env.flat(env.eval(a), "")...)
	}
	bound := fullBound[t]
	if bound == nil {
		bound = t.Bound
	}
	if len(ts) != len(bound) {
		bad("use %s: %d argument terms for %d variables", ce.Fun.(*ast.Ident).Name, len(ts), len(bound))
	}
	m := map[*Term]*Term{}
	for i, b := range bound {
		v := ts[i]
		if b.Sort == SReal {
			v = ToReal(v)
		}
		m[b] = v
	}
	return Subst(t.Args[0], m)
}

func (x *Exec) lemmas([]*Term) []*Term {
	var r []*Term
	var names []string
	if x.con != nil {
		for _, c := range x.con.Lemmas {
			if id, ok := c.Expr.(*ast.Ident); ok {
				names = append(names, id.Name)
			}
			if ce, ok := c.Expr.(*ast.CallExpr); ok {
				r = append(r, x.lemmaInst(ce))
			}
		}
	}
	names = append(names, x.extraLemmas...)
	for _, n := range names {
		r = append(r, x.lemmaTerm(n))
	}
	return r
}

// proveLemma discharges a lemma, by induction when asked.
func (r *Run) proveLemma(name string) *FuncResult {
	res := &FuncResult{Key: "lemma " + name}
	l := r.db.Lemmas[name]
	x := r.newExec(&Func{Key: "lemma " + name, Pkg: l.Pkg}, nil)
	x.extraLemmas = l.Uses
	for _, f := range r.db.Fns {
		if f.Kind == "opaque" && !l.Hide {
			x.reveal[f.Name] = true
		}
	}
	for _, n := range l.Reveal {
		x.reveal[n] = true
	}
	env := &SEnv{x: x, names: map[string]Value{}, st: newState(), pkg: l.Pkg}
	r.db.checkLemmaCycle(name, map[string]bool{})
	x.proving = true
	t := env.term(l.Expr)
	x.proving = false
	goal := t
	var pc []*Term
	if t.Op == "forall" {
		m := map[*Term]*Term{}
		var ind *Term
		for _, b := range t.Bound {
			c := freshT("sk_"+strings.SplitN(b.Name, "!", 2)[0], b.Sort)
			m[b] = c
			if l.Ind != "" && strings.SplitN(b.Name, "!", 2)[0] == l.Ind {
				ind = b
			}
		}
		goal = Subst(t.Args[0], m)
		if ind != nil {
			hyp := Imp(And(Le(IntT(0), ind), Lt(ind, m[ind])), t.Args[0])
			pc = append(pc, Forall(t.Bound, hyp, t.Pats...))
			// the instance just below, explicitly
			m2 := map[*Term]*Term{}
			for k, v := range m {
				m2[k] = v
			}
			m2[ind] = Sub(m[ind], IntT(1))
			pc = append(pc, Imp(Lt(IntT(0), m[ind]), Subst(t.Args[0], m2)))
		} else if l.Ind != "" {
			panic("lemma " + name + ": no induction variable " + l.Ind)
		}
	}
	o := &Obl{Func: res.Key, Kind: "lemma", Name: name, PC: pc, Goal: goal, Hints: &Hints{Timeout: 60}}
	x.obls = []*Obl{o}
	r.solver.proveAll(x, x.obls, r.timeout)
	res.Obls = x.obls
	res.Assumed = sortedKeys(x.assumed)
	res.Used = nil
	for n := range x.usedLemmas {
		res.Used = append(res.Used, "lemma "+n)
	}
	return res
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

var byRe = regexp.MustCompile(`\bby\((\w+)\(`)

// checkLemmaCycle: no lemma may be proved from itself (induction is separate).
func (db *SpecDB) checkLemmaCycle(name string, open map[string]bool) {
	if open[name] {
		panic("lemma " + name + " is used in its own proof")
	}
	l := db.Lemmas[name]
	if l == nil {
		return
	}
	open[name] = true
	for _, u := range l.Uses {
		db.checkLemmaCycle(u, open)
	}
	for _, m := range byRe.FindAllStringSubmatch(l.Src, -1) {
		db.checkLemmaCycle(m[1], open)
	}
	delete(open, name)
}
