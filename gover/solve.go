package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type hq struct {
	pc   []*Term
	goal *Term
	ms   int
	desc string
	end  *State
	who  int  // queries with the same number stand or fall together
	full bool // all back ends, not only the quick ones
}

type Solver struct {
	mu     sync.Mutex
	cache  map[string]string
	secs   map[string]float64
	calls  map[string]int
	wins   map[string]int
	slots  chan struct{}
	dump   string
	dumpN  int
	factor float64
	end    time.Time
	failed int
}

func NewSolver() *Solver {
	return &Solver{cache: map[string]string{}, secs: map[string]float64{}, wins: map[string]int{}, calls: map[string]int{}, slots: make(chan struct{}, 8), factor: 1, end: time.Now().Add(time.Hour)}
}

func (s *Solver) run(ctx context.Context, backend, text string, ms int) string {
	select {
	case s.slots <- struct{}{}:
	case <-ctx.Done():
		return "unknown"
	}
	defer func() { <-s.slots }()
	if ctx.Err() != nil || time.Now().After(s.end) {
		return "unknown"
	}
	var cmd *exec.Cmd
	t := fmt.Sprint(ms)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	switch strings.TrimPrefix(backend, "lin ") {
	case "z3-new", "z3":
		cmd = exec.CommandContext(c2, backend, "-in", "-t:"+t, "smt.random_seed=0", "memory_max_size=4000")
	case "z3-new-em": // pattern instantiation only: gives up at once where it cannot help
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "smt.random_seed=0", "smt.mbqi=false", "smt.auto_config=false", "smt.array.extensional=false", "memory_max_size=4000")
	case "z3-em":
		cmd = exec.CommandContext(c2, "z3", "-in", "-t:"+t, "smt.random_seed=0", "smt.mbqi=false", "smt.auto_config=false", "smt.array.extensional=false", "memory_max_size=4000")
	case "z3-new-em2":
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "smt.random_seed=0", "smt.mbqi=false", "smt.auto_config=false", "smt.array.extensional=false", "smt.arith.solver=2", "memory_max_size=4000")
	case "z3-new-na":
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "smt.random_seed=0", "smt.auto_config=false", "memory_max_size=4000")
	case "z3-new-a2":
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "smt.random_seed=0", "smt.arith.solver=2", "memory_max_size=4000")
	case "z3-new-case":
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "smt.arith.solver=2", "smt.case_split=3", "memory_max_size=4000")
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--tlimit="+t, "--no-produce-models", "-")
		text = "(set-logic ALL)\n" + text
	case "cvc5-enum":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--tlimit="+t, "--enum-inst", "-")
		text = "(set-logic ALL)\n" + text
	case "z3-nra":
		cmd = exec.CommandContext(c2, "z3-new", "-in", "-t:"+t, "memory_max_size=4000")
		text = strings.Replace(text, "(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))", 1)
	case "cvc5-cov":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--tlimit="+t, "--nl-cov", "-")
		text = "(set-logic QF_NIRA)\n" + text
	}
	cmd.Stdin = strings.NewReader(text)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	res := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") && os.Getenv("GOVER_ERR") != "" {
			fmt.Println(backend, l)
			os.WriteFile("/tmp/gover_err.smt2", []byte(text), 0o644)
		}
	}
	s.mu.Lock()
	s.secs[backend] += d
	s.calls[backend]++
	if res == "unsat" {
		s.wins[backend]++
	}
	s.mu.Unlock()
	return res
}

// ------------------------------------------------------------- preparing a query

func strLits(ts []*Term) []*Term {
	var r []*Term
	visit(ts, func(t *Term) {
		if t.Op == "app" && len(t.Args) == 0 && strings.HasPrefix(t.Name, "strlit_") {
			r = append(r, t)
		}
	})
	return r
}

// prep adds the axioms about library functions for the terms that occur.
func (s *Solver) prep(x *Exec, asserts []*Term) []*Term {
	out := append([]*Term{}, asserts...)
	if x != nil {
		out = append(out, x.lemmas(asserts)...)
		out = x.unfold(out)
	}
	seen := map[*Term]bool{}
	one, zero := ToReal(IntT(1)), real0()
	r3ax := false
	for round := 0; round < 3; round++ {
		n := len(out)
		var add []*Term
		visit(out, func(t *Term) {
			if seen[t] {
				return
			}
			if len(t.fvs) > 0 {
				if t.Op == "app" && strings.HasPrefix(t.Name, "shift_") {
				}
				return
			}
			seen[t] = true
			if t == Pi {
				add = append(add, Lt(RealF("3.14159265358979"), Pi), Lt(Pi, RealF("3.14159265358980")))
			}
			if t.Op != "app" {
				return
			}
			switch t.Name {
			case "sqrt":
				a := t.Args[0]
				add = append(add, Imp(Le(zero, a), And(Le(zero, t), Eq(Mul(t, t), a))), Imp(Lt(zero, a), Lt(zero, t)))
			case "sin", "cos":
				a := t.Args[0]
				sn, cs := App("sin", SReal, a), App("cos", SReal, a)
				add = append(add, Eq(Add(Mul(sn, sn), Mul(cs, cs)), one), Le(sn, one), Le(Neg(one), sn), Le(cs, one), Le(Neg(one), cs))
				if c, ok := piMult(a); ok {
					// sign on (0,1) and (0,1/2)
					if c.Sign() > 0 && c.Cmp(big.NewRat(1, 1)) < 0 {
						add = append(add, Lt(zero, sn))
						if c.Cmp(big.NewRat(1, 2)) < 0 {
							add = append(add, Lt(zero, cs))
						} else if c.Cmp(big.NewRat(1, 2)) > 0 {
							add = append(add, Lt(cs, zero))
						}
					}
				}
				if (a.Op == "+" || a.Op == "-") && t.Args[0].Sort == SReal {
					u, v := a.Args[0], a.Args[1]
					su, cu, sv, cv := mathApp("sin", u), mathApp("cos", u), mathApp("sin", v), mathApp("cos", v)
					if a.Op == "+" {
						add = append(add, Eq(sn, Add(Mul(su, cv), Mul(cu, sv))), Eq(cs, Sub(Mul(cu, cv), Mul(su, sv))))
					} else {
						add = append(add, Eq(sn, Sub(Mul(su, cv), Mul(cu, sv))), Eq(cs, Add(Mul(cu, cv), Mul(su, sv))))
					}
				}
			case "acos":
				a := t.Args[0]
				add = append(add, Imp(And(Le(Neg(one), a), Le(a, one)), And(Le(zero, t), Le(t, Pi), Eq(App("cos", SReal, t), a), Le(zero, App("sin", SReal, t)))))
			case "atan2":
				y, xx := t.Args[0], t.Args[1]
				r := App("sqrt", SReal, Add(Mul(xx, xx), Mul(y, y)))
				add = append(add, And(Lt(Neg(Pi), t), Le(t, Pi)), Eq(Mul(r, App("cos", SReal, t)), Ite(And(Eq(xx, zero), Eq(y, zero)), zero, xx)), Eq(Mul(r, App("sin", SReal, t)), y), Imp(And(Eq(xx, zero), Eq(y, zero)), Eq(t, zero)))
			case "strlen":
				add = append(add, Le(IntT(0), t))
			case "strbyte":
				add = append(add, Le(IntT(0), t), Lt(t, IntT(256)))
			case "r3":
				a := t.Args[0]
				if a.isNum() {
					sc := new(big.Rat).Mul(a.Num, big.NewRat(1000, 1))
					if sc.IsInt() {
						add = append(add, Eq(t, a))
					}
				}
			}
			if t.Name == "fmtreal3" { // the text determines the value written
				add = append(add, Eq(App("strval", SReal, t), App("r3", SReal, t.Args[0])))
			}
			if t.Name == "r3" && !r3ax {
				r3ax = true
				add = append(add, Eq(mk("app", "r3", SReal, zero), zero))
				v := BVar("v", SReal)
				rv := mk("app", "r3", SReal, v)
				add = append(add, Forall([]*Term{v}, And(Le(Sub(v, RealF("0.0005")), rv), Le(rv, Add(v, RealF("0.0005")))), []*Term{rv}))
			}
			if strings.HasPrefix(t.Name, "box_") {
				c := t.Args[0]
				add = append(add, Eq(App("unbox_"+c.Sort.Name, c.Sort, t), c), Eq(App("dyntype", SInt, t), IntT(typeID(c.Sort.Name))), Not(Eq(t, nilIface)))
			}
			if strings.HasPrefix(t.Name, "shift_") {
				i := BVar("i", SInt)
				sel := mk("select", "", t.Sort.Elem, t, i)
				add = append(add, Forall([]*Term{i}, Eq(sel, Select(t.Args[0], Add(i, t.Args[1]))), []*Term{sel}))
			}
		})
		out = append(out, add...)
		if len(out) == n {
			break
		}
	}
	lits := strLits(out)
	for i := range lits {
		for _, b := range lits[:i] {
			out = append(out, Not(mk("=", "", SBool, b, lits[i])))
		}
	}
	return out
}

var typeIDs = map[string]int64{}

func typeID(n string) int64 {
	if _, ok := typeIDs[n]; !ok {
		typeIDs[n] = int64(len(typeIDs)) + 1
	}
	return typeIDs[n]
}

// nra abstracts a query to quantifier-free arithmetic: asserts with quantifiers are dropped,
// terms of other theories become variables. The result implies nothing more than the original.
func nra(asserts []*Term) ([]*Term, bool) {
	names := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	n := 0
	var ab func(t *Term) *Term
	fresh := func(t *Term) *Term {
		if v, ok := names[t]; ok {
			return v
		}
		n++
		v := Var(fmt.Sprintf("nra!%d_%s", n, t.Sort.Name), t.Sort)
		names[t] = v
		return v
	}
	ab = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.Op {
		case "num", "true", "false", "var":
			r = t
			if t.Op == "var" && t.Sort.Kind > KBool {
				r = t
			}
		case "forall", "exists":
			r = fresh(t)
		case "select", "app", "sel", "store", "mk", "const-array":
			r = fresh(t)
		case "=":
			if t.Args[0].Sort.Kind > KBool {
				r = fresh(t)
				break
			}
			fallthrough
		default:
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = ab(a)
			}
			r = rebuild(t, args, nil)
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, a := range asserts {
		if a.Op == "forall" {
			out = append(out, True) // dropped
			continue
		}
		r := ab(a)
		if r.Op == "var" {
			// an opaque proposition
		}
		out = append(out, r)
	}
	return out, true
}

// sliceArith keeps the asserts connected with the goal by shared variables.
func relevant(asserts []*Term, goal *Term) []*Term {
	type info struct{ vs map[*Term]bool }
	vars := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		visit([]*Term{t}, func(u *Term) {
			if u.Op == "var" && u.Sort.Kind <= KBool {
				m[u] = true
			}
		})
		return m
	}
	cur := vars(goal)
	used := make([]bool, len(asserts))
	infos := make([]map[*Term]bool, len(asserts))
	for i, a := range asserts {
		infos[i] = vars(a)
	}
	for ch := true; ch; {
		ch = false
		for i := range asserts {
			if used[i] {
				continue
			}
			hit := len(infos[i]) == 0
			for v := range infos[i] {
				if cur[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range infos[i] {
					cur[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range asserts {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

func (s *Solver) text(x *Exec, pc []*Term, goal *Term) (string, string) {
	as := append(append([]*Term{}, pc...), Not(goal))
	as = s.prep(x, as)
	return smtQuery(as, false), smtLinear(as)
}

type sub struct {
	hyp  []*Term
	goal *Term
}

// splitGoal breaks a goal into parts: conjuncts apart, implications and universal quantifiers
// moved into the hypotheses (fresh constants; the quantifier's patterns stay visible as ground terms).
func splitGoal(g *Term) []sub {
	var out []sub
	n := 0
	var rec func(hyp []*Term, t *Term)
	rec = func(hyp []*Term, t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				rec(hyp, a)
			}
		case "=>":
			h := append([]*Term{}, hyp...)
			rec(append(h, conj(t.Args[0])...), t.Args[1])
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range t.Bound {
				n++
				m[b] = Var(fmt.Sprintf("sk!%d_%s_%s", n, strings.SplitN(b.Name, "!", 2)[0], b.Sort.Name), b.Sort)
			}
			h := append([]*Term{}, hyp...)
			for _, p := range t.Pats {
				for _, q := range p {
					q = Subst(q, m)
					if len(q.fvs) == 0 && q.Op != "var" {
						h = append(h, App("seen_"+q.Sort.Name, SBool, q))
					}
				}
			}
			rec(h, Subst(t.Args[0], m))
		default:
			out = append(out, sub{hyp, t})
		}
	}
	rec(nil, g)
	if len(out) > 24 {
		return []sub{{nil, g}}
	}
	return out
}

func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// batch decides several small queries (loop invariants), in parallel.
func (s *Solver) batch(x *Exec, qs []hq) []bool {
	res := make([]bool, len(qs))
	var mu sync.Mutex
	var wg sync.WaitGroup
	dead := map[int]bool{}
	for i, q := range qs {
		res[i] = true
		if q.goal == True {
			continue
		}
		contra := false
		for _, p := range q.pc {
			if p == q.goal || p == False {
				contra = true
			}
		}
		if contra {
			continue
		}
		for _, sg := range splitGoal(q.goal) {
			if sg.goal == True {
				continue
			}
			txt, ltxt := s.text(x, append(append([]*Term{}, q.pc...), sg.hyp...), sg.goal)
			s.mu.Lock()
			r, ok := s.cache[txt]
			s.mu.Unlock()
			if q.full && q.ms <= 1000 && strings.Contains(txt, "(forall ") {
				r, ok = "unknown", true
			}
			if ok && (r != "quick" || !q.full) {
				if r != "unsat" {
					mu.Lock()
					res[i] = false
					dead[q.who] = true
					mu.Unlock()
				}
				continue
			}
			i, q := i, q
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx := context.Background()
				mu.Lock()
				stop := dead[q.who]
				mu.Unlock()
				if stop {
					mu.Lock()
					res[i] = false
					mu.Unlock()
					return
				}
				ms := int(float64(q.ms) * s.factor)
				r := "unknown"
				var order []string
				if !q.full {
					if ltxt != "" {
						order = append(order, "lin z3-new-em", "lin z3-em")
					}
					order = append(order, "z3-new-em", "z3-em", "z3-new-em2")
					if ms > 1500 {
						ms = 1500
					}
				} else {
					order = []string{"z3-new-a2", "z3-new-na", "z3-new", "z3-new-case", "cvc5"}
				}
				for _, b := range order {
					if strings.HasPrefix(b, "lin ") {
						r = s.run(ctx, b, ltxt, ms)
					} else {
						r = s.run(ctx, b, txt, ms)
					}
					if r == "sat" && strings.ContainsAny(b, "- ") && (strings.Contains(b, "-em") || b[0] == 'l') {
						r = "unknown"
					}
					if r != "unknown" {
						break
					}
				}
				if r == "unknown" && !q.full {
					r = "quick"
				}
				s.mu.Lock()
				s.cache[txt] = r
				if s.dump != "" && (r == "unknown" || r == "quick") {
					s.dumpN++
					os.WriteFile(fmt.Sprintf("%s/c%d.smt2", s.dump, s.dumpN), []byte("; "+q.desc+"\n"+txt), 0o644)
				}
				s.mu.Unlock()
				if r != "unsat" {
					mu.Lock()
					res[i] = false
					dead[q.who] = true
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	return res
}

// prove decides one obligation with the portfolio.
func (s *Solver) prove(x *Exec, o *Obl, ms int, wg *sync.WaitGroup) {
	as := append(append([]*Term{}, o.PC...), Not(o.Goal))
	as = s.prep(x, as)
	txt := smtQuery(as, false)
	nr, _ := nra(as)
	nr = relevant(nr, nr[len(o.PC)])
	ntxt := smtQuery(nr, false)
	ltxt := smtLinear(as)
	o.Query = txt
	s.mu.Lock()
	r, ok := s.cache[txt]
	s.mu.Unlock()
	if ok && r == "unsat" {
		o.Result, o.Backend = "proved", "cache"
		return
	}
	if s.dump != "" {
		s.dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", s.dump, s.dumpN), []byte("; "+o.Func+" "+o.Kind+" "+o.Name+"\n"+txt), 0o644)
		os.WriteFile(fmt.Sprintf("%s/q%d.nra.smt2", s.dump, s.dumpN), []byte(ntxt), 0o644)
	}
	isNL := false
	visit(as, func(t *Term) {
		if t.Op == "*" && !t.Args[0].isNum() || t.Op == "/" {
			isNL = true
		}
	})
	wg.Add(1)
	go func() {
		defer wg.Done()
		t0 := time.Now()
		defer func() { o.Secs = time.Since(t0).Seconds() }()
		try := func(ms int, jobs [][2]string) bool {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			type rr struct{ b, r string }
			ch := make(chan rr, len(jobs))
			for _, j := range jobs {
				j := j
				go func() {
					q := txt
					b := j[0]
					if j[1] == "nra" {
						q = ntxt
					}
					if j[1] == "lin" {
						q = ltxt
					}
					ch <- rr{b + map[string]string{"nra": "/nra", "lin": "/lin"}[j[1]], s.run(ctx, b, q, int(float64(ms)*s.factor))}
				}()
			}
			for range jobs {
				r := <-ch
				if r.r == "unsat" {
					o.Result, o.Backend = "proved", r.b
					return true
				}
				if r.r == "sat" && !strings.Contains(r.b, "/") && !strings.Contains(r.b, "-em") {
					o.Result, o.Backend = "refuted", r.b
				}
			}
			return false
		}
		stage1 := [][2]string{{"z3-new-em", ""}, {"z3-em", ""}, {"z3-new-a2", ""}, {"z3-new-na", ""}, {"z3-new", ""}}
		if ltxt != "" {
			stage1 = append(stage1, [2]string{"z3-new-em", "lin"}, [2]string{"z3-em", "lin"}, [2]string{"z3-new-a2", "lin"})
		}
		if isNL {
			stage1 = append(stage1, [2]string{"z3-nra", "nra"})
		}
		if try(min(ms, 4000), stage1) {
			goto done
		}
		if o.Result == "refuted" {
			goto done
		}
		s.mu.Lock()
		if s.failed > 8 {
			// enough evidence: the rest gets the short attempt only
			s.mu.Unlock()
			o.Result = "unknown"
			return
		}
		s.mu.Unlock()
		{
			st2 := [][2]string{{"z3-new-case", ""}, {"cvc5", ""}, {"z3", ""}, {"cvc5-enum", ""}}
			if isNL {
				st2 = append(st2, [2]string{"z3-nra", "nra"}, [2]string{"z3-new", "nra"})
			}
			st2 = append(st2, [2]string{"z3-new", ""})
			if try(ms, st2) {
				goto done
			}
		}
		if o.Result == "" {
			o.Result = "unknown"
		}
	done:
		s.mu.Lock()
		if o.Result == "proved" {
			s.cache[txt] = "unsat"
		} else {
			s.failed++
		}
		s.mu.Unlock()
	}()
}

func (s *Solver) proveAll(x *Exec, obls []*Obl, defMs int) {
	var wg sync.WaitGroup
	type part struct {
		o     *Obl
		parts []*Obl
	}
	var split []part
	for _, o := range obls {
		subs := splitGoal(o.Goal)
		if len(subs) == 1 && len(subs[0].hyp) == 0 {
			continue
		}
		p := part{o: o}
		for _, sg := range subs {
			if sg.goal == True {
				continue
			}
			c := *o
			c.PC = append(append([]*Term{}, o.PC...), sg.hyp...)
			c.Goal = sg.goal
			p.parts = append(p.parts, &c)
		}
		split = append(split, p)
	}
	isSplit := map[*Obl]bool{}
	var todo []*Obl
	for _, p := range split {
		isSplit[p.o] = true
		todo = append(todo, p.parts...)
	}
	defer func() {
		for _, p := range split {
			p.o.Result = "proved"
			for _, c := range p.parts {
				p.o.Secs += c.Secs
				if c.Result == "proved" {
					if !strings.Contains(p.o.Backend, c.Backend) {
						p.o.Backend = strings.TrimPrefix(p.o.Backend+" "+c.Backend, " ")
					}
					continue
				}
				if p.o.Result != "refuted" {
					p.o.Result = c.Result
				}
				p.o.Query = c.Query
				if c.Model != "" {
					p.o.Model = c.Model
				}
			}
			if len(p.parts) == 0 {
				p.o.Backend = "trivial"
			}
		}
	}()
	for _, o := range obls {
		if !isSplit[o] {
			todo = append(todo, o)
		}
	}
	for _, o := range todo {
		ms := defMs
		if o.Hints != nil && o.Hints.Timeout > 0 {
			ms = o.Hints.Timeout * 1000
		}
		s.prove(x, o, ms, &wg)
	}
	wg.Wait()
}

func (s *Solver) stats() string {
	var ks []string
	for k := range s.secs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		r = append(r, fmt.Sprintf("%s: %d calls %.1fs %d unsat", k, s.calls[k], s.secs[k], s.wins[k]))
	}
	return strings.Join(r, "; ")
}

func (s *Solver) runq(txt string, ms int) string {
	return s.run(context.Background(), "z3-new", txt, ms)
}
