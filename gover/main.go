package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	fnF := flag.String("func", "", "only these functions (substring)")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "")
	dumpC := flag.String("dumpcand", "", "")
	timeout := flag.Int("t", 20, "")
	ev := flag.String("evidence", "", "")
	out := flag.String("out", "", "file for the failed obligations")
	budget := flag.Int("budget", 3000, "seconds")
	list := flag.Bool("list", false, "")
	flag.Parse()
	t0 := time.Now()
	prog, err := Load(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *list {
		for _, k := range prog.FuncKeys() {
			fmt.Println(k)
		}
		return
	}
	db, err := LoadSpecs(*specs, prog)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r := &Run{prog: prog, db: db.view(*prop), solver: NewSolver(), verbose: *verbose, timeout: *timeout * 1000, dumpC: *dumpC}
	r.solver.end = t0.Add(time.Duration(*budget) * time.Second)
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
		r.solver.dump = *dump
	}
	rep := r.check(db, *prop, *fnF)
	rep.wall = time.Since(t0).Seconds()
	bad := rep.print(*verbose)
	if *out != "" {
		rep.writeFailures(*out)
	}
	if *ev != "" {
		rep.writeEvidence(*ev, *prop, r)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

type report struct {
	prop string
	res  []*FuncResult
	wall float64
	r    *Run
}

func tagged(cs []*Clause, p string) bool {
	for _, c := range cs {
		if c.Props[p] {
			return true
		}
	}
	return false
}

// check verifies every function whose contract carries the property, and every contract those rely on.
func (r *Run) check(full *SpecDB, prop, only string) *report {
	rep := &report{prop: prop, r: r}
	var work []string
	seen := map[string]bool{}
	var keys []string
	for k := range r.db.Contracts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	push := func(k string) {
		if !seen[k] {
			seen[k] = true
			work = append(work, k)
		}
	}
	for _, k := range keys {
		c := full.Contracts[k]
		if prop == "" || c.Props[prop] || tagged(c.Ensures, prop) || tagged(c.Returns, prop) || tagged(c.Emits, prop) || tagged(c.AtCalls, prop) {
			push(k)
		}
	}
	var lns []string
	for n, l := range full.Lemmas {
		if only != "" && len(l.Props) == 0 && strings.Contains(n, only) {
			lns = append(lns, "lemma "+n)
		}
		for _, p := range l.Props {
			if p == prop || prop == "" || only != "" && strings.Contains(n, only) {
				lns = append(lns, "lemma "+n)
			}
		}
	}
	sort.Strings(lns)
	for _, n := range lns {
		push(n)
	}
	for i := 0; i < len(work); i++ {
		k := work[i]
		if only != "" && !strings.Contains(k, only) {
			continue
		}
		if strings.HasPrefix(k, "lemma ") {
			res := r.proveLemma(strings.TrimPrefix(k, "lemma "))
			rep.res = append(rep.res, res)
			for _, u := range res.Used {
				push(u)
			}
			continue
		}
		con := r.db.Contracts[k]
		if con.Attrs["iface"] {
			for _, impl := range r.implementers(con) {
				push(impl)
			}
			continue
		}
		if con.Attrs["trusted"] {
			rep.res = append(rep.res, &FuncResult{Key: k, Assumed: []string{"contract of " + k + " is trusted: " + con.Args["why"]}})
			continue
		}
		t0 := time.Now()
		res := r.verify(k)
		if r.verbose {
			fmt.Printf("== %s: %d obligations, %d exits, %.1fs\n", k, len(res.Obls), res.Exits, time.Since(t0).Seconds())
		}
		rep.res = append(rep.res, res)
		for _, u := range res.Used {
			push(u)
		}
	}
	return rep
}

func (rep *report) failures() []*Obl {
	var r []*Obl
	for _, f := range rep.res {
		for _, o := range f.Obls {
			if o.Result != "proved" {
				r = append(r, o)
			}
		}
	}
	return r
}

func (rep *report) print(v bool) int {
	n, bad := 0, 0
	for _, f := range rep.res {
		for _, o := range f.Obls {
			n++
			if o.Result != "proved" {
				bad++
				fmt.Printf("FAILED %s: %s %s [%s] at %s (%.1fs %s)\n", f.Key, o.Kind, o.Name, o.Result, o.Pos, o.Secs, o.Backend)
				if v {
					fmt.Printf("   path: %s\n", strings.Join(o.Trace, " "))
				}
			} else if v && o.Secs > 3 {
				fmt.Printf("slow %s: %s %s %.1fs %s\n", f.Key, o.Kind, o.Name, o.Secs, o.Backend)
			}
		}
	}
	fmt.Printf("%s: %d functions, %d obligations, %d failed, %.1fs (%s)\n", rep.prop, len(rep.res), n, bad, rep.wall, rep.r.solver.stats())
	return bad
}

func (rep *report) writeFailures(file string) {
	var sb strings.Builder
	for _, o := range rep.failures() {
		fmt.Fprintf(&sb, "obligation %s / %s / %s\n  at %s\n  result %s %s\n", o.Func, o.Kind, o.Name, o.Pos, o.Result, o.Backend)
		if len(o.Trace) > 0 {
			fmt.Fprintf(&sb, "  path %s\n", strings.Join(o.Trace, " "))
		}
		if o.Goal != nil {
			g := o.Goal.String()
			if len(g) > 2000 {
				g = g[:2000] + "..."
			}
			fmt.Fprintf(&sb, "  goal %s\n", g)
		}
	}
	os.WriteFile(file, []byte(sb.String()), 0o644)
}
