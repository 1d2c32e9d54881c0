package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

type evFunc struct {
	Name        string         `json:"function"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Exits       int            `json:"exit_paths"`
	Inlined     []string       `json:"inlined,omitempty"`
	Kinds       map[string]int `json:"kinds"`
}

// attributes of a contract that leave something unchecked
var attrNotes = map[string]string{
	"nodiv":    "divisors are assumed non-zero",
	"nobounds": "indices are assumed in range",
	"nonil":    "dereferenced pointers are assumed non-nil",
}

func (rep *report) writeEvidence(file, prop string, r *Run) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	n, ok := 0, 0
	back := map[string]int{}
	secs := map[string]float64{}
	for k, v := range r.solver.secs {
		secs[k] = float64(int(v*100)) / 100
	}
	asm := map[string]bool{}
	libs := map[string]bool{}
	var fs []evFunc
	var labels []string
	seenL := map[string]bool{}
	for _, f := range rep.res {
		e := evFunc{Name: f.Key, Exits: f.Exits, Inlined: f.Inlined, Kinds: map[string]int{}}
		for _, o := range f.Obls {
			n++
			e.Obligations++
			e.Kinds[o.Kind]++
			if o.Result == "proved" {
				ok++
				e.Discharged++
				back[o.Backend]++
			}
			if (o.Kind == "post" || o.Kind == "returns" || o.Kind == "lemma") && !seenL[f.Key+o.Name] && len(labels) < 60 {
				seenL[f.Key+o.Name] = true
				labels = append(labels, f.Key+": "+o.Name)
			}
		}
		for _, a := range f.Assumed {
			asm[a] = true
		}
		for _, l := range f.Libs {
			libs[l] = true
		}
		if c := r.db.Contracts[f.Key]; c != nil {
			for a, note := range attrNotes {
				if c.Attrs[a] {
					asm["in "+f.Key+" "+note] = true
				}
			}
		}
		fs = append(fs, e)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
	asm["float64 arithmetic is treated as exact real arithmetic, NaN and infinities excluded; int arithmetic as unbounded"] = true
	if len(libs) > 0 {
		asm["library functions replaced by their specification: "+strings.Join(sortedKeys(libs), ", ")] = true
	}
	tb := []string{"gover, the verification-condition generator in /verif/gover (its model of Go: evaluation order, aliasing of slices and pointers, library specifications)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)", "Go's type checker go/types"}
	cov := map[string]interface{}{
		"obligations": n, "discharged": ok,
		"checker_cmd":            "/verif/build/gover -repo /repo -specs /verif/contracts -prop " + prop,
		"trusted_base":           tb,
		"functions":              fs,
		"discharged_by_back_end": back,
		"solver_seconds":         secs,
		"statements_proved":      labels,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": sortedKeys(asm), "wall_s": rep.wall, "violations": n - ok,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(file, b, 0o644)
}
