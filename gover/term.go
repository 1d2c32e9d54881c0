package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KInt SortKind = iota
	KReal
	KBool
	KUn   // uninterpreted
	KArr  // array from Int
	KData // one constructor datatype
)

type Sort struct {
	Kind   SortKind
	Name   string // SMT text
	Elem   *Sort  // array element
	Ctor   string
	Fields []SField
	id     int
}

type SField struct {
	Name string // selector name (globally unique)
	Sort *Sort
}

var (
	SInt  = &Sort{Kind: KInt, Name: "Int"}
	SReal = &Sort{Kind: KReal, Name: "Real"}
	SBool = &Sort{Kind: KBool, Name: "Bool"}
	SStr  = &Sort{Kind: KUn, Name: "GoStr"}
	SIfc  = &Sort{Kind: KUn, Name: "GoIface"}
)

var arrSorts = map[*Sort]*Sort{}

func SArr(e *Sort) *Sort {
	if s, ok := arrSorts[e]; ok {
		return s
	}
	s := &Sort{Kind: KArr, Name: "(Array Int " + e.Name + ")", Elem: e}
	arrSorts[e] = s
	return s
}

var dataSorts = map[string]*Sort{}

// ---------------------------------------------------------------- terms

type Term struct {
	Op    string // var bvar num true false app, + - * / neg < <= = and or not => ite select store mk sel toreal toint forall exists
	Name  string
	Num   *big.Rat
	Args  []*Term
	Sort  *Sort
	Bound []*Term
	Pats  [][]*Term
	id    int
	hasBV bool
	fvs   map[int]bool // free bound vars
}

var termTab = map[string]*Term{}
var termCnt = 0

func mk(op, name string, sort *Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort.Name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{Op: op, Name: name, Sort: sort, Args: args, id: termCnt}
	for _, a := range args {
		for v := range a.fvs {
			if t.fvs == nil {
				t.fvs = map[int]bool{}
			}
			t.fvs[v] = true
		}
	}
	termTab[k] = t
	return t
}

var True = mk("true", "", SBool)
var False = mk("false", "", SBool)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Var(name string, s *Sort) *Term { return mk("var", name, s) }

var bvCnt = 0

func BVar(hint string, s *Sort) *Term {
	bvCnt++
	t := mk("bvar", fmt.Sprintf("%s!%d", hint, bvCnt), s)
	t.fvs = map[int]bool{t.id: true}
	return t
}

func NumR(r *big.Rat, s *Sort) *Term {
	t := mk("num", r.RatString(), s)
	t.Num = r
	return t
}
func IntT(n int64) *Term       { return NumR(new(big.Rat).SetInt64(n), SInt) }
func RealT(r *big.Rat) *Term   { return NumR(r, SReal) }
func RealF(s string) *Term     { r, _ := new(big.Rat).SetString(s); return RealT(r) }
func (t *Term) isNum() bool    { return t.Op == "num" }
func (t *Term) isZero() bool   { return t.Op == "num" && t.Num.Sign() == 0 }
func (t *Term) isOne() bool    { return t.Op == "num" && t.Num.Cmp(big.NewRat(1, 1)) == 0 }
func (t *Term) String() string { return smtTree(t) }

func App(name string, s *Sort, args ...*Term) *Term { return mk("app", name, s, args...) }

func coerce(a, b *Term) (*Term, *Term) {
	if a.Sort == SReal && b.Sort == SInt {
		return a, ToReal(b)
	}
	if a.Sort == SInt && b.Sort == SReal {
		return ToReal(a), b
	}
	return a, b
}

func ToReal(a *Term) *Term {
	if a.Sort == SReal {
		return a
	}
	if a.isNum() {
		return RealT(a.Num)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], ToReal(a.Args[1]), ToReal(a.Args[2]))
	}
	return mk("toreal", "", SReal, a)
}

// Floor: SMT to_int
func ToIntFloor(a *Term) *Term {
	if a.Sort == SInt {
		return a
	}
	if a.isNum() {
		n := new(big.Int).Div(a.Num.Num(), a.Num.Denom()) // Euclidean, denom>0: floor
		return NumR(new(big.Rat).SetInt(n), SInt)
	}
	if a.Op == "toreal" {
		return a.Args[0]
	}
	return mk("toint", "", SInt, a)
}

func Add(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a.isNum() && b.isNum() {
		return NumR(new(big.Rat).Add(a.Num, b.Num), a.Sort)
	}
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	// normalise x + c1 + c2
	if b.isNum() && a.Op == "+" && a.Args[1].isNum() {
		return Add(a.Args[0], NumR(new(big.Rat).Add(a.Args[1].Num, b.Num), a.Sort))
	}
	if a.isNum() {
		return Add(b, a)
	}
	if a.Sort == SInt {
		if r := linNorm(mk("+", "", a.Sort, a, b)); r != nil {
			return r
		}
	}
	return mk("+", "", a.Sort, a, b)
}

// linNorm normalises integer sums: collects linear monomials, cancels, constant last.
func linNorm(t *Term) *Term {
	coef := map[*Term]*big.Rat{}
	var order []*Term
	c := new(big.Rat)
	var walk func(t *Term, k *big.Rat)
	walk = func(t *Term, k *big.Rat) {
		switch t.Op {
		case "num":
			c.Add(c, new(big.Rat).Mul(k, t.Num))
		case "+":
			walk(t.Args[0], k)
			walk(t.Args[1], k)
		case "-":
			walk(t.Args[0], k)
			walk(t.Args[1], new(big.Rat).Neg(k))
		case "*":
			if t.Args[0].isNum() {
				walk(t.Args[1], new(big.Rat).Mul(k, t.Args[0].Num))
				return
			}
			fallthrough
		default:
			if coef[t] == nil {
				coef[t] = new(big.Rat)
				order = append(order, t)
			}
			coef[t].Add(coef[t], k)
		}
	}
	walk(t, big.NewRat(1, 1))
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var res *Term
	one := big.NewRat(1, 1)
	for _, m := range order {
		k := coef[m]
		if k.Sign() == 0 {
			continue
		}
		x := m
		neg := false
		if k.Cmp(one) != 0 {
			if k.Sign() < 0 && res != nil {
				neg = true
				k = new(big.Rat).Neg(k)
			}
			if k.Cmp(one) != 0 {
				x = mk("*", "", m.Sort, NumR(k, m.Sort), m)
			}
		}
		if res == nil {
			res = x
		} else if neg {
			res = mk("-", "", m.Sort, res, x)
		} else {
			res = mk("+", "", m.Sort, res, x)
		}
	}
	if res == nil {
		return NumR(c, t.Sort)
	}
	if c.Sign() != 0 {
		res = mk("+", "", t.Sort, res, NumR(c, t.Sort))
	}
	return res
}

func Neg(a *Term) *Term {
	if a.isNum() {
		return NumR(new(big.Rat).Neg(a.Num), a.Sort)
	}
	if a.Op == "neg" {
		return a.Args[0]
	}
	if a.Sort == SInt {
		return Mul(IntT(-1), a)
	}
	return mk("neg", "", a.Sort, a)
}
func Sub(a, b *Term) *Term {
	a, b = coerce(a, b)
	if b.isNum() {
		return Add(a, NumR(new(big.Rat).Neg(b.Num), b.Sort))
	}
	if a == b {
		return NumR(new(big.Rat), a.Sort)
	}
	if a.isZero() {
		return Neg(b)
	}
	if a.Sort == SInt {
		return linNorm(mk("-", "", a.Sort, a, b))
	}
	return mk("-", "", a.Sort, a, b)
}
func Mul(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a.isNum() && b.isNum() {
		return NumR(new(big.Rat).Mul(a.Num, b.Num), a.Sort)
	}
	if b.isNum() {
		a, b = b, a
	}
	if a.isZero() {
		return a
	}
	if a.isOne() {
		return b
	}
	if a.Sort == SInt && a.isNum() {
		return linNorm(mk("*", "", a.Sort, a, b))
	}
	if a.isNum() && b.Op == "*" && b.Args[0].isNum() {
		return Mul(NumR(new(big.Rat).Mul(a.Num, b.Args[0].Num), a.Sort), b.Args[1])
	}
	if a.isNum() && b.Op == "neg" {
		return Mul(NumR(new(big.Rat).Neg(a.Num), a.Sort), b.Args[0])
	}
	if !a.isNum() && b.Op == "*" && b.Args[0].isNum() { // pull constants out
		return Mul(b.Args[0], Mul(a, b.Args[1]))
	}
	if !a.isNum() && a.Op == "*" && a.Args[0].isNum() {
		return Mul(a.Args[0], Mul(a.Args[1], b))
	}
	return mk("*", "", a.Sort, a, b)
}
func Div(a, b *Term) *Term { // real division
	a, b = ToReal(a), ToReal(b)
	if b.isNum() && !b.isZero() {
		return Mul(RealT(new(big.Rat).Inv(b.Num)), a)
	}
	return mk("/", "", SReal, a, b)
}

// Go integer division and remainder (truncated)
func IDiv(a, b *Term) *Term {
	if a.isNum() && b.isNum() && !b.isZero() {
		q := new(big.Int).Quo(a.Num.Num(), b.Num.Num())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	d := mk("idiv", "", SInt, a, b) // SMT div: floor for positive divisor
	neg := Neg(mk("idiv", "", SInt, Neg(a), b))
	return Ite(Le(IntT(0), a), d, neg)
}
func IMod(a, b *Term) *Term {
	if a.isNum() && b.isNum() && !b.isZero() {
		q := new(big.Int).Rem(a.Num.Num(), b.Num.Num())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	m := mk("imod", "", SInt, a, b)
	neg := Neg(mk("imod", "", SInt, Neg(a), b))
	return Ite(Le(IntT(0), a), m, neg)
}

func Lt(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a == b {
		return False
	}
	if a.isNum() && b.isNum() {
		return B(a.Num.Cmp(b.Num) < 0)
	}
	if a.Sort == SInt {
		if d := Sub(a, b); d.isNum() {
			return B(d.Num.Sign() < 0)
		}
	}
	return mk("<", "", SBool, a, b)
}
func Le(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a == b {
		return True
	}
	if a.isNum() && b.isNum() {
		return B(a.Num.Cmp(b.Num) <= 0)
	}
	if a.Sort == SInt {
		if d := Sub(a, b); d.isNum() {
			return B(d.Num.Sign() <= 0)
		}
	}
	return mk("<=", "", SBool, a, b)
}
func Eq(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(unsup{msg: fmt.Sprintf("equality of sorts %s and %s", a.Sort.Name, b.Sort.Name)})
	}
	if a.isNum() && b.isNum() {
		return B(a.Num.Cmp(b.Num) == 0)
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		if d := Sub(a, b); d.isNum() {
			return B(d.Num.Sign() == 0)
		}
	}
	if a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<":
		return Le(a.Args[1], a.Args[0])
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	}
	return mk("not", "", SBool, a)
}
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False {
			return False
		}
		if a == True || seen[a] {
			continue
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a)] && a.Op == "not" {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False || seen[a] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	a, b = coerce(a, b)
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", "", a.Sort, c, a, b)
}
func Select(a, i *Term) *Term {
	for a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "const-array" {
		return a.Args[0]
	}
	if a.Op == "app" && strings.HasPrefix(a.Name, "shift_") {
		return Select(a.Args[0], Add(i, a.Args[1]))
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", "", a.Sort.Elem, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("const-array", "", s, v) }
func Mk(s *Sort, args ...*Term) *Term {
	// eta: mk(sel0 t, sel1 t, ...) = t
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].Sort == s {
		base := args[0].Args[0]
		all := true
		for i, a := range args {
			if a.Op != "sel" || a.Name != s.Fields[i].Name || a.Args[0] != base {
				all = false
				break
			}
		}
		if all {
			return base
		}
	}
	return mk("mk", s.Ctor, s, args...)
}
func Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" && (t.Args[1].Op == "mk" || t.Args[2].Op == "mk") {
		return Ite(t.Args[0], Sel(t.Args[1], i), Sel(t.Args[2], i))
	}
	f := t.Sort.Fields[i]
	return mk("sel", f.Name, f.Sort, t)
}

func quant(op string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var bs []*Term
	for _, b := range bound {
		use := body.fvs[b.id]
		for _, p := range pats {
			for _, x := range p {
				use = use || x.fvs[b.id]
			}
		}
		if use {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	// not hash-consed across pats, fine
	var names []string
	for _, b := range bs {
		names = append(names, b.Name)
	}
	key := strings.Join(names, ",")
	for _, p := range pats {
		key += "{"
		for _, x := range p {
			key += fmt.Sprintf("%d,", x.id)
		}
		key += "}"
	}
	t := mk(op, key, SBool, body)
	t.Bound = bs
	t.Pats = pats
	t.fvs = nil
	for v := range body.fvs {
		in := false
		for _, b := range bs {
			if b.id == v {
				in = true
			}
		}
		if !in {
			if t.fvs == nil {
				t.fvs = map[int]bool{}
			}
			t.fvs[v] = true
		}
	}
	return t
}
func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bound, body, pats)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", bound, body, pats)
}

// Subst replaces terms (by identity) bottom-up, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = go_(a)
			if args[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		if t.Op == "forall" || t.Op == "exists" {
			for _, p := range t.Pats {
				var np []*Term
				for _, x := range p {
					y := go_(x)
					if y != x {
						ch = true
					}
					np = append(np, y)
				}
				pats = append(pats, np)
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return go_(t)
}

func rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "/":
		return Div(a[0], a[1])
	case "neg":
		return Neg(a[0])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "mk":
		return Mk(t.Sort, a...)
	case "sel":
		for i, f := range a[0].Sort.Fields {
			if f.Name == t.Name {
				return Sel(a[0], i)
			}
		}
	case "toreal":
		return ToReal(a[0])
	case "toint":
		return ToIntFloor(a[0])
	case "forall", "exists":
		return quant(t.Op, t.Bound, a[0], pats)
	}
	return mk(t.Op, t.Name, t.Sort, a...)
}

// ---------------------------------------------------------------- SMT printing

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if real {
		if a.IsInt() {
			s = a.Num().String() + ".0"
		} else {
			s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		s = a.Num().String()
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

var symEsc = strings.NewReplacer("#", "#23", "|", "#7c", "\\", "#5c", "\n", "#a", "\r", "#d", "\t", "#9")

func sym(s string) string {
	switch s {
	case "sqrt", "sin", "cos", "acos", "tan", "atan", "pi", "exp": // names cvc5 has built in
		return s + "$"
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$') {
			return "|" + symEsc.Replace(s) + "|"
		}
	}
	return s
}

type printer struct {
	lin, nl bool
	decls   []string
	declSet map[string]bool
	defs    []string
	names   map[*Term]string
	refs    map[*Term]int
	sorts   map[*Sort]bool
	sortOut []string
	unsorts map[string]bool
}

func (p *printer) declSort(s *Sort) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	switch s.Kind {
	case KUn:
		p.sortOut = append(p.sortOut, "(declare-sort "+s.Name+" 0)")
	case KArr:
		p.declSort(s.Elem)
	case KData:
		for _, f := range s.Fields {
			p.declSort(f.Sort)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", s.Name, s.Ctor)
		for _, f := range s.Fields {
			fmt.Fprintf(&sb, " (%s %s)", f.Name, f.Sort.Name)
		}
		sb.WriteString("))))")
		p.sortOut = append(p.sortOut, sb.String())
	}
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.declSort(t.Sort)
	switch t.Op {
	case "var":
		if !p.declSet[t.Name] {
			p.declSet[t.Name] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s () %s)", sym(t.Name), t.Sort.Name))
		}
	case "app":
		if !p.declSet[t.Name] {
			p.declSet[t.Name] = true
			var as []string
			for _, a := range t.Args {
				p.declSort(a.Sort)
				as = append(as, a.Sort.Name)
			}
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(t.Name), strings.Join(as, " "), t.Sort.Name))
		}
	}
	for _, b := range t.Bound {
		p.declSort(b.Sort)
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, q := range t.Pats {
		for _, x := range q {
			p.count(x)
		}
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.refs[t] > 1 && len(t.Args) > 0 && len(t.fvs) == 0 && len(s) > 40 {
		n := fmt.Sprintf("d!%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort.Name, s))
		p.names[t] = n
		return n
	}
	p.names[t] = s
	return s
}

func (p *printer) raw(t *Term) string {
	args := func() string {
		var sb strings.Builder
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(p.str(a))
		}
		return sb.String()
	}
	switch t.Op {
	case "true", "false":
		return t.Op
	case "num":
		return ratSMT(t.Num, t.Sort == SReal)
	case "var", "bvar":
		return sym(t.Name)
	case "app":
		if len(t.Args) == 0 {
			return sym(t.Name)
		}
		return "(" + sym(t.Name) + args() + ")"
	case "neg":
		return "(-" + args() + ")"
	case "toreal":
		return "(to_real" + args() + ")"
	case "toint":
		return "(to_int" + args() + ")"
	case "idiv":
		return "(div" + args() + ")"
	case "imod":
		return "(mod" + args() + ")"
	case "mk":
		if len(t.Args) == 0 {
			return t.Name
		}
		return "(" + t.Name + args() + ")"
	case "sel":
		return "(" + t.Name + args() + ")"
	case "const-array":
		return "((as const " + t.Sort.Name + ")" + args() + ")"
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			fmt.Fprintf(&sb, "(%s %s)", sym(b.Name), b.Sort.Name)
		}
		sb.WriteString(") ")
		body := p.str(t.Args[0])
		if len(t.Pats) > 0 {
			sb.WriteString("(! " + body)
			for _, q := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range q {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.str(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	if p.lin && nonlinear(t) {
		p.nl = true
		op, a, b := "nlmul_", t.Args[0], t.Args[1]
		if t.Op == "/" {
			op = "nldiv_"
		} else if b.id < a.id {
			a, b = b, a
		}
		op += t.Sort.Name
		if !p.declSet[op] {
			p.declSet[op] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s %s) %s)", op, t.Sort.Name, t.Sort.Name, t.Sort.Name))
		}
		return "(" + op + " " + p.str(a) + " " + p.str(b) + ")"
	}
	return "(" + t.Op + args() + ")"
}

func nonlinear(t *Term) bool {
	return t.Op == "*" && !t.Args[0].isNum() && !t.Args[1].isNum() || t.Op == "/" && !t.Args[1].isNum()
}

func smtTree(t *Term) string {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}, sorts: map[*Sort]bool{}, declSet: map[string]bool{}}
	return p.str(t)
}

// smtQuery renders assertions.
func smtQuery(asserts []*Term, model bool) string {
	return (&printer{names: map[*Term]string{}, refs: map[*Term]int{}, sorts: map[*Sort]bool{}, declSet: map[string]bool{}}).query(asserts, model)
}

// smtLinear renders assertions with nonlinear products and quotients left uninterpreted,
// which weakens them; "" if there are none.
func smtLinear(asserts []*Term) string {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}, sorts: map[*Sort]bool{}, declSet: map[string]bool{}, lin: true}
	s := p.query(asserts, false)
	if !p.nl {
		return ""
	}
	return s
}

func (p *printer) query(asserts []*Term, model bool) string {
	for _, a := range asserts {
		p.count(a)
	}
	var body []string
	for _, a := range asserts {
		n := len(p.defs)
		s := p.str(a)
		body = append(body, p.defs[n:]...)
		body = append(body, "(assert "+s+")")
	}
	var sb strings.Builder
	for _, s := range p.sortOut {
		sb.WriteString(s + "\n")
	}
	for _, s := range p.decls {
		sb.WriteString(s + "\n")
	}
	for _, s := range body {
		sb.WriteString(s + "\n")
	}
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

// subterms visits each distinct subterm once.
func visit(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
}
