package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Src   string
	Expr  ast.Expr
	Lab   string
	Props map[string]bool
	Where string
	// candidates
	Meta  []MetaVar
	Call  string   // atcall: the function called
	Pars  []string // atcall: names of its arguments
	Depth string   // "outer": not for loops within loops, "nested": only for them
}

type MetaVar struct {
	Name string
	Type string
	Mode string // "mod" (default: modified in the loop), "any"
}

func (c *Clause) Label() string {
	if c.Lab != "" {
		return c.Lab
	}
	s := strings.Join(strings.Fields(c.Src), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

type Contract struct {
	Key      string
	Pkg      *Pkg
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Emits    []*Clause
	Modifies []*Clause
	Returns  []*Clause
	Assumes  []*Clause
	Cands    []*Clause
	AtCalls  []*Clause // obligations at the calls of another function
	Lemmas   []*Clause
	Attrs    map[string]bool
	Args     map[string]string
	Timeout  int
	Props    map[string]bool
	Ghost    func(x *Exec, st *State, args []Value)
	Where    string
	Reveal   []string
	Iface    *Contract // contract of the interface method this one implements
}

type SpecFn struct {
	Name   string
	Kind   string // spec opaque uf fold
	Params []string
	PTypes []string
	Ret    string
	Body   ast.Expr
	Src    string
	Where  string
	Pkg    *Pkg
}

type Lemma struct {
	Hide   bool
	Reveal []string
	Name   string
	Src    string
	Expr   ast.Expr
	Where  string
	Pkg    *Pkg
	Ind    string
	Axiom  bool
	Uses   []string
	Props  []string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Fns       map[string]*SpecFn
	Lemmas    map[string]*Lemma
	prog      *Prog
}

// view restricts the contracts to the clauses of one property.
func (db *SpecDB) view(prop string) *SpecDB {
	n := &SpecDB{Contracts: map[string]*Contract{}, Fns: db.Fns, Lemmas: db.Lemmas, prog: db.prog}
	fl := func(cs []*Clause) []*Clause {
		var r []*Clause
		for _, c := range cs {
			if len(c.Props) == 0 || prop == "" || c.Props[prop] {
				r = append(r, c)
			}
		}
		return r
	}
	for k, c := range db.Contracts {
		v := *c
		if v.Args["only"] != "" && prop != "" && !strings.Contains(" "+v.Args["only"]+" ", " "+prop+" ") {
			continue
		}
		v.Requires = fl(c.Requires)
		v.Ensures = fl(c.Ensures)
		v.Returns = c.Returns
		v.Lemmas = fl(c.Lemmas)
		v.Cands = fl(c.Cands)
		v.AtCalls = fl(c.AtCalls)
		v.Modifies = fl(c.Modifies)
		v.Assumes = fl(c.Assumes)
		n.Contracts[k] = &v
	}
	return n
}

var kwRe = regexp.MustCompile(`^(package|func|spec|opaque|uf|fold|axiom|lemma|requires|ensures|modifies|returns|assumes|cand|attr|timeout|props|reveal|use|onsend|onrecv|arg|atcall)\b`)

func parseExprSrc(src, where string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in: %s", where, err, src))
	}
	return e
}

func LoadSpecs(dir string, prog *Prog) (*SpecDB, error) {
	db := &SpecDB{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}, prog: prog}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

var headRe = regexp.MustCompile(`^([\w.]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)
var tagRe = regexp.MustCompile(`^((?:@[A-Z]\d+\s*)*)(?:\[([^\]\s][^\]]*)\]\s+)?(?s:(.*))$`)

func splitNames(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func (db *SpecDB) loadFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var pkg *Pkg
	var cur *Contract
	type item struct {
		kw, txt string
		line    int
	}
	var items []item
	for n, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if i := strings.Index(t, "//"); i >= 0 {
			t = strings.TrimSpace(t[:i])
		}
		if t == "" {
			continue
		}
		if m := kwRe.FindString(t); m != "" {
			items = append(items, item{m, strings.TrimSpace(t[len(m):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].txt += "\n" + t
		}
	}
	mkClause := func(txt, where string) *Clause {
		m := tagRe.FindStringSubmatch(txt)
		c := &Clause{Src: strings.TrimSpace(m[3]), Lab: strings.TrimSpace(m[2]), Where: where}
		for _, t := range strings.Fields(m[1]) {
			if c.Props == nil {
				c.Props = map[string]bool{}
			}
			c.Props[t[1:]] = true
		}
		return c
	}
	for _, it := range items {
		where := fmt.Sprintf("%s:%d", filepath.Base(file), it.line)
		switch it.kw {
		case "package":
			pkg = db.prog.ByName[it.txt]
			if pkg == nil {
				return fmt.Errorf("%s: no package %s", where, it.txt)
			}
			cur = nil
		case "func":
			m := headRe.FindStringSubmatch(it.txt)
			if m == nil {
				return fmt.Errorf("%s: bad header %s", where, it.txt)
			}
			name := pkg.Name
			if name == "main" {
				name = filepath.Base(pkg.Path)
			}
			cur = &Contract{Key: name + "." + m[1], Pkg: pkg, Params: splitNames(m[2]), Results: splitNames(m[3]), Attrs: map[string]bool{}, Args: map[string]string{}, Props: map[string]bool{}, Where: where}
			if db.Contracts[cur.Key] != nil {
				return fmt.Errorf("%s: duplicate contract %s", where, cur.Key)
			}
			db.Contracts[cur.Key] = cur
		case "spec", "opaque", "uf", "fold":
			eq := strings.Index(it.txt, "=")
			if it.kw == "uf" {
				eq = len(it.txt)
			}
			head := strings.TrimSpace(it.txt[:eq])
			op := strings.Index(head, "(")
			cl := strings.LastIndex(head, ")")
			fn := &SpecFn{Name: strings.TrimSpace(head[:op]), Kind: it.kw, Ret: strings.TrimSpace(head[cl+1:]), Where: where, Pkg: pkg}
			for _, p := range splitNames(head[op+1 : cl]) {
				f := strings.Fields(p)
				fn.Params = append(fn.Params, f[0])
				fn.PTypes = append(fn.PTypes, strings.Join(f[1:], " "))
			}
			if eq < len(it.txt) {
				fn.Src = it.txt[eq+1:]
				fn.Body = parseExprSrc(fn.Src, where)
			}
			db.Fns[fn.Name] = fn
		case "axiom", "lemma":
			// name (vars) [ind n] [uses a,b] : expr
			c := strings.Index(it.txt, ":")
			head, body := strings.TrimSpace(it.txt[:c]), strings.TrimSpace(it.txt[c+1:])
			lm := &Lemma{Src: body, Where: where, Pkg: pkg, Axiom: it.kw == "axiom", Expr: parseExprSrc(body, where)}
			f := strings.Fields(head)
			lm.Name = f[0]
			for i := 1; i < len(f); i++ {
				if strings.HasPrefix(f[i], "@") {
					lm.Props = append(lm.Props, f[i][1:])
				}
				switch f[i] {
				case "ind":
					lm.Ind = f[i+1]
				case "hide": // keep opaque functions opaque
					lm.Hide = true
				case "reveal": // all but these
					lm.Hide = true
					lm.Reveal = strings.Split(f[i+1], ",")
				case "uses":
					lm.Uses = strings.Split(f[i+1], ",")
				}
			}
			db.Lemmas[lm.Name] = lm
		default:
			if cur == nil {
				return fmt.Errorf("%s: clause outside a function", where)
			}
			switch it.kw {
			case "attr":
				for _, a := range strings.Fields(it.txt) {
					cur.Attrs[a] = true
				}
			case "arg":
				f := strings.Fields(it.txt)
				cur.Args[f[0]] = strings.Join(f[1:], " ")
			case "props":
				for _, a := range strings.Fields(it.txt) {
					cur.Props[a] = true
				}
			case "reveal":
				cur.Reveal = append(cur.Reveal, strings.Fields(it.txt)...)
			case "timeout":
				cur.Timeout, _ = strconv.Atoi(it.txt)
			case "use":
				cl := mkClause(it.txt, where)
				cl.Expr = parseExprSrc(cl.Src, where)
				cur.Lemmas = append(cur.Lemmas, cl)
			case "atcall": // pkg.Func(receiver, arguments) [(x T; y T)] :: expr: holds at every call, for some variables in scope
				cl := mkClause(it.txt, where)
				s := cl.Src
				i := strings.Index(s, "::")
				if i < 0 {
					return fmt.Errorf("%s: atcall without ::", where)
				}
				h := strings.TrimSpace(s[:i])
				o, q := strings.Index(h, "("), strings.Index(h, ")")
				if o < 0 || q < o {
					return fmt.Errorf("%s: atcall without arguments", where)
				}
				cl.Call, cl.Pars = strings.TrimSpace(h[:o]), splitNames(h[o+1:q])
				h = strings.TrimSpace(h[q+1:])
				for _, d := range strings.Split(strings.Trim(h, "()"), ";") {
					if f := strings.Fields(d); len(f) >= 2 {
						cl.Meta = append(cl.Meta, MetaVar{Name: f[0], Type: strings.Join(f[1:], " "), Mode: "any"})
					}
				}
				cl.Src = strings.TrimSpace(s[i+2:])
				cl.Expr = parseExprSrc(cl.Src, where)
				cur.AtCalls = append(cur.AtCalls, cl)
			case "cand":
				cl := mkClause(it.txt, where)
				s := cl.Src
				for _, d := range []string{"outer", "nested"} {
					if strings.HasPrefix(s, d+" (") {
						cl.Depth = d
						s = s[len(d)+1:]
					}
				}
				if strings.HasPrefix(s, "(") {
					// (i int; acc []Path any) :: expr
					i := strings.Index(s, "::")
					if i < 0 {
						return fmt.Errorf("%s: cand without ::", where)
					}
					h := strings.TrimSpace(s[:i])
					h = strings.TrimSuffix(strings.TrimPrefix(h, "("), ")")
					for _, d := range strings.Split(h, ";") {
						f := strings.Fields(d)
						if len(f) == 0 {
							continue
						}
						mv := MetaVar{Name: f[0], Type: f[1], Mode: "mod"}
						if len(f) > 2 {
							mv.Mode = f[2]
						}
						cl.Meta = append(cl.Meta, mv)
					}
					cl.Src = strings.TrimSpace(s[i+2:])
				}
				if cl.Depth != "" && len(cl.Meta) == 0 {
					return fmt.Errorf("%s: cand without variables", where)
				}
				cl.Expr = parseExprSrc(cl.Src, where)
				cur.Cands = append(cur.Cands, cl)
			default:
				cl := mkClause(it.txt, where)
				src := cl.Src
				if it.kw == "modifies" {
					src = strings.TrimSuffix(strings.TrimSpace(src), "[*]")
					src = strings.TrimPrefix(src, "*")
				}
				if it.kw == "returns" && src == "_" {
					cur.Returns = append(cur.Returns, nil)
					continue
				}
				cl.Expr = parseExprSrc(src, where)
				switch it.kw {
				case "requires":
					cur.Requires = append(cur.Requires, cl)
				case "ensures":
					cur.Ensures = append(cur.Ensures, cl)
				case "modifies":
					cur.Modifies = append(cur.Modifies, cl)
				case "returns":
					cur.Returns = append(cur.Returns, cl)
				case "assumes":
					cur.Assumes = append(cur.Assumes, cl)
				case "onsend":
					cur.Emits = append(cur.Emits, cl)
				}
			}
		}
	}
	return nil
}

// ------------------------------------------------------------- evaluation

type SEnv struct {
	x     *Exec
	names map[string]Value
	st    *State
	old   *State
	entry *SEnv
	pkg   *Pkg
	con   *Contract
	depth int
}

func (env *SEnv) with(k string, v Value) *SEnv {
	n := *env
	n.names = make(map[string]Value, len(env.names)+1)
	for a, b := range env.names {
		n.names[a] = b
	}
	n.names[k] = v
	return &n
}

func (env *SEnv) boolean(c *Clause) *Term {
	v := env.eval(c.Expr)
	t, ok := v.(*Term)
	if !ok || t.Sort != SBool {
		panic(unsup{msg: fmt.Sprintf("%s: clause is not a proposition: %s", c.Where, c.Src)})
	}
	return t
}

func (env *SEnv) lookupType(name string) types.Type {
	try := func(p *Pkg) types.Type {
		if o, ok := p.Types.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		p := env.x.prog.ByName[name[:i]]
		if p == nil {
			return nil
		}
		name = name[i+1:]
		return try(p)
	}
	if env.pkg != nil {
		if t := try(env.pkg); t != nil {
			return t
		}
	}
	for _, n := range []string{"primitives", "gcode", "slicers", "helpers", "vip"} {
		if p := env.x.prog.ByName[n]; p != nil {
			if t := try(p); t != nil {
				return t
			}
		}
	}
	return nil
}

// typeOf parses a type written in a specification.
func (env *SEnv) typeOf(s string) types.Type {
	s = strings.TrimSpace(s)
	switch s {
	case "real", "float64":
		return types.Typ[types.Float64]
	case "int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "GState", "GPrint", "GRetr", "GTrav":
		return gType(s)
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(env.typeOf(s[2:]))
	}
	if strings.HasPrefix(s, "chan:") {
		return types.NewChan(types.SendRecv, env.typeOf(s[5:]))
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(env.typeOf(s[1:]))
	}
	if t := env.lookupType(s); t != nil {
		return t
	}
	panic(unsup{msg: "unknown type in specification: " + s})
}

func (env *SEnv) global(name string) (Value, bool) {
	try := func(p *Pkg) (Value, bool) {
		if p == nil {
			return nil, false
		}
		switch o := p.Types.Scope().Lookup(name).(type) {
		case *types.Var:
			return env.x.globalVal(o, env.st), true
		case *types.Const:
			return constTerm(o.Val(), o.Type()), true
		}
		return nil, false
	}
	if v, ok := try(env.pkg); ok {
		return v, ok
	}
	if ast.IsExported(name) {
		for _, n := range []string{"primitives", "gcode", "slicers", "helpers", "vip"} {
			if v, ok := try(env.x.prog.ByName[n]); ok {
				return v, ok
			}
		}
	}
	return nil, false
}

func (env *SEnv) term(e ast.Expr) *Term {
	v := env.eval(e)
	t, ok := v.(*Term)
	if !ok {
		bad("specification term expected, got %T", v)
	}
	return t
}

func (env *SEnv) eval(e ast.Expr) Value {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Rat).SetString(e.Value)
			if !ok {
				bad("number %s", e.Value)
			}
			return NumR(n, SInt)
		case token.FLOAT:
			return RealF(e.Value)
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return &StrV{Parts: []StrPart{{Kind: 'l', Lit: s}}}
		}
	case *ast.Ident:
		if v, ok := env.names[e.Name]; ok {
			return v
		}
		switch e.Name {
		case "true":
			return True
		case "false":
			return False
		case "nil":
			return nilIface
		case "pi":
			return Pi
		}
		if f := env.x.db.Fns[e.Name]; f != nil && len(f.Params) == 0 {
			return env.applyFn(f, nil)
		}
		if v, ok := env.global(e.Name); ok {
			return v
		}
		bad("unknown name %s in specification", e.Name)
	case *ast.SelectorExpr:
		v := env.eval(e.X)
		return env.field(v, e.Sel.Name)
	case *ast.StarExpr:
		return env.deref(env.eval(e.X))
	case *ast.IndexExpr:
		v := env.eval(e.X)
		i := env.eval(e.Index).(*Term)
		switch s := v.(type) {
		case *SliceV:
			return unembed(env.st.elemTerm(s, i), s.Elem, env.wf())
		case *StructV:
			return s.F[i.Num.Num().Int64()]
		case *Term:
			if s.Sort.Kind == KArr {
				return Select(s, i)
			}
		case *StrV:
			return App("strbyte", SInt, strTerm(s), i)
		}
		bad("index of %T in specification", v)
	case *ast.SliceExpr:
		s, ok := env.eval(e.X).(*SliceV)
		if !ok {
			bad("slice expression in specification")
		}
		lo, hi := IntT(0), s.Len
		if e.Low != nil {
			lo = env.term(e.Low)
		}
		if e.High != nil {
			hi = env.term(e.High)
		}
		n := *s
		n.Off, n.Len = Add(s.Off, lo), Sub(hi, lo)
		return &n
	case *ast.UnaryExpr:
		t := env.term(e.X)
		switch e.Op {
		case token.SUB:
			return Neg(t)
		case token.NOT:
			return Not(t)
		}
	case *ast.BinaryExpr:
		l, r := env.eval(e.X), env.eval(e.Y)
		switch e.Op {
		case token.EQL:
			return eqV(l, r, env.st)
		case token.NEQ:
			return Not(eqV(l, r, env.st))
		}
		if s, ok := l.(*StrV); ok && e.Op == token.ADD {
			return normStr(&StrV{Parts: append(append([]StrPart{}, s.Parts...), r.(*StrV).Parts...)})
		}
		a, ok1 := l.(*Term)
		b, ok2 := r.(*Term)
		if !ok1 || !ok2 {
			bad("operator %s on %T, %T in specification", e.Op, l, r)
		}
		switch e.Op {
		case token.QUO:
			return Div(a, b)
		case token.REM:
			return IMod(a, b)
		}
		var t types.Type
		return env.x.binop(env.st, e.Op, a, b, t, token.NoPos)
	case *ast.CompositeLit:
		id, ok := e.Type.(*ast.Ident)
		if !ok {
			bad("composite literal in specification")
		}
		t := env.lookupType(id.Name)
		if t == nil {
			bad("unknown type %s in specification", id.Name)
		}
		u := t.Underlying().(*types.Struct)
		v := &StructV{Typ: t, F: make([]Value, u.NumFields())}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						v.F[j] = env.x.conv(env.eval(kv.Value), u.Field(j).Type(), env.st)
					}
				}
			} else {
				v.F[i] = env.x.conv(env.eval(el), u.Field(i).Type(), env.st)
			}
		}
		for j := range v.F {
			if v.F[j] == nil {
				v.F[j] = zeroV(u.Field(j).Type(), env.st)
			}
		}
		return v
	case *ast.CallExpr:
		return env.call(e)
	}
	bad("specification expression %T", e)
	return nil
}

func (env *SEnv) wf() *State { return env.st }

func (env *SEnv) deref(v Value) Value {
	p, ok := v.(*PtrV)
	if !ok {
		return v
	}
	if p.LV != nil {
		if p.LV.Tag == 0 {
			if _, ok := env.st.cells[p.LV.Cell]; !ok {
				bad("pointer target unknown in this state")
			}
		}
		return env.st.readLV(p.LV)
	}
	if p.Val == nil {
		return zeroV(p.Elem, env.st)
	}
	return p.Val
}

func (env *SEnv) field(v Value, name string) Value {
	v = env.deref(v)
	s, ok := v.(*StructV)
	if !ok {
		bad("field %s of %T in specification", name, v)
	}
	o, idx, _ := types.LookupFieldOrMethod(s.Typ, true, nil, name)
	if o == nil {
		// unexported: search by name
		u := s.Typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return s.F[i]
			}
		}
		bad("no field %s in %s", name, s.Typ)
	}
	var r Value = s
	for _, i := range idx {
		r = env.deref(r).(*StructV).F[i]
	}
	return r
}

func (env *SEnv) applyFn(f *SpecFn, args []Value) Value {
	if len(args) != len(f.Params) {
		bad("%s: wrong number of arguments of %s", f.Where, f.Name)
	}
	if env.depth > 60 {
		bad("specification function %s recurses", f.Name)
	}
	expand := f.Kind == "spec" || f.Kind == "opaque" && env.x.reveal[f.Name]
	if expand {
		n := *env
		n.depth++
		n.pkg = f.Pkg
		n.names = map[string]Value{}
		for i, p := range f.Params {
			n.names[p] = args[i]
		}
		return n.eval(f.Body)
	}
	if f.Kind == "fold" {
		return env.foldApp(f, args)
	}
	var ts []*Term
	for i, v := range args {
		ts = append(ts, env.flat(v, f.PTypes[i])...)
	}
	return App(f.Name, sortOf(env.typeOf(f.Ret)), ts...)
}

func (env *SEnv) flat(v Value, typ string) []*Term {
	switch s := v.(type) {
	case *Term:
		if typ == "real" {
			return []*Term{ToReal(s)}
		}
		return []*Term{s}
	case *StructV:
		u, ok := s.Typ.Underlying().(*types.Struct)
		var r []*Term
		for i, f := range s.F {
			ty := ""
			if ok {
				if b, k := u.Field(i).Type().Underlying().(*types.Basic); k && b.Info()&types.IsFloat != 0 {
					ty = "real"
				}
			}
			r = append(r, env.flat(f, ty)...)
		}
		return r
	case *SliceV:
		return []*Term{env.st.contents(s), s.Len}
	case *PtrV:
		return env.flat(env.deref(s), typ)
	case *StrV:
		return []*Term{strTerm(s)}
	}
	bad("argument %T of specification function", v)
	return nil
}

// fullBound: the variables a quantifier was written with, those its body does not use included
var fullBound = map[*Term][]*Term{}

func (env *SEnv) call(e *ast.CallExpr) Value {
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		bad("call in specification")
	}
	switch id.Name {
	case "len":
		switch s := env.eval(e.Args[0]).(type) {
		case *SliceV:
			return s.Len
		case *StrV:
			return strLen(s)
		default:
			bad("len of %T in specification", s)
		}
	case "old":
		if env.old == nil {
			bad("old() is not available here")
		}
		n := *env
		n.st = env.old
		return frozen(n.eval(e.Args[0]), n.st)
	case "entry":
		if env.entry == nil {
			bad("entry() is not available here")
		}
		n := *env.entry
		// bound variables stay visible
		m := map[string]Value{}
		for k, v := range env.names {
			m[k] = v
		}
		for k, v := range n.names {
			m[k] = v
		}
		n.names = m
		return frozen(n.eval(e.Args[0]), n.st)
	case "imp":
		return Imp(env.term(e.Args[0]), env.term(e.Args[1]))
	case "iff":
		return Eq(env.term(e.Args[0]), env.term(e.Args[1]))
	case "ite":
		c := env.term(e.Args[0])
		return iteV(env.st, c, env.eval(e.Args[1]), env.eval(e.Args[2]))
	case "let":
		return env.with(e.Args[0].(*ast.Ident).Name, env.eval(e.Args[1])).eval(e.Args[2])
	case "all", "ex":
		name := e.Args[0].(*ast.Ident).Name
		lo, hi := env.term(e.Args[1]), env.term(e.Args[2])
		bv := BVar(name, SInt)
		n := env.with(name, bv)
		var pats [][]*Term
		body := e.Args[len(e.Args)-1]
		for _, t := range e.Args[3 : len(e.Args)-1] {
			pats = append(pats, n.trig(t))
		}
		p := n.term(body)
		rng := And(Le(lo, bv), Lt(bv, hi))
		if id.Name == "all" {
			return Forall([]*Term{bv}, Imp(rng, p), pats...)
		}
		return Exists([]*Term{bv}, And(rng, p), pats...)
	case "forall", "exists":
		lit := e.Args[0].(*ast.BasicLit)
		decl, _ := strconv.Unquote(lit.Value)
		n := env
		var bvs, full []*Term
		for _, d := range splitNames(decl) {
			f := strings.Fields(d)
			t := env.typeOf(strings.Join(f[1:], " "))
			v := boundV(t, f[0], &bvs)
			full = append(full, env.flat(v, "")...)
			n = n.with(f[0], v)
		}
		var pats [][]*Term
		for _, t := range e.Args[1 : len(e.Args)-1] {
			pats = append(pats, n.trig(t))
		}
		p := n.term(e.Args[len(e.Args)-1])
		if id.Name == "forall" {
			q := Forall(bvs, p, pats...)
			if q.Op == "forall" {
				fullBound[q] = full
			}
			return q
		}
		return Exists(bvs, p, pats...)
	case "min":
		a, b := env.term(e.Args[0]), env.term(e.Args[1])
		return Ite(Le(a, b), a, b)
	case "max":
		a, b := env.term(e.Args[0]), env.term(e.Args[1])
		return Ite(Le(a, b), b, a)
	case "abs":
		a := env.term(e.Args[0])
		return absT(a)
	case "floor":
		return ToIntFloor(ToReal(env.term(e.Args[0])))
	case "ceil":
		return Neg(ToIntFloor(Neg(ToReal(env.term(e.Args[0])))))
	case "div":
		return IDiv(env.term(e.Args[0]), env.term(e.Args[1]))
	case "real":
		return ToReal(env.term(e.Args[0]))
	case "sqrt", "sin", "cos", "acos", "f32", "tan", "atan":
		return mathApp(id.Name, ToReal(env.term(e.Args[0])))
	case "atan2":
		return App("atan2", SReal, ToReal(env.term(e.Args[0])), ToReal(env.term(e.Args[1])))
	case "isnil":
		n, ok := isNilV(env.eval(e.Args[0]))
		if !ok {
			bad("isnil")
		}
		return n
	case "arr":
		s := env.eval(e.Args[0]).(*SliceV)
		return env.st.contents(s)
	case "same": // identical slice header and backing array
		a, b := env.eval(e.Args[0]).(*SliceV), env.eval(e.Args[1]).(*SliceV)
		return And(B(a.Tag == b.Tag && a.Arr == b.Arr), Eq(a.Off, b.Off), Eq(a.Len, b.Len))
	case "idiv":
		return IDiv(env.term(e.Args[0]), env.term(e.Args[1]))
	case "by": // by(lemma(args), P): P, which the lemma's proof derives with the help of another lemma's instance
		p := env.eval(e.Args[1])
		if !env.x.proving {
			return p
		}
		ce := e.Args[0].(*ast.CallExpr)
		return Imp(env.x.lemmaAt(ce, env), p.(*Term))
	case "app": // app("name", "sort", args...)
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		so, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		var ts []*Term
		for _, a := range e.Args[2:] {
			ts = append(ts, env.flat(env.eval(a), "")...)
		}
		t := env.typeOf(so)
		if sl, ok := t.Underlying().(*types.Slice); ok && !strings.HasPrefix(nm, "call_") { // its length is the application of "n"+name
			return &SliceV{Elem: sl.Elem(), Arr: App(nm, SArr(sortOf(sl.Elem())), ts...), Off: IntT(0), Len: App("n"+nm, SInt, ts...), Nil: False}
		}
		return unembed(App(nm, sortOf(t), ts...), t, env.st)
	}
	switch id.Name {
	case "received": // number of values received from the channel
		c := chanCell(env.eval(e.Args[0]))
		return env.st.cells[env.x.chanOf(c).recv]
	case "ticket", "turn", "result", "jobs": // job of the k-th result, place of the result of the k-th job, k-th result, all jobs
		var f *farmInfo
		if n := len(env.st.farmed); n > 0 {
			f = env.x.farms[env.st.farmed[n-1]]
		}
		if id.Name == "jobs" || id.Name == "result" {
			nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
			t := env.typeOf(nm)
			if id.Name == "jobs" {
				if f == nil {
					return zeroV(types.NewSlice(t), env.st)
				}
				return env.st.cells[f.in]
			}
			if f == nil {
				return unembed(App("noresult", sortOf(t)), t, env.st)
			}
			return unembed(Select(f.res, env.term(e.Args[1])), t, env.st)
		}
		if f == nil {
			return App("noticket", SInt)
		}
		if id.Name == "ticket" {
			return Select(f.perm, env.term(e.Args[0]))
		}
		return Select(f.inv, env.term(e.Args[0]))
	case "isbox": // isbox("pkg.Type", c): the interface holds a value of that type
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		return Eq(App("dyntype", SInt, env.term(e.Args[1])), IntT(typeID(sortOf(env.typeOf(nm)).Name)))
	case "unbox":
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		t := env.typeOf(nm)
		return unembed(App("unbox_"+sortOf(t).Name, sortOf(t), env.term(e.Args[1])), t, env.st)
	case "box":
		v := env.eval(e.Args[0])
		s, ok := v.(*StructV)
		if !ok {
			bad("box")
		}
		return boxV(s, s.Typ, env.st)
	case "plain":
		return plainStr(env.eval(e.Args[0]).(*StrV))
	}
	if f := env.x.db.Fns[id.Name]; f != nil {
		var args []Value
		for _, a := range e.Args {
			args = append(args, env.eval(a))
		}
		return env.applyFn(f, args)
	}
	if v, ok := env.ghostCall(id.Name, e); ok {
		return v
	}
	bad("unknown function %s in specification", id.Name)
	return nil
}

func (n *SEnv) trig(e ast.Expr) []*Term {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		bad("trigger expected")
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "trig" {
		bad("trigger expected")
	}
	var r []*Term
	for _, a := range c.Args {
		v := n.eval(a)
		r = append(r, patTerms(v)...)
	}
	return r
}

// patTerms picks terms usable as a trigger from a value.
func patTerms(v Value) []*Term {
	switch s := v.(type) {
	case *Term:
		return []*Term{s}
	case *StructV:
		// all fields are selectors of one term: use that
		if t := patTerms(s.F[0]); len(t) > 0 {
			u := t[0]
			for u.Op == "sel" {
				u = u.Args[0]
			}
			return []*Term{u}
		}
	case *SliceV:
		u := s.Len
		for u.Op == "sel" {
			u = u.Args[0]
		}
		return []*Term{u}
	case *PtrV:
		u := s.Nil
		for u.Op == "sel" {
			u = u.Args[0]
		}
		return []*Term{u}
	}
	bad("trigger of %T", v)
	return nil
}

// boundV makes a value out of bound variables.
func boundV(t types.Type, hint string, bvs *[]*Term) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		b := BVar(hint, sortOf(t))
		*bvs = append(*bvs, b)
		return b
	case *types.Struct:
		v := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, boundV(u.Field(i).Type(), hint+"_"+u.Field(i).Name(), bvs))
		}
		return v
	case *types.Slice:
		ar, ln, nl := BVar(hint, SArr(sortOf(u.Elem()))), BVar(hint+"_len", SInt), BVar(hint+"_nil", SBool)
		*bvs = append(*bvs, ar, ln, nl)
		return &SliceV{Elem: u.Elem(), Arr: ar, Off: IntT(0), Len: ln, Nil: nl}
	case *types.Interface:
		b := BVar(hint, SIfc)
		*bvs = append(*bvs, b)
		return b
	}
	bad("bound variable of type %s", t)
	return nil
}

func iteV(st *State, c *Term, a, b Value) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Ite(c, x, y)
		}
	case *StructV:
		y := b.(*StructV)
		r := &StructV{Typ: x.Typ}
		for i := range x.F {
			r.F = append(r.F, iteV(st, c, x.F[i], y.F[i]))
		}
		return r
	case *SliceV:
		y := b.(*SliceV)
		if x.Tag == y.Tag && x.Arr == y.Arr {
			return &SliceV{Elem: x.Elem, Tag: x.Tag, Arr: x.Arr, Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Nil: Ite(c, x.Nil, y.Nil)}
		}
		arr := func(s *SliceV) *Term {
			if s.Tag != 0 && st != nil {
				return st.heap[s.Tag]
			}
			return s.Arr
		}
		if p, q := arr(x), arr(y); p != nil && q != nil {
			return &SliceV{Elem: x.Elem, Arr: Ite(c, p, q), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Nil: Ite(c, x.Nil, y.Nil)}
		}
		if x.Tag == 0 && y.Tag == 0 {
			return &SliceV{Elem: x.Elem, Arr: Ite(c, x.Arr, y.Arr), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Nil: Ite(c, x.Nil, y.Nil)}
		}
	}
	bad("conditional value of %T", a)
	return nil
}

func absT(a *Term) *Term {
	if a.isNum() && a.Num.Sign() >= 0 {
		return a
	}
	z := NumR(rat0, a.Sort)
	return Ite(Le(z, a), a, Neg(a))
}

// frozen makes of a slice of an earlier state a snapshot of its contents there.
func frozen(v Value, st *State) Value {
	if s, ok := v.(*SliceV); ok && s.Tag != 0 {
		if st.heap[s.Tag] == nil {
			bad("the slice does not exist in that state")
		}
		return &SliceV{Elem: s.Elem, Arr: st.heap[s.Tag], Off: s.Off, Len: s.Len, Nil: s.Nil}
	}
	return v
}
