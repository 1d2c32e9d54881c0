package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Values of the symbolic execution.
//
//	*Term     numbers, booleans, opaque values, interfaces without known content
//	*StructV  structs and small arrays, field by field
//	*SliceV   slices; Tag != 0: a window on heap[Tag]; Tag == 0: a snapshot with contents Arr
//	*PtrV     pointers; LV != nil: points at a place of this state; else a snapshot value Val
//	*StrV     strings as a list of parts
//	*FuncV    functions and closures
//	*TupleV   multiple results
//	*ObjV     mutable library object (buffer, channel, writer...) identified by id; its state is in State.objs
type Value interface{}

type StructV struct {
	Typ types.Type
	F   []Value
}
type SliceV struct {
	Elem types.Type
	Tag  int
	Arr  *Term
	Off  *Term
	Len  *Term
	Nil  *Term
}
type PtrV struct {
	Elem types.Type
	Nil  *Term
	LV   *LV
	Val  Value
}
type StrPart struct {
	Lit  string
	Kind byte // 'l' literal, 'r' real with 3 decimals, 'i' int, 'o' opaque term, 's' slice of bytes etc
	T    *Term
	Prec int
}
type StrV struct{ Parts []StrPart }
type FuncV struct {
	Lit  interface{} // *ast.FuncLit
	Pkg  *Pkg
	Decl *Func
	Recv Value
	Obj  *types.Func // library or repo function object
	Name string      // opaque parameter function
}
type TupleV struct{ V []Value }
type ObjV struct {
	Kind string
	ID   int
	Typ  types.Type
}

// LV is a place: root cell or heap tag + index, then a path of fields / snapshot indices.
type LV struct {
	Cell int
	Tag  int
	Idx  *Term
	Path []LSel
	Elem types.Type // type of the heap element when Tag != 0
}
type LSel struct {
	Field int
	Idx   *Term // index into a nested slice (by value)
	Arr   bool
}

func (l *LV) sel(s LSel) *LV {
	n := *l
	n.Path = append(append([]LSel{}, l.Path...), s)
	return &n
}

// ------------------------------------------------------------- sorts of types

var structTypes = map[string]types.Type{}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return p.Name()
	})
}
func shortName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}
func san(s string) string {
	r := strings.NewReplacer("[]", "Sl_", "*", "Pt_", ".", "_", "[", "A", "]", "_", " ", "", "{", "_", "}", "_", ";", "_", "\"", "")
	return r.Replace(s)
}

func isRepoType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return false
		}
		pp := n.Obj().Pkg().Path()
		return strings.HasPrefix(pp, modPath) || strings.HasPrefix(pp, "github.com/fogleman/simplify")
	}
	return true
}

func sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
	case *types.Struct:
		if !isRepoType(t) {
			return SIfc
		}
		nm := san(tname(t))
		if s, ok := dataSorts[nm]; ok {
			return s
		}
		s := &Sort{Kind: KData, Name: nm, Ctor: "mk_" + nm}
		dataSorts[nm] = s
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.Fields = append(s.Fields, SField{fmt.Sprintf("%s_%s%d", nm, san(f.Name()), i), sortOf(f.Type())})
		}
		return s
	case *types.Array:
		return SArr(sortOf(u.Elem()))
	case *types.Slice:
		es := sortOf(u.Elem())
		nm := "Sl_" + san(tname(u.Elem()))
		if s, ok := dataSorts[nm]; ok {
			return s
		}
		s := &Sort{Kind: KData, Name: nm, Ctor: "mk_" + nm, Fields: []SField{{nm + "_arr", SArr(es)}, {nm + "_len", SInt}, {nm + "_nil", SBool}}}
		dataSorts[nm] = s
		return s
	case *types.Pointer:
		if !isRepoType(u.Elem()) {
			return SIfc
		}
		es := sortOf(u.Elem())
		nm := "Pt_" + san(tname(u.Elem()))
		if s, ok := dataSorts[nm]; ok {
			return s
		}
		s := &Sort{Kind: KData, Name: nm, Ctor: "mk_" + nm, Fields: []SField{{nm + "_nil", SBool}, {nm + "_val", es}}}
		dataSorts[nm] = s
		return s
	}
	return SIfc
}

func elemSort(t types.Type) *Sort { return sortOf(t) }

// ------------------------------------------------------------- state

type State struct {
	env   map[types.Object]int
	cells map[int]Value
	ctyp  map[int]types.Type
	heap  map[int]*Term
	objs  map[int]interface{}
	pc    []*Term
	depth int // loops around
	trace []string
	// flags
	cellEmb map[int]bool // a pointer to the cell was stored in a slice or struct by value
	tagEmb  map[int]bool // the contents were stored by value
	group   map[int]int  // entanglement group of tags (union by label)
	stop    bool
	farmed  []int   // channels of results whose jobs are all known
	par     *parCtx // inside the body of a parallel loop
	parLoop *parCtx // inside a parallel loop
}

func newState() *State {
	return &State{env: map[types.Object]int{}, cells: map[int]Value{}, ctyp: map[int]types.Type{}, heap: map[int]*Term{}, objs: map[int]interface{}{}, cellEmb: map[int]bool{}, tagEmb: map[int]bool{}, group: map[int]int{}}
}

type cloner interface{ clone() interface{} }

func (s *State) clone() *State {
	n := &State{env: make(map[types.Object]int, len(s.env)), cells: make(map[int]Value, len(s.cells)), ctyp: make(map[int]types.Type, len(s.ctyp)), heap: make(map[int]*Term, len(s.heap)), objs: make(map[int]interface{}, len(s.objs)), cellEmb: map[int]bool{}, tagEmb: map[int]bool{}, group: map[int]int{}, par: s.par, parLoop: s.parLoop, farmed: s.farmed}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.ctyp {
		n.ctyp[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.cellEmb {
		n.cellEmb[k] = v
	}
	for k, v := range s.tagEmb {
		n.tagEmb[k] = v
	}
	for k, v := range s.group {
		n.group[k] = v
	}
	n.pc = append([]*Term{}, s.pc...)
	n.depth = s.depth
	n.trace = append([]string{}, s.trace...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.stop = true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
}

var idCnt = 0

func newID() int { idCnt++; return idCnt }

var freshCnt = map[string]int{}

func freshT(hint string, s *Sort) *Term {
	freshCnt[hint]++
	return Var(fmt.Sprintf("%s~%d", hint, freshCnt[hint]), s)
}

func (s *State) newCell(v Value, t types.Type) int {
	id := newID()
	s.cells[id] = v
	s.ctyp[id] = t
	return id
}
func (s *State) newTag(arr *Term) int {
	id := newID()
	s.heap[id] = arr
	return id
}

func isBuf(t types.Type) bool { return tname(t) == "bytes.Buffer" }

func zeroV(t types.Type, st *State) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntT(0)
		case u.Info()&types.IsFloat != 0:
			return ToReal(IntT(0))
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return &StrV{}
		}
	case *types.Struct:
		if isBuf(t) {
			o := &ObjV{Kind: "buf", ID: newID(), Typ: t}
			st.objs[o.ID] = newGcode(st)
			return o
		}
		if !isRepoType(t) {
			return freshT("zero_"+san(tname(t)), SIfc)
		}
		v := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, zeroV(u.Field(i).Type(), st))
		}
		return v
	case *types.Array:
		if u.Len() <= 4 {
			v := &StructV{Typ: t}
			for i := int64(0); i < u.Len(); i++ {
				v.F = append(v.F, zeroV(u.Elem(), st))
			}
			return v
		}
		return ConstArr(sortOf(t), embed(zeroV(u.Elem(), st), u.Elem(), st))
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Arr: Var("nilarr_"+sortOf(u).Name, SArr(sortOf(u.Elem()))), Off: IntT(0), Len: IntT(0), Nil: True}
	case *types.Pointer:
		return &PtrV{Elem: u.Elem(), Nil: True}
	case *types.Interface:
		return nilIface
	case *types.Map, *types.Chan, *types.Signature:
		return nilIface
	}
	bad("zero value of %s", t)
	return nil
}

var nilIface = App("nilIface", SIfc)

// freshV makes an arbitrary value of the type, with the facts every value of the type satisfies.
func freshV(t types.Type, hint string, st *State) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isBuf(t) {
			o := &ObjV{Kind: "buf", ID: newID(), Typ: t}
			st.objs[o.ID] = newGcode(st)
			return o
		}
		if !isRepoType(t) {
			return freshT(hint, SIfc)
		}
		v := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, freshV(u.Field(i).Type(), hint+"."+u.Field(i).Name(), st))
		}
		return v
	case *types.Array:
		if u.Len() <= 4 {
			v := &StructV{Typ: t}
			for i := int64(0); i < u.Len(); i++ {
				v.F = append(v.F, freshV(u.Elem(), fmt.Sprintf("%s.%d", hint, i), st))
			}
			return v
		}
		return freshT(hint, sortOf(t))
	case *types.Slice:
		s := &SliceV{Elem: u.Elem(), Off: IntT(0), Len: freshT(hint+".len", SInt), Nil: freshT(hint+".nil", SBool)}
		s.Tag = st.newTag(freshT(hint+".arr", SArr(sortOf(u.Elem()))))
		st.assume(Le(IntT(0), s.Len))
		st.assume(Imp(s.Nil, Eq(s.Len, IntT(0))))
		return s
	case *types.Pointer:
		p := &PtrV{Elem: u.Elem(), Nil: freshT(hint+".isnil", SBool)}
		if isBuf(u.Elem()) {
			p.Val = freshV(u.Elem(), hint, st)
			return p
		}
		if isRepoType(u.Elem()) {
			p.LV = &LV{Cell: st.newCell(freshV(u.Elem(), hint, st), u.Elem())}
		} else {
			p.Val = freshT(hint+".val", SIfc)
		}
		return p
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrV{Parts: []StrPart{{Kind: 'o', T: freshT(hint, SStr)}}}
		}
		r := freshT(hint, sortOf(t))
		if u.Info()&types.IsUnsigned != 0 {
			st.assume(Le(IntT(0), r))
		}
		if u.Kind() == types.Uint8 {
			st.assume(Lt(r, IntT(256)))
		}
		if u.Kind() == types.Uint32 {
			st.assume(Lt(r, IntT(1<<32)))
		}
		return r
	case *types.Interface:
		return freshT(hint, SIfc)
	case *types.Signature:
		return &FuncV{Name: hint}
	}
	bad("arbitrary value of %s", t)
	return nil
}

// ------------------------------------------------------------- embedding in terms

// windowArr gives the contents of a slice as an array indexed from 0.
func (st *State) contents(s *SliceV) *Term {
	a := s.Arr
	if s.Tag != 0 {
		a = st.heap[s.Tag]
		if a == nil {
			bad("internal: no heap for tag")
		}
	}
	if s.Off.isZero() {
		return a
	}
	return shiftArr(st, a, s.Off)
}

// shiftArr introduces B with B[i] = A[i+off].
func shiftArr(st *State, a, off *Term) *Term {
	if a.Op == "app" && a.Name == "shift_"+a.Sort.Name {
		return shiftArr(st, a.Args[0], Add(a.Args[1], off))
	}
	return App("shift_"+a.Sort.Name, a.Sort, a, off)
}

func (st *State) elemTerm(s *SliceV, i *Term) *Term {
	a := s.Arr
	if s.Tag != 0 {
		a = st.heap[s.Tag]
	}
	return Select(a, Add(s.Off, i))
}

func embed(v Value, t types.Type, st *State) *Term {
	switch x := v.(type) {
	case *Term:
		want := sortOf(t)
		if want == SReal && x.Sort == SInt {
			return ToReal(x)
		}
		if x.Sort != want {
			if want == SIfc {
				return App("box_"+x.Sort.Name, SIfc, x)
			}
			if x == nilIface {
				return embed(zeroV(t, st), t, st)
			}
			bad("embedding %s as %s", x.Sort.Name, want.Name)
		}
		return x
	case *StructV:
		if _, ok := t.Underlying().(*types.Array); ok {
			at := t.Underlying().(*types.Array)
			r := Var("noarr_"+sortOf(at.Elem()).Name, SArr(sortOf(at.Elem())))
			for i, f := range x.F {
				r = Store(r, IntT(int64(i)), embed(f, at.Elem(), st))
			}
			return r
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return boxV(x, x.Typ, st)
		}
		if sortOf(t).Kind != KData {
			return freshT("opaque", SIfc)
		}
		var as []*Term
		for i, f := range x.F {
			as = append(as, embed(f, u.Field(i).Type(), st))
		}
		return Mk(sortOf(t), as...)
	case *SliceV:
		if x.Tag != 0 {
			st.tagEmb[x.Tag] = true
		}
		return Mk(sortOf(types.NewSlice(x.Elem)), st.contents(x), x.Len, x.Nil)
	case *PtrV:
		s := sortOf(types.NewPointer(x.Elem))
		if s.Kind != KData {
			return freshT("opaqueptr", SIfc)
		}
		if x.Nil == True {
			return Mk(s, True, Var("nilval_"+s.Name, s.Fields[1].Sort))
		}
		var val Value
		if x.LV != nil {
			if x.LV.Tag != 0 {
				// pointer into a slice: contents must not change afterwards
				st.tagEmb[x.LV.Tag] = true
			} else {
				st.cellEmb[x.LV.Cell] = true
			}
			val = st.readLV(x.LV)
		} else {
			val = x.Val
		}
		return Mk(s, x.Nil, embed(val, x.Elem, st))
	case *StrV:
		return strTerm(x)
	case *ObjV, *FuncV:
		return freshT("opaqueobj", SIfc)
	}
	bad("embedding of %T", v)
	return nil
}

// boxV makes an interface value of a concrete one.
func boxV(v Value, t types.Type, st *State) *Term {
	if tm, ok := v.(*Term); ok && tm.Sort == SIfc {
		return tm
	}
	if sortOf(t).Kind != KData {
		return freshT("iface", SIfc)
	}
	return App("box_"+sortOf(t).Name, SIfc, embed(v, t, st))
}

func strTerm(x *StrV) *Term {
	x = normStr(x)
	if len(x.Parts) == 0 {
		return App("strlit_", SStr)
	}
	if len(x.Parts) == 1 {
		p := x.Parts[0]
		switch p.Kind {
		case 'l':
			return App("strlit_"+p.Lit, SStr)
		case 'o':
			return p.T
		case 'r':
			return App(fmt.Sprintf("fmtreal%d", p.Prec), SStr, p.T)
		case 'i':
			return App("fmtint", SStr, p.T)
		}
	}
	var as []*Term
	for _, p := range x.Parts {
		as = append(as, strTerm(&StrV{Parts: []StrPart{p}}))
	}
	return App(fmt.Sprintf("strcat%d", len(as)), SStr, as...)
}

func normStr(x *StrV) *StrV {
	r := &StrV{}
	for _, p := range x.Parts {
		if p.Kind == 'l' {
			if p.Lit == "" {
				continue
			}
			if n := len(r.Parts); n > 0 && r.Parts[n-1].Kind == 'l' {
				r.Parts[n-1].Lit += p.Lit
				continue
			}
		}
		r.Parts = append(r.Parts, p)
	}
	return r
}

func unembed(t *Term, typ types.Type, st *State) Value {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if t.Sort.Kind != KData {
			return t
		}
		v := &StructV{Typ: typ}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, unembed(Sel(t, i), u.Field(i).Type(), st))
		}
		return v
	case *types.Array:
		if u.Len() <= 4 {
			v := &StructV{Typ: typ}
			for i := int64(0); i < u.Len(); i++ {
				v.F = append(v.F, unembed(Select(t, IntT(i)), u.Elem(), st))
			}
			return v
		}
		return t
	case *types.Slice:
		s := &SliceV{Elem: u.Elem(), Arr: Sel(t, 0), Off: IntT(0), Len: Sel(t, 1), Nil: Sel(t, 2)}
		if st != nil && len(s.Len.fvs) == 0 && !s.Len.isNum() {
			st.assumeWF(Le(IntT(0), s.Len))
			st.assumeWF(Imp(s.Nil, Eq(s.Len, IntT(0))))
		}
		return s
	case *types.Pointer:
		if t.Sort.Kind != KData {
			return t
		}
		return &PtrV{Elem: u.Elem(), Nil: Sel(t, 0), Val: unembed(Sel(t, 1), u.Elem(), st)}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrV{Parts: []StrPart{{Kind: 'o', T: t}}}
		}
		if st != nil && u.Kind() == types.Uint8 && len(t.fvs) == 0 {
			st.assumeWF(And(Le(IntT(0), t), Lt(t, IntT(256))))
		}
	}
	return t
}

// assumeWF records a fact that holds of every value of the type.
func (s *State) assumeWF(t *Term) {
	if t == True {
		return
	}
	n := len(s.pc)
	for i := n - 1; i >= 0 && i > n-60; i-- {
		if s.pc[i] == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

// ------------------------------------------------------------- places

func (st *State) readLV(l *LV) Value {
	var v Value
	if l.Tag != 0 {
		v = unembed(Select(st.heap[l.Tag], l.Idx), l.Elem, st)
	} else {
		var ok bool
		v, ok = st.cells[l.Cell]
		if !ok {
			bad("internal: unknown cell %d", l.Cell)
		}
	}
	for _, s := range l.Path {
		v = st.readSel(v, s)
	}
	return v
}

func (st *State) readSel(v Value, s LSel) Value {
	switch x := v.(type) {
	case *StructV:
		if s.Idx != nil {
			if !s.Idx.isNum() {
				bad("symbolic index into small array")
			}
			return x.F[s.Idx.Num.Num().Int64()]
		}
		return x.F[s.Field]
	case *SliceV:
		return unembed(st.elemTerm(x, s.Idx), x.Elem, st)
	case *Term:
		if x.Sort.Kind == KArr && s.Idx != nil {
			return Select(x, s.Idx)
		}
	}
	bad("selecting from %T", v)
	return nil
}

func (st *State) writeLV(l *LV, nv Value) {
	if st.par != nil {
		st.par.write(st, l)
	}
	if l.Tag != 0 {
		if st.tagEmb[l.Tag] {
			bad("write to slice contents that were also stored by value elsewhere")
		}
		old := st.heap[l.Tag]
		var t *Term
		if len(l.Path) == 0 {
			t = embed(nv, l.Elem, st)
		} else {
			t = embed(st.update(unembed(Select(old, l.Idx), l.Elem, st), l.Path, nv), l.Elem, st)
		}
		st.heap[l.Tag] = Store(old, l.Idx, t)
		st.clobberGroup(l.Tag)
		return
	}
	if st.cellEmb[l.Cell] {
		bad("write to a variable whose address was stored elsewhere")
	}
	if len(l.Path) == 0 {
		st.cells[l.Cell] = nv
		return
	}
	st.cells[l.Cell] = st.update(st.cells[l.Cell], l.Path, nv)
}

// update functionally replaces the component of v.
func (st *State) update(v Value, path []LSel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		i := s.Field
		if s.Idx != nil {
			if !s.Idx.isNum() {
				bad("symbolic index into small array")
			}
			i = int(s.Idx.Num.Num().Int64())
		}
		n := &StructV{Typ: x.Typ, F: append([]Value{}, x.F...)}
		n.F[i] = st.update(x.F[i], path[1:], nv)
		return n
	case *SliceV:
		if x.Tag != 0 {
			bad("internal: update through tagged slice")
		}
		n := *x
		el := st.update(unembed(Select(x.Arr, Add(x.Off, s.Idx)), x.Elem, st), path[1:], nv)
		n.Arr = Store(x.Arr, Add(x.Off, s.Idx), embed(el, x.Elem, st))
		return &n
	case *Term:
		if x.Sort.Kind == KArr && s.Idx != nil && len(path) == 1 {
			if t, ok := nv.(*Term); ok {
				return Store(x, s.Idx, t)
			}
		}
	}
	bad("update inside %T", v)
	return nil
}

// ------------------------------------------------------------- aliasing of slices

func (st *State) grp(tag int) int {
	if g, ok := st.group[tag]; ok {
		return g
	}
	return tag
}
func (st *State) link(a, b int) {
	ga, gb := st.grp(a), st.grp(b)
	if ga == gb {
		st.group[a], st.group[b] = ga, ga
		return
	}
	for k, g := range st.group {
		if g == gb {
			st.group[k] = ga
		}
	}
	st.group[a], st.group[b] = ga, ga
}

// liveTags collects the tags other than self of the same group that some variable still refers to.
func (st *State) liveTags(self int) []int {
	g, ok := st.group[self]
	if !ok {
		return nil
	}
	var cand []int
	for k, x := range st.group {
		if x == g && k != self {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	live := map[int]bool{}
	for _, v := range st.cells {
		collectTags(v, live)
	}
	var out []int
	for _, c := range cand {
		if live[c] {
			out = append(out, c)
		}
	}
	return out
}

func collectTags(v Value, m map[int]bool) {
	switch x := v.(type) {
	case *SliceV:
		if x.Tag != 0 {
			m[x.Tag] = true
		}
	case *StructV:
		for _, f := range x.F {
			collectTags(f, m)
		}
	case *PtrV:
		if x.LV != nil && x.LV.Tag != 0 {
			m[x.LV.Tag] = true
		}
		if x.Val != nil {
			collectTags(x.Val, m)
		}
	case *TupleV:
		for _, f := range x.V {
			collectTags(f, m)
		}
	}
}

func (st *State) clobberGroup(tag int) {
	for _, t := range st.liveTags(tag) {
		st.heap[t] = freshT("alias", st.heap[t].Sort)
	}
}
