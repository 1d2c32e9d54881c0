package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type unsup struct {
	msg string
	pos token.Pos
}

func (u unsup) Error() string { return u.msg }

func bad(format string, a ...interface{}) { panic(unsup{msg: fmt.Sprintf(format, a...)}) }

type Pkg struct {
	Path, Name, Dir string
	Files           []*ast.File
	Types           *types.Package
	Info            *types.Info
}

type Func struct {
	Key  string // pkg.Name or pkg.Type.Name
	Decl *ast.FuncDecl
	Obj  *types.Func
	Pkg  *Pkg
}

type Prog struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   map[string]*Pkg // by import path (repo only)
	ByName map[string]*Pkg
	Funcs  map[string]*Func
	ByObj  map[*types.Func]*Func
	// package level variables of the repo: initialiser expression, and whether ever written
	Globals map[types.Object]*Global
}

type Global struct {
	Pkg     *Pkg
	Expr    ast.Expr
	Mutable bool
}

const modPath = "github.com/l1va/goosli"

type listPkg struct {
	ImportPath, Name, Dir, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path string }
	Imports                       []string
}

func Load(repo string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Imports", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	var all []*listPkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		all = append(all, p)
	}
	exp := map[string]string{}
	for _, p := range all {
		exp[p.ImportPath] = p.Export
	}
	prog := &Prog{Repo: repo, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, ByName: map[string]*Pkg{}, Funcs: map[string]*Func{}, ByObj: map[*types.Func]*Func{}, Globals: map[types.Object]*Global{}}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &impT{prog: prog, gc: gc}
	for _, p := range all { // -deps: dependency order
		if p.Module == nil || p.Module.Path != modPath {
			continue
		}
		pk := &Pkg{Path: p.ImportPath, Name: p.Name, Dir: p.Dir}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
		}
		pk.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.12"}
		pk.Types, err = conf.Check(p.ImportPath, prog.Fset, pk.Files, pk.Info)
		if err != nil {
			return nil, err
		}
		prog.Pkgs[p.ImportPath] = pk
		if pk.Name != "main" {
			prog.ByName[pk.Name] = pk
		} else {
			prog.ByName[filepath.Base(p.ImportPath)] = pk
		}
	}
	for _, pk := range prog.Pkgs { // imported packages, for contracts of external functions
		for _, im := range pk.Types.Imports() {
			if prog.ByName[im.Name()] == nil {
				prog.ByName[im.Name()] = &Pkg{Path: im.Path(), Name: im.Name(), Types: im}
			}
		}
	}
	for _, pk := range prog.Pkgs {
		prog.index(pk)
	}
	for _, pk := range prog.Pkgs {
		prog.markWrites(pk)
	}
	return prog, nil
}

type impT struct {
	prog *Prog
	gc   types.Importer
}

func (i *impT) Import(path string) (*types.Package, error) {
	if p, ok := i.prog.Pkgs[path]; ok {
		return p.Types, nil
	}
	return i.gc.Import(path)
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return "?"
}

func (prog *Prog) index(pk *Pkg) {
	short := pk.Name
	if short == "main" {
		short = filepath.Base(pk.Path)
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				obj, _ := pk.Info.Defs[d.Name].(*types.Func)
				if obj == nil {
					continue
				}
				key := short + "." + d.Name.Name
				if r := recvName(d); r != "" {
					key = short + "." + r + "." + d.Name.Name
				}
				fn := &Func{Key: key, Decl: d, Obj: obj, Pkg: pk}
				prog.Funcs[key] = fn
				prog.ByObj[obj] = fn
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						g := &Global{Pkg: pk}
						if i < len(vs.Values) {
							g.Expr = vs.Values[i]
						}
						if o := pk.Info.Defs[n]; o != nil {
							prog.Globals[o] = g
						}
					}
				}
			}
		}
	}
}

func (prog *Prog) markWrites(pk *Pkg) {
	mark := func(pk *Pkg, e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				if o, ok := pk.Info.Uses[x.Sel]; ok {
					if g := prog.Globals[o]; g != nil {
						g.Mutable = true
					}
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o, ok := pk.Info.Uses[x]; ok {
					if g := prog.Globals[o]; g != nil {
						g.Mutable = true
					}
				}
			}
			return
		}
	}
	for _, f := range pk.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(pk, l)
				}
			case *ast.IncDecStmt:
				mark(pk, n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(pk, n.X)
				}
			}
			return true
		})
	}
}

func (p *Prog) FuncKeys() []string {
	var ks []string
	for k := range p.Funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return ""
	}
	q := p.Fset.Position(x)
	r, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}
