package main

// Loading of the repository: type-checked syntax and SSA of the packages of /repo and
// of everything they import, from source, offline.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   []*packages.Package // repository packages
	ssa    map[string]*ssa.Package
	module string
	all    map[string]*packages.Package
}

func loadRepo(dir string) (*Program, error) {
	abs, err := filepath.EvalSymlinks(dir)
	if err == nil {
		dir = abs
	}
	env := append(os.Environ(),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Fset: fset, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{dir: dir, fset: fset, prog: prog, pkgs: pkgs, ssa: map[string]*ssa.Package{}, all: map[string]*packages.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) { p.all[q.PkgPath] = q })
	sort.Slice(p.pkgs, func(i, j int) bool { return p.pkgs[i].PkgPath < p.pkgs[j].PkgPath })
	for _, q := range pkgs {
		if q.Module != nil && q.Module.Main {
			p.module = q.Module.Path
		}
	}
	for _, sp := range prog.AllPackages() {
		p.ssa[sp.Pkg.Path()] = sp
	}
	for _, q := range pkgs {
		p.ssa[q.PkgPath].Build()
	}
	return p, nil
}

func (p *Program) isRepo(sp *ssa.Package) bool {
	return sp != nil && (sp.Pkg.Path() == p.module || strings.HasPrefix(sp.Pkg.Path(), p.module+"/"))
}

// build makes sure the body of fn has been built.
func (p *Program) build(fn *ssa.Function) {
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (p *Program) newEngine() *Engine {
	e := &Engine{
		p: p, prog: p.prog, fset: p.fset, globals: map[*ssa.Global]*Obj{},
		opaque: map[string]int{}, funcs: map[string]int{}, calls: map[string]int{}, ambients: map[string]string{},
		inRepo: p.isRepo, apiCut: map[string]bool{}, repoRoot: p.dir, sizes: types.SizesFor("gc", "amd64"),
		maxSteps: 20_000_000,
	}
	e.setState(&State{heap: map[*Obj]Value{}, pc: bTrue})
	return e
}

// initGlobals evaluates the package initialisers of the repository.
func (e *Engine) initGlobals() {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, i := range tp.Imports() {
			visit(i)
		}
		if sp := e.p.ssa[tp.Path()]; e.inRepo(sp) {
			order = append(order, sp)
		}
	}
	for _, q := range e.p.pkgs {
		visit(q.Types)
	}
	for _, sp := range order {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				o := e.globalObj(g)
				e.st.heap[o] = e.zero(o.typ)
			}
		}
	}
	for _, sp := range order {
		if fn := sp.Func("init"); fn != nil {
			e.callFn(fn, nil, nil)
		}
	}
}
