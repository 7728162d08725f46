package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built repository.
type Program struct {
	cacheT   *cacheTypes
	Dir      string
	Module   string
	Fset     *token.FileSet
	Prog     *ssa.Program
	Pkgs     map[string]*ssa.Package // by path relative to the module ("" = main package)
	TPkgs    map[string]*packages.Package
	Funcs    []*ssa.Function // every function with a body, including closures
	inMod    map[*ssa.Package]bool
	Consts   *constGlobals
	Files    int
	loopsOf  map[*ssa.Function]*loopNest
	reqFuncs map[*ssa.Function]bool
}

func loadProgram(dir string, env []string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Fset: prog.Fset, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}, inMod: map[*ssa.Package]bool{}, loopsOf: map[*ssa.Function]*loopNest{}}
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		if ps[i].Module != nil {
			p.Module = ps[i].Module.Path
		}
		p.inMod[s] = true
	}
	for i, s := range sp {
		rel := strings.TrimPrefix(strings.TrimPrefix(s.Pkg.Path(), p.Module), "/")
		p.Pkgs[rel] = s
		p.TPkgs[rel] = ps[i]
		p.Files += len(ps[i].CompiledGoFiles)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.owns(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	p.Consts = p.findConstGlobals()
	return p, nil
}

// owns: the function's source belongs to the analysed module.
func (p *Program) owns(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.inMod[f.Pkg]
		}
		if o := f.Origin(); o != nil && o != f {
			return p.owns(o)
		}
	}
	return false
}

// inlinable: has a body we may look into (module code or a synthetic wrapper).
func (p *Program) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	return p.owns(fn) || fn.Synthetic != ""
}

func (p *Program) pkg(rel string) *ssa.Package { return p.Pkgs[rel] }

func (p *Program) fn(rel, name string) *ssa.Function {
	if q := p.Pkgs[rel]; q != nil {
		return q.Func(name)
	}
	return nil
}

// method finds a method of a named type, through pointer or value receiver.
func (p *Program) method(rel, typ, name string) *ssa.Function {
	q := p.Pkgs[rel]
	if q == nil {
		return nil
	}
	t := q.Type(typ)
	if t == nil {
		return nil
	}
	named, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == name {
			return p.Prog.FuncValue(m)
		}
	}
	return nil
}

func (p *Program) named(rel, typ string) types.Type {
	q := p.Pkgs[rel]
	if q == nil || q.Type(typ) == nil {
		return nil
	}
	return q.Type(typ).Type()
}

func (p *Program) pos(at token.Pos) string {
	if !at.IsValid() {
		return "?"
	}
	q := p.Fset.Position(at)
	f := strings.TrimPrefix(q.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			if fn.Synthetic == "" || fn.Blocks == nil {
				return f.FullName()
			}
		}
	}
	return fn.String()
}

// ---- natural loops ----------------------------------------------------------

type natLoop struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	latches map[*ssa.BasicBlock]bool
}

type loopNest struct{ byHeader map[*ssa.BasicBlock]*natLoop }

func (p *Program) loops(fn *ssa.Function) *loopNest {
	if l := p.loopsOf[fn]; l != nil {
		return l
	}
	ln := &loopNest{byHeader: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ln.byHeader[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}, latches: map[*ssa.BasicBlock]bool{}}
					ln.byHeader[s] = l
				}
				l.latches[b] = true
				// body: blocks reaching b without passing s
				var w []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					for _, q := range x.Preds {
						if !l.body[q] {
							l.body[q] = true
							w = append(w, q)
						}
					}
				}
			}
		}
	}
	p.loopsOf[fn] = ln
	return ln
}

// irreducible reports whether the function has a cycle that is not a natural loop.
func (p *Program) irreducible(fn *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					bad = true
				}
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return bad
}
