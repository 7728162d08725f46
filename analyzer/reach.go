package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// requestFuncs: every function of the module that can run while a request is
// handled. Entry points are the handlers, error handlers and middleware; edges
// are static calls, function values mentioned, and interface calls resolved to
// every method of the module with that name and signature.
func (p *Program) requestFuncs() map[*ssa.Function]bool {
	if p.reqFuncs != nil {
		return p.reqFuncs
	}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.owns(f) {
			return
		}
		seen[f] = true
		work = append(work, f)
	}
	for _, f := range p.handlerFuncs("*") {
		add(f)
	}
	for _, f := range p.errorFuncs("*") {
		add(f)
	}
	for _, f := range p.middlewareFuncs() {
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	byName := map[string][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	var buf [16]*ssa.Value
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(buf[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					m := ci.Common().Method
					for _, g := range byName[m.Name()] {
						if sameShape(g.Signature, m.Type().(*types.Signature)) {
							add(g)
						}
					}
				}
			}
		}
	}
	p.reqFuncs = seen
	return seen
}

func sameShape(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

// callSites: calls of library functions (by full name) in the given functions.
func callSites(fns map[*ssa.Function]bool, want func(name string) bool) map[token.Pos]*ssa.Function {
	out := map[token.Pos]*ssa.Function{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if want(calleeName(ci.Common())) {
					out[in.Pos()] = f
				}
			}
		}
	}
	return out
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// covered: every call site of the wanted library functions that can run during a
// request was seen on some analysed path.
func (c *Ctx) covered(rule string, seen map[token.Pos]bool, want func(name string) bool, what string) {
	for at, f := range callSites(c.P.requestFuncs(), want) {
		if c.P.relOf(f) == "debug" {
			continue
		}
		c.need(seen[at], rule, at, nil, "%s in %s can run during a request but is on no path the analysis followed", what, shortName(fnName(f)))
	}
}
