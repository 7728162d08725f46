package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryRun is the exploration of one function that handles requests.
type entryRun struct {
	Fn     *ssa.Function
	Traces []*Trace
	Args   []*Term
	W, R   *Term
	X      *Exec
	Made   *Trace // path of the function that created the closure
}

// opq builds an opacity policy from exported API names "pkg.Type.Method" / "pkg.Func".
func (c *Ctx) opq(names ...string) func(fn *ssa.Function) bool {
	set := map[*ssa.Function]bool{}
	for _, n := range names {
		parts := strings.Split(n, ".")
		var f *ssa.Function
		if len(parts) == 3 {
			f = c.P.method(parts[0], parts[1], parts[2])
		} else {
			f = c.P.fn(parts[0], parts[1])
		}
		if f != nil {
			set[f] = true
		}
	}
	return func(fn *ssa.Function) bool { return set[fn] }
}

// fnTerm names used in events for module functions
func (c *Ctx) name(n string) string {
	parts := strings.Split(n, ".")
	var f *ssa.Function
	if len(parts) == 3 {
		f = c.P.method(parts[0], parts[1], parts[2])
	} else {
		f = c.P.fn(parts[0], parts[1])
	}
	if f == nil {
		return "\x00missing " + n
	}
	return fnName(f)
}

// sigParams: parameter types without the receiver.
func sigParams(fn *ssa.Function) []types.Type {
	var out []types.Type
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		out = append(out, fn.Signature.Params().At(i).Type())
	}
	return out
}

func isHandlerSig(fn *ssa.Function) bool {
	ps := sigParams(fn)
	return len(ps) == 2 && isRW(ps[0]) && isReq(ps[1]) && fn.Signature.Results().Len() == 0
}

func isErrHandlerSig(fn *ssa.Function) bool {
	ps := sigParams(fn)
	if len(ps) != 3 || !isRW(ps[0]) || !isReq(ps[1]) || fn.Signature.Results().Len() != 0 {
		return false
	}
	b, ok := ps[2].Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// valueUsed: functions whose value escapes (stored, passed, returned, bound),
// as opposed to functions that are only called directly.
func (p *Program) valueUsed() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	mark := func(v ssa.Value) {
		if f, ok := v.(*ssa.Function); ok {
			out[f] = true
			if f.Synthetic != "" && f.Blocks != nil { // bound method or thunk
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok {
							if g := ci.Common().StaticCallee(); g != nil {
								out[g] = true
							}
						}
					}
				}
			}
		}
	}
	var buf [16]*ssa.Value
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					direct := true
					if rs := mc.Referrers(); rs != nil {
						for _, r := range *rs {
							ci, ok := r.(ssa.CallInstruction)
							if !ok || ci.Common().Value != ssa.Value(mc) {
								direct = false
							}
							if _, isGo := r.(*ssa.Go); isGo {
								direct = true
							}
						}
					}
					if !direct {
						mark(mc.Fn)
					}
					continue
				}
				ops := in.Operands(buf[:0])
				for _, op := range ops {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == ssa.Value(f) {
						used := false
						for _, a := range ci.Common().Args {
							if a == ssa.Value(f) {
								used = true
							}
						}
						if !used {
							continue
						}
					}
					mark(f)
				}
			}
		}
	}
	return out
}

// handlerFuncs: every function of the module that is used as an HTTP handler.
func (p *Program) handlerFuncs(rel string) []*ssa.Function {
	used := p.valueUsed()
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || !isHandlerSig(fn) {
			continue
		}
		if rel != "*" && p.relOf(fn) != rel {
			continue
		}
		if used[fn] || fn.Name() == "ServeHTTP" && fn.Signature.Recv() != nil {
			out = append(out, fn)
		}
	}
	return out
}

// errorFuncs: functions of the module that are used as error handlers.
func (p *Program) errorFuncs(rel string) []*ssa.Function {
	used := p.valueUsed()
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || !isErrHandlerSig(fn) || !used[fn] {
			continue
		}
		if rel == "*" || p.relOf(fn) == rel {
			out = append(out, fn)
		}
	}
	return out
}

func (p *Program) relOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), p.Module), "/")
		}
	}
	return "?"
}

// findFn looks for a function value in everything a path produced.
func findFn(t *Trace, fn *ssa.Function) *Term {
	var hit *Term
	look := func(x *Term) {
		if x == nil || hit != nil {
			return
		}
		x.contains(func(y *Term) bool {
			if g := isFn(y); g == fn {
				hit = y
				return true
			}
			return false
		})
	}
	for _, r := range t.Ret {
		look(r)
	}
	for _, e := range t.Evs {
		look(e.Term)
		for _, a := range e.Args {
			look(a)
		}
	}
	return hit
}

func onlyConds(s *State) *State {
	n := s.clone()
	evs := s.evList()
	n.evs = nil
	k := 0
	for _, e := range evs {
		if e.Kind == EvCond {
			c := *e
			c.prev = n.evs
			c.n = k
			k++
			n.evs = &c
		}
	}
	return n
}

// explore runs a handler-like function with symbolic inputs. A closure is run
// from every distinct state its creator can leave it in.
func (c *Ctx) explore(fn *ssa.Function, opaque func(*ssa.Function) bool) []*entryRun {
	mkRun := func(x *Exec, args []*Term, ts []*Trace, made *Trace) *entryRun {
		r := &entryRun{Fn: fn, Traces: ts, Args: args, X: x, Made: made}
		for i, q := range fn.Params {
			if isRW(q.Type()) {
				r.W = args[i]
			}
			if isReq(q.Type()) && r.R == nil {
				r.R = args[i]
			}
		}
		return r
	}
	args := func() []*Term {
		var as []*Term
		for _, q := range fn.Params {
			nn := isRW(q.Type()) || isReq(q.Type())
			if _, p := q.Type().Underlying().(*types.Pointer); p {
				nn = true
			}
			as = append(as, param(q.Name(), q.Type(), nn))
		}
		return as
	}()
	if fn.Parent() == nil || len(fn.FreeVars) == 0 {
		x := newExec(c.P, opaque)
		x.SharedLoads, x.Partials = c.sharedLoads, c.partials
		ts := c.run(x, fn, args, nil, nil)
		return []*entryRun{mkRun(x, args, ts, nil)}
	}
	var out []*entryRun
	seen := map[string]bool{}
	for _, par := range c.explore2(fn.Parent()) {
		f := findFn(par, fn)
		if f == nil || par.St == nil {
			continue
		}
		key := strconv.Itoa(f.ID)
		px := newExec(c.P, nil)
		st := onlyConds(par.St)
		for _, b := range f.Args {
			if b.Op == OAlloc {
				if et := ptrElem(b.Typ); et != nil {
					key += "," + strconv.Itoa(px.load(st, b, et).ID)
				}
			}
		}
		shareCaptured(px, st, f)
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(seen) > 24 {
			c.need(false, "undecided", fn.Pos(), nil, "%s is created in more than 24 different states", fnName(fn))
			break
		}
		x := newExec(c.P, opaque)
		x.SharedLoads, x.Partials = c.sharedLoads, c.partials
		ts := c.runTerm(x, f, args, st)
		out = append(out, mkRun(x, args, ts, par))
	}
	if len(out) == 0 {
		// not reached symbolically: unknown captured variables
		var bind []*Term
		for _, fv := range fn.FreeVars {
			bind = append(bind, param("&"+fv.Name(), fv.Type(), true))
		}
		x := newExec(c.P, opaque)
		x.SharedLoads, x.Partials = c.sharedLoads, c.partials
		ts := c.run(x, fn, args, bind, nil)
		out = append(out, mkRun(x, args, ts, nil))
	}
	return out
}

// shareCaptured forgets what the variables hold that a closure shares with later
// calls of itself and with its siblings, as far as any of them changes it.
func shareCaptured(px *Exec, st *State, f *Term) {
	fn := isFn(f)
	if fn == nil {
		return
	}
	family := []*ssa.Function{fn}
	if fn.Parent() != nil {
		family = append(family, fn.Parent().AnonFuncs...)
	}
	for i, b := range f.Args {
		if b.Op != OAlloc || i >= len(fn.FreeVars) {
			continue
		}
		cell, content := false, false
		for _, g := range family {
			for k, fv := range g.FreeVars {
				if g == fn && k == i || g != fn && fv.Name() == fn.FreeVars[i].Name() {
					cell = cell || writesThrough(g, fv, map[*ssa.Function]bool{})
					content = content || writesContent(fv)
				}
			}
		}
		if !cell && !content {
			continue
		}
		if et := ptrElem(b.Typ); et != nil && content {
			switch v := px.load(st, b, et); v.Op {
			case OMake:
				st.maps = append(st.maps, mapUpd{m: v, barrier: true})
			case OAlloc:
				px.havoc(st, v, "shared", 0)
			}
		}
		if cell {
			px.havoc(st, b, "shared", 0)
		}
	}
}

// writesContent: what the variable refers to (a map, what a pointer points to) may be
// changed through it.
func writesContent(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp:
			if mutates(i, map[ssa.Value]bool{}) {
				return true
			}
		case *ssa.MakeClosure:
			for k, b := range i.Bindings {
				if b == v && writesContent(i.Fn.(*ssa.Function).FreeVars[k]) {
					return true
				}
			}
		}
	}
	return false
}

func mutates(v ssa.Value, seen map[ssa.Value]bool) bool {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Pointer:
	default:
		return false
	}
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.MapUpdate:
			if i.Map == v {
				return true
			}
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if writesVia(i, map[ssa.Value]bool{}) {
				return true
			}
		case *ssa.Phi:
			if mutates(i, seen) {
				return true
			}
		case *ssa.ChangeType:
			if mutates(i, seen) {
				return true
			}
		case ssa.CallInstruction:
			cc := i.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" || b.Name() == "clear" {
					return true
				}
				continue
			}
			g := cc.StaticCallee()
			if g == nil {
				continue
			}
			for k, a := range cc.Args {
				if a == v && k < len(g.Params) && mutates(g.Params[k], seen) {
					return true
				}
			}
		}
	}
	return false
}

// explore2 runs the creator of a closure, looking into nothing it calls.
func (c *Ctx) explore2(fn *ssa.Function) []*Trace {
	all := func(f *ssa.Function) bool { return f.Synthetic == "" }
	var out []*Trace
	if fn.Parent() == nil || len(fn.FreeVars) == 0 {
		x := newExec(c.P, all)
		x.MaxPath = 4000
		ts := x.Run(fn, params(fn), nil, nil)
		if x.Err != nil {
			return nil
		}
		return ts
	}
	for _, r := range c.explore(fn, all) {
		out = append(out, r.Traces...)
	}
	return out
}

var _ = token.NoPos
