package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C61", "Escape and effect analysis of every package variable of the module (stores outside initialisation, changes through what it refers to, references handed to objects of the module) and freshness of the client table of every limiter that is made", ruleC61)
}

// settled: types whose values don't change when they are used.
func settled(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		if p, ok = t.(*types.Pointer); !ok {
			return false
		}
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "regexp.Regexp", "html/template.Template", "text/template.Template", "strings.Replacer", "time.Location", "sync.Pool", "encoding/base64.Encoding", "math/big.Int":
		return true
	}
	return false
}

// refers: values of the type give access to memory that can be changed through them.
func refers(t types.Type, depth int) bool {
	if t == nil || depth > 8 || settled(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return refers(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Synthetic == "package initializer" || fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// sharing follows what a package variable refers to.
type sharing struct {
	c    *Ctx
	g    *ssa.Global
	seen map[ssa.Value]bool
	uses int
	// whether what is stored in it can give access to memory
	refersTo bool
	// fields of the module whose maps are changed somewhere
	mapped map[string]bool
}

func (w *sharing) bad(at token.Pos, fn *ssa.Function, f string) {
	w.c.need(false, "package-state", at, nil, "%s: package variable %s %s", shortName(fnName(fn)), w.g.Name(), f)
}

func refsOf(v ssa.Value) []ssa.Instruction {
	if v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

// onlyPlain: nothing that is stored at the address, or at a part of it, gives access to memory.
func onlyPlain(v ssa.Value, refs []ssa.Instruction, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, r := range refs {
		switch i := r.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.FieldAddr:
			if !onlyPlain(i, refsOf(i), depth+1) {
				return false
			}
		case *ssa.Store:
			if i.Addr != v {
				return false
			}
			switch x := i.Val.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				al, ok := x.X.(*ssa.Alloc)
				if refers(x.Type(), 0) && !(ok && onlyPlain(al, refsOf(al), depth+1)) {
					return false
				}
			default:
				if refers(x.Type(), 0) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// addr: uses of the address of (a part of) the variable.
func (w *sharing) addr(v ssa.Value, refs []ssa.Instruction) {
	if w.seen[v] {
		return
	}
	w.seen[v] = true
	for _, r := range refs {
		fn := r.Parent()
		w.uses++
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if w.refersTo {
				w.val(i)
			}
		case *ssa.Store:
			switch {
			case i.Addr == v:
				if !isInit(fn) {
					w.bad(i.Pos(), fn, "is changed after initialisation")
				}
			default:
				w.bad(i.Pos(), fn, "is handed out by address")
			}
		case *ssa.FieldAddr:
			w.addr(i, refsOf(i))
		case *ssa.IndexAddr:
			if i.X == v {
				w.addr(i, refsOf(i))
			}
		case *ssa.Slice:
			w.val(i)
		case *ssa.ChangeType:
			w.addr(i, refsOf(i))
		case *ssa.MakeClosure:
			for k, b := range i.Bindings {
				if b == v {
					fv := i.Fn.(*ssa.Function).FreeVars[k]
					w.addr(fv, refsOf(fv))
				}
			}
		case ssa.CallInstruction:
			w.call(i, v, true)
		default:
			w.bad(r.Pos(), fn, "is handed out by address")
		}
	}
}

// cell: a local variable that holds the value.
func (w *sharing) cell(v ssa.Value) {
	if w.seen[v] {
		return
	}
	w.seen[v] = true
	for _, r := range refsOf(v) {
		switch i := r.(type) {
		case *ssa.UnOp:
			w.val(i)
		case *ssa.MakeClosure:
			for k, b := range i.Bindings {
				if b == v {
					w.cell(i.Fn.(*ssa.Function).FreeVars[k])
				}
			}
		case *ssa.Slice:
			w.val(i)
		case *ssa.FieldAddr:
			for _, q := range refsOf(i) {
				if u, ok := q.(*ssa.UnOp); ok {
					w.val(u)
				}
			}
		}
	}
}

// val: uses of a value that gives access to the variable's memory.
func (w *sharing) val(v ssa.Value) {
	if !refers(v.Type(), 0) || w.seen[v] {
		return
	}
	w.seen[v] = true
	for _, r := range refsOf(v) {
		fn := r.Parent()
		w.uses++
		switch i := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.Lookup:
			w.val(i)
		case *ssa.Extract:
			w.val(i)
		case *ssa.Range:
			for _, q := range refsOf(i) {
				if n, ok := q.(*ssa.Next); ok {
					w.val(n)
				}
			}
		case *ssa.Index:
			w.val(i)
		case *ssa.Field:
			w.val(i)
		case *ssa.IndexAddr:
			if i.X == v {
				w.addr(i, refsOf(i))
			}
		case *ssa.FieldAddr:
			w.addr(i, refsOf(i))
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				w.bad(i.Pos(), fn, "is a channel that is shared")
				continue
			}
			w.val(i)
		case *ssa.Send:
			w.bad(i.Pos(), fn, "is a channel that is shared")
		case *ssa.Select:
			w.bad(i.Pos(), fn, "is a channel that is shared")
		case *ssa.Slice:
			w.val(i)
		case *ssa.Phi:
			w.val(i)
		case *ssa.ChangeType:
			w.val(i)
		case *ssa.ChangeInterface:
			w.val(i)
		case *ssa.Convert:
		case *ssa.MakeInterface:
			w.val(i)
		case *ssa.TypeAssert:
			w.val(i)
		case *ssa.MapUpdate:
			if i.Map == v {
				if !isInit(fn) {
					w.bad(i.Pos(), fn, "is changed after initialisation")
				}
			} else if !isInit(fn) {
				w.escapes(v.Type(), i.Pos(), fn, i.Map)
			}
		case *ssa.Store:
			switch {
			case i.Addr == v:
				if !isInit(fn) {
					w.bad(i.Pos(), fn, "is changed after initialisation")
				}
			default:
				w.stored(i, v)
			}
		case *ssa.Return:
			w.returned(fn, i, v)
		case *ssa.MakeClosure:
			// a bound method: as good as a call of it
			if len(i.Bindings) > 0 && i.Bindings[0] == v {
				g := i.Fn.(*ssa.Function)
				w.param(g, 0, v, i.Pos(), fn, true)
			}
		case ssa.CallInstruction:
			w.call(i, v, false)
		default:
			w.bad(r.Pos(), fn, "is handed out")
		}
	}
}

func (w *sharing) param(g *ssa.Function, k int, v ssa.Value, at token.Pos, fn *ssa.Function, free bool) {
	if free {
		if k < len(g.FreeVars) {
			w.val(g.FreeVars[k])
		}
		return
	}
	if k < len(g.Params) {
		w.val(g.Params[k])
	}
}

func (w *sharing) stored(i *ssa.Store, v ssa.Value) {
	fn := i.Parent()
	switch a := i.Addr.(type) {
	case *ssa.Alloc:
		w.cell(a)
	case *ssa.FreeVar:
		w.cell(a)
	case *ssa.Global:
		if !isInit(fn) {
			w.bad(i.Pos(), fn, "is handed to another one")
		}
	case *ssa.IndexAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			w.cell(al)
			return
		}
		w.escapes(v.Type(), i.Pos(), fn, a)
	case *ssa.FieldAddr:
		w.escapes(v.Type(), i.Pos(), fn, a)
	default:
		w.escapes(v.Type(), i.Pos(), fn, nil)
	}
}

// escapes: the value becomes part of another object.
func (w *sharing) escapes(t types.Type, at token.Pos, fn *ssa.Function, into ssa.Value) {
	if isInit(fn) {
		return
	}
	p := w.c.P
	class := ""
	if fa, ok := into.(*ssa.FieldAddr); ok {
		class = p.structClass(fa.X.Type(), fa.Field)
		if al, ok := fa.X.(*ssa.Alloc); ok {
			w.cell(al)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !refers(u.Elem(), 0) {
			return
		}
	case *types.Map:
		if class != "" && !w.mapped[class] && !strings.HasPrefix(class, "tuna.") && !refers(u.Elem(), 0) {
			return
		}
		if fa, ok := into.(*ssa.FieldAddr); ok && class == "" {
			if _, anon := ptrElem(fa.X.Type()).(*types.Struct); anon {
				return
			}
		}
	}
	w.bad(at, fn, "becomes part of what is made here, and is shared by all of them")
}

func (w *sharing) returned(fn *ssa.Function, ret *ssa.Return, v ssa.Value) {
	pos := -1
	for k, x := range ret.Results {
		if x == v {
			pos = k
		}
	}
	for _, g := range w.c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != fn {
					continue
				}
				if len(ret.Results) == 1 {
					w.val(call)
					continue
				}
				for _, q := range refsOf(call) {
					if e, ok := q.(*ssa.Extract); ok && e.Index == pos {
						w.val(e)
					}
				}
			}
		}
	}
	if fn.Parent() != nil {
		// closures: only used where their result can be followed
		for _, r := range refsOf(fn) {
			if _, ok := r.(*ssa.Call); !ok {
				w.bad(ret.Pos(), fn, "is returned by a function value")
				return
			}
		}
	}
}

func (w *sharing) call(i ssa.CallInstruction, v ssa.Value, addr bool) {
	cc := i.Common()
	fn := i.Parent()
	name := calleeName(cc)
	if cc.IsInvoke() && cc.Value == v {
		if !isInit(fn) {
			w.bad(i.Pos(), fn, "is used through "+shortName(name)+", which may change it")
		}
		return
	}
	if cc.Value == v && !cc.IsInvoke() {
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "close":
			if !isInit(fn) {
				w.bad(i.Pos(), fn, "is changed after initialisation")
			}
		case "copy":
			if cc.Args[0] == v && !isInit(fn) {
				w.bad(i.Pos(), fn, "is changed after initialisation")
			}
		case "append":
			if cc.Args[0] == v {
				if q, ok := i.(*ssa.Call); ok {
					w.val(q)
				}
			}
		}
		return
	}
	callee := cc.StaticCallee()
	if callee != nil && callee.Blocks != nil && w.c.P.inlinable(callee) {
		for k, a := range cc.Args {
			if a == v && k < len(callee.Params) {
				if addr {
					w.addr(callee.Params[k], refsOf(callee.Params[k]))
				} else {
					w.val(callee.Params[k])
				}
			}
		}
		if i, ok := i.(*ssa.Call); ok && callee.Synthetic != "" {
			w.val(i)
		}
		return
	}
	if isInit(fn) {
		return
	}
	if addr {
		if strings.HasPrefix(name, "(*sync.Pool).") || strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
			return
		}
		w.bad(i.Pos(), fn, "is handed to "+shortName(name)+" by address")
		return
	}
	arg := -1
	for k, a := range cc.Args {
		if a == v {
			arg = k
		}
	}
	switch v.Type().Underlying().(type) {
	case *types.Slice:
		if arg == 0 && sortsInPlace(name) {
			w.bad(i.Pos(), fn, "is sorted")
		}
		return
	case *types.Interface:
		if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") || strings.HasPrefix(name, "errors.") || strings.HasSuffix(name, ".Execute") || strings.HasPrefix(name, "encoding/json.Marshal") {
			return
		}
	case *types.Map:
		m := name[strings.LastIndexByte(name, '.')+1:]
		if m != "Set" && m != "Add" && m != "Del" && m != "Copy" {
			return
		}
	case *types.Struct:
		return
	}
	w.bad(i.Pos(), fn, "is handed to "+shortName(name)+", which may change it")
}

func ruleC61(c *Ctx) {
	p := c.P
	uses := map[*ssa.Global][]ssa.Instruction{}
	mapped := map[string]bool{}
	for _, fn := range p.Funcs {
		c.Funcs[fnName(fn)] = true
		main := fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if g.Pkg != nil && p.inMod[g.Pkg] {
						uses[g] = append(uses[g], in)
					} else if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						c.need(main || isInit(fn), "library-state", s.Pos(), nil, "%s changes %s of a library, for everything in the process", shortName(fnName(fn)), g.Name())
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							mapped[p.structClass(fa.X.Type(), fa.Field)] = true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && !main && !isInit(fn) {
					switch name := calleeName(ci.Common()); name {
					case "log.SetOutput", "log.SetPrefix", "log.SetFlags", "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "net/http.Handle", "net/http.HandleFunc", "mime.AddExtensionType", "syscall.Umask":
						c.need(false, "library-state", in.Pos(), nil, "%s calls %s, for everything in the process", shortName(fnName(fn)), name)
					}
				}
			}
		}
	}
	n, followed := 0, 0
	for _, pkg := range p.Pkgs {
		for _, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") {
				continue
			}
			n++
			w := &sharing{c: c, g: g, seen: map[ssa.Value]bool{}, mapped: mapped, refersTo: !onlyPlain(g, uses[g], 0)}
			before := len(c.Findings)
			w.addr(g, uses[g])
			followed += w.uses
			if len(c.Findings) == before {
				c.need(true, "package-state", g.Pos(), nil, "")
			}
		}
	}
	c.atLeast(followed, n, "coverage", "uses of package variables")

	// a limiter has a client table of its own
	tables := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !typeIs(ptrElem(fa.X.Type()), "/guard", "Limiter") || !typeIs(ptrElem(s.Val.Type()), "/cache", "SpearCache") {
					continue
				}
				tables++
				c.need(p.freshAt(s.Val, 0) && !repeats(s.Val, s), "own-table", s.Pos(), nil, "%s gives a limiter a client table that others may use as well", shortName(fnName(fn)))
			}
		}
	}
	c.atLeast(tables, 1, "coverage", "limiters that are made")
}

// freshAt: the value is an object nobody else has: made for this use alone.
func (p *Program) freshAt(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	users := 0
	for _, r := range refsOf(v) {
		if _, ok := r.(*ssa.DebugRef); !ok {
			users++
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Heap
	case *ssa.Extract:
		return p.freshAt(x.Tuple, depth+1)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !p.owns(g) || users > 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				n++
				if !p.freshAt(ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.freshAt(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a local variable
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		loads, good := 0, true
		for _, r := range refsOf(al) {
			switch i := r.(type) {
			case *ssa.Store:
				good = good && i.Addr == al && p.freshAt(i.Val, depth+1)
			case *ssa.UnOp:
				loads++
			case *ssa.DebugRef:
			default:
				good = false
			}
		}
		return good && loads == 1
	case *ssa.Parameter:
		if users > 1 {
			return false
		}
		fn := x.Parent()
		k := -1
		for i, q := range fn.Params {
			if q == x {
				k = i
			}
		}
		n := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						n++
						if a := ci.Common().Args[k]; !p.freshAt(a, depth+1) || repeats(a, in) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// repeats: the value can reach the use more than once without being made again.
func repeats(v ssa.Value, use ssa.Instruction) bool {
	def, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok {
		// a local variable: what is stored to it
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range refsOf(al) {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al && repeats(s.Val, use) {
					return true
				}
			}
			return false
		}
	}
	if def.Block() == use.Block() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{def.Block(): true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, q := range b.Succs {
			if q == use.Block() {
				return true
			}
			if !seen[q] {
				seen[q] = true
				if walk(q) {
					return true
				}
			}
		}
		return false
	}
	return walk(use.Block())
}
