package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Lockset analysis: every access to module state on every path of every concurrent entry point is collected with the locks held there (path-sensitive, per object); state that any of them writes needs one lock common to all its accesses", ruleC07)
	register("C08", "Typestate of every lock on every path of every entry point (held, released, taken again), lock order between locks, and an effect analysis of what happens while one is held", ruleC08)
}

// ---- entry points -------------------------------------------------------------------------

type lockRoot struct {
	fn   *ssa.Function
	kind string // handler, goroutine, api, init
}

func isLockType(t types.Type) bool {
	return typeIs(t, "sync", "Mutex") || typeIs(t, "sync", "RWMutex")
}

// lockBearing: values of the type hold (directly or through module types) a lock.
func (p *Program) lockBearing(t types.Type, seen map[types.Type]bool) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return p.lockBearing(u.Elem(), seen)
	case *types.Array:
		return p.lockBearing(u.Elem(), seen)
	case *types.Slice:
		return p.lockBearing(u.Elem(), seen)
	case *types.Map:
		return p.lockBearing(u.Elem(), seen)
	case *types.Named:
		if isLockType(u) {
			return true
		}
		if seen[u] || u.Obj().Pkg() == nil || !p.moduleType(u) {
			return false
		}
		seen[u] = true
		st, ok := u.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if p.lockBearing(st.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func (p *Program) moduleType(n *types.Named) bool {
	return n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == p.Module || strings.HasPrefix(n.Obj().Pkg().Path(), p.Module+"/"))
}

// goTargets: functions of the module started as goroutines, with the functions that
// start them.
func (p *Program) goTargets() (targets map[*ssa.Function]bool, spawners map[*ssa.Function]bool, unknown []ssa.Instruction) {
	targets, spawners = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				spawners[fn] = true
				var t *ssa.Function
				switch v := g.Call.Value.(type) {
				case *ssa.Function:
					t = v
				case *ssa.MakeClosure:
					t = v.Fn.(*ssa.Function)
				}
				switch {
				case t != nil && t.Synthetic == "" && p.owns(t):
					targets[t] = true
				case t != nil && t.Synthetic != "":
					if o, ok := t.Object().(*types.Func); ok {
						if m := p.Prog.FuncValue(o); m != nil && p.owns(m) {
							targets[m] = true
							continue
						}
					}
					unknown = append(unknown, in)
				case t != nil:
				default:
					unknown = append(unknown, in)
				}
			}
		}
	}
	return
}

func listens(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && isListenCall(calleeName(ci.Common())) {
				return true
			}
		}
	}
	return false
}

// concurrentRoots: functions that can run at the same time as each other and as
// themselves.
func (c *Ctx) concurrentRoots() []lockRoot {
	var out []lockRoot
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function, kind string) {
		if fn != nil && !seen[fn] && fn.Blocks != nil {
			seen[fn] = true
			out = append(out, lockRoot{fn, kind})
		}
	}
	for _, fn := range c.P.handlerFuncs("*") {
		add(fn, "handler")
	}
	for _, fn := range c.P.errorFuncs("*") {
		add(fn, "handler")
	}
	ts, _, unk := c.P.goTargets()
	for _, fn := range c.P.Funcs {
		if ts[fn] {
			add(fn, "goroutine")
		}
	}
	for _, in := range unk {
		c.need(false, "goroutine", in.Pos(), nil, "a goroutine runs a function the analysis cannot identify")
	}
	for _, fn := range c.P.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Synthetic != "" || fn.Parent() != nil || !token.IsExported(fn.Name()) || listens(fn) {
			continue
		}
		if c.P.lockBearing(r.Type(), map[types.Type]bool{}) {
			add(fn, "api")
		}
	}
	// methods a request reaches through an interface
	reach := c.P.reachFrom(out)
	req := c.P.requestFuncs()
	for _, fn := range c.P.Funcs {
		if req[fn] && !reach[fn] && fn.Parent() == nil && fn.Synthetic == "" {
			add(fn, "api")
		}
	}
	// callbacks handed to the library while a request or goroutine runs
	reach = c.P.reachFrom(out)
	used := c.P.valueUsed()
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil && reach[fn] && used[fn] && !seen[fn] && !isHandlerSig(fn) {
			add(fn, "callback")
		}
	}
	return out
}

// reachFrom: module functions that the given functions call or create.
func (p *Program) reachFrom(roots []lockRoot) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function)
	f = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil || !p.owns(g) {
			return
		}
		seen[g] = true
		for _, h := range mentioned(g) {
			f(h)
		}
	}
	for _, r := range roots {
		f(r.fn)
	}
	return seen
}

// mentioned: functions a function calls, creates or refers to.
func mentioned(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	var buf [16]*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(buf[:0]) {
				if g, ok := (*op).(*ssa.Function); ok {
					out = append(out, g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// ---- which functions matter -----------------------------------------------------------------

func lockOp(name string) (op string, ok bool) {
	for _, pre := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, pre) {
			switch op = name[len(pre):]; op {
			case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
				return op, true
			}
		}
	}
	return "", false
}

func (p *Program) structClass(t types.Type, f int) string {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || !p.moduleType(n) {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || f >= st.NumFields() {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + st.Field(f).Name()
}

// chain collects the fields and variables an address or container value comes from.
// local: the object is a local variable that was never reached through a pointer.
func (p *Program) chain(v ssa.Value, out map[string]bool, deref bool, depth int) {
	if depth > 12 {
		return
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if _, isAlloc := rootAlloc(x); isAlloc && !deref {
			return
		}
		if k := p.structClass(x.X.Type(), x.Field); k != "" {
			out[k] = true
		}
		p.chain(x.X, out, deref, depth+1)
	case *ssa.Field:
		if k := p.structClass(x.X.Type(), x.Field); k != "" {
			out[k] = true
		}
		p.chain(x.X, out, true, depth+1)
	case *ssa.IndexAddr:
		p.chain(x.X, out, deref, depth+1)
	case *ssa.Index:
		p.chain(x.X, out, deref, depth+1)
	case *ssa.UnOp:
		p.chain(x.X, out, true, depth+1)
	case *ssa.Lookup:
		p.chain(x.X, out, true, depth+1)
	case *ssa.Extract:
		p.chain(x.Tuple, out, deref, depth+1)
	case *ssa.Slice:
		p.chain(x.X, out, deref, depth+1)
	case *ssa.ChangeType:
		p.chain(x.X, out, deref, depth+1)
	case *ssa.MakeInterface:
		p.chain(x.X, out, deref, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.chain(e, out, deref, depth+1)
		}
	case *ssa.Global:
		if x.Pkg != nil && p.inMod[x.Pkg] {
			out["var "+x.Name()] = true
		}
	case *ssa.FreeVar:
		out["captured "+x.Name()] = true
	case *ssa.Parameter:
		switch x.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			for i, q := range x.Parent().Params {
				if q == x {
					out[paramKey(i)] = true
				}
			}
		}
	case *ssa.Alloc:
		if deref {
			// a pointer or container kept in a local variable
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					p.chain(st.Val, out, true, depth+1)
				}
			}
		}
	}
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return x, true
		default:
			return nil, false
		}
	}
}

// touched: classes of state each function may write (w) or mention (m).
type touch struct {
	w, m  map[string]bool
	locks bool
	pw    map[int]bool // parameters whose object it may write
}

// sortsInPlace: library functions that reorder the slice they get.
func sortsInPlace(name string) bool {
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "math/rand.Shuffle":
		return true
	}
	return false
}

func paramKey(i int) string { return fmt.Sprintf("param %d", i) }

// takeParams moves the parameters of a set of classes to pw.
func (t *touch) takeParams() (more bool) {
	for k := range t.w {
		if strings.HasPrefix(k, "param ") {
			var i int
			fmt.Sscanf(k, "param %d", &i)
			delete(t.w, k)
			if !t.pw[i] {
				t.pw[i] = true
				more = true
			}
		}
	}
	return
}

func (p *Program) touches(fn *ssa.Function) *touch {
	t := &touch{w: map[string]bool{}, m: map[string]bool{}, pw: map[int]bool{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				p.chain(x.Addr, t.w, false, 0)
			case *ssa.MapUpdate:
				p.chain(x.Map, t.w, true, 0)
			case *ssa.FieldAddr:
				if k := p.structClass(x.X.Type(), x.Field); k != "" {
					t.m[k] = true
				}
			case *ssa.Field:
				if k := p.structClass(x.X.Type(), x.Field); k != "" {
					t.m[k] = true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				name := calleeName(ci.Common())
				if _, is := lockOp(name); is {
					t.locks = true
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee != nil && p.owns(callee) {
					continue
				}
				for i, a := range ci.Common().Args {
					if name == "append" && i == 0 || name == "len" || name == "cap" {
						continue
					}
					if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr || name == "copy" || name == "delete" || name == "clear" || i == 0 && sortsInPlace(name) {
						p.chain(a, t.w, false, 0)
					}
				}
			}
			var buf [16]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				switch g := (*op).(type) {
				case *ssa.Global:
					if g.Pkg != nil && p.inMod[g.Pkg] {
						t.m["var "+g.Name()] = true
					}
				case *ssa.FreeVar:
					t.m["captured "+g.Name()] = true
				}
			}
		}
	}
	t.takeParams()
	return t
}

// paramWrites adds what functions write through their parameters: the state their
// callers hand to them.
func (li *lockInfo) paramWrites(p *Program) {
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			t := li.touch[fn]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().IsInvoke() {
						continue
					}
					g := ci.Common().StaticCallee()
					u := li.touch[g]
					if g == nil || u == nil || len(u.pw) == 0 {
						continue
					}
					for i := range u.pw {
						if i >= len(ci.Common().Args) {
							continue
						}
						set := map[string]bool{}
						p.chain(ci.Common().Args[i], set, true, 0)
						for k := range set {
							if strings.HasPrefix(k, "param ") {
								t.w[k] = true
								again = t.takeParams() || again
								continue
							}
							// methods write the fields of their own objects anyway
							if i == 0 && g.Signature.Recv() != nil {
								continue
							}
							if !t.w[k] || !u.w[k] {
								t.w[k], u.w[k] = true, true
								again = true
							}
						}
					}
				}
			}
		}
	}
}

// ---- locks along a path --------------------------------------------------------------------

type heldLock struct {
	addr  *Term
	write bool
	at    token.Pos
}

func lockAddr(a *Term) *Term {
	for a.Op == OConv || isCall(a, "(*sync.RWMutex).RLocker") {
		a = a.Args[0]
	}
	return a
}

// lockClass names a lock: the field, variable or captured variable it is.
func lockClass(a *Term) string {
	switch a.Op {
	case OField:
		return shortOwner(a.Owner) + "." + a.Name
	case OGlobal:
		return "var " + a.Name
	case OAlloc:
		return "captured " + a.Name
	case OIndexA:
		return lockClass(a.Args[0]) + "[]"
	}
	return clip(a.String())
}

func shortOwner(o string) string {
	if i := strings.LastIndexByte(o, '/'); i >= 0 {
		return o[i+1:]
	}
	return o
}

// lockRun is the exploration of one root.
type lockRun struct {
	root lockRoot
	*entryRun
}

type lockInfo struct {
	roots   []lockRoot
	isRoot  map[*ssa.Function]bool
	conc    map[*ssa.Function]bool // reachable from concurrent roots
	touch   map[*ssa.Function]*touch
	written map[string]bool
	matter  map[*ssa.Function]bool
	runs    []*lockRun
}

func (c *Ctx) lockInfo(onlyLocks bool) *lockInfo {
	li := &lockInfo{roots: c.concurrentRoots(), isRoot: map[*ssa.Function]bool{}, touch: map[*ssa.Function]*touch{}, written: map[string]bool{}, matter: map[*ssa.Function]bool{}}
	for _, r := range li.roots {
		li.isRoot[r.fn] = true
	}
	li.conc = c.P.reachFrom(li.roots)
	for _, fn := range c.P.Funcs {
		li.touch[fn] = c.P.touches(fn)
	}
	li.paramWrites(c.P)
	for fn := range li.conc {
		if t := li.touch[fn]; t != nil {
			for k := range t.w {
				li.written[k] = true
			}
		}
	}
	// which functions have anything to do with locks or written state
	direct := func(fn *ssa.Function) bool {
		t := li.touch[fn]
		if t == nil {
			return false
		}
		if t.locks {
			return true
		}
		if onlyLocks {
			return false
		}
		for k := range t.m {
			if li.written[k] {
				return true
			}
		}
		for k := range t.w {
			if li.written[k] {
				return true
			}
		}
		return false
	}
	for _, fn := range c.P.Funcs {
		if direct(fn) {
			li.matter[fn] = true
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			if li.matter[fn] {
				continue
			}
			for _, g := range mentioned(fn) {
				if li.matter[g] || g.Synthetic != "" && c.P.wraps(g, li.matter) {
					li.matter[fn] = true
					again = true
					break
				}
			}
		}
	}
	return li
}

// wraps: a bound method or thunk of a function that matters.
func (p *Program) wraps(g *ssa.Function, set map[*ssa.Function]bool) bool {
	for _, h := range mentioned(g) {
		if set[h] {
			return true
		}
	}
	return false
}

func (li *lockInfo) opaque(self *ssa.Function) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if fn == self || fn.Synthetic != "" {
			return false
		}
		return li.isRoot[fn] && fn.Parent() == nil || !li.matter[fn]
	}
}

// ---- C08 --------------------------------------------------------------------------------------

func ruleC08(c *Ctx) {
	li := c.lockInfo(true)
	roots := append([]lockRoot{}, li.roots...)
	used := c.P.valueUsed()
	called := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if li.isRoot[fn] || fn.Synthetic != "" {
			continue
		}
		api := fn.Parent() == nil && token.IsExported(fn.Name())
		if api || used[fn] || !called[fn] || fn.Name() == "main" {
			roots = append(roots, lockRoot{fn, "setup"})
		}
	}
	for _, r := range roots {
		li.isRoot[r.fn] = true
	}
	block := c.blockers()
	// lock classes a root may take, for calls of roots
	takes := map[*ssa.Function]map[string]bool{}
	type edge struct{ a, b string }
	order := map[edge]token.Pos{}
	seenOps := map[token.Pos]bool{}
	nlock := 0
	type pend struct {
		t     *Trace
		e     *Ev
		fn    *ssa.Function
		held  []heldLock
		where string
	}
	var pends []pend
	for _, r := range roots {
		if !li.matter[r.fn] {
			continue
		}
		takes[r.fn] = map[string]bool{}
		name := shortName(fnName(r.fn))
		for _, run := range c.explore(r.fn, li.opaque(r.fn)) {
			for _, t := range run.Traces {
				held := []heldLock{}
				heads := map[*LoopInfo]string{}
				for i, e := range t.Evs {
					if e.Kind == EvLoopHead && e.Loop != nil {
						heads[e.Loop] = heldKey(held)
					}
					if e.Kind == EvCall {
						if op, ok := lockOp(e.Name); ok {
							seenOps[e.At] = true
							nlock++
							a := lockAddr(e.arg(0))
							k := lockClass(a)
							rd := op == "RLock" || op == "TryRLock" || op == "RUnlock" || isCall(e.arg(0), "(*sync.RWMutex).RLocker")
							switch op {
							case "TryLock", "TryRLock":
								if e.Term == nil || !holds(factsAt(t, i+6), e.Term) {
									continue
								}
								fallthrough
							case "Lock", "RLock":
								takes[r.fn][k] = true
								for _, h := range held {
									if h.addr == a {
										c.need(false, "taken-twice", e.At, t, "%s takes %s while it already holds it (since %s)", name, k, c.P.pos(h.at))
									} else if lockClass(h.addr) == k {
										c.need(false, "taken-twice", e.At, t, "%s takes %s of %s while it holds that of %s, which may be the same", name, k, clip(a.String()), clip(h.addr.String()))
									} else {
										order[edge{lockClass(h.addr), k}] = e.At
									}
								}
								held = append(held[:len(held):len(held)], heldLock{a, !rd, e.At})
								c.need(true, "lock", e.At, nil, "")
							default:
								hit := -1
								for j, h := range held {
									if h.addr == a {
										hit = j
									}
								}
								if !c.need(hit >= 0, "released-unheld", e.At, t, "%s releases %s without holding it", name, k) {
									continue
								}
								c.need(held[hit].write == !rd, "release-mode", e.At, t, "%s releases %s the other way than it was taken", name, k)
								held = append(append([]heldLock{}, held[:hit]...), held[hit+1:]...)
							}
							continue
						}
					}
					if len(held) == 0 {
						continue
					}
					if why := c.waits(e, run.entryArgs(), block); why != "" {
						c.need(false, "waits-with-lock", e.At, t, "%s %s while holding %s", name, why, heldNames(held))
					}
					if e.Kind == EvCall {
						for fn := range li.isRoot {
							if fnName(fn) == e.Name && li.matter[fn] {
								pends = append(pends, pend{t, e, fn, held, name})
							}
						}
					}
				}
				switch t.End {
				case EndBack:
					want, ok := heads[t.Loop]
					c.need(ok && want == heldKey(held), "balanced-loop", t.At, t, "an iteration of a loop in %s changes which locks are held: %s", name, heldNames(held))
				case EndExit:
				default:
					c.need(len(held) == 0, "released", t.At, t, "%s %ss while still holding %s", name, t.End, heldNames(held))
				}
			}
		}
	}
	// calls of other entry points while holding a lock
	trans := func(fn *ssa.Function) map[string]bool {
		out := map[string]bool{}
		for g := range c.P.reachFrom([]lockRoot{{fn, ""}}) {
			for k := range takes[g] {
				out[k] = true
			}
		}
		return out
	}
	for _, p := range pends {
		ks := trans(p.fn)
		for _, h := range p.held {
			c.need(!ks[lockClass(h.addr)], "taken-twice", p.e.At, p.t, "%s calls %s while holding %s, which that takes itself", p.where, shortName(p.e.Name), lockClass(h.addr))
			for k := range ks {
				order[edge{lockClass(h.addr), k}] = p.e.At
			}
		}
	}
	// opposite orders
	adj := map[string]map[string]bool{}
	for e := range order {
		if adj[e.a] == nil {
			adj[e.a] = map[string]bool{}
		}
		adj[e.a][e.b] = true
	}
	for e, at := range order {
		seen := map[string]bool{}
		var f func(k string) bool
		f = func(k string) bool {
			if k == e.a {
				return true
			}
			if seen[k] {
				return false
			}
			seen[k] = true
			for n := range adj[k] {
				if f(n) {
					return true
				}
			}
			return false
		}
		c.need(!f(e.b), "lock-order", at, nil, "%s is taken while %s is held, and somewhere else the other way round", e.b, e.a)
	}
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	for at, f := range callSites(all, func(n string) bool { _, ok := lockOp(n); return ok }) {
		c.need(seenOps[at], "covered", at, nil, "a lock operation in %s is on no path the analysis followed", shortName(fnName(f)))
	}
	// a lock that is not called directly could be taken behind the analysis' back
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok || !strings.Contains(fnName(g), "sync.") {
						continue
					}
					if ci, isCall := in.(ssa.CallInstruction); isCall && op == &ci.Common().Value {
						continue
					}
					if _, is := lockOp(strings.TrimSuffix(strings.TrimSuffix(fnName(g), "$bound"), "$thunk")); is {
						if _, isDefer := in.(*ssa.Defer); !isDefer {
							c.need(false, "lock-value", in.Pos(), nil, "%s uses a lock operation as a value", shortName(fnName(fn)))
						}
					}
				}
			}
		}
	}
	c.atLeast(nlock, 8, "coverage", "lock operations on analysed paths")
}

func (r *lockRun) args() []*Term { return r.Args }

func (r *entryRun) entryArgs() []*Term { return r.Args }

func heldKey(h []heldLock) string {
	var s []string
	for _, x := range h {
		s = append(s, fmt.Sprintf("%d/%v", x.addr.ID, x.write))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func heldNames(h []heldLock) string {
	var s []string
	for _, x := range h {
		s = append(s, lockClass(x.addr))
	}
	if len(s) == 0 {
		return "no lock"
	}
	return strings.Join(s, ", ")
}

// isBlockingCall: library calls that wait for another party.
func isBlockingCall(name string) bool {
	if isRoundTrip(name) || isListenCall(name) {
		return true
	}
	switch name {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Output", "(*golang.org/x/time/rate.Limiter).Wait", "(*golang.org/x/time/rate.Limiter).WaitN":
		return true
	}
	return strings.HasPrefix(name, "(*net/http.Client).") || strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net.Dialer).Dial") || strings.HasPrefix(name, "crypto/tls.Dial") || strings.HasPrefix(name, "net.Lookup") || strings.HasPrefix(name, "(*net/http.Server).")
}

// blockers: module functions that may wait for another party.
func (c *Ctx) blockers() map[string]bool {
	out := map[string]bool{}
	set := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if _, isGo := in.(*ssa.Go); !isGo && isBlockingCall(calleeName(x.Common())) {
						set[fn] = true
					}
				case *ssa.Send, *ssa.Select:
					set[fn] = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						set[fn] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			if set[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if _, isGo := in.(*ssa.Go); isGo {
							continue
						}
						if g := ci.Common().StaticCallee(); g != nil && set[g] && !set[fn] {
							set[fn] = true
							again = true
						}
					}
				}
			}
		}
	}
	for fn := range set {
		out[fnName(fn)] = true
	}
	return out
}

// waits: the event may wait for a client, a backend or another goroutine.
func (c *Ctx) waits(e *Ev, args []*Term, block map[string]bool) string {
	switch e.Kind {
	case EvSend, EvRecv, EvSelect:
		return "waits on a channel"
	case EvDyn:
		return "calls a function it does not know (" + clip(e.Term.String()) + ")"
	case EvCall:
	default:
		return ""
	}
	if isBlockingCall(e.Name) || block[e.Name] {
		return "calls " + shortName(e.Name) + ", which waits for others"
	}
	if isPure(e.Name) || e.Name == "(net/http.ResponseWriter).Header" || strings.HasPrefix(e.Name, "(net/http.Header).") {
		return ""
	}
	switch e.Name {
	case "append", "copy", "delete", "len", "close", "print", "println", "clear":
		return ""
	}
	for _, a := range e.Args {
		x := a
		for x.Op == OConv && len(x.Args) == 1 {
			x = x.Args[0]
		}
		for _, p := range args {
			if p.Typ == nil {
				continue
			}
			if isRW(p.Typ) && carries(x, p) {
				return "calls " + shortName(e.Name) + " with the client's connection"
			}
			if isReq(p.Typ) && x == p && !strings.HasPrefix(e.Name, "(*net/http.Request).") {
				return "hands the request to " + shortName(e.Name)
			}
			if isReq(p.Typ) && isReqField(x, p, "Body") {
				return "calls " + shortName(e.Name) + " with the request's body"
			}
		}
		if x.Typ != nil && types.IsInterface(x.Typ) && !isErrorT(x.Typ) {
			if n, ok := x.Typ.(*types.Named); ok && n.Obj().Pkg() != nil {
				switch n.Obj().Pkg().Path() {
				case "io", "net", "net/http", "bufio":
					if x.Op == OParam || x.Op == ODeref || x.Op == OCall && isRoundTrip(x.Name) {
						return "calls " + shortName(e.Name) + " with " + clip(x.String()) + ", which may be a connection"
					}
				}
			}
		}
	}
	return ""
}

// ---- C07 --------------------------------------------------------------------------------------

type access struct {
	class string
	write bool
	held  []heldLock
	loc   *Term
	at    token.Pos
	fn    string
	pub   bool // object made on this path and already reachable by others
	root  lockRoot
	t     *Trace
	after bool // in a spawner after the go statement
}

// classOf names the state a location or container belongs to, with the object whose
// field it is.
func (c *Ctx) classOf(a *Term, run *raceRun) (class string, fresh bool) {
	first, sub := "", ""
	defer func() {
		if strings.HasPrefix(class, "captured ") {
			class += sub
		}
	}()
	for {
		switch a.Op {
		case OField, OSel:
			if k := c.ownerClass(a); k != "" && first == "" {
				first = k
			}
			sub = "." + a.Name
			a = a.Args[0]
		case OIndexA, ODeref, OLookup, OIndex, OConv, OSlice, OAppend, OAssert, OExtract:
			if a.Op == OExtract && a.Args[0].Op == OCall {
				return first, false
			}
			a = a.Args[0]
		case OLoopMem:
			a = a.Args[0]
		case OPhi:
			var init *Term
			for _, l := range run.x.Loops {
				if v, ok := l.Init[a]; ok {
					init = v
				}
			}
			if init == nil || init == a {
				return first, false
			}
			a = init
		case OAlloc:
			if run.shared(a) {
				if first == "" {
					first = "captured " + a.Name
				}
				return first, false
			}
			if p, ok := run.pub[a]; ok {
				if first == "" {
					first = p
				}
				return first, false
			}
			return first, true
		case OMake, OSliceLit, OStruct, OZero, OConst:
			if p, ok := run.pub[a]; ok {
				return p, false
			}
			return first, true
		case OGlobal:
			if first == "" {
				if c.moduleGlobal(a) {
					first = "var " + a.Name
				}
			}
			return first, false
		default:
			return first, false
		}
	}
}

func (c *Ctx) moduleGlobal(a *Term) bool {
	g, ok := a.Ref.(*ssa.Global)
	return !ok || g.Pkg != nil && c.P.inMod[g.Pkg]
}

func (c *Ctx) ownerClass(a *Term) string {
	if a.Owner == "" || !(strings.HasPrefix(a.Owner, c.P.Module+".") || strings.HasPrefix(a.Owner, c.P.Module+"/")) {
		return ""
	}
	return shortOwner(a.Owner) + "." + a.Name
}

type raceRun struct {
	x      *Exec
	init   map[*Term]bool
	roots  map[*ssa.Function]bool
	gor    bool
	pub    map[*Term]string
	spawns bool
}

// shared: the variable existed before the entry point started and is not private to
// the request it belongs to.
func (r *raceRun) shared(a *Term) bool {
	if !r.init[a] {
		return false
	}
	if r.gor {
		return true
	}
	if al, ok := a.Ref.(*ssa.Alloc); ok {
		if boundSync(al) {
			return false
		}
		for f := al.Parent(); f != nil; f = f.Parent() {
			if r.roots[f] {
				return false
			}
		}
	}
	return true
}

// boundSync: every closure that captures the variable is only handed to functions that
// call it before they return, so the variable stays private to the frame it belongs to.
func boundSync(al *ssa.Alloc) bool {
	n := 0
	if al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.MakeClosure:
			n++
			if !onlyCalled(i) {
				return false
			}
		case *ssa.Store:
			if i.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

// onlyCalled: the function value is called, or handed to something that calls it, right away.
func onlyCalled(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch ci := u.(type) {
		case *ssa.DebugRef:
		case *ssa.ChangeType:
			if !onlyCalled(ci) {
				return false
			}
		case *ssa.Call:
			if ci.Call.Value != v && !syncCallers[calleeName(&ci.Call)] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// syncCallers: functions that only call their function argument while they run.
var syncCallers = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "io/fs.WalkDir": true,
	"sort.Slice": true, "sort.SliceStable": true, "sort.Search": true, "slices.SortFunc": true, "slices.SortStableFunc": true,
	"strings.Map": true, "strings.FieldsFunc": true, "strings.IndexFunc": true, "strings.TrimFunc": true,
	"(*sync.Once).Do": true,
}

// raceAccesses: every access to module state on every path of every concurrent entry point.
func (c *Ctx) raceAccesses() (li *lockInfo, accs []*access) {
	c.sharedLoads = true
	li = c.lockInfo(false)
	dedupe := map[string]bool{}
	add := func(a *access) {
		if a.class == "" || c.syncField(a.loc) {
			return
		}
		k := fmt.Sprintf("%s|%v|%d|%s|%s|%v|%v", a.class, a.write, a.at, heldKey(a.held), a.root.fn.Name(), a.pub, a.after)
		if dedupe[k] {
			return
		}
		dedupe[k] = true
		accs = append(accs, a)
	}
	// what these make is private to a run; what a constructor makes is not
	perRun := map[*ssa.Function]bool{}
	for _, r := range li.roots {
		if r.kind != "api" {
			perRun[r.fn] = true
		}
	}
	ts, spawners, _ := c.P.goTargets()
	work := append([]lockRoot{}, li.roots...)
	for _, fn := range c.P.Funcs {
		if spawners[fn] && !li.isRoot[fn] {
			work = append(work, lockRoot{fn, "spawner"})
		}
	}
	for _, r := range work {
		if !li.matter[r.fn] && r.kind != "spawner" {
			continue
		}
		op := li.opaque(r.fn)
		if r.kind == "spawner" {
			base := op
			op = func(fn *ssa.Function) bool {
				// setup before the goroutine starts is not concurrent with it
				return base(fn) || fn.Parent() == nil && fn != r.fn && !spawns(fn) && !li.conc[fn]
			}
		}
		for _, run := range c.explore(r.fn, op) {
			rr := &raceRun{x: run.X, init: map[*Term]bool{}, roots: perRun, gor: r.kind == "goroutine"}
			if run.Made != nil && run.Made.St != nil {
				for a := range run.Made.St.mem {
					rr.init[root(a)] = true
				}
			}
			for _, t := range run.Traces {
				c.accesses(t, r, rr, add)
			}
		}
	}
	_ = ts
	return li, accs
}

func ruleC07(c *Ctx) {
	li, accs := c.raceAccesses()
	by := map[string][]*access{}
	for _, a := range accs {
		by[a.class] = append(by[a.class], a)
	}
	var classes []string
	for k := range by {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	shared := 0
	for _, k := range classes {
		as := by[k]
		// accesses of spawners only race with goroutines
		check := func(as []*access) bool {
			w := false
			for _, a := range as {
				w = w || a.write
			}
			if !w {
				return false
			}
			count := map[string]int{}
			for _, a := range as {
				for _, g := range a.guards() {
					count[g]++
				}
			}
			best, n := "", 0
			for g, m := range count {
				if m > n || m == n && g < best {
					best, n = g, m
				}
			}
			for _, a := range as {
				ok := false
				for _, g := range a.guards() {
					ok = ok || g == best
				}
				verb := "reads"
				if a.write {
					verb = "writes"
				}
				if best == "" {
					c.need(false, "guarded", a.at, a.t, "%s %s %s, which concurrent code shares, without any lock", a.fn, verb, k)
				} else {
					c.need(ok, "guarded", a.at, a.t, "%s %s %s without %s, which guards it elsewhere", a.fn, verb, k, best)
				}
			}
			return true
		}
		var main, gor []*access
		for _, a := range as {
			if a.root.kind == "spawner" {
				gor = append(gor, a)
				continue
			}
			main = append(main, a)
			if a.root.kind == "goroutine" {
				gor = append(gor, a)
			}
		}
		if check(main) {
			shared++
			c.Notes = append(c.Notes, fmt.Sprintf("%s: %d accesses", k, len(main)))
		}
		sp, go_ := false, false
		for _, a := range gor {
			sp = sp || a.root.kind == "spawner"
			go_ = go_ || a.root.kind == "goroutine"
		}
		if sp && go_ {
			check(gor)
		}
	}
	c.atLeast(shared, 5, "coverage", "kinds of state that concurrent code writes")
	c.atLeast(len(li.roots), 12, "coverage", "concurrent entry points")
}

func spawns(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// syncField: the location is itself a synchronisation object.
func (c *Ctx) syncField(a *Term) bool {
	t := a.Typ
	if p := ptrElem(t); p != nil {
		t = p
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// guards: the locks held that protect this object.
func (a *access) guards() []string {
	var out []string
	for _, h := range a.held {
		if a.write && !h.write {
			continue
		}
		switch h.addr.Op {
		case OField, OIndexA:
			base := h.addr.Args[0]
			if a.pub || a.loc.contains(func(y *Term) bool { return y == base || base.Op == ODeref && y == base }) {
				out = append(out, lockClass(h.addr))
			}
		case OGlobal, OAlloc:
			out = append(out, lockClass(h.addr))
		case OConst:
			out = append(out, "atomic")
		}
	}
	return out
}

func (c *Ctx) accesses(t *Trace, r lockRoot, rr *raceRun, add func(*access)) {
	rr.pub = map[*Term]string{}
	rr.spawns = false
	held := []heldLock{}
	name := shortName(fnName(r.fn))
	active := r.kind != "spawner"
	rec := func(loc *Term, write bool, e *Ev, extra ...heldLock) {
		if !active {
			return
		}
		k, fresh := c.classOf(loc, rr)
		if fresh || k == "" {
			return
		}
		_, isPub := rr.pub[rootOf(loc)]
		fn := name
		if e.In != nil {
			fn = shortName(fnName(e.In))
		}
		add(&access{class: k, write: write, held: append(held[:len(held):len(held)], extra...), loc: loc, at: e.At, fn: fn, pub: isPub, root: r, t: t, after: r.kind == "spawner"})
	}
	// publish: from now on others can reach what the value refers to
	publish := func(v *Term, class string) {
		v.contains(func(y *Term) bool {
			if y.Op == OAlloc && !rr.shared(y) || y.Op == OMake {
				if _, ok := rr.pub[y]; !ok {
					k := class
					if k == "" {
						k = "captured " + y.Name
					}
					rr.pub[y] = k
				}
			}
			return false
		})
	}
	whole := func(loc *Term, write bool, e *Ev) {
		rec(loc, write, e)
		et := ptrElem(loc.Typ)
		if et == nil {
			return
		}
		c.structFields(loc, et, 0, func(sub *Term) { rec(sub, write, e) })
	}
	for _, e := range t.Evs {
		switch e.Kind {
		case EvCall:
			if op, ok := lockOp(e.Name); ok {
				a := lockAddr(e.arg(0))
				switch op {
				case "Lock", "RLock":
					held = append(held[:len(held):len(held)], heldLock{a, op == "Lock" && !isCall(e.arg(0), "(*sync.RWMutex).RLocker"), e.At})
				case "Unlock", "RUnlock":
					for j, h := range held {
						if h.addr == a {
							held = append(append([]heldLock{}, held[:j]...), held[j+1:]...)
							break
						}
					}
				}
				continue
			}
			atomic := strings.HasPrefix(e.Name, "sync/atomic.")
			for i, a := range e.Args {
				a = stripConv(a)
				switch {
				case atomic && i == 0:
					rec(a, true, e, heldLock{mkInt(0), true, e.At})
				case a.Op == OField || a.Op == OIndexA && ptrElem(a.Typ) != nil:
					if n, ok := ptrElem(a.Typ).(*types.Named); ok && !c.P.moduleType(n) && n.Obj().Pkg() != nil && safeForSharing(n) {
						continue
					}
					reader := strings.HasPrefix(e.Name, "encoding/json.Marshal") || strings.HasPrefix(e.Name, "fmt.") || strings.HasPrefix(e.Name, "(*encoding/json.Encoder)")
					whole(a, !reader && !c.calleeIsModule(e.Name), e)
				case (e.Name == "copy" || e.Name == "clear" || sortsInPlace(e.Name)) && i == 0:
					rec(a, true, e)
				case a.Op == ODeref || a.Op == OLookup || a.Op == OSel:
					if a.Typ != nil {
						switch a.Typ.Underlying().(type) {
						case *types.Map, *types.Slice:
							if e.Name != "append" && e.Name != "len" && !c.calleeIsModule(e.Name) {
								rec(mkDerefLoc(a), false, e)
							}
						}
					}
				}
			}
		case EvStore:
			whole(e.Term, true, e)
			if k, fresh := c.classOf(e.Term, rr); !fresh {
				publish(e.arg(0), k)
			}
		case EvLoad:
			whole(e.Term, false, e)
		case EvMapSet:
			rec(e.Term, true, e)
			if k, fresh := c.classOf(e.Term, rr); !fresh && len(e.Args) > 1 {
				publish(e.arg(1), k)
			}
		case EvMapGet:
			rec(e.Term, false, e)
		case EvCond:
			if e.Term.Op == ORangeOk {
				rec(e.Term.Args[0], false, e)
			}
		case EvGo:
			for _, a := range append([]*Term{e.Term}, e.Args...) {
				if a != nil {
					publish(a, "")
				}
			}
			if r.kind == "spawner" {
				active = true
			}
		}
	}
}

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case OField, OSel, OIndexA, ODeref, OLookup, OIndex, OConv, OSlice, OLoopMem:
			a = a.Args[0]
		default:
			return a
		}
	}
}

func mkDerefLoc(a *Term) *Term { return a }

func (c *Ctx) calleeIsModule(name string) bool { return strings.Contains(name, c.P.Module) }

// safeForSharing: library types documented as safe for concurrent use.
func safeForSharing(n *types.Named) bool {
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "log.Logger", "net/http.Transport", "net/http.Client", "net/http.Server", "golang.org/x/time/rate.Limiter", "html/template.Template", "os.File":
		return true
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// structFields visits the fields a struct location contains.
func (c *Ctx) structFields(loc *Term, t types.Type, depth int, f func(*Term)) {
	n, ok := t.(*types.Named)
	if !ok || !c.P.moduleType(n) || depth > 4 {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		sub := mkFieldAddrByName(loc, st.Field(i).Name())
		if sub == loc {
			continue
		}
		f(sub)
		c.structFields(sub, st.Field(i).Type(), depth+1, f)
	}
}
