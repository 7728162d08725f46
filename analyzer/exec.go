package main

// Path-sensitive dataflow over go/ssa. Every path through a function (with the
// module's own callees expanded at their call sites) is followed once; values
// are canonical terms, branches add facts, loops are cut at their header with
// everything they may change forgotten (one generic iteration stands for all).
// Nothing is executed and no constraint solver is involved: a branch is pruned
// only when its condition folds to a constant or is already a known fact.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvCond     EvKind = iota
	EvCall            // opaque call of a named function or interface method
	EvDyn             // call of a function value we know nothing about
	EvStore           // write through an address
	EvLoad            // read through an address
	EvMapSet          // m[k] = v / delete
	EvMapGet          // m[k]
	EvGo              // go statement
	EvLoopHead        // a generic iteration starts here
	EvLoopOut         // control left the loop
	EvEnter           // a module function was entered (inlined)
	EvLeave
	EvPanic
	EvSend
	EvRecv
	EvSelect
	EvPartial // operation that fails for some operands (only with Exec.Partials)
)

type Ev struct {
	Kind  EvKind
	Term  *Term // condition atom, call result, callee value, address, map
	Pos   bool  // polarity of a condition
	Name  string
	Args  []*Term
	Fn    *ssa.Function // callee (EvEnter/EvLeave/EvGo), nil otherwise
	In    *ssa.Function // function the instruction is in
	At    token.Pos
	Loop  *LoopInfo
	Defer bool
	Depth int
	prev  *Ev
	n     int
}

func (e *Ev) arg(i int) *Term {
	if i < len(e.Args) {
		return e.Args[i]
	}
	return tNil
}

type EndKind uint8

const (
	EndReturn EndKind = iota
	EndPanic
	EndExit
	EndBack
	EndBlock
	EndCut // leaving the region of a discovery run
)

func (e EndKind) String() string {
	return [...]string{"return", "panic", "exit", "loop iteration", "blocked", "cut"}[e]
}

// Trace is one complete path.
type Trace struct {
	Evs  []*Ev
	End  EndKind
	Ret  []*Term
	Loop *LoopInfo // EndBack
	St   *State    // final state (EndReturn)
	At   token.Pos
}

// LoopInfo is one arrival at a loop header.
type LoopInfo struct {
	Header *ssa.BasicBlock
	In     *ssa.Function
	At     token.Pos
	ID     int64
	Key    string
	Phis   map[*ssa.Phi]*Term // generic value
	Init   map[*Term]*Term    // generic value -> value on entry
	Backs  []*Back            // every path through the body back to the header
	HeadEv *Ev
	MemIn  map[*Term]*Term // generic content term -> content on entry
	Depth  int
}

type Back struct {
	Next map[*Term]*Term // generic value -> value for the next iteration
	Tr   *Trace
}

type deferred struct {
	call *ssa.CallCommon
	fnT  *Term
	args []*Term
	at   token.Pos
	in   *ssa.Function
}

type Frame struct {
	fn        *ssa.Function
	blk       *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	env       map[ssa.Value]*Term
	defers    []deferred
	res       ssa.Value // value in the caller that receives the result
	loops     []*LoopInfo
	nats      []*natLoop
	unroll    map[*ssa.BasicBlock]int
	inDefer   bool
	unwinding bool
	callAt    token.Pos
}

type mapUpd struct {
	m, k, v *Term
	barrier bool
	del     bool
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	aver   map[*Term]int64
	maps   []mapUpd
	facts  map[*Term]bool
	evs    *Ev
	occ    map[string]int64
	iter   map[*Term]int // concrete map iterators
	disc   *discovery
	base   int // facts inherited
}

type discovery struct {
	parent *discovery
	depth  int
	nat    *natLoop
	mem    map[*Term]bool
	maps   map[*Term]bool
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+4), aver: s.aver, maps: s.maps[:len(s.maps):len(s.maps)], facts: make(map[*Term]bool, len(s.facts)+4), evs: s.evs, occ: make(map[string]int64, len(s.occ)+2), iter: s.iter, disc: s.disc}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.loops = f.loops[:len(f.loops):len(f.loops)]
		g.nats = f.nats[:len(f.nats):len(f.nats)]
		if f.unroll != nil {
			g.unroll = map[*ssa.BasicBlock]int{}
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

type Exec struct {
	P        *Program
	Opaque   func(fn *ssa.Function) bool
	Partials bool // operations that can fail are events
	MaxPath  int
	MaxStep  int
	Traces   []*Trace
	steps    int
	paths    int
	Err      error
	loopSeq  map[string]int64
	loopN    int64
	Loops    []*LoopInfo
	Inlined  map[*ssa.Function]bool
	Unrolled map[*ssa.BasicBlock]bool // loops followed to their end
	NoGlobal bool
	Final    []*State
	KeepSt   bool
	// OpaqueWrites: an opaque module function may write what it gets a pointer to
	OpaqueWrites func(t types.Type) bool
	// SharedLoads: report loads of variables that existed before the run
	SharedLoads bool
	given       map[*Term]bool
}

func newExec(p *Program, opaque func(fn *ssa.Function) bool) *Exec {
	return &Exec{P: p, Opaque: opaque, MaxPath: maxPathDef, MaxStep: 6000000, Inlined: map[*ssa.Function]bool{}, Unrolled: map[*ssa.BasicBlock]bool{}, loopSeq: map[string]int64{}}
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, aver: map[*Term]int64{}, facts: map[*Term]bool{}, occ: map[string]int64{}, iter: map[*Term]int{}}
}

// param makes a symbolic input. Pointers and interfaces are taken to be non-nil
// when nonnil is set.
func param(name string, typ types.Type, nonnil bool) *Term {
	n := int64(0)
	if nonnil {
		n = 1
	}
	return mk(OParam, name, typ, nil, n)
}

func (x *Exec) fail(format string, a ...interface{}) {
	if x.Err == nil {
		x.Err = fmt.Errorf(format, a...)
	}
}

// Run explores fn from scratch (st nil) or from a state of an earlier run.
func (x *Exec) Run(fn *ssa.Function, args []*Term, bindings []*Term, st *State) []*Trace {
	if st == nil {
		st = newState()
		if x.P.Consts != nil && !x.NoGlobal {
			for k, v := range x.P.Consts.mem {
				st.mem[k] = v
			}
			st.maps = append(st.maps, x.P.Consts.maps...)
		}
	} else {
		st = st.clone()
		if x.SharedLoads {
			x.given = map[*Term]bool{}
			for a := range st.mem {
				if rt := root(a); rt.Op == OAlloc {
					x.given[rt] = true
				}
			}
		}
	}
	x.Traces = nil
	st.frames = nil
	x.push(st, fn, args, bindings, nil, token.NoPos, false)
	x.explore(st)
	return x.Traces
}

// RunTerm calls a function-valued term from a state.
func (x *Exec) RunTerm(f *Term, args []*Term, st *State) []*Trace {
	fn := isFn(f)
	if fn == nil {
		x.fail("value %s is not a known function", f)
		return nil
	}
	return x.Run(fn, args, f.Args, st)
}

func (x *Exec) explore(st *State) {
	work := []*State{st}
	for len(work) > 0 && x.Err == nil {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for x.Err == nil {
			more, done := x.step(s)
			work = append(work, more...)
			if done {
				break
			}
		}
	}
}

func (x *Exec) emit(s *State, e *Ev) *Ev {
	e.prev = s.evs
	if s.evs != nil {
		e.n = s.evs.n + 1
	}
	e.Depth = len(s.frames)
	s.evs = e
	return e
}

func (s *State) evList() []*Ev {
	if s.evs == nil {
		return nil
	}
	out := make([]*Ev, s.evs.n+1)
	for e := s.evs; e != nil; e = e.prev {
		out[e.n] = e
	}
	return out
}

func (x *Exec) finish(s *State, end EndKind, ret []*Term, at token.Pos) *Trace {
	t := &Trace{End: end, Ret: ret, St: s, At: at}
	if s.disc != nil {
		return t
	}
	x.paths++
	if x.paths > x.MaxPath {
		x.fail("more than %d paths", x.MaxPath)
	}
	t.Evs = s.evList()
	x.Traces = append(x.Traces, t)
	return t
}

func (x *Exec) push(s *State, fn *ssa.Function, args, bindings []*Term, res ssa.Value, at token.Pos, inDefer bool) {
	if x.P.irreducible(fn) {
		x.fail("%s has irreducible control flow", fnName(fn))
		return
	}
	f := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, res: res, inDefer: inDefer, callAt: at}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = param(p.Name(), p.Type(), false)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			f.env[fv] = bindings[i]
		} else {
			f.env[fv] = param("free:"+fv.Name(), fv.Type(), true)
		}
	}
	x.Inlined[fn] = true
	s.frames = append(s.frames, f)
	x.emit(s, &Ev{Kind: EvEnter, Fn: fn, In: fn, Name: fnName(fn), Args: args, At: at})
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---- values -------------------------------------------------------------------

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mk(OConst, "f:0", t, nil, 0)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk(OZero, "", t, nil, 0)
	}
	return tNil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(OConst, "f:"+c.Value.ExactString(), c.Type(), nil, 0)
		}
		return mk(OConst, "i:"+c.Value.ExactString(), types.Typ[types.Int], nil, 0)
	}
	return mk(OConst, "f:"+c.Value.ExactString(), c.Type(), nil, 0)
}

func (x *Exec) val(f *Frame, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Function:
		return mk(OFunc, fnName(c), c.Type(), c, 0)
	case *ssa.Global:
		return mk(OGlobal, c.Pkg.Pkg.Path()+"."+c.Name(), c.Type(), c, 0)
	case *ssa.Builtin:
		return mk(OBuiltin, c.Name(), c.Type(), nil, 0)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	x.fail("%s: value %s used before definition", fnName(f.fn), v.Name())
	return tNil
}

func typeOwner(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return "struct"
}

func structField(t types.Type, i int) (*types.Var, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil, false
	}
	return st.Field(i), true
}

func mkFieldAddr(base *Term, owner types.Type, i int) *Term {
	fv, _ := structField(owner, i)
	return intern(&Term{Op: OField, Name: fv.Name(), Owner: typeOwner(owner), Args: []*Term{base}, Typ: types.NewPointer(fv.Type()), N: int64(i)})
}

func mkSel(v *Term, owner types.Type, i int) *Term {
	fv, _ := structField(owner, i)
	switch v.Op {
	case OStruct:
		if i < len(v.Args) {
			return v.Args[i]
		}
	case OZero:
		return zeroOf(fv.Type())
	case ODeref:
		return mkDeref(mkFieldAddr(v.Args[0], types.NewPointer(owner), i), v.N, fv.Type())
	}
	return intern(&Term{Op: OSel, Name: fv.Name(), Owner: typeOwner(owner), Args: []*Term{v}, Typ: fv.Type(), N: int64(i)})
}

func mkDeref(a *Term, n int64, typ types.Type) *Term { return mk(ODeref, "", typ, nil, n, a) }

func mkIndexAddr(base, idx *Term, typ types.Type) *Term {
	if base.Op == OSlice {
		if _, isPtr := base.Args[0].Typ.Underlying().(*types.Pointer); isPtr {
			return mkIndexAddr(base.Args[0], mkAdd(base.Args[1], idx, 1, types.Typ[types.Int]), typ)
		}
		if base.Args[1].IsInt(0) {
			return mkIndexAddr(base.Args[0], idx, typ)
		}
	}
	return mk(OIndexA, "", typ, nil, 0, base, idx)
}

func root(a *Term) *Term {
	for a.Op == OField || a.Op == OIndexA {
		a = a.Args[0]
	}
	return a
}

func descends(a, from *Term) bool {
	for a != from {
		if a.Op != OField && a.Op != OIndexA {
			return false
		}
		a = a.Args[0]
	}
	return true
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// baseVal: the explicit value of an address, looking at enclosing objects.
func (x *Exec) baseVal(s *State, a *Term) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch a.Op {
	case OField:
		if pv := x.baseVal(s, a.Args[0]); pv != nil {
			if o := ptrElem(a.Args[0].Typ); o != nil {
				return mkSel(pv, o, int(a.N))
			}
			return intern(&Term{Op: OSel, Name: a.Name, Owner: a.Owner, Args: []*Term{pv}, Typ: ptrElem(a.Typ), N: a.N})
		}
	case OIndexA:
		b := a.Args[0]
		if b.Op == OSliceLit {
			if i, ok := a.Args[1].Int(); ok && i >= 0 && int(i) < len(b.Args) {
				return b.Args[i]
			}
			return nil
		}
		if pv := x.baseVal(s, b); pv != nil {
			if _, isArr := ptrElem(b.Typ).(interface{ Len() int64 }); isArr || (ptrElem(b.Typ) != nil && isArrayT(ptrElem(b.Typ))) {
				if pv.Op == OZero {
					return zeroOf(ptrElem(b.Typ).Underlying().(*types.Array).Elem())
				}
				if pv.Op == OStruct {
					if i, ok := a.Args[1].Int(); ok && i >= 0 && int(i) < len(pv.Args) {
						return pv.Args[i]
					}
				}
				if pv.Op == ODeref {
					return mkDeref(mkIndexAddr(pv.Args[0], a.Args[1], a.Typ), pv.N, ptrElem(a.Typ))
				}
				return mk(OIndex, "", ptrElem(a.Typ), nil, 0, pv, a.Args[1])
			}
		}
	}
	return nil
}

func isArrayT(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

func (x *Exec) arrVer(s *State, a *Term) int64 {
	var n int64
	for a.Op == OField || a.Op == OIndexA {
		if a.Op == OIndexA {
			n += s.aver[a.Args[0]]
		}
		a = a.Args[0]
	}
	return n
}

func (x *Exec) load(s *State, a *Term, typ types.Type) *Term {
	// parts overwritten since the whole was written?
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		sub := false
		for k := range s.mem {
			if k != a && (k.Op == OField || k.Op == OIndexA) && descends(k, a) {
				sub = true
				break
			}
		}
		if sub {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fa := mkFieldAddr(a, types.NewPointer(typ), i)
				fs = append(fs, x.load(s, fa, u.Field(i).Type()))
			}
			return mk(OStruct, "", typ, nil, 0, fs...)
		}
	case *types.Array:
		sub := false
		for k := range s.mem {
			if k != a && (k.Op == OField || k.Op == OIndexA) && descends(k, a) {
				sub = true
				break
			}
		}
		if sub && u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, x.load(s, mkIndexAddr(a, mkInt(i), types.NewPointer(u.Elem())), u.Elem()))
			}
			return mk(OStruct, "", typ, nil, 0, fs...)
		}
	}
	if v := x.baseVal(s, a); v != nil {
		return v
	}
	if v := normLoad(a); v != nil {
		return v
	}
	return mkDeref(a, x.arrVer(s, a), typ)
}

func (x *Exec) store(s *State, a, v *Term) {
	for d := s.disc; d != nil; d = d.parent {
		d.mem[a] = true
	}
	for k := range s.mem {
		if k != a && (k.Op == OField || k.Op == OIndexA) && descends(k, a) {
			delete(s.mem, k)
		}
	}
	// other elements of the same array may be the same element
	for b := a; b.Op == OField || b.Op == OIndexA; b = b.Args[0] {
		if b.Op != OIndexA {
			continue
		}
		bc := b.Args[1].IsConst()
		changed := false
		for k := range s.mem {
			for e := k; e.Op == OField || e.Op == OIndexA; e = e.Args[0] {
				if e.Op == OIndexA && e.Args[0] == b.Args[0] && e.Args[1] != b.Args[1] && !(bc && e.Args[1].IsConst()) {
					delete(s.mem, k)
					changed = true
					break
				}
			}
		}
		if !bc || changed {
			av := map[*Term]int64{}
			for k, n := range s.aver {
				av[k] = n
			}
			av[b.Args[0]]++
			s.aver = av
			if bv := s.mem[b.Args[0]]; bv != nil && isArrayT(ptrElem(b.Args[0].Typ)) {
				s.mem[b.Args[0]] = mk(OLoopMem, "arr", ptrElem(b.Args[0].Typ), nil, s.aver[b.Args[0]], b.Args[0])
			}
		}
	}
	s.mem[a] = v
}

func (x *Exec) havoc(s *State, a *Term, why string, n int64, extra ...*Term) {
	for d := s.disc; d != nil; d = d.parent {
		d.mem[a] = true
	}
	for k := range s.mem {
		if k == a || ((k.Op == OField || k.Op == OIndexA) && descends(k, a)) {
			delete(s.mem, k)
		}
	}
	var et types.Type
	if e := ptrElem(a.Typ); e != nil {
		et = e
	}
	s.mem[a] = mk(OLoopMem, why, et, nil, n, append([]*Term{a}, extra...)...)
}

// freeze replaces slices of local arrays by their contents, so that an event
// keeps the values that were passed.
func (x *Exec) freeze(s *State, t *Term) *Term {
	if t.Op == OSlice && t.Args[0].Op == OAlloc {
		if p := ptrElem(t.Args[0].Typ); p != nil {
			if ar, ok := p.Underlying().(*types.Array); ok {
				lo, ok1 := t.Args[1].Int()
				hi, ok2 := t.Args[2].Int()
				v := x.load(s, t.Args[0], p)
				if ok1 && ok2 && ar.Len() <= 64 && (v.Op == OStruct || v.Op == OZero) {
					var el []*Term
					for i := lo; i < hi; i++ {
						el = append(el, x.freeze(s, x.load(s, mkIndexAddr(t.Args[0], mkInt(i), types.NewPointer(ar.Elem())), ar.Elem())))
					}
					return mk(OSliceLit, "", t.Typ, nil, 0, el...)
				}
				if lo == 0 && ok1 {
					return mk(OSlice, "", t.Typ, nil, 0, v, t.Args[1], t.Args[2])
				}
			}
		}
	}
	return t
}

// ---- facts ----------------------------------------------------------------------

// known evaluates an atom against constants and recorded facts.
func (s *State) known(t *Term) (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	if t.Op == ONot {
		v, ok := s.known(t.Args[0])
		return !v, ok
	}
	return factsKnow(s.facts, t)
}

// boolPair: equality of two booleans, neither of them constant.
func boolPair(t *Term) bool {
	return t.Op == OEq && isBool(t.Args[0].Typ) && isBool(t.Args[1].Typ) && !t.Args[0].IsConst() && !t.Args[1].IsConst()
}

func knownBool(facts map[*Term]bool, t *Term) (bool, bool) {
	if t == tTrue || t == tFalse {
		return t == tTrue, true
	}
	if t.Op == ONot {
		v, ok := knownBool(facts, t.Args[0])
		return !v, ok
	}
	return factsKnow(facts, t)
}

func factsKnow(facts map[*Term]bool, t *Term) (bool, bool) {
	if v, ok := facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case OEq:
		a, c := t.Args[0], t.Args[1]
		if boolPair(t) {
			va, ka := knownBool(facts, a)
			vc, kc := knownBool(facts, c)
			if ka && kc {
				return va == vc, true
			}
		}
		if c == tNil && resultOfSuccess(facts, a) {
			return false, true
		}
		if c.IsConst() {
			for f, v := range facts {
				if v && f.Op == OEq && f.Args[0] == a && f.Args[1] != c && f.Args[1].IsConst() {
					return false, true
				}
			}
			if _, ok := c.Int(); ok {
				if lo, hi, hasLo, hasHi := bounds(facts, a); hasLo || hasHi {
					k, _ := c.Int()
					if hasLo && k < lo || hasHi && k > hi {
						return false, true
					}
					if hasLo && hasHi && lo == hi && lo == k {
						return true, true
					}
				}
			}
		}
		if a.Op == OLen && c.IsInt(0) {
			for f, v := range facts {
				if v && f.Op == OCall && len(f.Args) == 2 && f.Args[0] == a.Args[0] {
					switch f.Name {
					case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
						if st, ok := f.Args[1].Str(); ok && st != "" {
							return false, true
						}
					}
				}
			}
		}
		// x == y with x == c1 and y == c2
		if !c.IsConst() {
			ca, cb := constOf(facts, a), constOf(facts, c)
			if ca != nil && cb != nil {
				return ca == cb, true
			}
			if ca != nil {
				if v, ok := facts[mkEq(c, ca)]; ok {
					return v, true
				}
			}
			if cb != nil {
				if v, ok := facts[mkEq(a, cb)]; ok {
					return v, true
				}
			}
		}
	case OLt0:
		lo, hi, hasLo, hasHi := bounds(facts, t.Args[0])
		if hasHi && hi+t.N < 0 {
			return true, true
		}
		if hasLo && lo+t.N >= 0 {
			return false, true
		}
	case OCall:
		if len(t.Args) == 2 {
			switch t.Name {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
				if v, ok := facts[mkEq(mkLen(t.Args[0]), mkInt(0))]; ok && v {
					if st, ok := t.Args[1].Str(); ok && st != "" {
						return false, true
					}
				}
				if c := constOf(facts, t.Args[0]); c != nil {
					if a, ok := c.Str(); ok {
						if b, ok := t.Args[1].Str(); ok {
							switch t.Name {
							case "strings.HasPrefix":
								return strings.HasPrefix(a, b), true
							case "strings.HasSuffix":
								return strings.HasSuffix(a, b), true
							default:
								return strings.Contains(a, b), true
							}
						}
					}
				}
			}
		}
	}
	return false, false
}

func constOf(facts map[*Term]bool, a *Term) *Term {
	if a.IsConst() {
		return a
	}
	for f, v := range facts {
		if v && f.Op == OEq && f.Args[0] == a && f.Args[1].IsConst() {
			return f.Args[1]
		}
	}
	return nil
}

// bounds of an integer term from facts about exactly that term.
func bounds(facts map[*Term]bool, a *Term) (lo, hi int64, hasLo, hasHi bool) {
	if a.Op == OLen {
		lo, hasLo = 0, true
	}
	up := func(k int64) {
		if !hasHi || k < hi {
			hi, hasHi = k, true
		}
	}
	dn := func(k int64) {
		if !hasLo || k > lo {
			lo, hasLo = k, true
		}
	}
	var ne []int64
	for f, v := range facts {
		switch {
		case f.Op == OLt0 && f.Args[0] == a:
			if v { // a + n < 0
				up(-f.N - 1)
			} else {
				dn(-f.N)
			}
		case f.Op == OEq && f.Args[0] == a:
			if k, ok := f.Args[1].Int(); ok {
				if v {
					up(k)
					dn(k)
				} else {
					ne = append(ne, k)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, k := range ne {
			if hasLo && lo == k {
				lo++
				ch = true
			}
			if hasHi && hi == k {
				hi--
				ch = true
			}
		}
	}
	return
}

func (x *Exec) assume(s *State, t *Term, v bool, f *Frame, at token.Pos) {
	for t.Op == ONot {
		t = t.Args[0]
		v = !v
	}
	if t == tTrue || t == tFalse {
		return
	}
	s.facts[t] = v
	var in *ssa.Function
	if f != nil {
		in = f.fn
	}
	x.emit(s, &Ev{Kind: EvCond, Term: t, Pos: v, In: in, At: at})
}

// ---- maps ----------------------------------------------------------------------

type mapHit struct {
	val   *Term
	found int // 1 yes, 0 no, -1 unknown
	ver   int64
}

func (x *Exec) mapFind(s *State, m, k *Term) mapHit {
	for i := len(s.maps) - 1; i >= 0; i-- {
		u := s.maps[i]
		if u.m != m {
			continue
		}
		if u.barrier {
			return mapHit{found: -1, ver: int64(i + 1)}
		}
		if u.k == k {
			if u.del {
				return mapHit{found: 0}
			}
			return mapHit{val: u.v, found: 1}
		}
		if u.k.IsConst() && k.IsConst() {
			continue
		}
		if v, ok := s.known(mkEq(u.k, k)); ok {
			if v && !u.del {
				return mapHit{val: u.v, found: 1}
			}
			if !v {
				continue
			}
		}
		return mapHit{found: -1, ver: int64(i + 1)}
	}
	if m.Op == OMake || m == tNil {
		return mapHit{found: 0}
	}
	return mapHit{found: -1}
}

// mapEntries: complete contents of a map made on this path with constant keys.
func (x *Exec) mapEntries(s *State, m *Term) ([]mapUpd, bool) {
	if m == tNil {
		return nil, true
	}
	if m.Op != OMake {
		return nil, false
	}
	idx := map[*Term]int{}
	var out []mapUpd
	for _, u := range s.maps {
		if u.m != m {
			continue
		}
		if u.barrier || u.del || !u.k.IsConst() {
			return nil, false
		}
		if i, ok := idx[u.k]; ok {
			out[i] = u
			continue
		}
		idx[u.k] = len(out)
		out = append(out, u)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].k.Name < out[j].k.Name })
	return out, true
}

func mapElemT(t types.Type) types.Type {
	if t != nil {
		if m, ok := t.Underlying().(*types.Map); ok {
			return m.Elem()
		}
	}
	return nil
}

// ---- stepping --------------------------------------------------------------------

func (x *Exec) step(s *State) (more []*State, done bool) {
	x.steps++
	if x.steps > x.MaxStep {
		x.fail("more than %d steps", x.MaxStep)
		return nil, true
	}
	if len(s.frames) == 0 {
		return nil, true
	}
	f := s.top()
	if f.unwinding {
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			return x.runDeferred(s, f, d)
		}
		if s.disc != nil && len(s.frames) <= s.disc.depth {
			return nil, true
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			x.finish(s, EndPanic, nil, token.NoPos)
			return nil, true
		}
		s.top().unwinding = true
		return nil, false
	}
	if f.pc >= len(f.blk.Instrs) {
		x.fail("%s: fell off block", fnName(f.fn))
		return nil, true
	}
	in := f.blk.Instrs[f.pc]
	f.pc++
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		for k, p := range f.blk.Preds {
			if p == f.prev {
				f.env[i] = x.val(f, i.Edges[k])
			}
		}
		// parallel assignment of phis: handled in jump()
	case *ssa.Jump:
		return x.jump(s, f, f.blk.Succs[0])
	case *ssa.If:
		return x.branch(s, f, i)
	case *ssa.Return:
		var rs []*Term
		for _, r := range i.Results {
			rs = append(rs, x.val(f, r))
		}
		return x.ret(s, f, rs, i.Pos())
	case *ssa.Panic:
		x.emit(s, &Ev{Kind: EvPanic, Term: x.val(f, i.X), In: f.fn, At: i.Pos()})
		f.unwinding = true
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			f.pc--
			return x.runDeferred(s, f, d)
		}
	case *ssa.Defer:
		fnT, args := x.callOperands(s, f, &i.Call)
		f.defers = append(f.defers, deferred{&i.Call, fnT, args, i.Pos(), f.fn})
	case *ssa.Go:
		fnT, args := x.callOperands(s, f, &i.Call)
		var fr []*Term
		for _, a := range args {
			fr = append(fr, x.freeze(s, a))
		}
		x.emit(s, &Ev{Kind: EvGo, Term: fnT, Fn: isFn(fnT), Args: fr, In: f.fn, At: i.Pos(), Name: fnT.Name})
	case *ssa.Call:
		fnT, args := x.callOperands(s, f, &i.Call)
		return x.call(s, f, &i.Call, fnT, args, i, i.Pos(), false)
	case *ssa.Store:
		a, v := x.val(f, i.Addr), x.val(f, i.Val)
		x.partial(s, f, "deref", i.Pos(), a)
		x.emit(s, &Ev{Kind: EvStore, Term: a, Args: []*Term{v}, In: f.fn, At: i.Pos()})
		x.store(s, a, v)
	case *ssa.MapUpdate:
		m, k, v := x.val(f, i.Map), x.val(f, i.Key), x.val(f, i.Value)
		x.partial(s, f, "mapset", i.Pos(), m)
		x.emit(s, &Ev{Kind: EvMapSet, Term: m, Args: []*Term{k, v}, In: f.fn, At: i.Pos()})
		s.maps = append(s.maps, mapUpd{m: m, k: k, v: v})
		for d := s.disc; d != nil; d = d.parent {
			d.maps[m] = true
		}
	case *ssa.Send:
		x.emit(s, &Ev{Kind: EvSend, Term: x.val(f, i.Chan), Args: []*Term{x.val(f, i.X)}, In: f.fn, At: i.Pos()})
	case *ssa.Lookup:
		return x.lookup(s, f, i)
	case *ssa.Next:
		return x.next(s, f, i)
	case *ssa.Select:
		return x.selectInstr(s, f, i)
	case *ssa.TypeAssert:
		return x.typeAssert(s, f, i)
	case ssa.Value:
		f.env[i] = x.pure(s, f, i)
	default:
		x.fail("%s: instruction %T not supported", fnName(f.fn), in)
		return nil, true
	}
	return nil, x.Err != nil
}

func (x *Exec) branch(s *State, f *Frame, i *ssa.If) ([]*State, bool) {
	c := x.val(f, i.Cond)
	if v, ok := s.known(c); ok {
		if v {
			return x.jump(s, f, f.blk.Succs[0])
		}
		return x.jump(s, f, f.blk.Succs[1])
	}
	at := i.Pos()
	if !at.IsValid() {
		at = i.Cond.Pos()
	}
	if !at.IsValid() {
		at = blockPos(f.blk)
	}
	q := c
	for q.Op == ONot {
		q = q.Args[0]
	}
	if boolPair(q) {
		// decide the operands, so that the facts speak about them
		for _, a := range q.Args {
			if _, ok := s.known(a); ok {
				continue
			}
			o := s.clone()
			x.assume(o, a, false, f, at)
			x.assume(s, a, true, f, at)
			m2, d2 := x.branch(o, o.top(), i)
			if !d2 {
				m2 = append(m2, o)
			}
			m1, d1 := x.branch(s, f, i)
			return append(m2, m1...), d1
		}
	}
	o := s.clone()
	x.assume(o, c, false, f, at)
	x.assume(s, c, true, f, at)
	var more []*State
	m2, d2 := x.jump(o, o.top(), f.blk.Succs[1])
	more = append(more, m2...)
	if !d2 {
		more = append(more, o)
	}
	m1, d1 := x.jump(s, f, f.blk.Succs[0])
	more = append(more, m1...)
	return more, d1
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

// jump transfers control inside the top frame, evaluating phis and handling loops.
func (x *Exec) jump(s *State, f *Frame, to *ssa.BasicBlock) ([]*State, bool) {
	from := f.blk
	// leaving loops
	for len(f.loops) > 0 && !f.nats[len(f.nats)-1].body[to] {
		l := f.loops[len(f.loops)-1]
		f.loops = f.loops[: len(f.loops)-1 : len(f.loops)-1]
		f.nats = f.nats[: len(f.nats)-1 : len(f.nats)-1]
		x.emit(s, &Ev{Kind: EvLoopOut, Loop: l, Pos: from == l.Header, In: f.fn, At: l.At})
	}
	if s.disc != nil && len(s.frames) == s.disc.depth && !s.disc.nat.body[to] {
		return nil, true
	}
	nat := x.P.loops(f.fn).byHeader[to]
	phis := x.phiVals(f, from, to)
	if nat != nil {
		if s.disc != nil && len(s.frames) == s.disc.depth && s.disc.nat == nat {
			return nil, true // discovered one iteration
		}
		for k := len(f.loops) - 1; k >= 0; k-- {
			if f.nats[k] == nat {
				l := f.loops[k]
				b := &Back{Next: map[*Term]*Term{}}
				for p, v := range phis {
					b.Next[l.Phis[p]] = v
				}
				for g := range l.MemIn {
					a := g.Args[0]
					b.Next[g] = x.load(s, a, g.Typ)
				}
				t := x.finish(s, EndBack, nil, blockPos(from))
				t.Loop = l
				b.Tr = t
				if s.disc == nil {
					l.Backs = append(l.Backs, b)
				}
				return nil, true
			}
		}
		if f.unroll == nil {
			f.unroll = map[*ssa.BasicBlock]int{}
		}
		if !nat.body[from] { // fresh entry
			delete(f.unroll, to)
			if n := x.tripCount(s, f, nat, phis); n >= 0 {
				f.unroll[to] = n + 2
			}
		}
		if n, ok := f.unroll[to]; ok {
			if n == 0 {
				x.fail("%s: loop did not end after the computed number of iterations", fnName(f.fn))
				return nil, true
			}
			f.unroll[to] = n - 1
			x.Unrolled[to] = true
		} else {
			return x.enterLoop(s, f, nat, phis, from)
		}
	}
	for p, v := range phis {
		f.env[p] = v
	}
	f.prev = from
	f.blk = to
	f.pc = len(phis)
	return nil, false
}

func (x *Exec) phiVals(f *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]*Term {
	var phis map[*ssa.Phi]*Term
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phis == nil {
			phis = map[*ssa.Phi]*Term{}
		}
		for k, q := range to.Preds {
			if q == from {
				phis[p] = x.val(f, p.Edges[k])
				break
			}
		}
	}
	return phis
}

// enterLoop starts one generic iteration.
func (x *Exec) enterLoop(s *State, f *Frame, nat *natLoop, phis map[*ssa.Phi]*Term, from *ssa.BasicBlock) ([]*State, bool) {
	key := fnName(f.fn) + "/" + strconv.Itoa(nat.header.Index)
	occ := s.occ["loop "+key]
	s.occ["loop "+key] = occ + 1

	// what can the body change?
	mem, maps := map[*Term]bool{}, map[*Term]bool{}
	for round := 0; round < 4; round++ {
		d := s.clone()
		df := d.top()
		d.disc = &discovery{parent: nil, depth: len(d.frames), nat: nat, mem: map[*Term]bool{}, maps: map[*Term]bool{}}
		for p, v := range x.genericPhis(f, nat, phis, key, occ) {
			df.env[p] = v
		}
		x.havocSet(d, mem, maps, key, occ, nil)
		df.prev, df.blk, df.pc = from, nat.header, len(phis)
		x.explore(d)
		if x.Err != nil {
			return nil, true
		}
		grew := false
		for a := range d.disc.mem {
			if !mem[a] {
				mem[a] = true
				grew = true
			}
		}
		for a := range d.disc.maps {
			if !maps[a] {
				maps[a] = true
				grew = true
			}
		}
		if !grew {
			break
		}
		if round == 3 {
			x.fail("%s: memory written by the loop at %s does not settle", fnName(f.fn), x.P.pos(blockPos(nat.header)))
			return nil, true
		}
	}
	x.loopN++
	l := &LoopInfo{Header: nat.header, In: f.fn, At: blockPos(nat.header), ID: x.loopN, Key: key, Phis: map[*ssa.Phi]*Term{}, Init: map[*Term]*Term{}, MemIn: map[*Term]*Term{}, Depth: len(s.frames)}
	gen := x.genericPhis(f, nat, phis, key, occ)
	for p, g := range gen {
		l.Phis[p] = g
		l.Init[g] = phis[p]
	}
	x.havocSet(s, mem, maps, key, occ, l)
	for p, g := range gen {
		f.env[p] = g
	}
	l.HeadEv = x.emit(s, &Ev{Kind: EvLoopHead, Loop: l, In: f.fn, At: l.At})
	if s.disc == nil {
		x.Loops = append(x.Loops, l)
	}
	f.loops = append(f.loops, l)
	f.nats = append(f.nats, nat)
	f.prev, f.blk, f.pc = from, nat.header, len(phis)
	return nil, false
}

func (x *Exec) genericPhis(f *Frame, nat *natLoop, phis map[*ssa.Phi]*Term, key string, occ int64) map[*ssa.Phi]*Term {
	out := map[*ssa.Phi]*Term{}
	for p := range phis {
		// a phi that is never changed by the loop keeps its value
		same := true
		for k, q := range nat.header.Preds {
			if nat.body[q] && p.Edges[k] != ssa.Value(p) {
				same = false
			}
		}
		if same {
			out[p] = phis[p]
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		ref := struct {
			p   *ssa.Phi
			occ int64
		}{p, occ}
		out[p] = mk(OPhi, nm, p.Type(), ref, 0)
	}
	return out
}

func (x *Exec) havocSet(s *State, mem, maps map[*Term]bool, key string, occ int64, l *LoopInfo) {
	var as []*Term
	for a := range mem {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	for _, a := range as {
		// elements: forget the whole array
		b := a
		for c := a; c.Op == OField || c.Op == OIndexA; c = c.Args[0] {
			if c.Op == OIndexA {
				b = c.Args[0]
			}
		}
		if b != a {
			av := map[*Term]int64{}
			for k, n := range s.aver {
				av[k] = n
			}
			av[b] += 1000 + occ
			s.aver = av
			for k := range s.mem {
				if k != b && (k.Op == OField || k.Op == OIndexA) && descends(k, b) {
					delete(s.mem, k)
				}
			}
			if _, ok := s.mem[b]; ok {
				s.mem[b] = mk(OLoopMem, "L"+key, ptrElem(b.Typ), nil, occ, b)
			}
			continue
		}
		if root(a).Op == OAlloc {
			if _, ok := s.mem[root(a)]; !ok {
				continue // allocated inside the loop
			}
		}
		et := ptrElem(a.Typ)
		if et == nil {
			continue
		}
		old := x.load(s, a, et)
		for d := s.disc; d != nil; d = d.parent {
			d.mem[a] = true
		}
		for k := range s.mem {
			if k == a || ((k.Op == OField || k.Op == OIndexA) && descends(k, a)) {
				delete(s.mem, k)
			}
		}
		g := mk(OLoopMem, "L"+key, et, nil, occ, a)
		s.mem[a] = g
		if l != nil {
			l.MemIn[g] = old
			l.Init[g] = old
		}
	}
	var ms []*Term
	for m := range maps {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, m := range ms {
		s.maps = append(s.maps, mapUpd{m: m, barrier: true})
		for d := s.disc; d != nil; d = d.parent {
			d.maps[m] = true
		}
	}
}

// tripCount: the constant number of iterations of a counting loop or of a range
// over known elements when it is small, -1 otherwise.
func (x *Exec) tripCount(s *State, f *Frame, nat *natLoop, phis map[*ssa.Phi]*Term) int {
	iff, ok := nat.header.Instrs[len(nat.header.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	limit := 14
	straight := true
	for b := range nat.body {
		if b != nat.header && len(b.Succs) > 1 {
			straight = false
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if _, b := c.Call.Value.(*ssa.Builtin); !b && c.Call.StaticCallee() != nil && x.P.owns(c.Call.StaticCallee()) {
					straight = false
				}
			}
		}
	}
	if straight {
		limit = 64
	}
	if nat.body[nat.header.Succs[0]] == nat.body[nat.header.Succs[1]] {
		return -1
	}
	// range over a known map
	for _, in := range nat.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			it := x.val(f, nx.Iter)
			if ents, ok := x.mapEntries(s, it.Args[0]); ok && len(ents) <= limit {
				return len(ents)
			}
			return -1
		}
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	strip := func(v ssa.Value) (*ssa.Phi, int64) {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
					if b.Op == token.SUB {
						k = -k
					}
					if p, ok := b.X.(*ssa.Phi); ok {
						return p, k
					}
				}
			}
		}
		p, _ := v.(*ssa.Phi)
		return p, 0
	}
	p, off := strip(cond.X)
	other := cond.Y
	op := cond.Op
	if p == nil || p.Block() != nat.header {
		p, off = strip(cond.Y)
		other = cond.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if p == nil || p.Block() != nat.header || !isSignedInt(p.Type()) {
		return -1
	}
	var step int64
	for k, q := range nat.header.Preds {
		if nat.body[q] {
			pp, c := strip(p.Edges[k])
			if pp != p || c == 0 || (step != 0 && step != c) {
				return -1
			}
			step = c
		}
	}
	var ot *Term
	switch o := other.(type) {
	case *ssa.Const:
		ot = constTerm(o)
	default:
		if t, ok := f.env[other]; ok {
			if in, isI := other.(ssa.Instruction); !isI || !nat.body[in.Block()] {
				ot = t
			}
		}
		if ot == nil {
			if c, ok := other.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if _, inLoop := c.Call.Args[0].(ssa.Instruction); !inLoop || !nat.body[c.Call.Args[0].(ssa.Instruction).Block()] {
						ot = mkLen(x.freeze(s, x.val(f, c.Call.Args[0])))
					}
				}
			}
		}
	}
	if ot == nil {
		return -1
	}
	d := toLin(phis[p]).add(toLin(ot), -1)
	if len(d.c) != 0 {
		return -1
	}
	v := d.k + off
	exitOn := nat.body[nat.header.Succs[1]] // true branch leaves
	for n := 0; n <= limit; n++ {
		var c bool
		switch op {
		case token.LSS:
			c = v < 0
		case token.LEQ:
			c = v <= 0
		case token.GTR:
			c = v > 0
		case token.GEQ:
			c = v >= 0
		case token.NEQ:
			c = v != 0
		case token.EQL:
			c = v == 0
		default:
			return -1
		}
		if c == exitOn {
			return n
		}
		v += step
	}
	return -1
}

func (x *Exec) ret(s *State, f *Frame, rs []*Term, at token.Pos) ([]*State, bool) {
	if s.disc != nil && len(s.frames) <= s.disc.depth {
		return nil, true
	}
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		f.loops = f.loops[: len(f.loops)-1 : len(f.loops)-1]
		x.emit(s, &Ev{Kind: EvLoopOut, Loop: l, In: f.fn, At: at})
	}
	x.emit(s, &Ev{Kind: EvLeave, Fn: f.fn, In: f.fn, Name: fnName(f.fn), Args: rs, At: at})
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		x.finish(s, EndReturn, rs, at)
		return nil, true
	}
	if f.inDefer {
		return nil, false
	}
	if f.res != nil {
		c := s.top()
		switch len(rs) {
		case 0:
		case 1:
			c.env[f.res] = rs[0]
		default:
			c.env[f.res] = mk(OTuple, "", nil, nil, 0, rs...)
		}
	}
	return nil, false
}

func (x *Exec) runDeferred(s *State, f *Frame, d deferred) ([]*State, bool) {
	return x.call(s, f, d.call, d.fnT, d.args, nil, d.at, true)
}

// callOperands evaluates callee and arguments (receiver first).
func (x *Exec) callOperands(s *State, f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.val(f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.val(f, a))
	}
	if c.IsInvoke() {
		return mk(OBuiltin, "invoke "+c.Method.FullName(), nil, nil, 0), args
	}
	return x.val(f, c.Value), args
}

func (x *Exec) onStack(s *State, fn *ssa.Function) int {
	n := 0
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (x *Exec) call(s *State, f *Frame, c *ssa.CallCommon, fnT *Term, args []*Term, res ssa.Value, at token.Pos, isDefer bool) ([]*State, bool) {
	sig := c.Signature()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		v := x.builtin(s, f, b.Name(), args, res, at)
		if res != nil {
			f.env[res] = v
		}
		return nil, x.Err != nil
	}
	name := ""
	if c.IsInvoke() {
		name = c.Method.FullName()
		recv := args[0]
		x.partial(s, f, "invoke", at, recv, mkStr(name))
		// calling ServeHTTP of a function value calls the function
		if fn := isFn(recv); fn != nil && c.Method.Name() == "ServeHTTP" {
			return x.callFn(s, f, fn, recv, args[1:], res, at, isDefer, sig)
		}
		if recv.Op == OParam && c.Method.Name() == "ServeHTTP" && recv.Typ != nil {
			if _, ok := recv.Typ.Underlying().(*types.Signature); ok {
				return x.opaque(s, f, EvDyn, recv, "dyn", args[1:], res, at, isDefer, sig)
			}
		}
		// a receiver of known concrete type
		if t := concreteType(recv); t != nil {
			if hasMethod(t, c.Method.Pkg(), c.Method.Name()) {
				m := x.P.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
				return x.callFn(s, f, m, mk(OFunc, fnName(m), nil, m, 0), args, res, at, isDefer, sig)
			}
		}
		return x.opaque(s, f, EvCall, nil, name, args, res, at, isDefer, sig)
	}
	if fn := isFn(fnT); fn != nil {
		return x.callFn(s, f, fn, fnT, args, res, at, isDefer, sig)
	}
	x.partial(s, f, "invoke", at, fnT, mkStr("dyn"))
	return x.opaque(s, f, EvDyn, fnT, "dyn", args, res, at, isDefer, sig)
}

// concreteType: the dynamic type of an interface value whose origin is known.
func concreteType(t *Term) types.Type {
	if t.Typ == nil {
		return nil
	}
	switch t.Op {
	case OConst, OTuple:
		return nil
	}
	if _, ok := t.Typ.Underlying().(*types.Interface); ok {
		return nil
	}
	return t.Typ
}

func (x *Exec) callFn(s *State, f *Frame, fn *ssa.Function, fnT *Term, args []*Term, res ssa.Value, at token.Pos, isDefer bool, sig *types.Signature) ([]*State, bool) {
	name := fnName(fn)
	if name == "(net/http.HandlerFunc).ServeHTTP" || strings.HasPrefix(name, "(*net/http.HandlerFunc).ServeHTTP") {
		h := args[0]
		if g := isFn(h); g != nil {
			return x.callFn(s, f, g, h, args[1:], res, at, isDefer, sig)
		}
		return x.opaque(s, f, EvDyn, h, "dyn", args[1:], res, at, isDefer, sig)
	}
	if name == "(*sync.Once).Do" {
		if g := isFn(args[1]); g != nil && x.P.inlinable(g) {
			o := s.clone() // already done
			x.emit(s, &Ev{Kind: EvCall, Name: name, Args: args, Term: tNil, In: f.fn, At: at, Defer: isDefer})
			x.push(s, g, nil, args[1].Args, nil, at, true)
			return []*State{o}, x.Err != nil
		}
	}
	if x.P.inlinable(fn) && (x.Opaque == nil || !x.Opaque(fn)) && x.onStack(s, fn) < 2 && len(s.frames) < 30 {
		var b []*Term
		if fnT != nil && fnT.Op == OClosure {
			b = fnT.Args
		}
		x.push(s, fn, args, b, res, at, isDefer)
		return nil, x.Err != nil
	}
	if r := fn.Signature.Recv(); r != nil && len(args) > 0 && ptrElem(r.Type()) != nil && !x.P.inlinable(fn) {
		x.partial(s, f, "recv", at, args[0], mkStr(name))
	}
	var mark *Term
	if x.P.inlinable(fn) && x.Opaque != nil && x.Opaque(fn) {
		mark = tTrue
	}
	return x.opaque(s, f, EvCall, mark, name, args, res, at, isDefer, sig)
}

var purePrefixes = []string{"(net/http.ResponseWriter).Header", "strings.", "path.", "strconv.", "html.", "unicode.", "unicode/utf8.", "math.", "net.SplitHostPort", "net.JoinHostPort", "crypto/sha256.Sum", "crypto/sha512.Sum", "crypto/sha1.Sum", "crypto/subtle.", "crypto/hmac.Equal", "html/template.HTMLEscape", "html/template.JSEscape", "html/template.URLQuery", "bytes.Split", "bytes.Index", "bytes.Equal", "bytes.Compare", "bytes.Contains", "bytes.HasPrefix", "bytes.Cut", "bytes.Trim", "fmt.Sprint", "fmt.Errorf", "errors.New", "(*encoding/base64.Encoding).", "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone", "(*net/url.URL).", "net/url.", "(*net/http.Request).BasicAuth", "(*net/http.Request).UserAgent", "(*net/http.Request).Context", "github.com/cespare/xxhash.Sum64", "path/filepath.Ext", "path/filepath.Join", "path/filepath.Clean", "path/filepath.Base", "path/filepath.Dir", "path/filepath.FromSlash", "path/filepath.ToSlash", "mime.", "(time.Time).", "(time.Duration).", "(error).Error", "net/http.StatusText", "net/http.CanonicalHeaderKey", "net/textproto.", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String", "(*strings.Replacer).Replace", "strings.NewReplacer"}

func isPure(name string) bool {
	if strings.HasPrefix(name, "strings.NewReader") || strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Builder)") {
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// opaque records a call we do not look into.
func (x *Exec) opaque(s *State, f *Frame, kind EvKind, callee *Term, name string, args []*Term, res ssa.Value, at token.Pos, isDefer bool, sig *types.Signature) ([]*State, bool) {
	policyOpaque := kind == EvCall && callee != nil
	if policyOpaque {
		callee = nil
	}
	fr := make([]*Term, len(args))
	for i, a := range args {
		fr[i] = x.freeze(s, a)
	}
	if canon, ok := canonName[name]; ok {
		name = canon
	}
	var rt types.Type
	if n := sig.Results().Len(); n == 1 {
		rt = sig.Results().At(0).Type()
	} else if n > 1 {
		rt = sig.Results()
	}
	if kind == EvCall && strings.HasPrefix(name, "fmt.Fprint") && len(fr) > 1 {
		// formatting into a writer is writing the formatted text
		str := types.Typ[types.String]
		as := "fmt.S" + name[len("fmt.F"):]
		text := x.normCall(s, as, fr[1:], str)
		if text == nil {
			text = mk(OCall, as, str, nil, 0, fr[1:]...)
		}
		name, fr = "io.WriteString", []*Term{fr[0], text}
	}
	var r *Term
	if kind == EvCall {
		r = x.normCall(s, name, fr, rt)
	}
	if r == nil {
		nm := name
		as := fr
		if kind == EvDyn {
			nm = "dyn"
			as = append([]*Term{callee}, fr...)
		}
		if kind == EvCall && isPure(name) {
			r = mk(OCall, nm, rt, nil, 0, as...)
		} else {
			k := "call " + nm
			for _, a := range as {
				k += "," + strconv.Itoa(a.ID)
			}
			n := s.occ[k]
			s.occ[k] = n + 1
			r = mk(OCall, nm, rt, nil, n+1, as...)
		}
	}
	e := &Ev{Kind: kind, Term: callee, Name: name, Args: fr, In: f.fn, At: at, Defer: isDefer}
	if kind == EvCall {
		e.Term = r
	} else {
		e.Args = fr
	}
	x.emit(s, e)
	if res != nil {
		f.env[res] = r
	}
	if kind == EvCall && noReturn(name) {
		x.finish(s, EndExit, nil, at)
		return nil, true
	}
	if kind == EvCall && policyOpaque && x.OpaqueWrites != nil {
		var as []*Term
		for _, a := range args {
			if et := ptrElem(a.Typ); et != nil && x.OpaqueWrites(et) {
				as = append(as, a)
			}
		}
		x.callEffects(s, kind, name, as, r)
		return nil, x.Err != nil
	}
	if kind == EvCall && policyOpaque {
		return nil, x.Err != nil // a module function kept opaque by the rule: it changes nothing of ours
	}
	x.callEffects(s, kind, name, args, r)
	return nil, x.Err != nil
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "runtime.Goexit", "syscall.Exit":
		return true
	case "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return true
	}
	return false
}

// callEffects forgets local objects an opaque callee may write.
func (x *Exec) callEffects(s *State, kind EvKind, name string, args []*Term, r *Term) {
	readers := strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "fmt.Sscan") && !strings.HasPrefix(name, "fmt.Fscan") ||
		strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "encoding/json.Marshal") || strings.HasPrefix(name, "(*sync.") || isPure(name)
	for _, a := range args {
		if a.Op == OClosure {
			fn := a.Ref.(*ssa.Function)
			for i, fv := range fn.FreeVars {
				if i < len(a.Args) && a.Args[i].Op == OAlloc && writesThrough(fn, fv, map[*ssa.Function]bool{}) {
					x.havoc(s, a.Args[i], "cb:"+name, r.N, r)
				}
			}
		}
		if readers || kind == EvDyn {
			continue
		}
		if root(a).Op == OAlloc && a.Op != OSlice {
			et := ptrElem(a.Typ)
			if et == nil {
				continue
			}
			if n, ok := et.(*types.Named); ok {
				if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), x.P.Module) {
					continue // a library object: its contents are not modelled
				}
			}
			x.havoc(s, a, "out:"+name, r.N, r)
		}
	}
}

// writesThrough: fn (or what it passes the address on to) may write through v.
func writesThrough(fn *ssa.Function, v ssa.Value, seen map[*ssa.Function]bool) bool {
	return writesVia(v, map[ssa.Value]bool{})
}

func writesVia(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
			return true // the address itself is stored somewhere
		case *ssa.FieldAddr:
			if writesVia(i, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if writesVia(i, seen) {
				return true
			}
		case *ssa.MakeClosure:
			g := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && writesVia(g.FreeVars[k], seen) {
					return true
				}
			}
		case *ssa.Call:
			g := i.Call.StaticCallee()
			if g == nil || g.Blocks == nil || i.Call.Value == v {
				return true
			}
			for k, a := range i.Call.Args {
				if a == v && (k >= len(g.Params) || writesVia(g.Params[k], seen)) {
					return true
				}
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (x *Exec) builtin(s *State, f *Frame, name string, args []*Term, res ssa.Value, at token.Pos) *Term {
	var rt types.Type
	if res != nil {
		rt = res.Type()
	}
	switch name {
	case "len":
		a := x.freeze(s, args[0])
		if ents, ok := x.mapEntries(s, a); ok && a.Op == OMake {
			return mkInt(int64(len(ents)))
		}
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Map); ok {
				x.emit(s, &Ev{Kind: EvMapGet, Term: a, In: f.fn, At: at, Name: "len"})
			}
		}
		return mkLen(a)
	case "cap":
		return mk(OCap, "", rt, nil, 0, args[0])
	case "append":
		a := x.freeze(s, args[0])
		var b *Term
		if len(args) > 1 {
			b = x.freeze(s, args[1])
		} else {
			return a
		}
		x.emit(s, &Ev{Kind: EvCall, Name: "append", Args: []*Term{a, b}, Term: tNil, In: f.fn, At: at})
		if (a == tNil || a.Op == OSliceLit) && b.Op == OSliceLit {
			var el []*Term
			if a.Op == OSliceLit {
				el = append(el, a.Args...)
			}
			return mk(OSliceLit, "", rt, nil, 0, append(el, b.Args...)...)
		}
		if b == tNil || b.Op == OSliceLit && len(b.Args) == 0 {
			return a
		}
		return mk(OAppend, "", rt, nil, 0, a, b)
	case "copy":
		x.emit(s, &Ev{Kind: EvCall, Name: "copy", Args: []*Term{args[0], x.freeze(s, args[1])}, Term: tNil, In: f.fn, At: at})
		return mk(OBuiltin, "copied", rt, nil, 0, args...)
	case "delete":
		x.emit(s, &Ev{Kind: EvMapSet, Name: "delete", Term: args[0], Args: []*Term{args[1]}, In: f.fn, At: at})
		s.maps = append(s.maps, mapUpd{m: args[0], k: args[1], del: true})
		for d := s.disc; d != nil; d = d.parent {
			d.maps[args[0]] = true
		}
		return tNil
	case "close", "print", "println":
		x.emit(s, &Ev{Kind: EvCall, Name: name, Args: args, Term: tNil, In: f.fn, At: at})
		return tNil
	case "recover":
		x.emit(s, &Ev{Kind: EvCall, Name: name, Args: args, Term: tNil, In: f.fn, At: at})
		return mk(OUnknown, "recover", rt, nil, 0)
	case "ssa:wrapnilchk":
		return args[0]
	}
	return mk(OCall, "builtin."+name, rt, nil, 0, args...)
}

func (x *Exec) lookup(s *State, f *Frame, i *ssa.Lookup) ([]*State, bool) {
	m, k := x.val(f, i.X), x.val(f, i.Index)
	if isString(i.X.Type()) {
		x.partial(s, f, "index", i.Pos(), m, k, mkLen(m))
		f.env[i] = mk(OIndex, "", i.Type(), nil, 0, m, k)
		return nil, false
	}
	x.emit(s, &Ev{Kind: EvMapGet, Term: m, Args: []*Term{k}, In: f.fn, At: i.Pos()})
	et := mapElemT(i.X.Type())
	set := func(st *State, v, ok *Term) {
		if i.CommaOk {
			st.top().env[i] = mk(OTuple, "", nil, nil, 0, v, ok)
		} else {
			st.top().env[i] = v
		}
	}
	h := x.mapFind(s, m, k)
	switch h.found {
	case 1:
		set(s, h.val, tTrue)
		return nil, false
	case 0:
		set(s, zeroOf(et), tFalse)
		return nil, false
	}
	if !k.IsConst() {
		if ents, ok := x.mapEntries(s, m); ok && len(ents) <= 64 {
			var more []*State
			for _, e := range ents {
				o := s.clone()
				eq := mkEq(k, e.k)
				if v, kn := s.known(eq); kn && !v {
					continue
				}
				x.assume(o, eq, true, o.top(), i.Pos())
				set(o, e.v, tTrue)
				more = append(more, o)
			}
			for _, e := range ents {
				x.assume(s, mkEq(k, e.k), false, f, i.Pos())
			}
			set(s, zeroOf(et), tFalse)
			return more, false
		}
	}
	v := mk(OLookup, "", et, nil, h.ver, m, k)
	ok := mk(OLookOk, "", types.Typ[types.Bool], nil, h.ver, m, k)
	if kv, known := s.known(ok); known && !kv {
		v = zeroOf(et)
	}
	set(s, v, ok)
	return nil, false
}

func (x *Exec) next(s *State, f *Frame, i *ssa.Next) ([]*State, bool) {
	it := x.val(f, i.Iter)
	m := it.Args[0]
	if !i.IsString {
		if ents, ok := x.mapEntries(s, m); ok {
			if n, unrolling := f.unroll[f.blk]; unrolling {
				k := len(ents) + 1 - n
				if k < len(ents) && k >= 0 {
					f.env[i] = mk(OTuple, "", nil, nil, 0, tTrue, ents[k].k, ents[k].v)
				} else {
					f.env[i] = mk(OTuple, "", nil, nil, 0, tFalse, tNil, tNil)
				}
				return nil, false
			}
		}
	}
	tup := i.Type().(*types.Tuple)
	more := mk(ORangeOk, "", types.Typ[types.Bool], nil, it.N, m)
	var key, val *Term
	kt := tup.At(1).Type()
	if i.IsString {
		key = mk(ORangeKey, "", kt, nil, it.N, m)
		val = mk(OIndex, "rune", tup.At(2).Type(), nil, 0, m, key)
	} else {
		mt := m.Typ
		if mt != nil {
			if mp, ok := mt.Underlying().(*types.Map); ok {
				kt = mp.Key()
			}
		}
		key = mk(ORangeKey, "", kt, nil, it.N, m)
		h := x.mapFind(s, m, key)
		et := mapElemT(m.Typ)
		if et == nil {
			et = tup.At(2).Type()
		}
		val = mk(OLookup, "", et, nil, h.ver, m, key)
		if h.found == 1 {
			val = h.val
		}
	}
	x.emit(s, &Ev{Kind: EvMapGet, Term: m, Args: []*Term{key}, In: f.fn, At: i.Pos(), Name: "range"})
	f.env[i] = mk(OTuple, "", nil, nil, 0, more, key, val)
	return nil, false
}

func (x *Exec) selectInstr(s *State, f *Frame, i *ssa.Select) ([]*State, bool) {
	if len(i.States) == 0 && i.Blocking {
		x.finish(s, EndBlock, nil, i.Pos())
		return nil, true
	}
	k := "select " + f.fn.String()
	n := s.occ[k]
	s.occ[k] = n + 1
	mkTuple := func(idx int) *Term {
		parts := []*Term{mkInt(int64(idx)), mk(OUnknown, "recvok", types.Typ[types.Bool], i, n)}
		r := 0
		for j, st := range i.States {
			if st.Dir == types.RecvOnly {
				v := mk(ORecv, "", st.Chan.Type().Underlying().(*types.Chan).Elem(), nil, n, x.val(f, st.Chan))
				if j != idx {
					v = zeroOf(st.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				parts = append(parts, v)
				r++
			}
		}
		return mk(OTuple, "", nil, nil, 0, parts...)
	}
	var chans []*Term
	for _, st := range i.States {
		chans = append(chans, x.val(f, st.Chan))
	}
	x.emit(s, &Ev{Kind: EvSelect, Args: chans, Pos: i.Blocking, In: f.fn, At: i.Pos()})
	var more []*State
	lo := 0
	if !i.Blocking {
		lo = -1
	}
	for j := lo; j < len(i.States)-1; j++ {
		o := s.clone()
		o.top().env[i] = mkTuple(j)
		more = append(more, o)
	}
	f.env[i] = mkTuple(len(i.States) - 1)
	return more, false
}

func (x *Exec) typeAssert(s *State, f *Frame, i *ssa.TypeAssert) ([]*State, bool) {
	v := x.val(f, i.X)
	name := types.TypeString(i.AssertedType, nil)
	var okT *Term
	if t := concreteType(v); t != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			okT = mkBool(types.Implements(t, it))
		} else {
			okT = mkBool(types.Identical(t, i.AssertedType))
		}
	} else if v == tNil {
		okT = tFalse
	} else if t := x.foundType(s, v); t != nil && !types.IsInterface(i.AssertedType) {
		okT = mkBool(types.Identical(t, i.AssertedType))
	} else {
		okT = mk(OAssertOk, name, types.Typ[types.Bool], nil, 0, v)
	}
	var av *Term
	if concreteType(v) != nil || types.Identical(i.AssertedType, i.X.Type()) {
		av = v
	} else if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		av = v
	} else {
		av = mk(OAssert, name, i.AssertedType, nil, 0, v)
	}
	if i.CommaOk {
		if okT == tFalse {
			av = zeroOf(i.AssertedType)
		}
		f.env[i] = mk(OTuple, "", nil, nil, 0, av, okT)
		return nil, false
	}
	if okT != tTrue {
		if okT == tFalse {
			x.emit(s, &Ev{Kind: EvPanic, Term: v, Name: "type assertion", In: f.fn, At: i.Pos()})
			f.unwinding = true
			return nil, false
		}
		// unchecked assertion: may panic
		o := s.clone()
		x.assume(o, okT, false, o.top(), i.Pos())
		x.emit(o, &Ev{Kind: EvPanic, Term: v, Name: "type assertion", In: f.fn, At: i.Pos()})
		o.top().unwinding = true
		x.assume(s, okT, true, f, i.Pos())
		f.env[i] = av
		return []*State{o}, false
	}
	f.env[i] = av
	return nil, false
}

func (x *Exec) partial(s *State, f *Frame, what string, at token.Pos, args ...*Term) {
	if !x.Partials {
		return
	}
	if what == "deref" {
		switch args[0].Op {
		case OAlloc, OGlobal, OField, OIndexA:
			return
		}
	}
	if !at.IsValid() {
		at = f.fn.Pos()
	}
	x.emit(s, &Ev{Kind: EvPartial, Name: what, Args: args, In: f.fn, At: at})
}

// pure evaluates value instructions without control effects.
func (x *Exec) pure(s *State, f *Frame, v ssa.Value) *Term {
	switch i := v.(type) {
	case *ssa.Alloc:
		key := "alloc " + fnName(f.fn) + " " + i.Name()
		n := s.occ[key]
		s.occ[key] = n + 1
		nm := i.Comment
		if nm == "" {
			nm = i.Name()
		}
		a := mk(OAlloc, nm, i.Type(), i, n)
		x.store0(s, a, zeroOf(ptrElem(i.Type())))
		return a
	case *ssa.BinOp:
		if x.Partials && (i.Op == token.QUO || i.Op == token.REM) && isIntegerT(i.Type()) {
			if _, k := i.Y.(*ssa.Const); !k {
				x.partial(s, f, "div", i.Pos(), x.val(f, i.Y))
			}
		}
		return x.binop(s, i.Op, x.val(f, i.X), x.val(f, i.Y), i.X.Type(), i.Type())
	case *ssa.UnOp:
		a := x.val(f, i.X)
		switch i.Op {
		case token.MUL:
			x.partial(s, f, "deref", i.Pos(), a)
			r := x.load(s, a, i.Type())
			if rt := root(a); rt.Op != OAlloc || x.given[rt] {
				x.emit(s, &Ev{Kind: EvLoad, Term: a, Args: []*Term{r}, In: f.fn, At: i.Pos()})
			}
			return r
		case token.NOT:
			return mkNot(a)
		case token.SUB:
			if isSignedInt(i.Type()) {
				return mkAdd(mkInt(0), a, -1, i.Type())
			}
			return mk(OBin, "neg", i.Type(), nil, 0, a)
		case token.ARROW:
			k := "recv " + strconv.Itoa(a.ID)
			n := s.occ[k]
			s.occ[k] = n + 1
			x.emit(s, &Ev{Kind: EvRecv, Term: a, In: f.fn, At: i.Pos()})
			r := mk(ORecv, "", i.X.Type().Underlying().(*types.Chan).Elem(), nil, n, a)
			if i.CommaOk {
				return mk(OTuple, "", nil, nil, 0, r, mk(OUnknown, "recvok", types.Typ[types.Bool], i, n))
			}
			return r
		}
		return mk(OBin, "un"+i.Op.String(), i.Type(), nil, 0, a)
	case *ssa.ChangeType:
		return x.val(f, i.X)
	case *ssa.ChangeInterface:
		return x.val(f, i.X)
	case *ssa.MakeInterface:
		a := x.val(f, i.X)
		return a
	case *ssa.Convert:
		return x.convert(x.val(f, i.X), i.X.Type(), i.Type())
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var b []*Term
		for _, w := range i.Bindings {
			b = append(b, x.val(f, w))
		}
		return mk(OClosure, fnName(fn), i.Type(), fn, 0, b...)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		key := "make " + fnName(f.fn) + " " + v.Name()
		n := s.occ[key]
		s.occ[key] = n + 1
		var as []*Term
		switch m := i.(type) {
		case *ssa.MakeSlice:
			as = append(as, x.val(f, m.Len))
			if _, k := m.Len.(*ssa.Const); !k {
				x.partial(s, f, "makelen", i.Pos(), as[0])
			}
		case *ssa.MakeChan:
			as = append(as, x.val(f, m.Size))
		}
		return mk(OMake, v.Name(), v.Type(), v, n, as...)
	case *ssa.Range:
		a := x.val(f, i.X)
		k := "range " + strconv.Itoa(a.ID)
		n := s.occ[k]
		s.occ[k] = n + 1
		return mk(OBuiltin, "range", i.X.Type(), nil, n, a)
	case *ssa.FieldAddr:
		x.partial(s, f, "deref", i.Pos(), x.val(f, i.X))
		return mkFieldAddr(x.val(f, i.X), i.X.Type(), i.Field)
	case *ssa.Field:
		return mkSel(x.val(f, i.X), i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		base := x.val(f, i.X)
		if x.Partials {
			n := mkLen(x.freeze(s, base))
			if p := ptrElem(i.X.Type()); p != nil {
				x.partial(s, f, "deref", i.Pos(), base)
				n = mkInt(p.Underlying().(*types.Array).Len())
			}
			x.partial(s, f, "index", i.Pos(), base, x.val(f, i.Index), n)
		}
		return mkIndexAddr(base, x.val(f, i.Index), i.Type())
	case *ssa.Index:
		a, k := x.val(f, i.X), x.val(f, i.Index)
		x.partial(s, f, "index", i.Pos(), a, k, mkLen(a))
		if a.Op == OStruct {
			if n, ok := k.Int(); ok && int(n) < len(a.Args) && n >= 0 {
				return a.Args[n]
			}
		}
		return mk(OIndex, "", i.Type(), nil, 0, a, k)
	case *ssa.Slice:
		return x.slice(s, f, i)
	case *ssa.Extract:
		t := x.val(f, i.Tuple)
		if t.Op == OTuple {
			return t.Args[i.Index]
		}
		return mk(OExtract, "", i.Type(), nil, int64(i.Index), t)
	case *ssa.SliceToArrayPointer:
		return x.val(f, i.X)
	case *ssa.MultiConvert:
		return mk(OConv, types.TypeString(i.Type(), nil), i.Type(), nil, 0, x.val(f, i.X))
	}
	x.fail("%s: value %T not supported", fnName(f.fn), v)
	return tNil
}

// store0 initialises a fresh object (not a write of the program).
func (x *Exec) store0(s *State, a, v *Term) { s.mem[a] = v }

func (x *Exec) slice(s *State, f *Frame, i *ssa.Slice) *Term {
	a := x.val(f, i.X)
	lo := mkInt(0)
	if i.Low != nil {
		lo = x.val(f, i.Low)
	}
	var hi *Term
	if i.High != nil {
		hi = x.val(f, i.High)
	} else {
		hi = mkLen(x.freeze(s, a))
	}
	if x.Partials && (i.Low != nil || i.High != nil || i.Max != nil) {
		x.partial(s, f, "slice", i.Pos(), a, lo, hi, mkLen(x.freeze(s, a)))
	}
	if st, ok := a.Str(); ok {
		l, ok1 := lo.Int()
		h, ok2 := hi.Int()
		if ok1 && ok2 && l >= 0 && h <= int64(len(st)) && l <= h {
			return mkStr(st[l:h])
		}
	}
	if lo.IsInt(0) && hi == mkLen(a) && ptrElem(i.X.Type()) == nil {
		return a
	}
	if isString(i.X.Type()) || isByteSlice(i.X.Type()) {
		idx := func(h *Term) bool {
			return h.Op == OCall && h.Name == "strings.Index" && stripConv(h.Args[0]) == stripConv(a)
		}
		// x[:strings.Index(x, sep)] is what precedes the first sep
		if lo.IsInt(0) && idx(hi) {
			return mkPart("before", a, hi.Args[1])
		}
		if hi == mkLen(a) && lo.Op == OLin && len(lo.Args) == 1 && lo.Coef[0] == 1 && lo.N == 1 && idx(lo.Args[0]) {
			found, known := s.known(mkContains(stripConv(a), lo.Args[0].Args[1]))
			if st, ok := lo.Args[0].Args[1].Str(); ok && len(st) == 1 && known && found {
				return mkPart("after", a, lo.Args[0].Args[1])
			}
		}
	}
	return mk(OSlice, "", i.Type(), nil, 0, a, lo, hi)
}

func (x *Exec) binop(s *State, op token.Token, a, b *Term, opt, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b, opt)
	case token.GTR:
		return mkLt(b, a, opt)
	case token.LEQ:
		return mkNot(mkLt(b, a, opt))
	case token.GEQ:
		return mkNot(mkLt(a, b, opt))
	case token.ADD:
		if isString(rt) {
			return mkConcat(a, b)
		}
		if isSignedInt(rt) {
			return mkAdd(a, b, 1, rt)
		}
	case token.SUB:
		if isSignedInt(rt) {
			return mkAdd(a, b, -1, rt)
		}
	case token.MUL:
		if isSignedInt(rt) {
			if k, ok := a.Int(); ok {
				return lin{c: map[*Term]int64{}}.add(toLin(b), k).term(rt)
			}
			if k, ok := b.Int(); ok {
				return lin{c: map[*Term]int64{}}.add(toLin(a), k).term(rt)
			}
		}
	}
	if op == token.REM && !isSignedInt(rt) {
		// x mod 2^k of an unsigned number keeps its low bits
		if q, ok := b.Int(); ok && q > 0 && q&(q-1) == 0 {
			op, b = token.AND, mkInt(q-1)
		}
	}
	if p, ok := a.Int(); ok {
		if q, ok := b.Int(); ok {
			switch op {
			case token.AND:
				return mkInt(p & q)
			case token.OR:
				return mkInt(p | q)
			case token.ADD:
				return mkInt(p + q)
			case token.SUB:
				return mkInt(p - q)
			case token.SHL:
				return mkInt(p << uint(q))
			case token.SHR:
				return mkInt(p >> uint(q))
			case token.QUO:
				if q != 0 {
					return mkInt(p / q)
				}
			case token.REM:
				if q != 0 {
					return mkInt(p % q)
				}
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.ADD, token.MUL:
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return mk(OBin, op.String(), rt, nil, 0, a, b)
}

func isByteSlice(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte
		}
	}
	return false
}

func (x *Exec) convert(a *Term, from, to types.Type) *Term {
	switch {
	case isString(from) && isString(to):
		return a
	case isString(to) && isByteSlice(from):
		if a.Op == OConv && a.Name == "[]byte" {
			return a.Args[0]
		}
		return mk(OConv, "string", to, nil, 0, a)
	case isByteSlice(to) && isString(from):
		if a.Op == OConv && a.Name == "string" {
			return a.Args[0]
		}
		return mk(OConv, "[]byte", to, nil, 0, a)
	case isString(to):
		if v, ok := a.Int(); ok {
			return mkStr(string(rune(v)))
		}
	case isSignedInt(from) && isSignedInt(to):
		return a
	}
	if v, ok := a.Int(); ok {
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				return a
			}
			if b.Info()&types.IsFloat != 0 {
				return mk(OConst, "f:"+strconv.FormatInt(v, 10), to, nil, 0)
			}
		}
	}
	if fb, ok := from.Underlying().(*types.Basic); ok {
		if tb, ok := to.Underlying().(*types.Basic); ok && fb.Kind() == tb.Kind() {
			return a
		}
	}
	return mk(OConv, types.TypeString(to, nil), to, nil, 0, a)
}

var maxPathDef = func() int {
	if s := os.Getenv("MAXPATH"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	return 60000
}()

// resultOfSuccess: what a function of the standard library returns next to a nil error: a
// pointer that is not nil.
func resultOfSuccess(facts map[*Term]bool, a *Term) bool {
	if a.Op != OExtract || a.Typ == nil || a.Args[0].Op != OCall {
		return false
	}
	if _, ok := a.Typ.Underlying().(*types.Pointer); !ok {
		return false
	}
	call := a.Args[0]
	first := strings.TrimLeft(call.Name, "(*")
	if i := strings.IndexByte(first, '/'); i >= 0 {
		first = first[:i]
	} else if i := strings.IndexByte(first, '.'); i >= 0 {
		first = first[:i]
	}
	if first == "" || first == "dyn" || strings.Contains(first, ".") || nilResults[call.Name] {
		return false
	}
	tup, _ := call.Typ.(*types.Tuple)
	if tup == nil || tup.Len() < 2 || !isErrorT(tup.At(tup.Len()-1).Type()) {
		return false
	}
	v, ok := facts[mkEq(mk(OExtract, "", tup.At(tup.Len()-1).Type(), nil, int64(tup.Len()-1), call), tNil)]
	return ok && v
}
