package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "Termination by ranking: every natural loop of every function that can run during a request ranges over a map or string, has a linear form that the facts of every iteration bound below and show to decrease, or is a path.Dir walk from a rooted path that leaves at '/'; the call graph of these functions has no cycle", ruleC38)
}

func dbgLoops(p *Program) {
	for f := range p.requestFuncs() {
		for h := range p.loops(f).byHeader {
			fmt.Println(fnName(f), p.pos(blockPos(h)), h.Comment)
		}
	}
}

// callersOf: functions that call or mention fn directly.
func (p *Program) callersOf(fn *ssa.Function) (calls []*ssa.Function, value bool) {
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && !seen[f] {
					seen[f] = true
					calls = append(calls, f)
				}
			}
		}
	}
	return calls, p.valueUsed()[fn]
}

// callReach: functions from which one of the targets can be reached by direct calls.
func (p *Program) callReach(target *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{target: true}
	for {
		n := len(out)
		for _, f := range p.Funcs {
			if out[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && out[g] {
							out[f] = true
						}
					}
				}
			}
		}
		if len(out) == n {
			return out
		}
	}
}

func returnsString(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isString(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func ruleC38(c *Ctx) {
	req := c.P.requestFuncs()
	n := 0
	for _, fn := range c.P.Funcs {
		if !req[fn] {
			continue
		}
		c.Funcs[fnName(fn)] = true
		if c.P.irreducible(fn) {
			c.need(false, "irreducible", fn.Pos(), nil, "%s has a cycle that is not a structured loop", shortName(fnName(fn)))
			continue
		}
		for h, nat := range c.P.loops(fn).byHeader {
			n++
			c.loopEnds(fn, h, nat)
		}
		if waits(fn) {
			c.waitEnds(fn)
		}
	}
	c.atLeast(n, 8, "anchor", "loops that can run during a request")
	c.recursion(req)
}

// recursion: no function that can run during a request calls itself.
func (c *Ctx) recursion(req map[*ssa.Function]bool) {
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !req[g] {
					continue
				}
				if state[g] == 1 {
					c.need(false, "recursion", in.Pos(), nil, "%s calls %s again without a bound", shortName(fnName(f)), shortName(fnName(g)))
				} else if state[g] == 0 {
					visit(g)
				}
			}
		}
		state[f] = 2
	}
	for _, f := range c.P.Funcs {
		if req[f] && state[f] == 0 {
			visit(f)
		}
	}
}

// waits: the function has an operation that waits for a channel.
func waits(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				if i.Blocking {
					return true
				}
			}
		}
	}
	return false
}

// timed: the channel delivers by itself.
func timed(ch *Term) bool {
	return ch.contains(func(x *Term) bool {
		switch {
		case isCall(x, "time.After"), isCall(x, "time.NewTimer"), isCall(x, "time.Tick"), isCall(x, "time.NewTicker"):
			return true
		}
		return x.Op == OCall && strings.HasSuffix(x.Name, ".Done")
	})
}

// waitEnds: a request gives back what it took from a channel that others share,
// in the function that waits or in the functions that call it.
func (c *Ctx) waitEnds(fn *ssa.Function) {
	tried := map[*ssa.Function]bool{}
	var bad *Trace
	var at token.Pos
	var try func(root *ssa.Function, depth int) bool
	try = func(root *ssa.Function, depth int) bool {
		if tried[root] {
			return true
		}
		tried[root] = true
		has := map[*ssa.Function]bool{}
		for _, f := range c.P.Funcs {
			if waits(f) {
				has[f] = true
			}
		}
		ok := true
		for _, r := range c.explore(root, func(f *ssa.Function) bool { return f.Synthetic == "" && f != root && !has[f] && f.Parent() == nil }) {
			for _, t := range r.Traces {
				held := map[*Term]int{}
				for _, e := range t.Evs {
					switch e.Kind {
					case EvSend, EvRecv:
						if timed(e.Term) || e.Term.Op == OMake {
							continue
						}
						if e.Kind == EvSend {
							held[e.Term]++
						} else {
							held[e.Term]--
						}
						at = e.At
					case EvSelect:
						if !e.Pos {
							continue
						}
						free := false
						for _, ch := range e.Args {
							free = free || timed(ch)
						}
						if !free {
							c.need(false, "blocks", e.At, t, "%s can wait for ever", shortName(fnName(fn)))
						}
					}
				}
				if t.End == EndBlock {
					c.need(false, "blocks", t.At, t, "%s waits for ever", shortName(fnName(fn)))
				}
				for _, n := range held {
					if n != 0 && t.End != EndBlock {
						ok, bad = false, t
					}
				}
			}
		}
		if ok || depth >= 3 {
			return ok
		}
		calls, value := c.P.callersOf(root)
		if value || len(calls) == 0 {
			return false
		}
		good := true
		for _, g := range calls {
			good = try(g, depth+1) && good
		}
		return good
	}
	if !try(fn, 0) {
		c.need(false, "blocks", at, bad, "%s does not give back what it took from the channel it waits for: later requests wait for ever", shortName(fnName(fn)))
	}
}

// loopEnds judges one loop, in its function alone and if need be in its callers.
func (c *Ctx) loopEnds(fn *ssa.Function, h *ssa.BasicBlock, nat *natLoop) {
	at := blockPos(h)
	if rangesOver(h) {
		c.need(true, "range", at, nil, "")
		return
	}
	tried := map[*ssa.Function]bool{}
	var why string
	var bad *Trace
	var try func(root *ssa.Function, depth int) bool
	try = func(root *ssa.Function, depth int) bool {
		if tried[root] {
			return true
		}
		tried[root] = true
		reach := c.P.callReach(fn)
		seen := false
		ok := true
		opaque := func(f *ssa.Function) bool {
			return f.Synthetic == "" && f != fn && f != root && !reach[f] && !(root != fn && returnsString(f))
		}
		for _, r := range c.explore(root, opaque) {
			if r.X.Err != nil {
				return false
			}
			if r.X.Unrolled[h] {
				seen = true
			}
			for _, l := range r.X.Loops {
				if l.Header != h {
					continue
				}
				seen = true
				entry := headFacts(r.Traces, l)
				if w, t := c.ends(l, entry, root == fn && depth == 0); w != "" {
					ok, why, bad = false, w, t
				}
			}
		}
		if ok && seen {
			return true
		}
		if depth >= 4 {
			return false
		}
		calls, value := c.P.callersOf(root)
		if value || len(calls) == 0 {
			return ok && seen
		}
		good := true
		for _, g := range calls {
			good = try(g, depth+1) && good
		}
		return good
	}
	ok := try(fn, 0)
	if why == "" {
		why = "the analysis does not reach it"
	}
	if !ok {
		c.need(false, "loop-ends", at, bad, "the loop in %s is not shown to end: %s", shortName(fnName(fn)), why)
		return
	}
	c.need(true, "loop-ends", at, nil, "")
}

// rangesOver: the loop takes its next element from a map or string iterator.
func rangesOver(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func headFacts(ts []*Trace, l *LoopInfo) map[*Term]bool {
	for _, t := range ts {
		for i, e := range t.Evs {
			if e.Kind == EvLoopHead && e.Loop == l {
				return factsAt(t, i)
			}
		}
	}
	return map[*Term]bool{}
}

// ends: "" when every run of the loop is finite, else why that is not shown.
func (c *Ctx) ends(l *LoopInfo, entry map[*Term]bool, alone bool) (string, *Trace) {
	if len(l.Backs) == 0 {
		return "", nil
	}
	var bad *Trace
	for _, b := range l.Backs {
		bad = b.Tr
	}
	// walks up a path
	for g, init := range l.Init {
		if g.Op == OPhi && isString(g.Typ) && l.walksUp(g, init, entry) {
			return "", nil
		}
	}
	// reads until its input ends
	reads := true
	for _, b := range l.Backs {
		reads = reads && consumes(l, b)
	}
	if reads {
		return "", nil
	}
	// a form that is bounded below and decreases
	for _, f := range l.forms() {
		ok := true
		for _, b := range l.Backs {
			nx, known := l.next(f, b)
			if !known {
				ok = false
				break
			}
			p := newProver(allFacts(b.Tr), loopsIn(b.Tr, len(b.Tr.Evs)), nil)
			d := f.add(nx, -1)
			d.k--
			if !p.prove(f) || !p.prove(d) {
				ok = false
				break
			}
		}
		if ok {
			return "", nil
		}
	}
	return "no iteration variable is shown to approach a limit", bad
}

// consumes: the iteration got something from a reader.
func consumes(l *LoopInfo, b *Back) bool {
	facts := allFacts(b.Tr)
	for _, e := range bodyEvs(l, b) {
		if e.Kind != EvCall || e.Term == nil {
			continue
		}
		i := strings.LastIndex(e.Name, ".")
		switch m := e.Name[i+1:]; m {
		case "Scan", "Next":
			if holds(facts, e.Term) {
				return true
			}
		case "Read", "ReadString", "ReadBytes", "ReadLine", "ReadByte", "ReadRune", "ReadSlice", "Decode", "NextPart", "Token", "Readdir", "ReadDir", "Readdirnames":
			for f, v := range facts {
				if v && f.Op == OEq && f.Args[1] == tNil && f.Args[0].Op == OExtract && f.Args[0].Args[0] == e.Term {
					return true
				}
				if v && f.Op == OEq && f.Args[1] == tNil && f.Args[0] == e.Term {
					return true
				}
			}
		}
	}
	return false
}

// walksUp: the variable goes from a path to its parent until it is the root.
func (l *LoopInfo) walksUp(g, init *Term, entry map[*Term]bool) bool {
	slash, dot := mkStr("/"), mkStr(".")
	needRoot := false
	for _, b := range l.Backs {
		n := b.Next[g]
		if n == nil || n.Op != OCall || n.Name != "path.Dir" && n.Name != "path/filepath.Dir" || n.Args[0] != g {
			return false
		}
		facts := allFacts(b.Tr)
		if !refuted(facts, mkEq(g, slash)) && !refuted(facts, mkEq(n, slash)) {
			return false
		}
		if !refuted(facts, mkEq(g, dot)) && !refuted(facts, mkEq(n, dot)) {
			needRoot = true
		}
	}
	return !needRoot || rooted(init, entry)
}

// rooted: the string is known to begin with a slash.
func rooted(t *Term, facts map[*Term]bool) bool {
	return rootedIn(t, facts, map[*Term]bool{})
}

func rootedIn(t *Term, facts, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	defer delete(seen, t)
	if s, ok := t.Str(); ok {
		return strings.HasPrefix(s, "/")
	}
	for f, v := range facts {
		if v && isCall(f, "strings.HasPrefix") && f.Args[0] == t && rootedIn(f.Args[1], facts, seen) {
			return true
		}
		if v && f.Op == OEq && f.Args[0] == t && rootedIn(f.Args[1], facts, seen) {
			return true
		}
		if v && f.Op == OEq && f.Args[1] == t && rootedIn(f.Args[0], facts, seen) {
			return true
		}
	}
	switch t.Op {
	case OConcat:
		return rootedIn(t.Args[0], facts, seen)
	case OCall:
		switch t.Name {
		case "path.Dir", "path.Clean", "path/filepath.Dir", "path/filepath.Clean":
			return rootedIn(t.Args[0], facts, seen)
		case "path.Join", "path/filepath.Join":
			a := t.Args[0]
			return a.Op == OSliceLit && len(a.Args) > 0 && rootedIn(a.Args[0], facts, seen)
		}
	}
	return false
}

// forms: linear forms that the conditions of the loop compare with zero.
func (l *LoopInfo) forms() []lin {
	var out []lin
	seen := map[string]bool{}
	add := func(f lin) {
		if k := f.key(); !seen[k] && len(f.c) > 0 {
			seen[k] = true
			out = append(out, f)
		}
	}
	neg := func(f lin) lin { return lin{c: map[*Term]int64{}}.add(f, -1) }
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			if e.Kind != EvCond {
				continue
			}
			switch e.Term.Op {
			case OLt0:
				f := toLin(e.Args0())
				f.k += e.Term.N
				if e.Pos {
					f = neg(f)
					f.k--
				}
				add(f)
			case OLt:
				x, y := e.Term.Args[0], e.Term.Args[1]
				if isIntegerT(x.Typ) || isIntegerT(y.Typ) {
					f := toLin(y).add(toLin(x), -1)
					if e.Pos {
						f.k--
					} else {
						f = neg(f)
					}
					add(f)
				}
			case OEq:
				x, y := e.Term.Args[0], e.Term.Args[1]
				_, k := y.Int()
				if !e.Pos && (k || isIntegerT(x.Typ) && isIntegerT(y.Typ)) {
					f := toLin(x).add(toLin(y), -1)
					add(f)
					add(neg(f))
				}
			}
		}
	}
	for g := range l.Init {
		if g.Op == OPhi && g.Typ != nil {
			switch u := g.Typ.Underlying().(type) {
			case *types.Slice:
				add(toLin(mkLen(g)))
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					add(toLin(mkLen(g)))
				}
			}
		}
	}
	return out
}

// Args0: the linear part of an inequality.
func (e *Ev) Args0() *Term { return e.Term.Args[0] }

// next: the form as it is at the start of the following iteration.
func (l *LoopInfo) next(f lin, b *Back) (lin, bool) {
	out := lin{c: map[*Term]int64{}, k: f.k}
	for a, k := range f.c {
		if _, ok := l.Init[a]; ok {
			n := b.Next[a]
			if n == nil {
				return out, false
			}
			out = out.add(toLin(n), k)
			continue
		}
		if _, ok := l.MemIn[a]; ok {
			n := b.Next[a]
			if n == nil {
				return out, false
			}
			out = out.add(toLin(n), k)
			continue
		}
		if a.Op == OLen {
			if _, ok := l.Init[a.Args[0]]; ok && b.Next[a.Args[0]] != nil {
				out = out.add(toLin(mkLen(b.Next[a.Args[0]])), k)
				continue
			}
		}
		if l.varies(a) {
			return out, false
		}
		out.c[a] += k
		if out.c[a] == 0 {
			delete(out.c, a)
		}
	}
	return out, true
}

// varies: the term may have another value in another iteration.
func (l *LoopInfo) varies(a *Term) bool {
	made, given := map[*Term]bool{}, map[*Term]bool{}
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			if e.Kind == EvMapSet {
				given[e.Term] = true
			}
			if (e.Kind == EvCall || e.Kind == EvDyn) && e.Term != nil && !isPure(e.Name) {
				made[e.Term] = true
				for _, x := range e.Args {
					given[x] = true
				}
			}
			if e.Kind == EvDyn {
				for _, x := range e.Args {
					made[x] = true
				}
			}
		}
	}
	return a.contains(func(x *Term) bool {
		if _, ok := l.Init[x]; ok {
			return true
		}
		if _, ok := l.MemIn[x]; ok {
			return true
		}
		if x.Op == ODeref && x.N >= 1000 || x.Op == ORecv || x.Op == OUnknown {
			return true
		}
		if (x.Op == OLookup || x.Op == ODeref) && given[x.Args[0]] {
			return true
		}
		return made[x] && x.Op == OCall
	})
}

var _ = token.NoPos
