package main

import (
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "Ring-scan coverage: path-sensitive value numbering of the three cache operations with their helpers expanded. A frontier (the next older slot) is carried along each path and as a loop invariant; every reported hit, miss, update and append is checked against it, with slot positions compared modulo the ring size and counts proved from sums of branch facts", ruleC33)
	register("C34", "Bounds-check elimination over every index and shard dereference of the cache package, from branch facts, loop invariants and the inductive invariant 0 <= cursor <= ring size that every store to the cursor has to re-establish", ruleC34)
}

// ring is the representation of the cache, found by the types of its fields.
type ring struct {
	c          *Ctx
	cache      types.Type // the exported cache
	shards     string     // its table
	m          int64
	ptrs       bool // the table holds pointers
	shard      types.Type
	items      string
	n          int64
	cursor     string
	item       *types.Struct
	itemT      types.Type
	val        string
	words      []string // the two integer fields of an item
	keyF, modF string
	key, age   *Term
	value      *Term
	runs       map[string][]*Trace
	fns        []*ssa.Function
	stores     map[token.Pos]bool
	phiRange   map[*Term][]lin
	top        int64 // highest value of a cursor
}

func arrayOf(t types.Type) (types.Type, int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return nil, 0, false
	}
	return a.Elem(), a.Len(), true
}

func structT(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// cacheRing finds the representation and runs the operations on it.
func (c *Ctx) cacheRing() *ring {
	r := &ring{c: c, runs: map[string][]*Trace{}, stores: map[token.Pos]bool{}, phiRange: map[*Term][]lin{}}
	r.cache = c.P.named("cache", "SpearCache")
	cs := structT(r.cache)
	if cs == nil {
		c.need(false, "anchor", token.NoPos, nil, "cache.SpearCache is not a struct type")
		return nil
	}
	for i := 0; i < cs.NumFields(); i++ {
		e, n, ok := arrayOf(cs.Field(i).Type())
		if !ok {
			continue
		}
		s := e
		p := ptrElem(e)
		if p != nil {
			s = p
		}
		ss := structT(s)
		if ss == nil {
			continue
		}
		r.shards, r.m, r.ptrs, r.shard = cs.Field(i).Name(), n, p != nil, s
		for k := 0; k < ss.NumFields(); k++ {
			ft := ss.Field(k).Type()
			if ie, in, ok := arrayOf(ft); ok && structT(ie) != nil {
				r.items, r.n, r.item, r.itemT = ss.Field(k).Name(), in, structT(ie), ie
			} else if isSignedInt(ft) {
				r.cursor = ss.Field(k).Name()
			}
		}
	}
	if r.item != nil {
		for k := 0; k < r.item.NumFields(); k++ {
			f := r.item.Field(k)
			if types.IsInterface(f.Type()) {
				r.val = f.Name()
			} else if isIntegerT(f.Type()) {
				r.words = append(r.words, f.Name())
			}
		}
	}
	if r.items == "" || r.cursor == "" || r.val == "" || len(r.words) != 2 || r.n < 2 {
		c.need(false, "anchor", token.NoPos, nil, "the ring of cache.SpearCache (a table of shards, each an array of items with a hash, a time and a value, and a cursor) was not recognised")
		return nil
	}
	str := types.Typ[types.String]
	recv := param("c", types.NewPointer(r.cache), true)
	r.key = param("key", str, false)
	r.age = param("maxAge", types.Typ[types.Uint64], false)
	r.value = param("value", types.NewInterfaceType(nil, nil), false)
	used := c.P.valueUsed()
	for _, fn := range c.P.Funcs {
		if c.P.relOf(fn) != "cache" || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if o := fn.Object(); o == nil || !o.Exported() && !used[fn] {
			continue
		}
		var args []*Term
		for i, q := range fn.Params {
			switch {
			case i == 0 && fn.Signature.Recv() != nil && types.Identical(q.Type(), recv.Typ):
				args = append(args, recv)
			case isString(q.Type()):
				args = append(args, r.key)
			case types.IsInterface(q.Type()):
				args = append(args, param("value", q.Type(), false))
				r.value = args[len(args)-1]
			case isIntegerT(q.Type()):
				args = append(args, param("maxAge", q.Type(), false))
				r.age = args[len(args)-1]
			default:
				_, p := q.Type().Underlying().(*types.Pointer)
				args = append(args, param(q.Name(), q.Type(), p))
			}
		}
		x := newExec(c.P, nil)
		x.Partials, x.SharedLoads = true, true
		ts := c.run(x, fn, args, nil, nil)
		if ts == nil {
			return nil
		}
		name := fn.Name()
		if fn.Signature.Recv() == nil {
			name = "func " + name
		}
		r.runs[name] = ts
		r.fns = append(r.fns, fn)
		for _, t := range ts {
			for _, e := range t.Evs {
				if e.Kind == EvStore {
					r.stores[e.At] = true
				}
			}
		}
	}
	// the cursor is always below the ring size, or may have reached it
	for _, r.top = range []int64{r.n - 1, r.n} {
		ok := true
		for _, ts := range r.runs {
			for _, t := range ts {
				if ok && !r.prover(t, len(t.Evs)).impossible() {
					r.cursorStores(t, func(i int, e *Ev, in bool) { ok = ok && in })
				}
			}
		}
		r.phiRange = map[*Term][]lin{}
		if ok {
			break
		}
	}
	// paths whose facts contradict the cursor's range cannot happen
	for n, ts := range r.runs {
		drop := map[*Trace]bool{}
		for _, t := range ts {
			if r.prover(t, len(t.Evs)).impossible() {
				drop[t] = true
			}
		}
		var keep []*Trace
		for _, t := range ts {
			for _, l := range loopsOf(t) {
				var bs []*Back
				for _, b := range l.Backs {
					if !drop[b.Tr] {
						bs = append(bs, b)
					}
				}
				l.Backs = bs
			}
			if !drop[t] {
				keep = append(keep, t)
			}
		}
		r.runs[n] = keep
	}
	return r
}

func (r *ring) owns(a *Term, typ types.Type, field string) bool {
	return a.Op == OField && a.Name == field && a.Owner == typeOwner(typ)
}

// isCursor: the address is a cursor; the shard it belongs to.
func (r *ring) isCursor(a *Term) (*Term, bool) {
	if r.owns(a, r.shard, r.cursor) {
		return a.Args[0], true
	}
	return nil, false
}

// slotAddr splits the address of (a field of) an item.
func (r *ring) slotAddr(a *Term) (shard, idx *Term, field string, ok bool) {
	if a.Op == OField && a.Owner == typeOwner(r.itemT) && a.Args[0].Op == OIndexA {
		field = a.Name
		a = a.Args[0]
	}
	if a.Op == OIndexA && r.owns(a.Args[0], r.shard, r.items) {
		return a.Args[0].Args[0], a.Args[1], field, true
	}
	return nil, nil, "", false
}

// slotVal: the value is a field of an item as it was at some version.
func (r *ring) slotVal(v *Term, field string) (shard, idx *Term, ver int64, ok bool) {
	if v == nil || v.Op != ODeref {
		return nil, nil, 0, false
	}
	s, i, f, ok := r.slotAddr(v.Args[0])
	if !ok || f != field {
		return nil, nil, 0, false
	}
	return s, i, v.N, true
}

// shardLoad: the pointer is an entry of the table.
func (r *ring) shardLoad(p *Term) bool {
	return r.ptrs && (p.Op == ODeref || p.Op == OLoopMem) && len(p.Args) > 0 && p.Args[0].Op == OIndexA && r.owns(p.Args[0].Args[0], r.cache, r.shards)
}

func rangeLin(a *Term, lo, hi int64) []lin {
	one := lin{c: map[*Term]int64{a: 1}}
	return []lin{one.add(lin{k: lo}, -1), lin{c: map[*Term]int64{}, k: hi}.add(one, -1)}
}

func (r *ring) given(a *Term) []lin {
	if (a.Op == ODeref || a.Op == OLoopMem) && len(a.Args) > 0 {
		if _, ok := r.isCursor(a.Args[0]); ok {
			return rangeLin(a, 0, r.top)
		}
	}
	return r.phiRange[a]
}

// prover for the facts of a path before event i.
func (r *ring) prover(t *Trace, i int) *bprover {
	ls := loopsIn(t, i)
	for _, l := range ls {
		r.invariants(t, l)
	}
	return newProver(factsAt(t, i), ls, r.given)
}

// invariants finds constant bounds of loop variables that hold on entry and are
// kept by every iteration.
func (r *ring) invariants(t *Trace, l *LoopInfo) {
	head := 0
	for i, e := range t.Evs {
		if e.Kind == EvLoopHead && e.Loop == l {
			head = i
		}
	}
	for g, init := range l.Init {
		if g.Op != OPhi || !isSignedInt(g.Typ) || init == nil {
			continue
		}
		if _, done := r.phiRange[g]; done {
			continue
		}
		r.phiRange[g] = nil
		var got []lin
		one := lin{c: map[*Term]int64{g: 1}}
		var cands []lin
		for _, k := range []int64{1, 0, -1} { // g >= k
			cands = append(cands, one.add(lin{k: k}, -1))
		}
		for _, k := range []int64{r.n - 1, r.n, r.n + 1} { // g <= k
			cands = append(cands, lin{c: map[*Term]int64{}, k: k}.add(one, -1))
		}
		for _, cand := range cands {
			at := func(v *Term) lin {
				f := cand.c[g]
				return lin{c: map[*Term]int64{}, k: cand.k}.add(toLin(v), f)
			}
			if !newProver(factsAt(t, head), loopsIn(t, head), r.given).prove(at(init)) {
				continue
			}
			r.phiRange[g] = append(got[:len(got):len(got)], cand)
			ok := true
			for _, b := range l.Backs {
				if b.Next[g] == nil || !newProver(allFacts(b.Tr), loopsIn(b.Tr, len(b.Tr.Evs)), r.given).prove(at(b.Next[g])) {
					ok = false
					break
				}
			}
			if ok {
				got = append(got, cand)
			}
		}
		r.phiRange[g] = got
	}
}

// modForm: the linear form of an index, reductions modulo the ring size undone.
func (r *ring) modForm(t *Term) lin {
	out := lin{c: map[*Term]int64{}}
	l := toLin(t)
	out.k = l.k
	for a, c := range l.c {
		if in := r.reduced(a); in != nil {
			out = out.add(r.modForm(in), c)
			continue
		}
		out = out.add(lin{c: map[*Term]int64{a: 1}}, c)
	}
	return out
}

func (r *ring) reduced(a *Term) *Term {
	if a.Op == OBin && len(a.Args) == 2 {
		k, ok := a.Args[1].Int()
		if ok && a.Name == "%" && k == r.n {
			return a.Args[0]
		}
		if a.Name == "&" && bits.OnesCount64(uint64(r.n)) == 1 {
			if ok && k == r.n-1 {
				return a.Args[0]
			}
			if k0, ok0 := a.Args[0].Int(); ok0 && k0 == r.n-1 {
				return a.Args[1]
			}
		}
	}
	return nil
}

// same: the two positions are the same slot.
func (r *ring) same(p *bprover, a, b lin) bool {
	d := a.add(b, -1)
	for x, c := range d.c {
		if c%r.n == 0 {
			delete(d.c, x)
		}
	}
	if len(d.c) == 0 {
		return d.k%r.n == 0
	}
	for k := int64(-2); k <= 2; k++ {
		e := d
		e.k -= k * r.n
		if p.prove(e) && p.prove(lin{c: map[*Term]int64{}}.add(e, -1)) {
			return true
		}
	}
	return false
}

// ---- C34 --------------------------------------------------------------------------

func ruleC34(c *Ctx) {
	r := c.cacheRing()
	if r == nil {
		return
	}
	filled := !r.ptrs || r.constructors()
	idx := 0
	for name, ts := range r.runs {
		for _, t := range ts {
			for i, e := range t.Evs {
				if e.Kind != EvPartial || e.In == nil || c.P.relOf(e.In) != "cache" {
					continue
				}
				switch e.Name {
				case "index":
					idx++
					p := r.prover(t, i)
					k, n := toLin(e.arg(1)), toLin(e.arg(2))
					c.need(p.prove(k), "index-low", e.At, t, "%s: the index %s is not shown to be at least 0", name, e.arg(1))
					c.need(p.prove(n.add(k, -1).add(lin{k: 1}, -1)), "index-high", e.At, t, "%s: the index %s is not shown to be below %s", name, e.arg(1), e.arg(2))
				case "slice":
					p := r.prover(t, i)
					lo, hi := e.arg(1), e.arg(2)
					c.need(p.nonneg(lo) && p.le(lo, hi, 0) && p.le(hi, e.arg(3), 0), "slice", e.At, t, "%s: the slice bounds %s:%s are not shown to be within %s", name, lo, hi, e.arg(3))
				case "deref":
					b := e.arg(0)
					if b.Op == OParam {
						continue
					}
					if r.shardLoad(b) {
						ok := filled || refuted(factsAt(t, i), mkEq(b, tNil))
						c.need(ok, "nil-shard", e.At, t, "%s uses a shard that may not have been created", name)
						continue
					}
					c.need(refuted(factsAt(t, i), mkEq(b, tNil)), "nil-pointer", e.At, t, "%s: the pointer %s may be nil", name, b)
				}
			}
			if t.End == EndPanic {
				c.need(false, "panic", t.At, t, "%s can panic", name)
			}
			r.cursorKept(name, t)
		}
	}
	c.atLeast(idx, 8, "anchor", "indexing operations in the cache")
	r.storesSeen("C34")
	for _, n := range []string{"Get", "Set", "Find", "func NewCache"} {
		c.need(len(r.runs[n]) > 0, "anchor", token.NoPos, nil, "cache operation %s not found", strings.TrimPrefix(n, "func "))
	}
}

// cursorStores: the cursors a path leaves behind when it releases a shard or ends.
func (r *ring) cursorStores(t *Trace, f func(i int, e *Ev, in bool)) {
	last := map[*Term]*Ev{}
	check := func(i int) {
		for a, e := range last {
			v := toLin(e.Args[0])
			p := r.prover(t, i)
			f(i, e, p.prove(v) && p.prove(lin{c: map[*Term]int64{}, k: r.top}.add(v, -1)))
			delete(last, a)
		}
	}
	for i, e := range t.Evs {
		switch e.Kind {
		case EvStore:
			if _, ok := r.isCursor(e.Term); ok {
				last[e.Term] = e
			}
		case EvCall:
			if strings.HasSuffix(e.Name, "Mutex).Unlock") {
				check(i)
			}
		}
	}
	check(len(t.Evs))
}

// cursorKept: when the shard is released the cursor is between 0 and the ring size.
func (r *ring) cursorKept(name string, t *Trace) {
	r.cursorStores(t, func(i int, e *Ev, in bool) {
		r.c.need(in, "cursor", e.At, t, "%s leaves the cursor of a shard at %s, which is not shown to be between 0 and %d", name, e.Args[0], r.top)
	})
	for _, e := range t.Evs {
		if e.Kind == EvStore {
			if pt := ptrElem(e.Term.Typ); pt != nil && types.Identical(pt, r.shard) {
				r.c.need(e.Args[0].Op == OZero, "cursor", e.At, t, "%s overwrites a whole shard", name)
			}
		}
	}
}

// constructors: every cache is created with every shard in place, and no shard is
// taken away.
func (r *ring) constructors() bool {
	made := map[ssa.Instruction]bool{}
	good := true
	for _, ts := range r.runs {
		for _, t := range ts {
			for _, e := range t.Evs {
				if e.Kind != EvStore || e.Term.Op != OIndexA || !r.owns(e.Term.Args[0], r.cache, r.shards) {
					continue
				}
				if e.Args[0].Op != OAlloc {
					good = false
				}
			}
			if t.End != EndReturn {
				continue
			}
			for _, v := range t.Ret {
				if v.Op != OAlloc || !types.Identical(v.Typ, types.NewPointer(r.cache)) {
					continue
				}
				if in, ok := v.Ref.(ssa.Instruction); ok && r.fills(t, v) {
					made[in] = true
				}
			}
		}
	}
	for _, fn := range r.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && holdsType(ptrElem(al.Type()), r.cache, 0) {
					if !made[in] {
						good = false
					}
				}
			}
		}
	}
	return good
}

// holdsType: a value of type t contains one of type want (not through pointers).
func holdsType(t, want types.Type, d int) bool {
	if t == nil || d > 6 {
		return false
	}
	if types.Identical(t, want) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsType(u.Field(i).Type(), want, d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsType(u.Elem(), want, d+1)
	}
	return false
}

// fills: the path stores a new shard at every place of the cache's table.
func (r *ring) fills(t *Trace, v *Term) bool {
	for i, e := range t.Evs {
		if e.Kind != EvLoopOut || !e.Pos || len(e.Loop.Backs) == 0 {
			continue
		}
		l := e.Loop
		for g, init := range l.Init {
			st := l.counterStep(g)
			if g.Op != OPhi || st != 1 && st != -1 {
				continue
			}
			var off *lin
			ok := true
			for _, b := range l.Backs {
				hit := false
				for _, s := range bodyEvs(l, b) {
					if s.Kind == EvStore && s.Term.Op == OIndexA && r.owns(s.Term.Args[0], r.cache, r.shards) && s.Term.Args[0].Args[0] == v && s.Args[0].Op == OAlloc {
						d := toLin(s.Term.Args[1]).add(toLin(g), -1)
						if len(d.c) == 0 && (off == nil || off.k == d.k) {
							off = &d
							hit = true
						}
					}
				}
				ok = ok && hit
			}
			if !ok || off == nil {
				continue
			}
			first := toLin(init).add(*off, 1)
			after := toLin(g).add(*off, 1)
			after.k -= r.m
			k := i + 1
			for k < len(t.Evs) && t.Evs[k].Kind == EvCond {
				k++
			}
			if st < 0 {
				first.k = r.m - 1 - first.k
				after = lin{c: map[*Term]int64{}, k: -1}.add(toLin(g), -1).add(*off, -1)
			}
			if len(first.c) == 0 && first.k == 0 && r.prover(t, k).prove(after) {
				return true
			}
		}
	}
	return false
}

// storesSeen: every write to the cache's memory was on an analysed path.
func (r *ring) storesSeen(rule string) {
	inside := func(t types.Type) bool {
		return t != nil && (types.Identical(t, r.cache) || types.Identical(t, r.shard) || types.Identical(t, r.itemT))
	}
	for _, fn := range r.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				in := inside(ptrElem(a.Type()))
				for !in {
					if f, ok := a.(*ssa.FieldAddr); ok {
						in = inside(ptrElem(f.X.Type()))
						a = f.X
					} else if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				if in && st.Pos().IsValid() {
					r.c.need(r.stores[st.Pos()], "writes", st.Pos(), nil, "%s writes to the cache's memory, on no path of the cache's operations", shortName(fnName(fn)))
				}
			}
		}
	}
}

// ---- C33 --------------------------------------------------------------------------

// frontier is how far a path has looked back into the ring.
type frontier struct {
	pos   lin   // the next slot to look at (newest not yet seen)
	count []lin // lower bounds of the number of slots seen
	ok    bool
	why   string
}

func ruleC33(c *Ctx) {
	r := c.cacheRing()
	if r == nil {
		return
	}
	for _, n := range []string{"Get", "Set", "Find"} {
		if len(r.runs[n]) == 0 {
			c.need(false, "anchor", token.NoPos, nil, "cache operation %s not found", n)
			return
		}
	}
	if !r.roles() {
		return
	}
	var shard, hash *Term
	for _, n := range []string{"Set", "Get", "Find"} {
		for _, t := range r.runs[n] {
			s, h := r.shardAndHash(t)
			if s == nil {
				continue
			}
			if shard == nil {
				shard, hash = s, h
			}
			c.need(s == shard, "same-shard", t.At, t, "%s looks in another shard (%s) than Set stores in (%s)", n, s, shard)
			if h != nil {
				c.need(h == hash, "same-hash", t.At, t, "%s uses %s as the identity of a key, not %s", n, h, hash)
			}
		}
	}
	if shard == nil || hash == nil {
		c.need(false, "anchor", token.NoPos, nil, "the hash and the shard of a key were not recognised")
		return
	}
	full := false
	if hash.Op == OCall {
		for _, a := range hash.Args {
			full = full || stripConv(a) == r.key
		}
	}
	c.need(full, "whole-key", token.NoPos, nil, "the identity of an entry, %s, is not a hash of its whole key", hash)
	hits, misses, sets := 0, 0, 0
	for _, n := range []string{"Get", "Find"} {
		for _, t := range r.runs[n] {
			if t.End != EndReturn {
				continue
			}
			f := allFacts(t)
			found := t.Ret[0]
			switch {
			case holds(f, found):
				hits++
				r.hit(n, t, shard, hash)
			case refuted(f, found):
				misses++
				r.miss(n, t, shard, hash)
			default:
				c.need(false, "undecided", t.At, t, "%s reports a result that is neither a known hit nor a known miss", n)
			}
		}
	}
	for _, t := range r.runs["Set"] {
		if t.End == EndReturn {
			sets++
			r.set(t, shard, hash)
		}
	}
	c.atLeast(hits, 2, "anchor", "paths that report a hit")
	c.atLeast(misses, 2, "anchor", "paths that report a miss")
	c.atLeast(sets, 2, "anchor", "paths that store a value")
	// nothing else writes to the ring
	for n, ts := range r.runs {
		if n == "Get" || n == "Set" || n == "Find" {
			continue
		}
		for _, t := range ts {
			for _, e := range t.Evs {
				if e.Kind != EvStore {
					continue
				}
				_, _, _, ok := r.slotAddr(e.Term)
				_, cur := r.isCursor(e.Term)
				if (ok || cur) && root(e.Term).Op != OAlloc {
					c.need(false, "writes", e.At, t, "%s changes the ring", strings.TrimPrefix(n, "func "))
				}
			}
		}
	}
	r.storesSeen("C33")
}

// roles: which integer of an item is the hash and which the time, by what Set stores.
func (r *ring) roles() bool {
	for _, t := range r.runs["Set"] {
		for _, e := range t.Evs {
			if e.Kind != EvStore {
				continue
			}
			_, _, f, ok := r.slotAddr(e.Term)
			if !ok {
				continue
			}
			set := func(f string, v *Term) {
				if f != r.words[0] && f != r.words[1] {
					return
				}
				if r.isClock(v) {
					r.modF = f
				}
			}
			if f != "" {
				set(f, e.Args[0])
			} else {
				for _, w := range r.words {
					set(w, r.selOf(e.Args[0], w))
				}
			}
		}
	}
	for _, w := range r.words {
		if w != r.modF {
			r.keyF = w
		}
	}
	return r.c.need(r.modF != "" && r.keyF != "", "anchor", token.NoPos, nil, "Set does not record the time at which it stores a value")
}

func (r *ring) selOf(v *Term, f string) *Term {
	for i := 0; i < r.item.NumFields(); i++ {
		if r.item.Field(i).Name() == f {
			return mkSel(v, r.itemT, i)
		}
	}
	return tNil
}

func unconv(t *Term) *Term {
	for t.Op == OConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// isClock: the current time in nano seconds.
func (r *ring) isClock(v *Term) bool {
	v = unconv(v)
	return isCall(v, "(time.Time).UnixNano") && isCall(v.Args[0], "time.Now")
}

// shardAndHash: the shard a path works on and what it compares slot keys with.
func (r *ring) shardAndHash(t *Trace) (shard, hash *Term) {
	for _, e := range t.Evs {
		switch e.Kind {
		case EvCond:
			if e.Term.Op == OEq {
				for k := 0; k < 2; k++ {
					if s, _, _, ok := r.slotVal(e.Term.Args[k], r.keyF); ok {
						shard = s
						if o := e.Term.Args[1-k]; !o.IsInt(0) {
							hash = o
						}
					}
				}
			}
		case EvStore:
			s, _, f, ok := r.slotAddr(e.Term)
			if ok && root(e.Term).Op != OAlloc {
				shard = s
				v := e.Args[0]
				if f == "" {
					v = r.selOf(v, r.keyF)
				}
				if f == "" || f == r.keyF {
					if _, _, _, isKey := r.slotVal(v, r.keyF); !isKey {
						hash = v
					}
				}
			}
		}
	}
	return
}

// probe: the event compares a slot's key; eq is whether it is the wanted one.
func (r *ring) probe(e *Ev, shard, hash *Term) (idx *Term, ver int64, eq, ok bool) {
	if e.Kind != EvCond || e.Term.Op != OEq {
		return
	}
	for k := 0; k < 2; k++ {
		s, i, v, is := r.slotVal(e.Term.Args[k], r.keyF)
		if !is || s != shard {
			continue
		}
		o := e.Term.Args[1-k]
		if o == hash {
			return i, v, e.Pos, true
		}
		if o.IsInt(0) && e.Pos {
			return i, v, false, true
		}
	}
	return
}

// blank: the slot whose key was just compared turns out to be unused.
func (r *ring) blank(t *Trace, i int, e *Ev) bool {
	for _, a := range e.Term.Args {
		if _, _, _, ok := r.slotVal(a, r.keyF); ok {
			for _, g := range t.Evs[i:] {
				if g.Kind == EvCond && g.Pos && g.Term == mkEq(a, mkInt(0)) {
					return true
				}
			}
		}
	}
	return false
}

// walk carries the frontier along events [from,to) of a path. It stops at the first
// slot that has the key and reports it.
func (r *ring) walk(t *Trace, from, to int, fr *frontier, shard, hash *Term) (hit *Term, ver int64, at int) {
	for i := from; i < to; i++ {
		e := t.Evs[i]
		switch e.Kind {
		case EvLoopHead:
			if !r.enterLoop(t, i, e.Loop, fr, shard, hash) {
				return nil, 0, -1
			}
		case EvCond:
			idx, v, eq, ok := r.probe(e, shard, hash)
			if !ok {
				continue
			}
			p := r.prover(t, i+1)
			here := r.same(p, r.modForm(idx), fr.pos)
			if eq && r.blank(t, i, e) {
				eq = false // an unused slot
			}
			if eq {
				if !here {
					fr.ok = false
					fr.why = "slot " + idx.String() + " has the key, but newer slots were not looked at"
				}
				return idx, v, i
			}
			if here {
				fr.pos = fr.pos.add(lin{k: 1}, -1)
				for k := range fr.count {
					fr.count[k].k++
				}
			}
		case EvStore:
			if s, _, _, ok := r.slotAddr(e.Term); ok && s == shard {
				return nil, 0, i
			}
			if s, ok := r.isCursor(e.Term); ok && s == shard {
				return nil, 0, i
			}
		}
	}
	return nil, 0, to
}

// enterLoop turns the frontier into a loop invariant: a position that moves with a
// loop variable, and is moved by every iteration exactly as far as it looks.
func (r *ring) enterLoop(t *Trace, head int, l *LoopInfo, fr *frontier, shard, hash *Term) bool {
	scans := false
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			if _, _, _, ok := r.probe(e, shard, hash); ok {
				scans = true
			}
		}
	}
	if !scans {
		return true
	}
	for g, init := range l.Init {
		if g.Op != OPhi || init == nil || !isSignedInt(g.Typ) {
			continue
		}
		for _, a := range []int64{1, -1} {
			// pos = a*g + b with b = pos(entry) - a*init
			off := fr.pos.add(toLin(init), -a)
			at := func(v *Term) lin { return off.add(toLin(v), a) }
			ok := true
			for _, b := range l.Backs {
				n := b.Next[g]
				if n == nil {
					ok = false
					break
				}
				hi := -1
				for i, e := range b.Tr.Evs {
					if e.Kind == EvLoopHead && e.Loop == l {
						hi = i
					}
				}
				f2 := &frontier{pos: at(g), ok: true, count: []lin{{c: map[*Term]int64{}}}}
				h, _, end := r.walk(b.Tr, hi+1, len(b.Tr.Evs), f2, shard, hash)
				if h != nil || end != len(b.Tr.Evs) {
					ok = false
					break
				}
				p := r.prover(b.Tr, len(b.Tr.Evs))
				if len(f2.count[0].c) != 0 || f2.count[0].k != 1 || !r.same(p, f2.pos, at(n)) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			fr.pos = at(g)
			var cs []lin
			for q, qi := range l.Init {
				if q.Op != OPhi || qi == nil {
					continue
				}
				st := l.counterStep(q)
				if st != 1 && st != -1 {
					continue
				}
				for _, c0 := range fr.count {
					cs = append(cs, c0.add(toLin(q), st).add(toLin(qi), -st))
				}
			}
			fr.count = cs
			return true
		}
	}
	fr.ok = false
	fr.why = "the scan does not step from each slot to the next older one"
	return false
}

// look follows a path from its start: the newest slot is the one before the cursor.
func (r *ring) look(t *Trace, shard, hash *Term) (fr *frontier, hit *Term, ver int64, at int) {
	cur := r.cursorOf(shard)
	fr = &frontier{pos: toLin(cur).add(lin{k: 1}, -1), ok: true, count: []lin{{c: map[*Term]int64{}}}}
	hit, ver, at = r.walk(t, 0, len(t.Evs), fr, shard, hash)
	return
}

func (r *ring) cursorOf(shard *Term) *Term {
	s := structT(r.shard)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == r.cursor {
			return mkDeref(mkFieldAddr(shard, types.NewPointer(r.shard), i), 0, s.Field(i).Type())
		}
	}
	return tNil
}

// expired: +1 the slot's entry is older than the maximum age, -1 it is not.
func (r *ring) expired(t *Trace, shard, idx *Term, ver int64) int {
	out := 0
	facts := allFacts(t)
	for f, v := range facts {
		var a, b *Term
		switch f.Op {
		case OLt:
			a, b = f.Args[0], f.Args[1]
		default:
			continue
		}
		// a < b: maxAge < now - mod
		d := r.flat(b).add(r.flat(a), -1)
		kind := 0
		var clock, mod *Term
		if len(d.c) == 3 && d.k == 0 {
			for x, k := range d.c {
				s, i, n, isMod := r.slotVal(x, r.modF)
				switch {
				case k == 1 && r.isClock(x):
					kind |= 1
					clock = x
				case k == -1 && isMod && s == shard && i == idx && n == ver:
					kind |= 2
					mod = x
				case k == -1 && unconv(x) == r.age:
					kind |= 4
				}
			}
		}
		if kind == 7 {
			r.readLocked(t, clock, mod, shard)
			if v {
				out = 1
			} else {
				out = -1
			}
		}
	}
	return out
}

// readLocked: the time an entry is compared with was read with the shard locked. An
// entry stored by somebody else while the lookup waited for the lock is newer than a
// time read before, and the unsigned difference is then enormous. A path that has
// compared the two times is not in danger.
func (r *ring) readLocked(t *Trace, clock, mod, shard *Term) {
	for f := range allFacts(t) {
		if f.Op == OLt && (unconv(f.Args[0]) == unconv(clock) && unconv(f.Args[1]) == unconv(mod) || unconv(f.Args[0]) == unconv(mod) && unconv(f.Args[1]) == unconv(clock)) {
			return
		}
	}
	now := unconv(clock).Args[0]
	held := 0
	for _, e := range t.Evs {
		if e.Kind != EvCall {
			continue
		}
		if e.Term == now {
			r.c.need(held > 0, "clock-locked", e.At, t, "the time an entry's age is taken from is read before the shard is locked: an entry stored while the lookup waits is newer, and the difference underflows")
			return
		}
		if len(e.Args) == 0 || !e.Args[0].contains(func(x *Term) bool { return x == shard }) {
			continue
		}
		switch e.Name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			held++
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			held--
		}
	}
}

// flat: sums and differences of unsigned numbers taken apart.
func (r *ring) flat(t *Term) lin {
	if t.Op == OBin && len(t.Args) == 2 && (t.Name == "-" || t.Name == "+") {
		s := int64(1)
		if t.Name == "-" {
			s = -1
		}
		return r.flat(t.Args[0]).add(r.flat(t.Args[1]), s)
	}
	if t.Op == OConv && len(t.Args) == 1 {
		return r.flat(t.Args[0])
	}
	if t.Op == OLin {
		out := lin{c: map[*Term]int64{}, k: t.N}
		for i, a := range t.Args {
			out = out.add(r.flat(a), t.Coef[i])
		}
		return out
	}
	return toLin(t)
}

func (r *ring) hit(name string, t *Trace, shard, hash *Term) {
	c := r.c
	fr, idx, ver, at := r.look(t, shard, hash)
	if !c.need(idx != nil, "hit-matches", t.At, t, "%s reports a hit without having found a slot with the hash of the key%s", name, why(fr)) {
		return
	}
	ev := t.Evs[at]
	c.need(fr.ok, "newest-first", ev.At, t, "%s: %s", name, fr.why)
	s, i, n, ok := r.slotVal(t.Ret[1], r.val)
	c.need(ok && s == shard && i == idx && n == ver, "hit-value", t.At, t, "%s returns %s, not the value of the slot that matched (%s)", name, t.Ret[1], idx)
	r.locked(name, t, shard)
	if name == "Get" {
		c.need(r.expired(t, shard, idx, ver) < 0, "not-expired", t.At, t, "Get returns an entry without having found it no older than the maximum age")
	} else if len(t.Ret) > 2 {
		d := r.flat(t.Ret[2])
		good := len(d.c) == 2 && d.k == 0
		var clock, mod *Term
		for x, k := range d.c {
			s, i, n, isMod := r.slotVal(x, r.modF)
			switch {
			case k == 1 && r.isClock(x):
				clock = x
			case k == -1 && isMod && s == shard && i == idx && n == ver:
				mod = x
			default:
				good = false
			}
		}
		if good && clock != nil && mod != nil {
			r.readLocked(t, clock, mod, shard)
		}
		c.need(good, "age", t.At, t, "Find reports %s as the age of the entry it found", t.Ret[2])
	}
	// the entry becomes the newest one again
	r.appended(name, t, shard, hash, func(v *Term) bool {
		s, i, n, ok := r.slotVal(v, r.val)
		return ok && s == shard && i == idx && n == ver
	}, idx)
}

func why(fr *frontier) string {
	if fr.why != "" {
		return ": " + fr.why
	}
	return ""
}

func (r *ring) miss(name string, t *Trace, shard, hash *Term) {
	c := r.c
	for i := 1; i < len(t.Ret); i++ {
		c.need(t.Ret[i] == tNil || t.Ret[i].IsInt(0), "miss-value", t.At, t, "%s reports a miss together with %s", name, t.Ret[i])
	}
	for _, e := range t.Evs {
		if e.Kind == EvStore && root(e.Term).Op != OAlloc {
			c.need(false, "miss-writes", e.At, t, "%s changes the cache on a miss", name)
		}
		if e.Kind == EvCond && e.Pos && e.Term == mkEq(shard, tNil) {
			return // the shard does not exist
		}
	}
	fr, idx, ver, at := r.look(t, shard, hash)
	if idx != nil {
		c.need(fr.ok, "newest-first", t.Evs[at].At, t, "%s: %s", name, fr.why)
		c.need(name == "Get" && r.expired(t, shard, idx, ver) > 0, "miss-unexpired", t.At, t, "%s reports a miss although slot %s has the key and was not found expired", name, idx)
		return
	}
	if !c.need(fr.ok, "scan", t.At, t, "%s: %s", name, fr.why) {
		return
	}
	p := r.prover(t, len(t.Evs))
	all := false
	for _, n := range fr.count {
		g := n
		g.k -= r.n
		all = all || p.prove(g)
	}
	c.need(all, "miss-complete", t.At, t, "%s reports a miss without having looked at all %d slots", name, r.n)
}

// locked: every slot is read and written with the shard locked.
func (r *ring) locked(name string, t *Trace, shard *Term) {
	held := 0
	for _, e := range t.Evs {
		switch e.Kind {
		case EvCall:
			if len(e.Args) == 0 || !e.Args[0].contains(func(x *Term) bool { return x == shard }) {
				continue
			}
			switch e.Name {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				held++
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				held--
			}
		case EvLoad, EvStore:
			s, _, _, ok := r.slotAddr(e.Term)
			_, cur := r.isCursor(e.Term)
			if ok && s == shard || cur && e.Term.Args[0] == shard {
				r.c.need(held > 0, "locked", e.At, t, "%s uses the ring of a shard it has not locked", name)
			}
		}
	}
}

// slotWrites collects what a path leaves in the slots it writes.
type slotWrite struct {
	idx  *Term
	vals map[string]*Term
	at   token.Pos
}

func (r *ring) slotWrites(t *Trace, shard *Term) (ws []*slotWrite, cursor *Term, cat token.Pos) {
	by := map[*Term]*slotWrite{}
	for _, e := range t.Evs {
		if e.Kind != EvStore {
			continue
		}
		if s, ok := r.isCursor(e.Term); ok && s == shard {
			cursor, cat = e.Args[0], e.At
			continue
		}
		s, i, f, ok := r.slotAddr(e.Term)
		if !ok || s != shard {
			continue
		}
		w := by[i]
		if w == nil {
			w = &slotWrite{idx: i, vals: map[string]*Term{}}
			by[i] = w
			ws = append(ws, w)
		}
		w.at = e.At
		if f != "" {
			w.vals[f] = e.Args[0]
			continue
		}
		for k := 0; k < r.item.NumFields(); k++ {
			w.vals[r.item.Field(k).Name()] = mkSel(e.Args[0], r.itemT, k)
		}
	}
	return
}

// appended: the path adds one entry at the cursor and moves the cursor past it.
func (r *ring) appended(name string, t *Trace, shard, hash *Term, isVal func(*Term) bool, hit *Term) {
	c := r.c
	ws, cur, cat := r.slotWrites(t, shard)
	if !c.need(len(ws) == 1, "one-write", t.At, t, "%s writes %d slots of the ring where it should add one entry", name, len(ws)) {
		return
	}
	w := ws[0]
	p := r.prover(t, len(t.Evs))
	c0 := toLin(r.cursorOf(shard))
	c.need(r.same(p, r.modForm(w.idx), c0), "append-slot", w.at, t, "%s adds an entry in slot %s, which is not the one at the cursor", name, w.idx)
	if cur == nil {
		c.need(false, "append-cursor", w.at, t, "%s adds an entry without moving the cursor past it", name)
	} else {
		c.need(r.same(p, r.modForm(cur), c0.add(lin{k: 1}, 1)), "append-cursor", cat, t, "%s leaves the cursor at %s instead of one past the entry it added", name, cur)
	}
	k := w.vals[r.keyF]
	keyOK := k == hash
	if s, i, _, ok := r.slotVal(k, r.keyF); ok && s == shard && i == hit && hit != nil {
		keyOK = true // the key of the slot that was found to be this key
	}
	c.need(keyOK, "append-key", w.at, t, "%s stores an entry under %s instead of the hash of the key", name, k)
	c.need(w.vals[r.val] != nil && isVal(w.vals[r.val]), "append-value", w.at, t, "%s stores %s as the value of the entry", name, w.vals[r.val])
	c.need(w.vals[r.modF] != nil && r.isClock(w.vals[r.modF]), "append-time", w.at, t, "%s does not store the current time with the entry", name)
}

func (r *ring) set(t *Trace, shard, hash *Term) {
	c := r.c
	r.locked("Set", t, shard)
	ws, cur, _ := r.slotWrites(t, shard)
	if cur != nil || len(ws) != 1 {
		r.appended("Set", t, shard, hash, func(v *Term) bool { return v == r.value }, nil)
		return
	}
	w := ws[0]
	fr, idx, _, at := r.look(t, shard, hash)
	if !c.need(idx != nil && w.idx == idx, "update-slot", w.at, t, "Set changes slot %s, which it has not found to hold the key", w.idx) {
		return
	}
	c.need(fr.ok, "newest-first", t.Evs[at].At, t, "Set: %s", fr.why)
	c.need(w.vals[r.val] == r.value, "update-value", w.at, t, "Set does not store the value it was given")
	c.need(w.vals[r.modF] != nil && r.isClock(w.vals[r.modF]), "update-time", w.at, t, "Set does not record the current time with the value")
	if k := w.vals[r.keyF]; k != nil {
		c.need(k == hash, "update-key", w.at, t, "Set stores %s as the key of the slot", k)
	}
}
