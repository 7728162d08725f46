package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "Critical-section accounting: on every path of every concurrent entry point the updates of the metrics record inside one hold of its lock are summed up as increments; nilness of every table that is written", ruleC31)
	register("C32", "Typestate of the temporary metrics file (created, written, synced, closed, each result checked, renamed) on every path; whole-program scan for other ways to touch the saved file; must-happen analysis of the periodic and the final save", ruleC32)
}

// holds of locks along a path: for every event the locks held there, with the event
// that took them.
type hold struct {
	addr *Term
	at   int
}

func holdsOf(t *Trace) [][]hold {
	out := make([][]hold, len(t.Evs)+1)
	var cur []hold
	for i, e := range t.Evs {
		if e.Kind == EvCall {
			if op, ok := lockOp(e.Name); ok {
				a := lockAddr(e.arg(0))
				switch op {
				case "Lock", "RLock":
					cur = append(cur[:len(cur):len(cur)], hold{a, i})
				case "Unlock", "RUnlock":
					for j, h := range cur {
						if h.addr == a {
							cur = append(append([]hold{}, cur[:j]...), cur[j+1:]...)
							break
						}
					}
				}
			}
		}
		out[i] = cur
	}
	out[len(t.Evs)] = cur
	return out
}

// metField: the location is a field of a shared metrics record.
func (m *metricsSchema) field(loc *Term) string {
	if loc == nil || loc.Op != OField || loc.Owner != typeOwner(m.T) {
		return ""
	}
	return loc.Name
}

// paths: the term is the Paths table of a metrics record; its record.
func (m *metricsSchema) pathsOf(t *Term) (rec *Term, ok bool) {
	if t.Op == ODeref && m.field(t.Args[0]) == "Paths" {
		return t.Args[0].Args[0], true
	}
	return nil, false
}

func (m *metricsSchema) fieldOf(t *Term, name string) (rec *Term, ok bool) {
	if t.Op == ODeref && m.field(t.Args[0]) == name {
		return t.Args[0].Args[0], true
	}
	if t.Op == OSel && t.Name == name && t.Owner == typeOwner(m.T) {
		return t.Args[0], true
	}
	return nil, false
}

// update is what one hold of the lock does to the record.
type update struct {
	start        int
	total        []*Ev
	inner        []*Ev
	outer        []*Ev
	paths        []*Ev
	flags        []*Ev
	incTotal     int
	first        *Ev
	innerFresh   map[*Term]*Term // new table -> status
	setTotal     *Ev
	pathsValue   *Term
	inLoop       bool
	outsideOfAny bool
}

func (u *update) any() bool {
	return len(u.total)+len(u.inner)+len(u.outer)+len(u.paths)+len(u.flags) > 0
}

func ruleC31(c *Ctx) {
	met := c.metricsSchema()
	if met == nil {
		c.need(false, "anchor", token.NoPos, nil, "the metrics record (TotalRequests, Paths) was not found")
		return
	}
	type mtrace struct {
		t *Trace
		x *Exec
		r lockRoot
	}
	var all []mtrace
	li := c.lockInfo(false)
	for _, r := range li.roots {
		if !li.matter[r.fn] {
			continue
		}
		for _, run := range c.explore(r.fn, li.opaque(r.fn)) {
			for _, t := range run.Traces {
				all = append(all, mtrace{t, run.X, r})
			}
		}
	}
	private := func(a *Term) bool { return root(a).Op == OAlloc }
	// writes of the record on a path, with what they change
	kind := func(t *Trace, e *Ev, fresh map[*Term]*Term) string {
		switch e.Kind {
		case EvStore:
			if private(e.Term) {
				return ""
			}
			if f := met.field(e.Term); f != "" {
				switch {
				case f == "TotalRequests", f == "Paths":
					return f
				case met.bools[f]:
					return "flag"
				}
			}
			if et := ptrElem(e.Term.Typ); et != nil {
				if p := ptrElem(et); p != nil {
					et = p
				}
				if types.Identical(et, met.T) {
					return "whole"
				}
			}
		case EvMapSet:
			m := e.Term
			if _, ok := met.pathsOf(m); ok && !private(m.Args[0]) {
				return "outer"
			}
			if m.Op == OLookup {
				if _, ok := met.pathsOf(m.Args[0]); ok {
					return "inner"
				}
			}
			if _, ok := fresh[m]; ok {
				return "inner"
			}
		}
		return ""
	}
	// the lock the record is under
	common := map[string]int{}
	n := 0
	seen := map[token.Pos]bool{}
	tables := func(t *Trace) map[*Term]*Term {
		fresh := map[*Term]*Term{}
		for _, e := range t.Evs {
			if e.Kind == EvMapSet {
				if _, ok := met.pathsOf(e.Term); ok && len(e.Args) > 1 {
					fresh[e.arg(1)] = e.arg(0)
				}
			}
			if e.Kind == EvStore && met.field(e.Term) == "Paths" && e.arg(0).Op == OMake {
				fresh[e.arg(0)] = nil
			}
		}
		return fresh
	}
	for _, m := range all {
		fresh := tables(m.t)
		hs := [][]hold(nil)
		for i, e := range m.t.Evs {
			if kind(m.t, e, fresh) == "" {
				continue
			}
			if hs == nil {
				hs = holdsOf(m.t)
			}
			seen[e.At] = true
			n++
			for _, h := range hs[i] {
				common[lockClass(h.addr)]++
			}
		}
	}
	guard := ""
	for k, m := range common {
		if m == n {
			if guard == "" || k < guard {
				guard = k
			}
		}
	}
	c.atLeast(n, 4, "coverage", "writes of the metrics record")
	if !c.need(guard != "" || n == 0, "critical-section", token.NoPos, nil, "the writes of the metrics record have no lock in common") {
		return
	}
	counts, loads := 0, 0
	for _, m := range all {
		t := m.t
		fresh := tables(t)
		hs := holdsOf(t)
		secs := map[int]*update{}
		var order []*update
		section := func(i int) *update {
			for _, h := range hs[i] {
				if lockClass(h.addr) == guard {
					u := secs[h.at]
					if u == nil {
						u = &update{start: h.at}
						secs[h.at] = u
						order = append(order, u)
					}
					return u
				}
			}
			return nil
		}
		for i, e := range t.Evs {
			k := kind(t, e, fresh)
			if k == "" {
				continue
			}
			u := section(i)
			if u == nil {
				continue // reported above
			}
			if u.first == nil {
				u.first = e
			}
			for j := u.start; j < i; j++ {
				if t.Evs[j].Kind == EvLoopHead {
					u.inLoop = true
				}
			}
			facts := factsAt(t, i)
			switch k {
			case "TotalRequests":
				u.total = append(u.total, e)
				d := toLin(e.arg(0)).add(toLin(mkDeref(e.Term, 0, ptrElem(e.Term.Typ))), -1)
				old := false
				for j := u.start; j < i; j++ {
					if t.Evs[j].Kind == EvLoad && t.Evs[j].Term == e.Term {
						old = true
					}
				}
				if len(d.c) == 0 && d.k != 0 {
					c.need(d.k == 1, "one-each", e.At, t, "the total changes by %d", d.k)
					c.need(old, "critical-section", e.At, t, "the total is read in another critical section than it is written in")
					u.incTotal++
				} else {
					u.setTotal = e
				}
			case "Paths":
				u.paths = append(u.paths, e)
				u.pathsValue = e.arg(0)
			case "flag":
				u.flags = append(u.flags, e)
			case "whole":
				c.need(false, "undecided", e.At, t, "the metrics record is replaced as a whole")
			case "outer":
				u.outer = append(u.outer, e)
				key, val := e.arg(0), e.arg(1)
				if e.Name == "delete" {
					c.need(false, "counters-kept", e.At, t, "counters are removed while the total stays")
					continue
				}
				if !met.tableThere(e.Term, facts, u) {
					c.need(false, "table-exists", e.At, t, "a table is added to the counters although counting may not have been set up")
				}
				c.need(val.Op == OMake, "counters-kept", e.At, t, "the counters of a status are replaced by %s", clip(val.String()))
				old := mk(OLookup, "", mapElem(e.Term.Typ), nil, 0, e.Term, key)
				gone := false
				for f, v := range facts {
					switch f.Op {
					case OLookOk:
						gone = gone || !v && f.Args[0] == e.Term && f.Args[1] == key
					case OEq:
						gone = gone || v && (f.Args[0] == tNil && f.Args[1] == old || f.Args[1] == tNil && f.Args[0] == old)
					}
				}
				c.need(gone, "counters-kept", e.At, t, "the counters of a status are replaced although there may be some already")
				c.need(met.condIn(t, u.start, i, e.Term, key), "critical-section", e.At, t, "whether there are counters of a status is read in another critical section than they are added in")
			case "inner":
				u.inner = append(u.inner, e)
				if e.Name == "delete" {
					c.need(false, "counters-kept", e.At, t, "a counter is removed while the total stays")
					continue
				}
				tab, key, val := e.Term, e.arg(0), e.arg(1)
				there := tab.Op == OMake || refuted(facts, mkEq(tab, tNil))
				c.need(there, "table-exists", e.At, t, "a counter is written to %s, which may be nil", clip(tab.String()))
				c.need(met.plusOne(tab, key, val, facts), "one-each", e.At, t, "the counter of a path becomes %s instead of one more", clip(val.String()))
				if tab.Op != OMake {
					c.need(met.condIn(t, u.start, i, tab, key), "critical-section", e.At, t, "a counter is read in another critical section than it is written in")
				}
			}
		}
		for _, u := range order {
			at := token.NoPos
			if u.first != nil {
				at = u.first.At
			}
			if u.inLoop && (len(u.inner) > 0 || len(u.total) > 0) {
				c.need(false, "one-each", at, t, "counters are written in a loop")
				continue
			}
			open := t.End == EndPanic
			if v := u.pathsValue; v != nil {
				ok := v.Op == OMake || nonNil(v) || refuted(allFacts(t), mkEq(v, tNil))
				c.need(ok, "table-exists", at, t, "the table of counters becomes %s, which may be nil", clip(v.String()))
			}
			switch {
			case u.setTotal != nil && u.pathsValue == nil:
				c.need(false, "counters-kept", u.setTotal.At, t, "the total becomes %s while the counters stay", clip(u.setTotal.arg(0).String()))
			case len(u.paths) > 0:
				loads++
				c.need(len(u.inner) == 0 && u.incTotal == 0, "one-each", at, t, "counters are set and counted in one step")
				if u.setTotal != nil {
					v := u.setTotal.arg(0)
					rec, ok := met.fieldOf(v, "TotalRequests")
					c.need(ok || v.IsInt(0), "from-saved", u.setTotal.At, t, "the total becomes %s", clip(v.String()))
					if ok {
						c.need(u.pathsValue != nil && (u.pathsValue.Op == OMake || sameRec(met, u.pathsValue, rec)), "from-saved", u.setTotal.At, t, "the total is taken from saved metrics without their counters")
					}
				} else if rec, ok := met.fieldOf(u.pathsValue, "Paths"); ok {
					c.need(rec == nil, "from-saved", at, t, "the counters are taken from saved metrics without their total")
				} else {
					c.need(u.pathsValue.Op == OMake, "from-saved", at, t, "the counters become %s", clip(u.pathsValue.String()))
				}
			case len(u.inner) > 0 || u.incTotal > 0 || len(u.outer) > 0:
				if !open {
					counts++
				}
				c.need(u.incTotal == 1 && len(u.inner) == 1, "one-each", at, t, "one critical section adds %d to the total and counts %d paths", u.incTotal, len(u.inner))
				c.need(len(u.flags) == 0, "one-each", at, t, "counting switches counting on or off")
			}
			// counting is switched on only with a table to count in
			for _, e := range u.flags {
				v := e.arg(0)
				c.need(v == tFalse || len(u.paths) > 0, "table-exists", e.At, t, "counting is switched on in %s without a table of counters", shortName(fnName(m.r.fn)))
			}
		}
	}
	c.atLeast(counts, 2, "coverage", "paths that count a request")
	c.atLeast(loads, 2, "coverage", "paths that set up the counters")
	// every other write of the record in the program
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				set := map[string]bool{}
				switch x := in.(type) {
				case *ssa.Store:
					if _, isAlloc := rootAlloc(x.Addr); isAlloc {
						if al, _ := rootAlloc(x.Addr); !al.Heap || !li.conc[fn] {
							c.initialOnly(met, x)
							continue
						}
					}
					c.P.chain(x.Addr, set, false, 0)
				case *ssa.MapUpdate:
					c.P.chain(x.Map, set, true, 0)
				default:
					continue
				}
				hit := ""
				pre := c.P.structClass(met.T, 0)
				pre = pre[:strings.LastIndexByte(pre, '.')+1]
				for k := range set {
					if strings.HasPrefix(k, pre) {
						hit = k
					}
				}
				if hit == "" || seen[in.Pos()] {
					continue
				}
				if al := recordOf(in); al != nil && li.conc[fn] {
					continue // a record of its own, decoded from the saved file
				}
				if st, ok := in.(*ssa.Store); ok && !li.conc[fn] && c.initialOnly(met, st) {
					continue
				}
				c.need(false, "covered", in.Pos(), nil, "%s in %s is written on no path the analysis followed", hit, shortName(fnName(fn)))
			}
		}
	}
}

// recordOf: the local variable the instruction writes to.
func recordOf(in ssa.Instruction) *ssa.Alloc {
	switch x := in.(type) {
	case *ssa.Store:
		a, _ := rootAlloc(x.Addr)
		return a
	case *ssa.MapUpdate:
		v := x.Map
		if u, ok := v.(*ssa.UnOp); ok {
			a, _ := rootAlloc(u.X)
			return a
		}
	}
	return nil
}

// initialOnly: a constructor may leave the record with an empty table.
func (c *Ctx) initialOnly(met *metricsSchema, st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || c.P.structClass(fa.X.Type(), fa.Field) == "" {
		return true
	}
	pt := ptrElem(fa.X.Type())
	if pt == nil || !types.Identical(pt, met.T) {
		return true
	}
	name := pt.Underlying().(*types.Struct).Field(fa.Field).Name()
	_, isMake := st.Val.(*ssa.MakeMap)
	k, isC := st.Val.(*ssa.Const)
	switch {
	case name == "Paths":
		return isMake || isC
	case met.bools[name]:
		return isC && k.Value != nil && k.Value.String() == "false"
	case name == "TotalRequests":
		return isC && k.Int64() == 0
	}
	return true
}

func sameRec(met *metricsSchema, paths, rec *Term) bool {
	r, ok := met.fieldOf(paths, "Paths")
	return ok && r == rec
}

// condIn: what the map held was read since the lock was taken.
func (met *metricsSchema) condIn(t *Trace, from, to int, m, key *Term) bool {
	for j := from; j < to; j++ {
		e := t.Evs[j]
		if e.Kind == EvMapGet && e.Term == m && e.arg(0) == key {
			return true
		}
	}
	return false
}

// tableThere: the table of counters is known to exist.
func (met *metricsSchema) tableThere(m *Term, facts map[*Term]bool, u *update) bool {
	if m.Op == OMake || refuted(facts, mkEq(m, tNil)) {
		return true
	}
	rec, ok := met.pathsOf(m)
	if !ok {
		return false
	}
	for f, v := range facts {
		if v && f.Op == ODeref && met.bools[met.field(f.Args[0])] && f.Args[0].Args[0] == rec {
			return true
		}
	}
	return false
}

// plusOne: val is one more than the map holds under the key.
func (met *metricsSchema) plusOne(m, key, val *Term, facts map[*Term]bool) bool {
	if val.IsInt(1) {
		if m.Op == OMake {
			return true
		}
		for f, v := range facts {
			if f.Op == OLookOk && !v && f.Args[0] == m && f.Args[1] == key {
				return true
			}
			if f.Op == OEq && v {
				for k := 0; k < 2; k++ {
					if f.Args[k].Op == OLookup && f.Args[k].Args[0] == m && f.Args[k].Args[1] == key && f.Args[1-k].IsInt(0) {
						return true
					}
				}
			}
		}
		return false
	}
	l := toLin(val)
	if l.k != 1 || len(l.c) != 1 {
		return false
	}
	for a, co := range l.c {
		if co == 1 && a.Op == OLookup && a.Args[0] == m && a.Args[1] == key {
			return true
		}
	}
	return false
}

// ---- C32 ------------------------------------------------------------------------------------

func isMetricsOut(x *Term) bool { return cfgIs(unwrapPath(x), "Core", "Metrics", "Out") }

func mentionsOut(x *Term) bool { return x.contains(isMetricsOut) }

// changed: the file names a library call changes, creates or removes.
func changed(e *Ev) (names []*Term, replace bool) {
	if e.Kind != EvCall {
		return nil, false
	}
	switch e.Name {
	case "os.Rename":
		return []*Term{e.arg(0), e.arg(1)}, true
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate", "syscall.Unlink", "syscall.Truncate":
		return []*Term{e.arg(0)}, false
	case "os.CreateTemp", "io/ioutil.TempFile":
		return []*Term{e.arg(0)}, false
	case "os.OpenFile":
		if fl, ok := e.arg(1).Int(); ok && fl&3 == 0 && fl&int64(oCreate|oTrunc) == 0 {
			return nil, false
		}
		return []*Term{e.arg(0)}, false
	case "os.Symlink", "os.Link", "syscall.Rename", "syscall.Link", "syscall.Symlink":
		return e.Args[:2], false
	}
	return nil, false
}

const (
	oCreate = 0x40
	oExcl   = 0x80
	oTrunc  = 0x200
	oAppend = 0x400
)

func isChanger(name string) bool {
	switch name {
	case "os.Rename", "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate", "os.OpenFile", "os.Symlink", "os.Link", "os.CreateTemp", "io/ioutil.TempFile":
		return true
	}
	return strings.HasPrefix(name, "syscall.") && (strings.HasSuffix(name, "Rename") || strings.HasSuffix(name, "Unlink") || strings.HasSuffix(name, "Truncate") || strings.HasSuffix(name, ".Open"))
}

// reachesAny: functions of the module from which one of the library calls can be reached.
func (p *Program) reachesAny(want func(string) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && want(calleeName(ci.Common())) {
					set[fn] = true
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			if set[fn] {
				continue
			}
			for _, g := range mentioned(fn) {
				if set[g] || g.Synthetic != "" && p.wraps(g, set) {
					set[fn] = true
					again = true
					break
				}
			}
		}
	}
	return set
}

// entryPoints: functions that are not only called by other functions of the module.
func (c *Ctx) entryPoints() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	used := c.P.valueUsed()
	ts, _, _ := c.P.goTargets()
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Synthetic == "" && (!called[fn] || used[fn] || ts[fn]) {
			out = append(out, fn)
		}
	}
	return out
}

// errFact: some call on the path is known to have failed.
func errFact(t *Trace, from int) bool {
	for _, e := range t.Evs[from:] {
		if e.Kind == EvCond && !e.Pos && e.Term.Op == OEq {
			for k := 0; k < 2; k++ {
				if x := e.Term.Args[k]; e.Term.Args[1-k] == tNil && isErrorT(x.Typ) && !foreignErr(x) {
					return true
				}
			}
		}
	}
	return false
}

// foreignErr: the error has nothing to do with saving.
func foreignErr(x *Term) bool {
	if x.Op == OExtract {
		x = x.Args[0]
	}
	if x.Op != OCall {
		return false
	}
	for _, p := range []string{"(*net/http.", "net/http.", "net.", "context.", "(context.", "time.", "fmt."} {
		if strings.HasPrefix(x.Name, p) {
			return true
		}
	}
	return false
}

type saver struct {
	c     *Ctx
	met   *metricsSchema
	needs map[string]bool // configuration flags that are on whenever counting is
	saves map[token.Pos]bool
}

// collecting: counting is known to be on (1) or off (-1) after event i.
func (s *saver) collecting(t *Trace, i int) int {
	facts := factsAt(t, i)
	for j := i - 1; j >= 0; j-- {
		e := t.Evs[j]
		if e.Kind == EvStore && s.met.bools[s.met.field(e.Term)] && root(e.Term).Op != OAlloc {
			switch {
			case holds(facts, e.arg(0)):
				return 1
			case refuted(facts, e.arg(0)):
				return -1
			}
			return 0
		}
		if e.Kind == EvCond {
			x := e.Term
			if x.Op == ODeref && s.met.bools[s.met.field(x.Args[0])] {
				if e.Pos {
					return 1
				}
				return -1
			}
		}
	}
	for f, v := range facts {
		if k, _, p := cfgRef(f); k == "main" && !v && s.needs[strings.Join(p, ".")] {
			return -1
		}
	}
	return 0
}

// attempts: the path saves the metrics from event `from` on, or has a reason not to.
func (s *saver) attempts(t *Trace, from int) bool {
	for i := from; i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind == EvCall && e.Name == "os.Rename" && isMetricsOut(e.arg(1)) {
			return true
		}
	}
	return errFact(t, from) || s.collecting(t, len(t.Evs)) < 0
}

func ruleC32(c *Ctx) {
	met := c.metricsSchema()
	if met == nil {
		c.need(false, "anchor", token.NoPos, nil, "the metrics record (TotalRequests, Paths) was not found")
		return
	}
	s := &saver{c: c, met: met, saves: map[token.Pos]bool{}}
	deep := c.P.reachesAny(isChanger)
	// helpers that write the file or make its contents
	helps := c.P.reachesAny(func(n string) bool {
		return isChanger(n) || strings.HasPrefix(n, "(*os.File).") || strings.HasPrefix(n, "encoding/json.Marshal") || strings.HasPrefix(n, "encoding/json.NewEncoder") || strings.HasPrefix(n, "(*encoding/json.Encoder).")
	})
	stores := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for k := range c.P.touches(fn).w {
			for b := range met.bools {
				if strings.HasSuffix(k, "."+met.T.Obj().Name()+"."+b) {
					stores[fn] = true
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			for _, g := range mentioned(fn) {
				if stores[g] && !stores[fn] && !stores[fn.Parent()] {
					stores[fn] = true
					again = true
				}
			}
		}
	}
	ts, _, _ := c.P.goTargets()
	seen := map[token.Pos]bool{}
	type run struct {
		fn *ssa.Function
		ts []*Trace
	}
	var runs []run
	gor := map[*ssa.Function][]*Trace{}
	for _, fn := range c.entryPoints() {
		if !deep[fn] && !(ts[fn] && stores[fn]) {
			continue
		}
		self := fn
		opaque := func(f *ssa.Function) bool {
			if f == self || f.Synthetic != "" {
				return false
			}
			return !helps[f] && !(ts[self] && stores[f]) && !met.reads(c, f)
		}
		ex := c.explore
		if ts[fn] && c.freeRun(fn) {
			ex = c.exploreFree
		}
		for _, r := range ex(fn, opaque) {
			runs = append(runs, run{fn, r.Traces})
			if ts[fn] {
				gor[fn] = append(gor[fn], r.Traces...)
			}
		}
	}
	// what is on whenever counting is
	first := true
	for _, ts := range gor {
		for _, t := range ts {
			for i, e := range t.Evs {
				if e.Kind != EvStore || !met.bools[met.field(e.Term)] || root(e.Term).Op == OAlloc || e.arg(0) == tFalse {
					continue
				}
				on := map[string]bool{}
				facts := factsAt(t, i)
				for f, v := range facts {
					if k, _, p := cfgRef(f); v && k == "main" {
						on[strings.Join(p, ".")] = true
					}
				}
				if k, _, p := cfgRef(e.arg(0)); k == "main" {
					on[strings.Join(p, ".")] = true
				}
				if first {
					s.needs, first = on, false
				}
				for k := range s.needs {
					if !on[k] {
						delete(s.needs, k)
					}
				}
			}
		}
	}
	// every change of a file
	saves := 0
	for _, r := range runs {
		for _, t := range r.ts {
			for i, e := range t.Evs {
				if e.Kind == EvCall && isChanger(e.Name) {
					seen[e.At] = true
				}
				names, repl := changed(e)
				if repl && isMetricsOut(names[1]) {
					saves++
					c.need(mentionsOut(names[0]), "same-directory", e.At, t, "the saved metrics are replaced by %s, which is not next to them: the file may have to be copied, which a crash interrupts, and other servers may write it too", clip(names[0].String()))
					s.replaced(t, i, e, shortName(fnName(r.fn)))
					names = names[:1]
				}
				for _, n := range names {
					c.need(!isMetricsOut(n), "saved-file-kept", e.At, t, "%s changes the saved metrics in place", shortName(e.Name))
				}
				if e.Kind == EvCall && (e.Name == "os.RemoveAll" || e.Name == "os.Rename") {
					for _, n := range names {
						c.need(!(isCall(unwrapPath(n), "path/filepath.Dir") && mentionsOut(n)), "saved-file-kept", e.At, t, "%s changes the directory of the saved metrics", shortName(e.Name))
					}
				}
			}
		}
	}
	c.atLeast(saves, 2, "coverage", "paths that replace the saved metrics")
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	for at, f := range callSites(all, isChanger) {
		c.need(seen[at], "covered", at, nil, "a file is changed in %s on no path the analysis followed", shortName(fnName(f)))
	}
	s.periodic(gor)
	s.final(gor)
}

// reads: the function looks at whether metrics are collected.
func (m *metricsSchema) reads(c *Ctx, fn *ssa.Function) bool {
	t := c.P.touches(fn)
	for b := range m.bools {
		for k := range t.m {
			if strings.HasSuffix(k, "."+m.T.Obj().Name()+"."+b) {
				return true
			}
		}
	}
	return false
}

// replaced checks one path up to the moment the saved metrics are replaced.
func (s *saver) replaced(t *Trace, ri int, e *Ev, where string) {
	c := s.c
	facts := factsAt(t, ri)
	tmp := e.arg(0)
	var open, file *Term
	oi := -1
	for i := 0; i < ri; i++ {
		o := t.Evs[i]
		if o.Kind != EvCall {
			continue
		}
		switch o.Name {
		case "os.Create", "os.OpenFile":
			if o.arg(0) != tmp && !nameOf(tmp, o.Term) {
				continue
			}
			c.need(!isMetricsOut(o.arg(0)), "saved-file-kept", o.At, t, "%s changes the saved metrics in place", shortName(o.Name))
			if o.Name == "os.OpenFile" {
				fl, ok := o.arg(1).Int()
				c.need(ok && fl&(oTrunc|oExcl) != 0 && fl&3 != 0, "whole-file", o.At, t, "the temporary file is opened without being emptied")
			}
		case "os.CreateTemp", "io/ioutil.TempFile":
			if !nameOf(tmp, o.Term) {
				continue
			}
		case "os.WriteFile", "io/ioutil.WriteFile":
			if o.arg(0) != tmp {
				continue
			}
			c.need(false, "synced", o.At, t, "%s replaces the saved metrics by a file that was not synced", where)
			return
		default:
			continue
		}
		open, oi = o.Term, i
	}
	if !c.need(open != nil, "written-first", e.At, t, "%s replaces the saved metrics by %s, which it has not created", where, clip(tmp.String())) {
		return
	}
	c.need(holdsNil(facts, open, 1), "checked", e.At, t, "the saved metrics are replaced although creating the new file may have failed")
	for f := range facts {
		f.contains(func(y *Term) bool {
			if y.Op == OExtract && y.N == 0 && y.Args[0] == open {
				file = y
			}
			return false
		})
	}
	for _, o := range t.Evs[oi:ri] {
		for _, a := range o.Args {
			if x := stripConv(a); x.Op == OExtract && x.N == 0 && x.Args[0] == open {
				file = x
			}
		}
	}
	if !c.need(file != nil, "written-first", e.At, t, "nothing is written to the file that replaces the saved metrics") {
		return
	}
	nilErr := func(call *Term) bool {
		if holdsNil(facts, call, 1) {
			return true
		}
		return holds(facts, mkEq(call, tNil))
	}
	wrote, synced, closed := false, false, false
	for _, o := range t.Evs[oi:ri] {
		if o.Kind == EvLoopHead {
			for _, f := range bodyFile(o.Loop, file) {
				c.need(false, "whole-file", f.At, t, "the new file is used in a loop")
			}
		}
		if o.Kind != EvCall {
			continue
		}
		on := false
		for _, a := range o.Args {
			if stripConv(a) == file || isCall(stripConv(a), "encoding/json.NewEncoder") && stripConv(stripConv(a).Args[0]) == file {
				on = true
			}
		}
		if !on {
			continue
		}
		switch o.Name {
		case "(*os.File).Name", "(*os.File).Stat", "(*os.File).Chmod", "(*os.File).Fd", "encoding/json.NewEncoder", "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
		case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*encoding/json.Encoder).Encode", "io.Copy", "(io.Writer).Write", "fmt.Fprint":
			c.need(!closed, "whole-file", o.At, t, "the new file is written to after it was closed")
			c.need(nilErr(o.Term), "checked", o.At, t, "the saved metrics are replaced although writing the new file may have failed")
			if wrote {
				c.need(s.isNewline(o.arg(1)), "whole-file", o.At, t, "something else than the metrics is written to the new file")
			} else if c.need(s.wholeRecord(o.arg(1), facts, o.Name), "whole-file", o.At, t, "the new file does not hold the complete metrics but %s", clip(o.arg(1).String())) {
				wrote = true
			}
			synced = false
		case "(*os.File).Sync":
			synced = true
			c.need(nilErr(o.Term), "checked", o.At, t, "the saved metrics are replaced although syncing the new file may have failed")
		case "(*os.File).Close":
			if !closed {
				c.need(nilErr(o.Term), "checked", o.At, t, "the saved metrics are replaced although closing the new file may have failed")
			}
			closed = true
		default:
			c.need(false, "whole-file", o.At, t, "the new file is handed to %s", shortName(o.Name))
		}
	}
	c.need(wrote, "written-first", e.At, t, "%s replaces the saved metrics before the new file is written", where)
	c.need(synced, "synced", e.At, t, "%s replaces the saved metrics by a file that was not synced", where)
	c.need(closed, "closed-first", e.At, t, "%s replaces the saved metrics before the new file is closed", where)
	c.need(s.collecting(t, ri) > 0, "only-when-collecting", e.At, t, "%s replaces the saved metrics although they may not be collected", where)
}

// nameOf: the name of the file the call opened.
func nameOf(x, open *Term) bool {
	return isCall(x, "(*os.File).Name") && x.Args[0].Op == OExtract && x.Args[0].N == 0 && x.Args[0].Args[0] == open
}

func bodyFile(l *LoopInfo, file *Term) []*Ev {
	var out []*Ev
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			for _, a := range e.Args {
				if e.Kind == EvCall && stripConv(a) == file {
					out = append(out, e)
				}
			}
		}
	}
	return out
}

func (s *saver) isNewline(x *Term) bool {
	x = stripConv(x)
	return x.IsStr("\n") || x.Op == OSliceLit && len(x.Args) == 1 && x.Args[0].IsInt('\n')
}

// wholeRecord: the data is the complete text of the metrics record.
func (s *saver) wholeRecord(d *Term, facts map[*Term]bool, by string) bool {
	isRec := func(x *Term) bool {
		x = stripConv(x)
		t := x.Typ
		if p := ptrElem(t); p != nil {
			t = p
		}
		return t != nil && types.Identical(t, s.met.T)
	}
	if strings.HasSuffix(by, "Encoder).Encode") {
		return isRec(d)
	}
	for {
		d = stripConv(d)
		switch {
		case d.Op == OAppend && len(d.Args) == 2:
			d = d.Args[0]
			continue
		case d.Op == OSliceLit && len(d.Args) == 1:
			d = d.Args[0]
			continue
		case isCall(d, "bytes.NewReader") || isCall(d, "bytes.NewBuffer") || isCall(d, "strings.NewReader") || isCall(d, "bytes.NewBufferString"):
			d = d.Args[0]
			continue
		}
		break
	}
	if d.Op != OExtract || d.N != 0 {
		return false
	}
	call := d.Args[0]
	return (isCall(call, "encoding/json.Marshal") || isCall(call, "encoding/json.MarshalIndent")) && isRec(call.Args[0]) && holdsNil(facts, call, 1)
}

// periodic: the goroutine that switches counting on saves again and again.
func (s *saver) periodic(gor map[*ssa.Function][]*Trace) {
	c := s.c
	rounds := 0
	daemons := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		ts := gor[fn]
		finite := map[*LoopInfo]bool{}
		for _, t := range ts {
			for _, e := range t.Evs {
				if e.Kind == EvLoopOut {
					finite[e.Loop] = true
				}
			}
		}
		for _, t := range ts {
			on := -1
			for i, e := range t.Evs {
				if e.Kind == EvStore && s.met.bools[s.met.field(e.Term)] && root(e.Term).Op != OAlloc && e.arg(0) != tFalse {
					on = i
				}
			}
			if on < 0 {
				continue
			}
			daemons[fn] = true
			switch t.End {
			case EndBack:
				head := -1
				for i, e := range t.Evs {
					if e.Kind == EvLoopHead && e.Loop == t.Loop {
						head = i
					}
				}
				if head < on || finite[t.Loop] && !tickLoop(ts, t.Loop) {
					continue
				}
				rounds++
				waits := false
				for _, e := range t.Evs[head:] {
					switch e.Kind {
					case EvRecv, EvSelect:
						waits = true
					case EvCall:
						if e.Name == "time.Sleep" {
							n, isC := e.arg(0).Int()
							waits = waits || isC && n > 0
						}
					}
				}
				c.need(waits, "periodic", t.At, t, "%s saves the metrics without pausing", shortName(fnName(fn)))
				c.need(s.attempts(t, head), "periodic", t.At, t, "a round of %s does not save the metrics", shortName(fnName(fn)))
			case EndReturn:
				c.need(ticked(t), "periodic", t.At, t, "%s ends although metrics are collected", shortName(fnName(fn)))
			}
		}
	}
	c.atLeast(rounds, 1, "coverage", "rounds of saving metrics")
	// the goroutine is started
	started := 0
	srv := c.P.named("tuna", "Server")
	for d := range daemons {
		for _, fn := range c.P.Funcs {
			if fn == d || fn.Object() == nil || !fn.Object().Exported() || !reaches(fn, fnName(d)) {
				continue
			}
			makes := false
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				if p := ptrElem(fn.Signature.Results().At(i).Type()); p != nil && srv != nil && types.Identical(p, srv) {
					makes = true
				}
			}
			only := func(f *ssa.Function) bool {
				return f != fn && f.Synthetic == "" && !reaches(f, fnName(d)) && (makes || !c.P.reachesAny(isListenCall)[f])
			}
			for _, r := range c.explore(fn, only) {
				for _, t := range r.Traces {
					end := len(t.Evs)
					if !makes {
						end = -1
						for i, e := range t.Evs {
							if e.Kind == EvCall && isListenCall(e.Name) && end < 0 {
								end = i
							}
						}
						if end < 0 {
							continue
						}
					} else if t.End != EndReturn {
						continue
					}
					started++
					ok := false
					for _, e := range t.Evs[:end] {
						ok = ok || e.Kind == EvGo && goFn(e) == d
					}
					ok = ok || s.collecting(t, end) < 0 || s.offInNew(t, r.X)
					c.need(ok, "periodic", t.At, t, "%s sets up a server without starting to save its metrics", shortName(fnName(fn)))
				}
			}
		}
	}
	c.atLeast(started, 1, "coverage", "paths that start saving metrics")
}

// offInNew: the configuration of the server the path returns is known to collect no metrics.
func (s *saver) offInNew(t *Trace, x *Exec) bool {
	if t.St == nil {
		return false
	}
	facts := allFacts(t)
	for _, r := range t.Ret {
		p := ptrElem(r.Typ)
		if p == nil || !types.Identical(p, s.c.P.named("tuna", "Server")) {
			continue
		}
		for k := range s.needs {
			a := r
			for _, n := range append([]string{"Cfg"}, strings.Split(k, ".")...) {
				a = mkFieldAddrByName(a, n)
			}
			if et := ptrElem(a.Typ); et != nil && a != r && refuted(facts, x.load(t.St, a, et)) {
				return true
			}
		}
	}
	return false
}

// freeRun: the closure captures a server that is just being made.
func (c *Ctx) freeRun(fn *ssa.Function) bool {
	srv := c.P.named("tuna", "Server")
	for _, fv := range fn.FreeVars {
		if p := ptrElem(fv.Type()); p != nil && srv != nil && types.Identical(p, srv) {
			return true
		}
	}
	return false
}

// exploreFree runs a closure with nothing known of what it captures.
func (c *Ctx) exploreFree(fn *ssa.Function, opaque func(*ssa.Function) bool) []*entryRun {
	args := params(fn)
	var bind []*Term
	for _, fv := range fn.FreeVars {
		bind = append(bind, param("&"+fv.Name(), fv.Type(), true))
	}
	x := newExec(c.P, opaque)
	x.SharedLoads, x.Partials = c.sharedLoads, c.partials
	return []*entryRun{{Fn: fn, Traces: c.run(x, fn, args, bind, nil), Args: args, X: x}}
}

// tickLoop: the loop only ends when a channel is closed.
func tickLoop(ts []*Trace, l *LoopInfo) bool {
	for _, t := range ts {
		for i, e := range t.Evs {
			if e.Kind == EvLoopOut && e.Loop == l {
				ok := false
				for j := i - 1; j >= 0 && t.Evs[j].Kind != EvLoopHead; j-- {
					ok = ok || recvFailed(t.Evs[j])
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

func recvFailed(e *Ev) bool {
	return e.Kind == EvCond && !e.Pos && e.Term.Op == OUnknown && e.Term.Name == "recvok"
}

func ticked(t *Trace) bool {
	for _, e := range t.Evs {
		if recvFailed(e) {
			return true
		}
	}
	return false
}

// final: a stop signal saves the metrics before the process ends.
func (s *saver) final(gor map[*ssa.Function][]*Trace) {
	c := s.c
	n := 0
	done := map[*ssa.Function]bool{}
	ts, _, _ := c.P.goTargets()
	for _, fn := range c.P.Funcs {
		if !ts[fn] || !reaches(fn, "(*net/http.Server).Shutdown") {
			continue
		}
		done[fn] = true
		if !c.need(gor[fn] != nil, "on-signal", fn.Pos(), nil, "%s stops the server without saving the metrics", shortName(fnName(fn))) {
			continue
		}
		for _, t := range gor[fn] {
			shut, from := -1, 0
			for i, e := range t.Evs {
				if e.Kind == EvCall && e.Name == "(*net/http.Server).Shutdown" {
					shut = i
				}
				if (e.Kind == EvRecv || e.Kind == EvSelect) && shut < 0 {
					from = i
				}
			}
			if shut < 0 && t.End != EndExit {
				continue
			}
			n++
			c.need(s.attempts(t, from), "on-signal", t.At, t, "%s ends the process after a stop signal without saving the metrics", shortName(fnName(fn)))
		}
	}
	c.atLeast(n, 1, "coverage", "paths of the stop sequence")
}
