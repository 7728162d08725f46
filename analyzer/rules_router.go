package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C01", "path-sensitive dataflow: decision table of the lookups that precede every route selection", ruleC01)
	register("C02", "path-sensitive dataflow: facts required for each dispatch outcome on every path of the router", ruleC02)
	register("C03", "dataflow over loop-carried values: shape of the middleware composition", ruleC03)
	register("C04", "dataflow: form of the canonical path and its store dominating every use", ruleC04)
	register("C05", "path-sensitive dataflow: facts on acceptance and refusal of a content type", ruleC05)
	register("C06", "path-sensitive dataflow: facts dominating every route table update", ruleC06)
}

// ---- what AddRoute stores where ---------------------------------------------------

type routeFields struct {
	handler, content, fallback string // fields of the per-method record
	sub, mw                    string // fields of the per-path record
	routes                     string // field of SRouter
}

// routeSchema learns the names of the table's fields from what the exported
// registration functions store.
func (c *Ctx) routeSchema() *routeFields {
	f := &routeFields{}
	add := c.P.method("router", "SRouter", "AddRoute")
	use := c.P.method("router", "SRouter", "UseMiddleware")
	if add == nil || use == nil {
		c.need(false, "anchor", token.NoPos, nil, "SRouter.AddRoute / UseMiddleware not found")
		return nil
	}
	x := newExec(c.P, c.opq())
	args := params(add)
	for _, t := range c.run(x, add, args, nil, nil) {
		for _, e := range t.Evs {
			if e.Kind != EvMapSet || len(e.Args) < 2 {
				continue
			}
			v := e.Args[1]
			// per-method record
			if st, ok := structOf(v); ok && len(args) == 7 {
				for i, a := range structArgs(v) {
					switch a {
					case args[6]:
						f.handler = st.Field(i).Name()
						_, p := fieldPath(e.Term)
						if len(p) > 0 && f.sub == "" {
							f.sub = p[len(p)-1]
						}
					case args[5]:
						f.content = st.Field(i).Name()
					case args[3]:
						f.fallback = st.Field(i).Name()
					}
				}
			}
			if r, p := fieldPath(e.Term); r == args[0] && len(p) == 1 {
				f.routes = p[0]
			}
		}
	}
	if f.sub == "" {
		f.sub = "subRoutes"
	}
	x = newExec(c.P, c.opq())
	args = params(use)
	for _, t := range c.run(x, use, args, nil, nil) {
		for _, e := range t.Evs {
			if e.Kind == EvMapSet && len(e.Args) == 2 {
				if st, ok := structOf(e.Args[1]); ok {
					for i, a := range structArgs(e.Args[1]) {
						if a.has(args[3]) {
							f.mw = st.Field(i).Name()
						}
					}
				}
			}
			if e.Kind == EvStore && e.Term.Op == OField && len(e.Args) == 1 && e.Args[0].has(args[3]) && isSliceT(e.Args[0].Typ) {
				f.mw = e.Term.Name
			}
		}
	}
	if f.handler == "" || f.content == "" || f.fallback == "" || f.mw == "" || f.routes == "" {
		c.need(false, "anchor", add.Pos(), nil, "the layout of the route table is not recognised: %+v", *f)
		return nil
	}
	return f
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func structOf(v *Term) (*types.Struct, bool) {
	if v.Typ == nil {
		return nil, false
	}
	if v.Op == OStruct {
		st, ok := v.Typ.Underlying().(*types.Struct)
		return st, ok
	}
	return nil, false
}

func structArgs(v *Term) []*Term { return v.Args }

// ---- dispatch -----------------------------------------------------------------------

type dispatch struct {
	c      *Ctx
	f      *routeFields
	sr     *Term
	w, r   *Term
	traces []*Trace
	strip  string
	clean  string
}

func (c *Ctx) dispatchRuns() *dispatch {
	f := c.routeSchema()
	if f == nil {
		return nil
	}
	fn := c.P.method("router", "SRouter", "ServeHTTP")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "SRouter.ServeHTTP not found")
		return nil
	}
	d := &dispatch{c: c, f: f, strip: c.name("router.StripHostPort"), clean: c.name("router.cleanPath")}
	x := newExec(c.P, c.opq("router.StripHostPort", "router.cleanPath"))
	args := []*Term{param("sr", fn.Params[0].Type(), true), param("w", fn.Params[1].Type(), true), param("r", fn.Params[2].Type(), true)}
	d.sr, d.w, d.r = args[0], args[1], args[2]
	d.traces = c.run(x, fn, args, nil, nil)
	return d
}

func (d *dispatch) isHost(t *Term) bool {
	return isCall(t, d.strip) && len(t.Args) == 1 && d.reqField(t.Args[0], "Host")
}
func (d *dispatch) reqField(t *Term, names ...string) bool {
	r, p := fieldPath(t)
	if r != d.r || len(p) != len(names) {
		return false
	}
	for i := range p {
		if p[i] != names[i] {
			return false
		}
	}
	return true
}

// isPath: the canonical request path.
func (d *dispatch) isPath(t *Term) bool {
	return isCall(t, d.clean) && len(t.Args) == 1 && d.reqField(stripURL(t.Args[0]), "URL", "Path")
}

// stripURL folds r.URL (a pointer) and its fields into one path.
func stripURL(t *Term) *Term { return t }

func (d *dispatch) isRoutes(t *Term) bool {
	r, p := fieldPath(t)
	return r == d.sr && len(p) == 1 && p[0] == d.f.routes
}

func (d *dispatch) isMethod(t *Term) bool { return d.reqField(t, "Method") }

type routeKey struct {
	own   bool
	level string // exact, walk, root
	phi   *Term
}

func (d *dispatch) key(t *Term) (routeKey, bool) {
	if s, ok := t.Str(); ok {
		if s == "DEFAULT/" {
			return routeKey{false, "root", nil}, true
		}
		return routeKey{}, false
	}
	if t.Op != OConcat {
		return routeKey{}, false
	}
	k := routeKey{}
	var rest []*Term
	if d.isHost(t.Args[0]) {
		k.own = true
		rest = t.Args[1:]
	} else if s, ok := t.Args[0].Str(); ok && s == "DEFAULT" {
		rest = t.Args[1:]
	} else {
		return k, false
	}
	if len(rest) != 1 {
		return k, false
	}
	switch {
	case d.isPath(rest[0]):
		k.level = "exact"
	case rest[0].IsStr("/"):
		k.level = "root"
	case rest[0].Op == OPhi:
		k.level = "walk"
		k.phi = rest[0]
	case isCall(rest[0], "path.Dir") && (rest[0].Args[0].Op == OPhi || d.isPath(rest[0].Args[0])):
		k.level = "walk"
		k.phi = rest[0]
	default:
		return k, false
	}
	return k, true
}

// selection: the table entry a term was taken from.
func (d *dispatch) selection(t *Term) *Term {
	var hit *Term
	t.contains(func(x *Term) bool {
		if x.Op == OLookup && d.isRoutes(x.Args[0]) {
			hit = x
			return true
		}
		return false
	})
	return hit
}

func (d *dispatch) lookFact(facts map[*Term]bool, own bool, level string, phi *Term) (val, known bool) {
	for f, v := range facts {
		if f.Op != OLookOk || !d.isRoutes(f.Args[0]) {
			continue
		}
		k, ok := d.key(f.Args[1])
		if ok && k.own == own && k.level == level && (phi == nil || k.phi == phi) {
			return v, true
		}
	}
	return false, false
}

func loopOfPhi(t *Trace, phi *Term) (*LoopInfo, int) {
	for i, e := range t.Evs {
		if e.Kind == EvLoopHead {
			if _, ok := e.Loop.Init[phi]; ok {
				return e.Loop, i
			}
		}
	}
	return nil, -1
}

func isRootPath(facts map[*Term]bool, p *Term) bool {
	if holds(facts, mkEq(p, mkStr("/"))) {
		return true
	}
	_, hi, _, hasHi := bounds(facts, mkLen(p))
	return hasHi && hi <= 1
}

// walkOK: phi walks from the request path up one segment per iteration and every
// iteration that goes on has looked at own/default host + phi without success.
func (d *dispatch) walkOK(t *Trace, phi *Term, own bool) bool {
	base := phi
	if isCall(phi, "path.Dir") && phi.Args[0].Op == OPhi {
		// every iteration looks at the parent of where the walk is
		p := phi.Args[0]
		l, _ := loopOfPhi(t, p)
		if l == nil || !d.isPath(l.Init[p]) {
			return false
		}
		for _, b := range l.Backs {
			if b.Next[p] != phi {
				return false
			}
			if v, known := d.lookFact(allFacts(b.Tr), own, "walk", phi); !known || v {
				return false
			}
		}
		return true
	}
	l, _ := loopOfPhi(t, base)
	if l == nil {
		return false
	}
	in := l.Init[base]
	if !(d.isPath(in) || isCall(in, "path.Dir") && d.isPath(in.Args[0])) {
		return false
	}
	for _, b := range l.Backs {
		if n := b.Next[base]; n == nil || !isCall(n, "path.Dir") || n.Args[0] != base {
			return false
		}
		if v, known := d.lookFact(allFacts(b.Tr), own, "walk", base); !known || v {
			return false
		}
	}
	return true
}

// nextOf: what a loop variable becomes in the next iteration.
func nextOf(l *LoopInfo, phi *Term) (n *Term) {
	for _, b := range l.Backs {
		if n != nil && b.Next[phi] != n {
			return nil
		}
		n = b.Next[phi]
	}
	return n
}

// walked: the walk of that host has ended at the root without a match below it;
// root reports whether the root entry itself was found missing.
func (d *dispatch) walked(t *Trace, facts map[*Term]bool, own bool) (below, root bool) {
	if v, known := d.lookFact(facts, own, "root", nil); known && !v {
		root = true
	}
	if d.pathIsRoot(facts) {
		// the exact entry is the root entry
		v, known := d.lookFact(facts, own, "exact", nil)
		return true, root || known && !v
	}
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead {
			continue
		}
		for phi := range e.Loop.Init {
			if phi.Op != OPhi || !isString(phi.Typ) {
				continue
			}
			if up := nextOf(e.Loop, phi); up != nil && isCall(up, "path.Dir") && up.Args[0] == phi && d.walkOK(t, up, own) {
				// the last step of the walk was the root
				v, known := d.lookFact(facts, own, "walk", up)
				x, looked := d.lookFact(facts, own, "exact", nil)
				if isRootPath(facts, up) && known && !v || isRootPath(facts, phi) && looked && !x {
					below, root = true, true
				}
			}
			if !d.walkOK(t, phi, own) || !isRootPath(facts, phi) {
				continue
			}
			// left, not iterating
			for _, g := range t.Evs[i:] {
				if g.Kind == EvLoopOut && g.Loop == e.Loop {
					below = true
				}
			}
			if v, known := d.lookFact(facts, own, "walk", phi); known && !v {
				root = true
			}
		}
	}
	return
}

func (d *dispatch) pathIsRoot(facts map[*Term]bool) bool {
	for f, v := range facts {
		if v && f.Op == OEq && d.isPath(f.Args[0]) && f.Args[1].IsStr("/") {
			return true
		}
	}
	return false
}

// feasible drops paths on which the walk left the canonical paths ("." is never reached).
func (d *dispatch) feasible(t *Trace) bool {
	for _, e := range t.Evs {
		if e.Kind == EvCond && e.Pos && e.Term.Op == OEq && e.Term.Args[1].IsStr(".") {
			x := e.Term.Args[0]
			if x.Op == OPhi || isCall(x, "path.Dir") || d.isPath(x) {
				return false
			}
		}
	}
	return true
}

type outcome struct {
	kind string // handler, error
	code int64
	ev   *Ev
	at   int
	recv *Term // what is invoked
	args []*Term
}

// outcomes lists every response decision on a path.
func (d *dispatch) outcomes(t *Trace) []outcome {
	var out []outcome
	for i, e := range t.Evs {
		switch e.Kind {
		case EvCall:
			if strings.HasSuffix(e.Name, ".ServeHTTP") && len(e.Args) >= 3 {
				out = append(out, outcome{kind: "handler", ev: e, at: i, recv: e.Args[0], args: e.Args[1:]})
			} else if e.Name == "net/http.Error" || e.Name == "net/http.NotFound" || strings.HasPrefix(e.Name, "(net/http.ResponseWriter).Write") {
				o := outcome{kind: "error", ev: e, at: i, code: -1}
				if e.Name == "net/http.Error" {
					if v, ok := e.arg(2).Int(); ok {
						o.code = v
					}
				}
				out = append(out, o)
			}
		case EvDyn:
			if fieldIs(e.Term, "ErrorHandler") {
				o := outcome{kind: "error", ev: e, at: i, code: -1, args: e.Args}
				if v, ok := e.arg(2).Int(); ok {
					o.code = v
				}
				out = append(out, o)
			} else {
				out = append(out, outcome{kind: "handler", ev: e, at: i, recv: e.Term, args: e.Args})
			}
		}
	}
	return out
}

// selected: the table entry this path decided to use (nil when none).
func (d *dispatch) selected(t *Trace) (*Term, bool) {
	var sel *Term
	for _, e := range t.Evs {
		if e.Kind == EvCond && e.Term.Op == OLookOk && d.isMethod(e.Term.Args[1]) {
			s := d.selection(e.Term.Args[0])
			if s == nil || sel != nil && sel != s {
				return nil, false
			}
			sel = s
		}
	}
	return sel, true
}

func (d *dispatch) methodFact(facts map[*Term]bool, sel *Term) (bool, bool) {
	for f, v := range facts {
		if f.Op == OLookOk && d.isMethod(f.Args[1]) && fieldIs(f.Args[0], d.f.sub) && d.selection(f.Args[0]) == sel {
			return v, true
		}
	}
	return false, false
}

// record: the per-method record of a selection, taken apart.
func (d *dispatch) isRecordField(t *Term, sel *Term, field string) bool {
	r, p := fieldPath(t)
	if len(p) != 1 || p[0] != field {
		return false
	}
	if r.Op == ODeref {
		r = r.Args[0]
	}
	return r.Op == OLookup && d.isMethod(r.Args[1]) && fieldIs(r.Args[0], d.f.sub) && d.selection(r.Args[0]) == sel
}

func (d *dispatch) recordFact(facts map[*Term]bool, sel *Term, field string) (bool, bool) {
	for f, v := range facts {
		if isBool(f.Typ) && d.isRecordField(f, sel, field) {
			return v, true
		}
	}
	return false, false
}

func ruleC01(c *Ctx) {
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	kinds := map[string]int{}
	for _, t := range d.traces {
		if t.End != EndReturn || !d.feasible(t) {
			continue
		}
		facts := allFacts(t)
		sel, ok := d.selected(t)
		if !ok {
			c.need(false, "one-selection", t.At, t, "the method is looked up in two different route entries on one path")
			continue
		}
		pos := t.At
		for _, o := range d.outcomes(t) {
			pos = o.ev.At
			if o.kind == "handler" {
				s := d.selection(o.recv)
				if s == nil {
					if l, _ := loopOfPhi(t, o.recv); l != nil {
						s = d.selection(l.Init[o.recv])
					}
				}
				c.need(s != nil && (s == sel || sel == nil), "dispatch-selected", o.ev.At, t, "the handler that runs is not taken from the selected route entry")
				if sel == nil {
					sel = s
				}
			}
		}
		hE, hEk := d.lookFact(facts, true, "exact", nil)
		dE, dEk := d.lookFact(facts, false, "exact", nil)
		noExact := func() bool { return hEk && !hE && dEk && !dE }
		if sel == nil {
			kinds["none"]++
			c.need(noExact() && bothWalked(d, t, facts, true) && bothWalked(d, t, facts, false), "no-match", pos, t,
				"a request is treated as unmatched without having looked for its exact path and all its parent paths for both hosts")
			continue
		}
		k, ok := d.key(sel.Args[1])
		if !ok {
			c.need(false, "selection-key", pos, t, "a route is selected with key %s, which is neither the request path nor one of its parents for the own or default host", sel.Args[1])
			continue
		}
		hb, hr := d.walked(t, facts, true)
		db, _ := d.walked(t, facts, false)
		name := "default "
		if k.own {
			name = "own "
		}
		kinds[name+k.level]++
		switch {
		case k.own && k.level == "exact":
			c.need(hEk && hE, "own-exact", pos, t, "the own host's exact route is used without having been found")
		case !k.own && k.level == "exact":
			c.need(dEk && dE, "default-exact", pos, t, "the default host's exact route is used without having been found")
			c.need(hEk && !hE, "own-before-default", pos, t, "the default host's exact route is used although the own host's exact route was not ruled out")
		case k.own && k.level == "walk":
			v, kn := d.lookFact(facts, true, "walk", k.phi)
			c.need(kn && v && d.walkOK(t, k.phi, true), "own-parent", pos, t, "the own host's parent route is not the nearest one: the walk does not go up one segment at a time from the request path, or skips candidates")
			c.need(noExact(), "exact-before-parent", pos, t, "a parent route of the own host is used although an exact route (own or default host) was not ruled out")
		case k.own && k.level == "root":
			v, kn := d.lookFact(facts, true, "root", nil)
			c.need(kn && v && (hb || d.pathIsRoot(facts)), "own-root", pos, t, "the own host's root route is used without having walked up from the request path")
			c.need(noExact() || d.pathIsRoot(facts), "exact-before-parent", pos, t, "the own host's root route is used although an exact route (own or default host) was not ruled out")
		case !k.own && k.level == "walk":
			v, kn := d.lookFact(facts, false, "walk", k.phi)
			c.need(kn && v && d.walkOK(t, k.phi, false), "default-parent", pos, t, "the default host's parent route is not the nearest one")
			c.need(noExact() && hb && hr, "own-parent-first", pos, t, "a parent route of the default host is used although the own host was not completely ruled out")
		default:
			v, kn := d.lookFact(facts, false, "root", nil)
			c.need(kn && v && (db || d.pathIsRoot(facts)), "default-root", pos, t, "the default host's root route is used without having walked up from the request path")
			c.need((noExact() || d.pathIsRoot(facts)) && hb && hr, "own-parent-first", pos, t, "the default host's root route is used although the own host was not completely ruled out")
		}
	}
	c.atLeast(len(kinds), 5, "coverage", "kinds of route selection (own/default, exact/parent/root, none)")
}

func bothWalked(d *dispatch, t *Trace, facts map[*Term]bool, own bool) bool {
	b, r := d.walked(t, facts, own)
	return b && r
}

// contentVerdict: what the facts of a path say about the content type test.
func (d *dispatch) contentVerdict(t *Trace, sel *Term) (accepted, refused bool) {
	facts := allFacts(t)
	isCT := func(x *Term) bool {
		return isCall(x, "(net/http.Header).Get") && d.reqField(x.Args[0], "Header") && x.Args[1].IsStr("Content-Type")
	}
	isBase := func(x *Term) bool {
		if x.Op == OCall && x.Name == "before" && isCT(x.Args[0]) && x.Args[1].IsStr(";") {
			return true
		}
		return isCT(x) && refuted(facts, mkContains(x, mkStr(";")))
	}
	isContent := func(x *Term) bool { return d.isRecordField(x, sel, d.f.content) }
	isList := func(x *Term) bool {
		return x.Op == OCall && (x.Name == "strings.Split") && isContent(x.Args[0]) && x.Args[1].IsStr(";")
	}
	elem := func(x *Term) *Term {
		if x.Op == ODeref && x.Args[0].Op == OIndexA && isList(x.Args[0].Args[0]) {
			return x.Args[0].Args[0]
		}
		if x.Op == OCall && x.Name == "before" && isContent(x.Args[0]) && x.Args[1].IsStr(";") {
			return x
		}
		return nil
	}
	var notStar, notEqual, noList, scanned bool
	for f, v := range facts {
		switch {
		case f.Op == OEq:
			for k := 0; k < 2; k++ {
				a, b := f.Args[k], f.Args[1-k]
				if isContent(a) && b.IsStr("*") {
					accepted = accepted || v
					notStar = notStar || !v
				}
				if isContent(a) && isBase(b) {
					accepted = accepted || v
					notEqual = notEqual || !v
				}
				if elem(a) != nil && isBase(b) && v {
					accepted = true
				}
			}
		case isCall(f, "strings.Contains") && isContent(f.Args[0]) && f.Args[1].IsStr(";"):
			noList = noList || !v
		}
	}
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead {
			continue
		}
		var list *Term
		all := len(e.Loop.Backs) > 0
		for _, b := range e.Loop.Backs {
			neg := false
			for f, v := range allFacts(b.Tr) {
				if f.Op != OEq || v {
					continue
				}
				for k := 0; k < 2; k++ {
					if l := elem(f.Args[k]); l != nil && isBase2(f.Args[1-k], isCT, allFacts(b.Tr)) {
						neg = true
						if l.Op == OCall && l.Name == "strings.Split" {
							list = l
						}
					}
				}
			}
			all = all && neg
		}
		if list != nil && all && fullScan(t, i, e.Loop, list) {
			scanned = true
		}
	}
	refused = notStar && (noList && notEqual || scanned)
	return
}

func isBase2(x *Term, isCT func(*Term) bool, facts map[*Term]bool) bool {
	if x.Op == OCall && x.Name == "before" && isCT(x.Args[0]) && x.Args[1].IsStr(";") {
		return true
	}
	return isCT(x) && refuted(facts, mkContains(x, mkStr(";")))
}

// fullScan: the loop visits index 0..len(list)-1 in steps of one and was left
// because the index reached the end.
func fullScan(t *Trace, i int, l *LoopInfo, list *Term) bool {
	facts := allFacts(t)
	out := false
	for _, g := range t.Evs[i:] {
		if g.Kind == EvLoopOut && g.Loop == l && g.Pos {
			out = true
		}
	}
	if !out {
		return false
	}
	return scans(l, list, facts, "up")
}

// scans: some integer loop variable of l indexes list completely ("up": 0..len-1,
// "down": len-1..0), judging the end by facts.
func scans(l *LoopInfo, list *Term, facts map[*Term]bool, dir string) bool {
	n := mkLen(list)
	for phi, in := range l.Init {
		if phi.Op != OPhi || !isSignedInt(phi.Typ) {
			continue
		}
		ok := len(l.Backs) > 0
		step := int64(1)
		if dir == "down" {
			step = -1
		}
		for _, b := range l.Backs {
			if b.Next[phi] != mkAdd(phi, mkInt(step), 1, phi.Typ) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if dir == "up" {
			first, isC := in.Int()
			if !isC || first != -1 && first != 0 {
				continue
			}
			// range loops start at -1 and test phi+1 < len
			cur := mkAdd(phi, mkInt(-first), 1, phi.Typ)
			if refuted(facts, mkLt(cur, n, types.Typ[types.Int])) || holds(facts, mkEq(cur, n)) {
				return true
			}
		} else if in == mkAdd(n, mkInt(1), -1, types.Typ[types.Int]) && holds(facts, mkLt(phi, mkInt(0), types.Typ[types.Int])) {
			return true
		}
	}
	return false
}

func ruleC02(c *Ctx) {
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	codes := map[int64]int{}
	handlers := 0
	for _, t := range d.traces {
		if !d.feasible(t) {
			continue
		}
		if t.End == EndBack {
			// a loop that repeats may only compose middleware
			for _, o := range d.outcomes(t) {
				c.need(false, "loop-dispatch", o.ev.At, t, "a response is produced inside a loop")
			}
			continue
		}
		if t.End != EndReturn {
			c.need(t.End != EndPanic && t.End != EndExit, "no-abort", t.At, t, "dispatching a request can end in %s", t.End)
			continue
		}
		os := d.outcomes(t)
		if !c.need(len(os) == 1, "one-outcome", t.At, t, "a request gets %d answers on this path, expected exactly one", len(os)) {
			continue
		}
		o := os[0]
		facts := factsAt(t, o.at)
		sel, _ := d.selected(t)
		mOK, mKnown := false, false
		var acc, ref bool
		exact := false
		fb, fbKnown := false, false
		if o.kind == "handler" && sel == nil {
			sel = d.selection(o.recv)
		}
		if sel != nil {
			mOK, mKnown = d.methodFact(facts, sel)
			acc, ref = d.contentVerdict(t, sel)
			if k, ok := d.key(sel.Args[1]); ok && k.level == "exact" {
				exact = true
			}
			if d.pathIsRoot(facts) {
				exact = true
			}
			fb, fbKnown = d.recordFact(facts, sel, d.f.fallback)
		}
		if o.kind == "handler" {
			handlers++
			c.need(len(o.args) == 2 && o.args[0] == d.w && o.args[1] == d.r, "own-request", o.ev.At, t, "the handler is not invoked with the request's own writer and request")
			c.need(mKnown && mOK, "handler-needs-method", o.ev.At, t, "a handler runs although the route was not found to be registered for the request's method")
			c.need(acc, "handler-needs-content", o.ev.At, t, "a handler runs although the declared content types were not found to accept the request")
			c.need(exact || fbKnown && fb, "handler-needs-exact-or-fallback", o.ev.At, t, "a handler runs for a parent match although the route does not allow fallback")
			continue
		}
		codes[o.code]++
		if len(o.args) == 3 {
			c.need(o.args[0] == d.w && o.args[1] == d.r, "own-request", o.ev.At, t, "the error handler is not given the request's own writer and request")
		}
		for _, e := range t.Evs {
			c.need(!(e.Kind == EvCall && strings.HasSuffix(e.Name, ".MiddlewareHTTP")), "no-middleware-on-error", e.At, t, "middleware is invoked for a refused request")
		}
		switch o.code {
		case 405:
			c.need(sel != nil && mKnown && !mOK, "405", o.ev.At, t, "405 is sent although the selected route was not found to lack the method")
		case 406:
			c.need(sel != nil && mKnown && mOK && ref && !acc, "406", o.ev.At, t, "406 is sent although the route has not been found to support the method and to refuse the content type")
		case 404:
			if sel != nil {
				c.need(mKnown && mOK && acc && !exact && fbKnown && !fb, "404-no-fallback", o.ev.At, t, "404 is sent for a selected route that is not a parent match without fallback (or 405/406 would have been due first)")
			} else {
				c.Oblig++
				c.OK++
			}
		default:
			c.need(false, "code", o.ev.At, t, "a refused request is answered with %d instead of 404, 405 or 406", o.code)
		}
	}
	c.atLeast(handlers, 2, "coverage", "dispatching paths")
	c.atLeast(len(codes), 3, "coverage", "kinds of refusal (404, 405, 406)")
	// the built-in error handler answers with the code it is given
	c.defaultErrorHandlers("router", []int64{404, 405, 406})
}

// defaultErrorHandlers: built-in error handlers of a package really answer with
// each code they can be called with.
func (c *Ctx) defaultErrorHandlers(rel string, codes []int64) {
	n := 0
	for _, fn := range c.P.errorFuncs(rel) {
		for _, r := range c.explore(fn, c.opq()) {
			code := r.Args[len(r.Args)-1]
			for _, want := range codes {
				covered := false
				for _, t := range r.Traces {
					if t.End != EndReturn {
						continue
					}
					facts := allFacts(t)
					if v, k := factsKnow(facts, mkEq(code, mkInt(want))); k && !v {
						continue
					}
					covered = true
					n++
					k, good := 0, 0
					for _, e := range t.Evs {
						if e.Kind != EvCall {
							continue
						}
						switch e.Name {
						case "net/http.Error":
							k++
							if e.arg(2).IsInt(want) || e.arg(2) == code {
								good++
							}
						case "(net/http.ResponseWriter).WriteHeader":
							k++
							if e.arg(1).IsInt(want) || e.arg(1) == code {
								good++
							}
						}
					}
					c.need(k == 1 && good == 1, "default-error-handler", fn.Pos(), t, "the built-in error handler does not answer a %d error with status %d", want, want)
				}
				c.need(covered, "default-error-handler", fn.Pos(), nil, "the built-in error handler has no path for %d", want)
			}
		}
	}
	c.atLeast(n, 1, "coverage", "built-in error handlers in "+rel)
}

func stripCopy(t *Term) *Term {
	for t.Op == OAppend && (t.Args[0] == tNil || t.Args[0].Op == OSliceLit && len(t.Args[0].Args) == 0) {
		t = t.Args[1]
	}
	return t
}

// delegates: the closure only calls the handler's ServeHTTP, once, with what it is called with.
func (c *Ctx) delegates(made *Trace, f, h *Term) bool {
	fn := isFn(f)
	if fn == nil || f.Op != OClosure {
		return false
	}
	if len(f.Args) == 1 && f.Args[0] == h {
		return strings.HasSuffix(fn.Name(), "$bound")
	}
	if made.St == nil {
		return false
	}
	as := params(fn)
	for _, t := range c.runTerm(newExec(c.P, c.opq()), f, as, onlyConds(made.St)) {
		n := 0
		for _, e := range t.Evs {
			switch e.Kind {
			case EvCall:
				if !strings.HasSuffix(e.Name, ".ServeHTTP") || len(e.Args) != 3 || e.Args[0] != h || len(as) != 2 || e.Args[1] != as[0] || e.Args[2] != as[1] {
					return false
				}
				n++
			case EvLoad, EvEnter, EvLeave:
			default:
				return false
			}
		}
		if n != 1 || t.End != EndReturn {
			return false
		}
	}
	return true
}

func ruleC03(c *Ctx) {
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	isMw := func(x *Term, sel *Term) bool {
		x = stripCopy(x)
		r, p := fieldPath(x)
		return len(p) == 1 && p[0] == d.f.mw && (r == sel || r.Op == ODeref && r.Args[0] == sel || r.Op == OLookup && r == sel)
	}
	// wrap: x = mw[idx].MiddlewareHTTP(inner)
	wrap := func(x *Term) (list, idx, inner *Term) {
		if x.Op != OCall || !strings.HasSuffix(x.Name, ".MiddlewareHTTP") || len(x.Args) != 2 {
			return
		}
		m := x.Args[0]
		if m.Op == ODeref && m.Args[0].Op == OIndexA {
			return m.Args[0].Args[0], m.Args[0].Args[1], x.Args[1]
		}
		return
	}
	plain, chained := 0, 0
	for _, t := range d.traces {
		if t.End != EndReturn || !d.feasible(t) {
			continue
		}
		for _, o := range d.outcomes(t) {
			if o.kind != "handler" {
				continue
			}
			facts := factsAt(t, o.at)
			sel := d.selection(o.recv)
			if sel == nil {
				if l, _ := loopOfPhi(t, o.recv); l != nil {
					sel = d.selection(l.Init[o.recv])
				}
				if sel == nil {
					c.need(false, "chain", o.ev.At, t, "what is invoked (%s) is not built from a route entry", clip(o.recv.String()))
					continue
				}
			}
			c.need(len(o.args) == 2 && o.args[0] == d.w && o.args[1] == d.r, "own-request", o.ev.At, t, "the chain is not invoked with the request's own writer and request")
			if d.isRecordField(o.recv, sel, d.f.handler) {
				plain++
				none := false
				for f, v := range facts {
					if v && f.Op == OEq && f.Args[1].IsInt(0) && f.Args[0].Op == OLen && isMw(f.Args[0].Args[0], sel) {
						none = true
					}
				}
				c.need(none, "bare-handler", o.ev.At, t, "the handler runs bare although the route was not found to have no middleware")
				continue
			}
			chained++
			idxEnd := func(l *LoopInfo, idx *Term, list *Term) bool {
				// idx at the first iteration is len-1, goes down by one
				n := mkLen(list)
				sub := func(f func(phi *Term) *Term) *Term {
					li := toLin(idx)
					r := lin{c: map[*Term]int64{}, k: li.k}
					for a, co := range li.c {
						if _, ok := l.Init[a]; ok {
							r = r.add(toLin(f(a)), co)
						} else {
							r = r.add(toLin(a), co)
						}
					}
					return r.term(types.Typ[types.Int])
				}
				if sub(func(p *Term) *Term { return l.Init[p] }) != mkAdd(n, mkInt(1), -1, types.Typ[types.Int]) {
					return false
				}
				for _, b := range l.Backs {
					if sub(func(p *Term) *Term { return b.Next[p] }) != mkAdd(idx, mkInt(1), -1, types.Typ[types.Int]) {
						return false
					}
				}
				return true
			}
			checkLoop := func(phi *Term) (*LoopInfo, *Term, *Term, bool) {
				l, _ := loopOfPhi(t, phi)
				if l == nil || !d.isRecordField(l.Init[phi], sel, d.f.handler) {
					return nil, nil, nil, false
				}
				var list, idx *Term
				for _, b := range l.Backs {
					ls, ix, inner := wrap(b.Next[phi])
					if ls == nil || inner != phi || !isMw(ls, sel) || list != nil && (list != ls || idx != ix) {
						return l, nil, nil, false
					}
					list, idx = ls, ix
					// nothing else is invoked while composing
					n := 0
					for _, e := range b.Tr.Evs {
						if e.Kind == EvCall && strings.HasSuffix(e.Name, ".MiddlewareHTTP") {
							n++
						}
					}
					if n != 1 {
						return l, nil, nil, false
					}
				}
				if list == nil {
					return l, nil, nil, true // one middleware at most
				}
				return l, list, idx, idxEnd(l, idx, list)
			}
			switch {
			case o.recv.Op == OPhi:
				l, list, idx, ok := checkLoop(o.recv)
				ok = ok && list != nil
				if ok {
					ok = holds(facts, mkLt0(toLin(idx)))
					_ = l
				}
				c.need(ok, "chain", o.ev.At, t, "the composed chain is not: every middleware of the route, from the last registered (innermost) to the first (outermost), around the route's handler")
			default:
				list, idx, inner := wrap(o.recv)
				ok := list != nil && isMw(list, sel)
				if ok {
					if inner.Op == OPhi {
						l, ls2, idx2, good := checkLoop(inner)
						ok = good
						if ok && ls2 != nil {
							ok = ls2 == list && idx2 == idx
						} else if ok {
							ok = idxEnd(l, idx, list)
						}
						if ok {
							ok = holds(facts, mkEq(idx, mkInt(0)))
							if !ok {
								// peeled first middleware after the loop
								ok = false
							}
						}
					} else {
						ok = d.isRecordField(inner, sel, d.f.handler) && idx.IsInt(0) && lenIs(facts, list, 1)
					}
				}
				c.need(ok, "chain", o.ev.At, t, "the composed chain is not: every middleware of the route, from the last registered (innermost) to the first (outermost), around the route's handler")
			}
		}
	}
	c.atLeast(plain+chained, 2, "coverage", "dispatching paths")
	c.atLeast(chained, 1, "coverage", "paths that compose middleware")

	// registration keeps order
	use := c.P.method("router", "SRouter", "UseMiddleware")
	args := params(use)
	n := 0
	for _, t := range c.run(newExec(c.P, c.opq()), use, args, nil, nil) {
		if t.End != EndReturn {
			continue
		}
		good, total := 0, 0
		for _, e := range t.Evs {
			var v *Term
			switch {
			case e.Kind == EvMapSet && len(e.Args) == 2:
				if st, ok := structOf(e.Args[1]); ok {
					for i, a := range e.Args[1].Args {
						if st.Field(i).Name() == d.f.mw {
							v = a
						}
					}
				}
			case e.Kind == EvStore && e.Term.Op == OField && e.Term.Name == d.f.mw && root(e.Term).Op != OAlloc:
				v = e.Args[0]
			}
			if v == nil || !v.has(args[3]) {
				continue
			}
			total++
			if v.Op == OAppend && v.Args[1].Op == OSliceLit && len(v.Args[1].Args) == 1 && v.Args[1].Args[0] == args[3] {
				_, p := fieldPath(v.Args[0])
				if len(p) > 0 && p[len(p)-1] == d.f.mw || v.Args[0].Op == OSlice || v.Args[0].Op == OSliceLit || v.Args[0].Op == OMake {
					good++
				}
			}
			if v.Op == OSliceLit && len(v.Args) == 1 && v.Args[0] == args[3] {
				good++
			}
		}
		n++
		c.need(total == 1 && good == 1, "append-order", use.Pos(), t, "registering a middleware does not append exactly it at the end of the route's middleware")
	}
	c.atLeast(n, 1, "coverage", "registering paths")

	// the adapters pass the handler on
	for _, typ := range []string{"MiddlewareHandler", "MiddlewareHandlerFunc"} {
		m := c.P.method("router", typ, "MiddlewareHTTP")
		if m == nil {
			continue
		}
		as := params(m)
		for _, t := range c.run(newExec(c.P, c.opq()), m, as, nil, nil) {
			k := 0
			for _, e := range t.Evs {
				if e.Kind == EvDyn && e.Term == as[0] && len(e.Args) == 1 && (e.Args[0] == as[1] || c.delegates(t, e.Args[0], as[1])) {
					k++
				}
			}
			ret := len(t.Ret) == 1 && t.Ret[0].Op == OCall && t.Ret[0].Name == "dyn"
			c.need(t.End != EndReturn || k == 1 && ret, "adapter", m.Pos(), t, "the middleware adapter does not return its function applied to the handler it was given")
		}
	}
}

func lenIs(facts map[*Term]bool, list *Term, n int64) bool {
	lo, hi, a, b := bounds(facts, mkLen(list))
	return a && b && lo == n && hi == n
}

func ruleC04(c *Ctx) {
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	uses := 0
	for _, t := range d.traces {
		stored := false
		for i, e := range t.Evs {
			switch {
			case e.Kind == EvStore && e.Term.Op == OField:
				r, p := fieldPath(e.Term)
				if r == d.r || d.reqField(r, "URL") {
					if len(p) > 0 && p[len(p)-1] == "Path" {
						stored = d.isPath(e.Args[0])
						c.need(stored, "canonical-store", e.At, t, "the request's path is replaced by something that is not its canonical form")
					}
				}
				if e.Term.Name == "URL" && root(e.Term) == d.r {
					c.need(false, "canonical-store", e.At, t, "the request's URL is replaced")
				}
			case e.Kind == EvDyn || e.Kind == EvCall && (strings.HasSuffix(e.Name, ".ServeHTTP") || strings.HasSuffix(e.Name, ".MiddlewareHTTP") || strings.HasPrefix(e.Name, "net/http.")):
				uses++
				if !stored {
					// the path has been found to be canonical already
					for x, v := range factsAt(t, i) {
						for k := 0; v && x.Op == OEq && k < 2; k++ {
							stored = stored || d.isPath(x.Args[k]) && d.reqField(x.Args[1-k], "URL", "Path")
						}
					}
				}
				c.need(stored, "canonical-before-use", e.At, t, "a handler, middleware or error handler runs before the canonical path has replaced the request's path")
			case e.Kind == EvMapGet && d.isRoutes(e.Term) && len(e.Args) > 0:
				k, ok := d.key(e.Args[0])
				good := ok
				if ok && k.level == "walk" {
					good = false
					if k.phi.Op == OPhi {
						if l, _ := loopOfPhi(t, k.phi); l != nil {
							in := l.Init[k.phi]
							good = d.isPath(in) || isCall(in, "path.Dir") && d.isPath(in.Args[0])
						}
					} else {
						good = true
					}
				}
				c.need(good, "canonical-match", e.At, t, "routes are matched with %s, which is not derived from the canonical path", clip(e.Args[0].String()))
			}
			_ = i
		}
	}
	c.atLeast(uses, 3, "coverage", "places where handlers run")

	// the canonical form itself
	fn := c.P.fn("router", "cleanPath")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "cleanPath not found")
		return
	}
	p := param("p", fn.Params[0].Type(), false)
	slash := mkStr("/")
	n := 0
	// whether the request's path is known to end (1) or not to end (-1) in a slash
	ends := func(facts map[*Term]bool) int {
		for _, x := range []*Term{p, mkConcat(slash, p)} {
			f := mkCallP("strings.HasSuffix", types.Typ[types.Bool], x, slash)
			if holds(facts, f) {
				return 1
			}
			if refuted(facts, f) {
				return -1
			}
		}
		return 0
	}
	for _, t := range c.run(newExec(c.P, c.opq()), fn, []*Term{p}, nil, nil) {
		if t.End != EndReturn {
			c.need(false, "clean-form", t.At, t, "cleaning a path can end in %s", t.End)
			continue
		}
		n++
		facts := allFacts(t)
		r := t.Ret[0]
		abs := holds(facts, mkCallP("strings.HasPrefix", types.Typ[types.Bool], p, slash))
		empty := holds(facts, mkEq(p, mkStr("")))
		cleaned := func(x *Term) bool {
			if isCall(x, "path.Clean") {
				a := x.Args[0]
				return a == p && abs && !empty || a == mkConcat(slash, p)
			}
			if isCall(x, "path.Join") && len(x.Args) == 1 && x.Args[0].Op == OSliceLit {
				as := x.Args[0].Args
				return len(as) == 2 && as[0].IsStr("/") && (as[1] == p || as[1] == mkConcat(slash, p)) || len(as) == 1 && as[0] == mkConcat(slash, p)
			}
			return false
		}
		ok := false
		switch {
		case r.IsStr("/"):
			ok = empty
			for f, v := range facts {
				if v && f.Op == OEq && f.Args[1].IsStr("/") && cleaned(f.Args[0]) {
					ok = true
				}
			}
		case cleaned(r):
			ok = true
			c.need(ends(facts) < 0 || empty || holds(facts, mkEq(r, slash)), "trailing-slash", t.At, t, "the canonical path %s has lost a trailing slash of the request's path", clip(r.String()))
		case r.Op == OConcat && len(r.Args) == 2 && cleaned(r.Args[0]) && r.Args[1].IsStr("/"):
			ok = refuted(facts, mkEq(r.Args[0], slash))
			c.need(ends(facts) > 0, "trailing-slash", t.At, t, "the canonical path %s has a trailing slash the request's path may not have", clip(r.String()))
		case r == p:
			// unchanged: must be known to equal clean + "/" (or clean)
			for f, v := range facts {
				if v && isCall(f, "strings.HasPrefix") && f.Args[0] == p && cleaned(f.Args[1]) {
					np := f.Args[1]
					ends := holds(facts, mkCallP("strings.HasSuffix", types.Typ[types.Bool], p, slash))
					ln := holds(facts, mkEq(mkLen(p), mkAdd(mkLen(np), mkInt(1), 1, types.Typ[types.Int])))
					if ends && ln && refuted(facts, mkEq(np, slash)) {
						ok = true
					}
				}
				if v && f.Op == OEq && (f.Args[0] == p && cleaned(f.Args[1]) || f.Args[1] == p && cleaned(f.Args[0])) {
					ok = true
				}
				if v && f.Op == OEq {
					for k := 0; k < 2; k++ {
						a, b := f.Args[k], f.Args[1-k]
						if a == p && b.Op == OConcat && len(b.Args) == 2 && cleaned(b.Args[0]) && b.Args[1].IsStr("/") && refuted(facts, mkEq(b.Args[0], slash)) {
							ok = true
						}
					}
				}
			}
		case r == mkConcat(slash, p):
			for f, v := range facts {
				if v && isCall(f, "strings.HasPrefix") && f.Args[0] == r && cleaned(f.Args[1]) {
					np := f.Args[1]
					ends := holds(facts, mkCallP("strings.HasSuffix", types.Typ[types.Bool], r, slash)) || holds(facts, mkCallP("strings.HasSuffix", types.Typ[types.Bool], p, slash))
					ln := false
					for _, l := range []*Term{mkLen(r), mkAdd(mkLen(p), mkInt(1), 1, types.Typ[types.Int])} {
						ln = ln || holds(facts, mkEq(l, mkAdd(mkLen(np), mkInt(1), 1, types.Typ[types.Int])))
					}
					if ends && ln && refuted(facts, mkEq(np, slash)) {
						ok = true
					}
				}
			}
		}
		c.need(ok, "clean-form", t.At, t, "the canonical path is returned as %s, which may be relative or contain '.', '..' or empty segments", clip(r.String()))
	}
	c.atLeast(n, 1, "coverage", "ways to return a canonical path")
}

func ruleC05(c *Ctx) {
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	na, nr := 0, 0
	for _, t := range d.traces {
		if t.End != EndReturn || !d.feasible(t) {
			continue
		}
		for _, o := range d.outcomes(t) {
			sel, _ := d.selected(t)
			if sel == nil {
				continue
			}
			acc, ref := d.contentVerdict(t, sel)
			if o.kind == "handler" {
				na++
				c.need(acc, "accept", o.ev.At, t, "a request is accepted although its content type (cut at ';') equals neither '*', the declared string nor one of the declared alternatives")
			} else if o.code == 406 {
				nr++
				c.need(ref && !acc, "refuse", o.ev.At, t, "a request is refused with 406 although the declared string and all declared alternatives were not ruled out")
			}
		}
	}
	c.atLeast(na, 2, "coverage", "accepting paths")
	c.atLeast(nr, 1, "coverage", "refusing paths")
}

var httpMethods = map[string]bool{"GET": true, "PUT": true, "POST": true, "DELETE": true, "PATCH": true, "CONNECT": true, "OPTIONS": true, "HEAD": true, "TRACE": true}
var legalMethods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
var davMethods = map[string]bool{"PROPFIND": true, "PROPPATCH": true, "MKCOL": true, "COPY": true, "MOVE": true, "LOCK": true, "UNLOCK": true}

func ruleC06(c *Ctx) {
	f := c.routeSchema()
	if f == nil {
		return
	}
	// normalised path: one form for "/x" and "/x/"
	normPath := func(facts map[*Term]bool, np, path *Term) bool {
		suf := mkCallP("strings.HasSuffix", types.Typ[types.Bool], path, mkStr("/"))
		isRoot := mkEq(path, mkStr("/"))
		if np == path {
			return refuted(facts, suf) || holds(facts, isRoot)
		}
		if np.IsStr("/") {
			return holds(facts, isRoot)
		}
		cut := np.Op == OSlice && np.Args[0] == path && (np.Args[1] == tNil || np.Args[1].IsInt(0)) && np.Args[2] == mkAdd(mkLen(path), mkInt(1), -1, types.Typ[types.Int])
		if cut {
			return holds(facts, suf) && refuted(facts, isRoot)
		}
		if (isCall(np, "strings.TrimSuffix") || isCall(np, "strings.TrimRight")) && np.Args[0] == path && np.Args[1].IsStr("/") {
			return refuted(facts, isRoot)
		}
		return false
	}
	// a legal registration is not stopped by a table or record that is not there: every stored record
	// has its table of methods, unless registering a method makes sure of it itself
	relies := false
	var complete []func()
	found := func(facts map[*Term]bool, m, k *Term) bool {
		for q, v := range facts {
			if v && q.Op == OLookOk && q.Args[0] == m && q.Args[1] == k {
				return true
			}
		}
		return false
	}
	present := func(facts map[*Term]bool, m *Term) bool {
		if m.Op == OMake || refuted(facts, mkEq(m, tNil)) {
			return true
		}
		r, p := fieldPath(m)
		if len(p) == 1 && p[0] == f.sub && r.Op == OLookup && found(facts, r.Args[0], r.Args[1]) {
			relies = true
			return true
		}
		for q, v := range facts {
			if v && q.Op == OLookOk && q.Args[0] == m {
				return true
			}
		}
		return false
	}
	for _, name := range []string{"AddRoute", "UseMiddleware"} {
		fn := c.P.method("router", "SRouter", name)
		var args []*Term
		for i, q := range fn.Params {
			args = append(args, param(q.Name(), q.Type(), i == 0))
		}
		sr, host, path := args[0], args[1], args[2]
		var method *Term
		handler := args[len(args)-1]
		if name == "AddRoute" {
			method = args[4]
		}
		isRoutes := func(t *Term) bool {
			r, p := fieldPath(t)
			return r == sr && len(p) == 1 && p[0] == f.routes || t.Op == OMake
		}
		updates := 0
		accepted := map[string]bool{}
		for _, t := range c.run(newExec(c.P, c.opq()), fn, args, nil, nil) {
			n, inner := 0, 0
			if t.End == EndReturn && method != nil {
				if m := constOf(allFacts(t), method); m != nil {
					if ms, ok := m.Str(); ok {
						off, on := true, true
						for q, v := range allFacts(t) {
							if fieldIs(q, "WebDAV") {
								off, on = off && !v, on && v
							}
						}
						if off {
							accepted[ms] = true
						}
						if on {
							accepted[ms+" "] = true
						}
					}
				}
			}
			fresh := map[*Term]bool{} // records created on this path
			for i, e := range t.Evs {
				isTop := e.Kind == EvMapSet && len(e.Args) >= 1 && e.Args[0].Op == OConcat && e.Args[0].has(host)
				if e.Kind == EvMapSet && e.Term.Op == OMake && !isTop {
					fresh[e.Term] = true
				}
				if e.Kind == EvStore && e.Term.Op == OField && root(e.Term) == sr && e.Term.Name == f.routes {
					facts := factsAt(t, i)
					old := false
					for q, v := range facts {
						if v && q.Op == OEq && q.Args[1] == tNil && isRoutes(q.Args[0]) {
							old = true
						}
					}
					c.need(old && e.Args[0].Op == OMake, "keep-table", e.At, t, "the route table is replaced while it may hold routes")
				}
				isInner := e.Kind == EvMapSet && !isTop && len(e.Args) >= 1 && method != nil && e.Args[0] == method
				isField := e.Kind == EvStore && e.Term.Op == OField && e.Term.Name == f.mw && root(e.Term).Op != OAlloc
				if !isTop && !isInner && !isField {
					if e.Kind == EvMapSet && isRoutes(e.Term) && e.Term.Op != OMake {
						c.need(false, "table-key", e.At, t, "the route table is updated under %s, not under host and path", clip(e.arg(0).String()))
					}
					continue
				}
				n++
				facts := factsAt(t, i)
				at := e.At
				if e.Kind == EvMapSet && e.Name != "delete" {
					c.need(present(facts, e.Term), "present", at, t, "%s is stopped when %s is not there", name, clip(e.Term.String()))
					if st, isSt := structOf(e.arg(1)); isTop && isSt {
						for j, a := range e.arg(1).Args {
							if st.Field(j).Name() == f.sub {
								r, p := fieldPath(a)
								ok := a.Op == OMake || refuted(facts, mkEq(a, tNil)) || len(p) == 1 && p[0] == f.sub && r.Op == OLookup && found(facts, r.Args[0], r.Args[1])
								complete = append(complete, func() {
									c.need(ok, "present", at, t, "%s stores a record whose methods cannot be registered: %s", name, clip(a.String()))
								})
							}
						}
					} else if isTop && isSt == false && e.arg(1).Op != OLookup {
						v := e.arg(1)
						complete = append(complete, func() {
							c.need(false, "present", at, t, "%s stores %s, which may have no table of methods", name, clip(v.String()))
						})
					}
				}
				c.need(refuted(facts, mkEq(host, mkStr(""))), "blank-host", at, t, "the route table is changed for a host that may be blank")
				c.need(refuted(facts, mkEq(path, mkStr(""))), "blank-path", at, t, "the route table is changed for a path that may be blank")
				c.need(refuted(facts, mkEq(handler, tNil)), "nil-handler", at, t, "the route table is changed although the handler may be nil")
				if method != nil {
					m := constOf(facts, method)
					ms := ""
					if m != nil {
						ms, _ = m.Str()
					}
					if c.need(httpMethods[ms] || davMethods[ms], "unknown-method", at, t, "the route table is changed for a method that was not found to be a known one (%q)", ms) && davMethods[ms] {
						dav := false
						for q, v := range facts {
							if v && fieldIs(q, "WebDAV") {
								dav = true
							}
						}
						c.need(dav, "webdav", at, t, "the WebDAV method %s is registered although WebDAV may be off", ms)
					}
				}
				if isTop {
					k := e.Args[0]
					ok := len(k.Args) >= 2 && k.Args[0] == host
					if ok {
						np := mkConcat(k.Args[1:]...)
						ok = normPath(facts, np, path)
					}
					c.need(ok, "one-entry", at, t, "the table key %s does not treat the path with and without trailing slash as one entry of that host", clip(k.String()))
					if e.Name == "delete" {
						c.need(false, "keep-entry", at, t, "a route entry is deleted")
						continue
					}
					// a replaced entry keeps what it had
					exists := true
					for q, v := range facts {
						if q.Op == OLookOk && q.Args[1] == k && !v {
							exists = false
						}
					}
					for _, g := range t.Evs[:i] {
						if g.Kind == EvMapSet && g.Args[0] == k {
							exists = false // entry created on this path; what was stored there is checked below
						}
						if g.Kind == EvStore && g.Term.Op == OField && root(g.Term) == sr && g.Term.Name == f.routes {
							exists = false // the table itself was just created
						}
					}
					if exists {
						v := e.Args[1]
						keep := false
						if st, isSt := structOf(v); isSt {
							keep = true
							for j, a := range v.Args {
								fld := st.Field(j).Name()
								own := func(y *Term) bool {
									r, p := fieldPath(y)
									return len(p) == 1 && p[0] == fld && r.Op == OLookup && r.Args[1] == k
								}
								if fld == f.mw && a.Op == OAppend {
									a = a.Args[0]
								}
								if !own(a) {
									keep = false
								}
							}
						}
						if v.Op == OLookup && v.Args[1] == k {
							keep = true
						}
						c.need(keep, "keep-entry", at, t, "registering replaces an existing entry of this host and path and loses methods or middleware registered before")
					}
				}
				if isInner {
					inner++
					ok := false
					r, p := fieldPath(e.Term)
					if len(p) == 1 && p[0] == f.sub && r.Op == OLookup && r.Args[1].Op == OConcat && r.Args[1].Args[0] == host {
						ok = normPath(facts, mkConcat(r.Args[1].Args[1:]...), path)
					}
					if e.Term.Op == OMake {
						// a fresh record: must be the one stored in the table under this key
						for _, g := range t.Evs {
							if g.Kind == EvMapSet && len(g.Args) == 2 && g.Args[0].Op == OConcat && g.Args[0].has(host) && g.Args[1].has(e.Term) {
								ok = true
							}
						}
					}
					c.need(ok, "method-slot", at, t, "the method is registered in a record that is not the one of this host and path")
					v := e.arg(1)
					if st, isSt := structOf(v); isSt {
						good := 0
						for j, a := range v.Args {
							switch st.Field(j).Name() {
							case f.handler:
								if a == handler {
									good++
								}
							case f.content:
								if a == args[5] {
									good++
								}
							case f.fallback:
								if a == args[3] {
									good++
								}
							}
						}
						c.need(good == 3, "record", at, t, "the stored route does not hold exactly the registered handler, content type and fallback flag")
					}
				}
			}
			if t.End == EndReturn {
				updates++
				c.need(n > 0 && (method == nil || inner == 1), "registers", t.At, t, "%s returns without having registered the route", name)
			} else if t.End == EndPanic || t.End == EndExit {
				c.need(n == 0, "abort-before-change", t.At, t, "%s aborts after the route table was changed", name)
				facts := allFacts(t)
				why := holds(facts, mkEq(host, mkStr(""))) || holds(facts, mkEq(path, mkStr(""))) || holds(facts, mkEq(handler, tNil))
				if method != nil && !why {
					why = true
					davOff := false
					for q, v := range facts {
						davOff = davOff || !v && fieldIs(q, "WebDAV")
					}
					for _, m := range legalMethods {
						if !davMethods[m] || !davOff {
							why = why && !holds(facts, mkEq(method, mkStr(m))) && (refuted(facts, mkEq(method, mkStr(m))) || holds(facts, mkEq(method, mkStr(""))))
						}
					}
				}
				c.need(why, "legal-accepted", t.At, t, "%s refuses a registration that may be legal", name)
			}
		}
		c.atLeast(updates, 2, "coverage", name+" registering paths")
		if method != nil {
			for _, ms := range legalMethods {
				c.need(accepted[ms+" "] && (accepted[ms] || davMethods[ms]), "legal-method", fn.Pos(), nil, "no path of %s registers a route for the method %s", name, ms)
			}
		}
	}
	if relies {
		for _, f := range complete {
			f()
		}
	}
}
