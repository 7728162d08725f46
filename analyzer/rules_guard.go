package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "path-sensitive dataflow: credential facts dominating every call of the protected handler", ruleC09)
	register("C10", "path-sensitive dataflow: ordered events on every refusing path", ruleC10)
	register("C12", "path-sensitive dataflow: listed/unlisted proofs against the verdict on every path", ruleC12)
	register("C13", "taint: what request data may enter a client's identity", ruleC13)
	register("C14", "typestate of the client's bucket on every path (lock, find, create, store, token, pass)", ruleC14)
	register("C15", "path-sensitive effect counting: calls of next handler and error handler per path", ruleC15)
}

// mwRun is a middleware of the module: factory applied to a handler, and the
// handler it returns applied to a request.
type mwRun struct {
	Fn      *ssa.Function
	Recv    *Term // receiver or first parameter that is not the handler
	Handler *Term
	Made    *Trace
	W, R    *Term
	Traces  []*Trace
	X       *Exec
}

func isHandlerT(t types.Type) bool {
	if typeIs(t, "net/http", "HandlerFunc") || typeIs(t, "net/http", "Handler") {
		return true
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 2 || sig.Results().Len() != 0 {
		return false
	}
	return isRW(sig.Params().At(0).Type()) && isReq(sig.Params().At(1).Type())
}

// middlewareFuncs: functions from handler to handler.
func (p *Program) middlewareFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		ps := sigParams(fn)
		if len(ps) == 1 && isHandlerT(ps[0]) && isHandlerT(fn.Signature.Results().At(0).Type()) {
			out = append(out, fn)
		}
	}
	return out
}

func (c *Ctx) middlewareRuns(fn *ssa.Function, opaque func(*ssa.Function) bool) []*mwRun {
	var args []*Term
	var h, recv *Term
	for i, q := range fn.Params {
		a := param(q.Name(), q.Type(), true)
		args = append(args, a)
		if isHandlerT(q.Type()) && h == nil && (i > 0 || fn.Signature.Recv() == nil) {
			h = a
		} else if recv == nil {
			recv = a
		}
	}
	x := newExec(c.P, opaque)
	var out []*mwRun
	for _, t := range c.run(x, fn, args, nil, nil) {
		if t.End != EndReturn {
			c.need(t.End == EndPanic && len(t.Evs) > 0, "factory-end", t.At, t, "building the middleware ends in %s", t.End)
			continue
		}
		m := &mwRun{Fn: fn, Recv: recv, Handler: h, Made: t}
		ret := t.Ret[0]
		if ret == h {
			// no middleware at all: the handler itself
			out = append(out, m)
			continue
		}
		if isFn(ret) == nil {
			out = append(out, m)
			continue
		}
		inner := isFn(ret)
		m.W = param("w", nil, true)
		m.R = param("r", nil, true)
		var as []*Term
		for _, q := range inner.Params {
			as = append(as, param(q.Name(), q.Type(), true))
		}
		if len(as) == 2 {
			m.W, m.R = as[0], as[1]
		}
		x2 := newExec(c.P, opaque)
		m.X = x2
		st := onlyConds(t.St)
		shareCaptured(x2, st, ret)
		m.Traces = c.runTerm(x2, ret, as, st)
		out = append(out, m)
	}
	return out
}

type mwOut struct {
	kind string // next, error
	code int64
	ev   *Ev
	at   int
}

// outcomes of a middleware path.
func (m *mwRun) outcomes(t *Trace) []mwOut {
	var out []mwOut
	for i, e := range t.Evs {
		if o, ok := mwOutcome(e, m.Handler); ok {
			o.at = i
			out = append(out, o)
		}
	}
	return out
}

func isErrHandlerT(t types.Type) bool {
	if t == nil {
		return false
	}
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 3 && isRW(sig.Params().At(0).Type()) && isReq(sig.Params().At(1).Type())
}

func mwOutcome(e *Ev, h *Term) (mwOut, bool) {
	o := mwOut{ev: e, code: -1}
	switch e.Kind {
	case EvDyn:
		if h != nil && e.Term == h {
			o.kind = "next"
			return o, true
		}
		if len(e.Args) == 3 && (isErrHandlerT(e.Term.Typ) || fieldIs(e.Term, "ErrorHandler") || fieldIs(e.Term, "UnauthorizedHandler")) {
			o.kind = "error"
			if v, ok := e.arg(2).Int(); ok {
				o.code = v
			}
			return o, true
		}
	case EvCall:
		switch {
		case strings.HasSuffix(e.Name, ".ServeHTTP") && len(e.Args) == 3:
			o.kind = "other"
			if h != nil && e.Args[0] == h {
				o.kind = "next"
			}
			return o, true
		case e.Name == "net/http.Error":
			o.kind = "error"
			if v, ok := e.arg(2).Int(); ok {
				o.code = v
			}
			return o, true
		case e.Name == "net/http.NotFound", e.Name == "net/http.Redirect":
			o.kind = "error"
			return o, true
		case e.Name == "(net/http.ResponseWriter).WriteHeader":
			o.kind = "error"
			if v, ok := e.arg(1).Int(); ok {
				o.code = v
			}
			return o, true
		}
	case EvGo:
		if h != nil && (e.Term == h || len(e.Args) > 0 && e.Args[0] == h) {
			o.kind = "other"
			return o, true
		}
	}
	return o, false
}

// ---- basic auth ------------------------------------------------------------------------

func (c *Ctx) authRuns() []*mwRun {
	var out []*mwRun
	n := 0
	for _, fn := range c.P.middlewareFuncs() {
		if fn.Signature.Recv() == nil || !typeIs(fn.Signature.Recv().Type(), "guard", "BasicAuth") {
			continue
		}
		n++
		for _, m := range c.middlewareRuns(fn, c.opq()) {
			if m.Traces == nil {
				c.need(false, "unprotected", fn.Pos(), m.Made, "%s returns the handler without protection", fnName(fn))
				continue
			}
			out = append(out, m)
		}
	}
	c.atLeast(n, 1, "coverage", "basic authentication middleware")
	return out
}

type creds struct {
	r     *Term
	facts map[*Term]bool
}

func isAuthHeader(x, r *Term) bool {
	if !isCall(x, "(net/http.Header).Get") || len(x.Args) != 2 || !x.Args[1].IsStr("Authorization") {
		return false
	}
	root, p := fieldPath(x.Args[0])
	return root == r && len(p) == 1 && p[0] == "Header"
}

func isBasicAuthCall(x, r *Term) bool {
	return isCall(x, "(*net/http.Request).BasicAuth") && x.Args[0] == r
}

// decoded: x is the decoded payload of the Basic header of r, and it decoded well.
func (k *creds) decoded(x *Term) bool {
	x = stripConv(x)
	if x.Op != OExtract || x.N != 0 || x.Args[0].Op != OCall || x.Args[0].Name != "(*encoding/base64.Encoding).DecodeString" {
		return false
	}
	call := x.Args[0]
	if enc := call.Args[0]; enc.Op != ODeref || enc.Args[0].Op != OGlobal || enc.Args[0].Name != "encoding/base64.StdEncoding" {
		return false
	}
	a := call.Args[1]
	if a.Op != OSlice || !isAuthHeader(a.Args[0], k.r) || !a.Args[1].IsInt(6) || a.Args[2] != mkLen(a.Args[0]) {
		return false
	}
	if !holds(k.facts, mkCallP("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], mkStr("Basic "))) {
		return false
	}
	return holds(k.facts, mkEq(mk(OExtract, "", types.Universe.Lookup("error").Type(), nil, 1, call), tNil))
}

func (k *creds) part(x *Term, which string, n int64) bool {
	x = stripConv(x)
	if x.Op == OExtract && x.N == n && isBasicAuthCall(x.Args[0], k.r) {
		return holds(k.facts, mk(OExtract, "", types.Typ[types.Bool], nil, 2, x.Args[0]))
	}
	return x.Op == OCall && x.Name == which && k.decoded(x.Args[0]) && x.Args[1].IsStr(":") &&
		holds(k.facts, mkContains(stripConv(x.Args[0]), x.Args[1]))
}
func (k *creds) user(x *Term) bool { return k.part(x, "before", 0) }
func (k *creds) pass(x *Term) bool { return k.part(x, "after", 1) }

// digestOf: what was hashed to get a fixed-length digest (nil when x is no digest).
func digestOf(x *Term) *Term {
	for x.Op == OSlice || x.Op == ODeref {
		if x.Op == OSlice && !(x.Args[1].IsInt(0)) {
			return nil
		}
		if x.Op == OSlice {
			if n, ok := x.Args[2].Int(); ok && n < 16 {
				return nil
			}
		}
		x = x.Args[0]
	}
	if x.Op == OSliceLit && len(x.Args) >= 16 {
		// element-wise copy of a digest
		var d *Term
		for i, e := range x.Args {
			if e.Op != OIndex || !e.Args[1].IsInt(int64(i)) || d != nil && d != e.Args[0] {
				return nil
			}
			d = e.Args[0]
		}
		x = d
	}
	if x.Op == OCall && (strings.HasPrefix(x.Name, "crypto/sha256.Sum256") || strings.HasPrefix(x.Name, "crypto/sha512.Sum")) && len(x.Args) == 1 {
		return stripConv(x.Args[0])
	}
	return nil
}

// equalPairs: pairs of values known to be equal by a constant-time comparison.
func equalPairs(facts map[*Term]bool) [][2]*Term {
	var out [][2]*Term
	var one func(x *Term)
	one = func(x *Term) {
		switch {
		case x.Op == OBin && x.Name == "&":
			one(x.Args[0])
			one(x.Args[1])
		case isCall(x, "crypto/subtle.ConstantTimeCompare"), isCall(x, "crypto/hmac.Equal"):
			a, b := digestOf(x.Args[0]), digestOf(x.Args[1])
			if a != nil && b != nil {
				out = append(out, [2]*Term{a, b})
			}
		}
	}
	for f, v := range facts {
		if f.Op == OEq && v && f.Args[1].IsInt(1) {
			one(f.Args[0])
		}
		if f.Op == OEq && !v && f.Args[1].IsInt(0) {
			one(f.Args[0])
		}
		if v && isCall(f, "crypto/hmac.Equal") {
			one(f)
		}
	}
	return out
}

func ruleC09(c *Ctx) {
	passes, simple := 0, 0
	for _, m := range c.authRuns() {
		for _, t := range m.Traces {
			for _, o := range m.outcomes(t) {
				if o.kind != "next" {
					continue
				}
				passes++
				facts := factsAt(t, o.at)
				k := &creds{m.R, facts}
				// custom check
				custom := false
				authNil, authSet := false, false
				for f, v := range facts {
					if f.Op == OCall && f.Name == "dyn" && fieldIs(f.Args[0], "AuthFunc") && v && len(f.Args) == 4 {
						custom = custom || k.user(f.Args[1]) && k.pass(f.Args[2]) && f.Args[3] == m.R
					}
					if f.Op == OEq && f.Args[1] == tNil && fieldIs(f.Args[0], "AuthFunc") {
						authNil = authNil || v
						authSet = authSet || !v
					}
				}
				if custom && authSet {
					c.need(true, "custom-check", o.ev.At, t, "")
					continue
				}
				simple++
				c.need(authNil, "custom-check-bypassed", o.ev.At, t, "the handler runs without the custom check although one may be set")
				// a configured user
				isUsers := func(x *Term) bool {
					r, p := fieldPath(x)
					return len(p) == 1 && p[0] == "Users" && (r == m.Recv || r.Op == OAlloc || r.Op == ODeref)
				}
				entry := func(x *Term, field string) bool {
					r, p := fieldPath(x)
					if r.Op == ODeref {
						r = r.Args[0]
					}
					return len(p) == 1 && p[0] == field && r.Op == OLookup && isUsers(r.Args[0]) && k.user(r.Args[1])
				}
				known := false
				for f, v := range facts {
					if v && f.Op == OLookOk && isUsers(f.Args[0]) && k.user(f.Args[1]) {
						known = true
					}
				}
				var nameEq, passEq bool
				for _, pr := range equalPairs(facts) {
					for j := 0; j < 2; j++ {
						a, b := pr[j], pr[1-j]
						if k.user(a) && entry(b, "User") {
							nameEq = true
						}
						if k.pass(a) && entry(b, "Password") {
							passEq = true
						}
					}
				}
				c.need(known, "unknown-user", o.ev.At, t, "the handler runs although the submitted user was not found among the configured users (an absent user compares as blank name and password)")
				c.need(nameEq, "user-name", o.ev.At, t, "the handler runs although the submitted user name (first part of the decoded Basic credentials) was not found equal to the configured one")
				c.need(passEq, "password", o.ev.At, t, "the handler runs although the submitted password (rest of the decoded Basic credentials) was not found equal to the configured one of that user")
			}
		}
	}
	c.atLeast(passes, 2, "coverage", "authenticated paths")
	c.atLeast(simple, 1, "coverage", "authenticated paths with configured users")

	// the table built from the configuration holds each user's own name and password
	fn := c.P.fn("guard", "SimpleBasicAuth")
	if fn == nil {
		return
	}
	args := params(fn)
	n := 0
	for _, t := range c.run(newExec(c.P, c.opq()), fn, args, nil, nil) {
		for _, e := range t.Evs {
			if e.Kind != EvMapSet || len(e.Args) != 2 {
				continue
			}
			st, ok := structOf(e.Args[1])
			if !ok {
				continue
			}
			n++
			good := e.Args[0].Op == ORangeKey && e.Args[0].Args[0] == args[0]
			for i, a := range e.Args[1].Args {
				switch st.Field(i).Name() {
				case "User":
					good = good && a == e.Args[0]
				case "Password":
					good = good && a.Op == OLookup && a.Args[0] == args[0] && a.Args[1] == e.Args[0]
				}
			}
			c.need(good, "user-table", e.At, t, "a configured user is stored with a name or password that is not its own")
		}
		if t.End == EndReturn {
			a := t.Ret[0]
			for _, e := range t.Evs {
				if e.Kind == EvStore && e.Term.Op == OField && e.Term.Args[0] == a && e.Term.Name == "AuthFunc" {
					c.need(e.Args[0] == tNil, "user-table", e.At, t, "basic authentication with configured users gets a custom check")
				}
			}
		}
	}
	c.atLeast(n, 1, "coverage", "places where configured users are stored")
}

func isRespHeader(x, w *Term) bool {
	return isCall(x, "(net/http.ResponseWriter).Header") && len(x.Args) == 1 && x.Args[0] == w
}

func ruleC10(c *Ctx) {
	refused, defaults := 0, 0
	for _, m := range c.authRuns() {
		for _, t := range m.Traces {
			if t.End != EndReturn {
				continue
			}
			for _, o := range m.outcomes(t) {
				if o.kind != "error" {
					continue
				}
				refused++
				facts := factsAt(t, o.at)
				for f, v := range facts {
					if v && f.Op == OEq && f.Args[1] == tNil && fieldIs(f.Args[0], "UnauthorizedHandler") {
						defaults++
					}
				}
				c.need(o.code == 401, "status-401", o.ev.At, t, "failed authentication is answered with status %d instead of 401", o.code)
				if o.ev.Kind == EvDyn {
					c.need(o.ev.arg(0) == m.W && o.ev.arg(1) == m.R, "own-request", o.ev.At, t, "the unauthorized handler is not given the request's own writer and request")
					c.need(fieldIs(o.ev.Term, "UnauthorizedHandler"), "unauthorized-handler", o.ev.At, t, "something else than the unauthorized handler answers")
				}
				good := false
				for _, e := range t.Evs[:o.at] {
					if e.Kind == EvCall && (e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add") && isRespHeader(e.arg(0), m.W) {
						if s, ok := e.arg(1).Str(); ok && canonHeader(s) == "Www-Authenticate" {
							v := e.arg(2)
							first := v
							if v.Op == OConcat {
								first = v.Args[0]
							}
							fs, _ := first.Str()
							realm := v.contains(func(y *Term) bool { return fieldIs(y, "Realm") })
							good = strings.HasPrefix(fs, "Basic realm=") && realm && quotedRealm(v)
						}
					}
					if e.Kind == EvCall && e.Name == "(net/http.Header).Del" && isRespHeader(e.arg(0), m.W) {
						good = false
					}
				}
				c.need(good, "challenge", o.ev.At, t, "no 'WWW-Authenticate: Basic realm=...' challenge naming the realm is set before the unauthorized handler answers")
			}
			// every path that does not pass is refused
			os := m.outcomes(t)
			ne := 0
			for _, o := range os {
				if o.kind == "error" || o.kind == "next" {
					ne++
				}
			}
			c.need(ne >= 1, "answered", t.At, t, "a request that fails authentication gets no answer (an implicit empty 200)")
		}
	}
	c.atLeast(refused, 3, "coverage", "refusing paths")
	c.atLeast(defaults, 1, "coverage", "refusing paths with the default unauthorized handler")
}

// ---- firewall ----------------------------------------------------------------------------

func isPeer(c *Ctx, x, r *Term, facts map[*Term]bool) bool {
	remote := func(y *Term) bool {
		rt, p := fieldPath(y)
		return rt == r && len(p) == 1 && p[0] == "RemoteAddr"
	}
	if isCall(x, c.name("router.StripHostPort")) && remote(x.Args[0]) {
		return true
	}
	if x.Op == OExtract && x.N == 0 && isCall(x.Args[0], "net.SplitHostPort") && remote(x.Args[0].Args[0]) {
		return true
	}
	return false
}

type fw struct {
	c    *Ctx
	m    *mwRun
	path func(*Term) bool
	busy map[*Trace]bool
}

func (f *fw) isRules(x *Term) bool {
	r, p := fieldPath(x)
	return r == f.m.Recv && len(p) == 1 && p[0] == "Rules"
}

// list: x is Rules[key]
func (f *fw) list(x *Term) *Term {
	if x.Op == OLookup && f.isRules(x.Args[0]) {
		return x.Args[1]
	}
	return nil
}

func (f *fw) isPath(x *Term) bool {
	r, p := fieldPath(x)
	return r == f.m.R && len(p) == 2 && p[0] == "URL" && p[1] == "Path"
}

func (f *fw) flag(facts map[*Term]bool, name string) (val, known bool) {
	for t, v := range facts {
		if r, p := fieldPath(t); r == f.m.Recv && len(p) == 1 && p[0] == name && isBool(t.Typ) {
			return v, true
		}
	}
	return false, false
}

func isRootKey(facts map[*Term]bool, k *Term) bool {
	return k.IsStr("/") || holds(facts, mkEq(k, mkStr("/")))
}

// subOK: the rule for '/' applies to this request.
func (f *fw) subOK(facts map[*Term]bool) bool {
	if v, k := f.flag(facts, "Subpath"); k && !v {
		return true
	}
	for t, v := range facts {
		if v && t.Op == OEq && f.isPath(t.Args[0]) && t.Args[1].IsStr("/") {
			return true
		}
	}
	return false
}

func (f *fw) subNo(facts map[*Term]bool) bool {
	v, k := f.flag(facts, "Subpath")
	if !k || !v {
		return false
	}
	for t, v := range facts {
		if !v && t.Op == OEq && f.isPath(t.Args[0]) && t.Args[1].IsStr("/") {
			return true
		}
	}
	return false
}

// walk: k is the request path or one of its parents.
func (f *fw) walk(t *Trace, k *Term) bool {
	if f.isPath(k) {
		return true
	}
	if isCall(k, "path.Dir") {
		return f.walk(t, k.Args[0])
	}
	if k.Op != OPhi {
		return false
	}
	l, _ := loopOfPhi(t, k)
	if l == nil || !f.walk(t, l.Init[k]) {
		return false
	}
	for _, b := range l.Backs {
		n := b.Next[k]
		if n == nil || n != k && !(isCall(n, "path.Dir") && n.Args[0] == k) {
			return false
		}
	}
	return true
}

// matchFact: an equality between the client (or '*') and an element of Rules[key].
func (f *fw) matchFact(q *Term, facts map[*Term]bool) (key, elem, other *Term) {
	if q.Op != OEq {
		return
	}
	for j := 0; j < 2; j++ {
		a, b := q.Args[j], q.Args[1-j]
		if a.Op == ODeref && a.Args[0].Op == OIndexA {
			if k := f.list(a.Args[0].Args[0]); k != nil {
				return k, a, b
			}
		}
		if a.Op == OPhi { // loop variable holding the element
			continue
		}
	}
	return
}

// listed: the facts prove that a rule that applies lists the client.
func (f *fw) listed(t *Trace, facts map[*Term]bool) bool {
	for q, v := range facts {
		if !v {
			continue
		}
		k, _, o := f.matchFact(q, facts)
		if k == nil || !(o.IsStr("*") || isPeer(f.c, o, f.m.R, facts)) {
			continue
		}
		if f.walk(t, k) && refuted(facts, mkEq(k, mkStr("/"))) {
			return true
		}
		if isRootKey(facts, k) && f.subOK(facts) {
			return true
		}
	}
	// found flags: set only by iterations that prove it
	for _, e := range t.Evs {
		if e.Kind != EvLoopHead {
			continue
		}
		for g, in := range e.Loop.Init {
			if g.Op != OPhi || !isBool(g.Typ) || !holds(facts, g) {
				continue
			}
			if in != tFalse {
				// a flag carried on from an earlier loop
				if f.flagOf(t, g, map[*Term]bool{}) {
					return true
				}
				continue
			}
			ok, n := true, 0
			for _, b := range e.Loop.Backs {
				switch nx := b.Next[g]; {
				case nx == tFalse || nx == g:
				case nx != nil && f.flagOf(b.Tr, nx, map[*Term]bool{g: true}):
					n++
				default:
					n++
					if b.Next[g] != tTrue || !f.listedBack(t, b.Tr) {
						ok = false
					}
				}
			}
			if ok && n > 0 {
				return true
			}
		}
	}
	return false
}

// flagOf: x is a flag of an inner loop that is only ever set by iterations that prove listed.
func (f *fw) flagOf(t *Trace, x *Term, seen map[*Term]bool) bool {
	if x == tFalse || seen[x] {
		return true
	}
	seen[x] = true
	l, _ := loopOfPhi(t, x)
	if l == nil || !isBool(x.Typ) || !(l.Init[x] == tFalse || f.flagOf(t, l.Init[x], seen)) {
		return false
	}
	for _, b := range l.Backs {
		if n := b.Next[x]; n == tFalse || n == x || n == tTrue && f.listedBack(t, b.Tr) || n != nil && n != tTrue && f.flagOf(b.Tr, n, seen) {
			continue
		}
		return false
	}
	return true
}

func (f *fw) listedBack(t, b *Trace) bool {
	if f.busy[b] {
		return false
	}
	if f.busy == nil {
		f.busy = map[*Trace]bool{}
	}
	f.busy[b] = true
	defer delete(f.busy, b)
	return f.listed(b, allFacts(b))
}

// noMatch: the facts prove that Rules[key] does not list the client.
func (f *fw) noMatch(t *Trace, facts map[*Term]bool, isKey func(*Term) bool) bool {
	for q, v := range facts {
		if !v && q.Op == OLookOk && f.isRules(q.Args[0]) && isKey(q.Args[1]) {
			return true
		}
		if v && q.Op == OEq && q.Args[1].IsInt(0) && q.Args[0].Op == OLen {
			if k := f.list(q.Args[0].Args[0]); k != nil && isKey(k) {
				return true
			}
		}
		if v && q.Op == OEq && q.Args[1] == tNil {
			if k := f.list(q.Args[0]); k != nil && isKey(k) {
				return true
			}
		}
	}
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead {
			continue
		}
		list, ok := (*Term)(nil), len(e.Loop.Backs) > 0
		for _, b := range e.Loop.Backs {
			if f.c.backExcluded(e.Loop, b, facts) {
				continue
			}
			bf := allFacts(b.Tr)
			notMe, notStar := false, false
			for q, v := range bf {
				if v {
					continue
				}
				k, el, o := f.matchFact(q, bf)
				if k == nil || !isKey(k) {
					continue
				}
				idx := el.Args[0].Args[1]
				if !usesPhiOf(idx, e.Loop) {
					continue
				}
				list = el.Args[0].Args[0]
				notStar = notStar || o.IsStr("*")
				notMe = notMe || isPeer(f.c, o, f.m.R, bf)
			}
			ok = ok && notMe && notStar
		}
		if ok && list != nil && fullScan(t, i, e.Loop, list) {
			return true
		}
	}
	return false
}

func usesPhiOf(x *Term, l *LoopInfo) bool {
	return x.contains(func(y *Term) bool { _, ok := l.Init[y]; return ok && y.Op == OPhi })
}

// backExcluded: a flag of the loop shows that this iteration has not taken place.
func (c *Ctx) backExcluded(l *LoopInfo, b *Back, facts map[*Term]bool) bool {
	for g, in := range l.Init {
		if g.Op != OPhi || !isBool(g.Typ) {
			continue
		}
		if v, k := knownBool(facts, in); k {
			in = mkBool(v)
		}
		// sticky flag: once changed from its initial value it stays
		sticky := true
		for _, o := range l.Backs {
			if n := o.Next[g]; n != g && !(n.IsConst() && n != in) {
				sticky = false
			}
		}
		if !sticky || !in.IsConst() {
			continue
		}
		if v, k := factsKnow(facts, g); k && mkBool(v) == in && b.Next[g].IsConst() && b.Next[g] != in {
			return true
		}
	}
	return false
}

// unlisted: the facts prove that no rule that applies lists the client.
func (f *fw) unlisted(t *Trace, facts map[*Term]bool) bool {
	key := func(want *Term) func(*Term) bool { return func(k *Term) bool { return k == want } }
	below := false
	root := f.subNo(facts) || f.noMatch(t, facts, func(k *Term) bool { return isRootKey(facts, k) })
	for q, v := range facts {
		if v && q.Op == OEq && f.isPath(q.Args[0]) && q.Args[1].IsStr("/") {
			below = true // nothing below the root
			root = root || f.noMatch(t, facts, f.isPath)
		}
	}
	// a path that goes through a later generic iteration has left the loop from it
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead {
			continue
		}
		for phi, in := range e.Loop.Init {
			if phi.Op != OPhi || !isString(phi.Typ) || !f.walk(t, phi) {
				continue
			}
			if !f.isPath(in) {
				ok := isCall(in, "path.Dir") && f.isPath(in.Args[0]) && f.noMatch(t, facts, f.isPath)
				if !ok {
					continue
				}
			}
			out := false
			for _, g := range t.Evs[i:] {
				if g.Kind == EvLoopOut && g.Loop == e.Loop {
					out = true
				}
			}
			atRoot := holds(facts, mkEq(phi, mkStr("/"))) || holds(facts, mkEq(phi, mkStr(".")))
			if !atRoot {
				atRoot = isRootPath(facts, phi)
			}
			if !out || !atRoot {
				continue
			}
			all := true
			for _, b := range e.Loop.Backs {
				if f.c.backExcluded(e.Loop, b, facts) {
					continue
				}
				bf := allFacts(b.Tr)
				ok := f.noMatch(b.Tr, bf, key(phi))
				if !ok && isRootKey(bf, phi) && f.subNo(bf) {
					ok = true
				}
				all = all && ok
			}
			below = below || all
		}
	}
	return below && root
}

func (c *Ctx) firewallRuns() []*mwRun {
	var out []*mwRun
	n := 0
	for _, fn := range c.P.middlewareFuncs() {
		if fn.Signature.Recv() == nil || !typeIs(fn.Signature.Recv().Type(), "guard", "Firewall") {
			continue
		}
		n++
		for _, m := range c.middlewareRuns(fn, c.opq("router.StripHostPort")) {
			if m.Traces == nil {
				c.need(false, "unprotected", fn.Pos(), m.Made, "%s returns the handler without a firewall", fnName(fn))
				continue
			}
			out = append(out, m)
		}
	}
	c.atLeast(n, 2, "coverage", "firewall middleware (HTTP and proxy)")
	return out
}

func ruleC12(c *Ctx) {
	for _, m := range c.firewallRuns() {
		f := &fw{c: c, m: m}
		got := map[string]int{}
		for _, t := range m.Traces {
			if t.End != EndReturn {
				continue
			}
			for _, o := range m.outcomes(t) {
				facts := factsAt(t, o.at)
				black, known := f.flag(facts, "Blacklisting")
				if !c.need(known, "mode", o.ev.At, t, "a verdict is given without looking at the firewall's mode") {
					continue
				}
				li, un := f.listed(t, facts), f.unlisted(t, facts)
				c.need(!(li && un), "decided", o.ev.At, t, "internal: path proves both listed and unlisted")
				mode := "whitelist"
				if black {
					mode = "blacklist"
				}
				if o.kind == "next" {
					got[mode+" pass"]++
					c.need(black && un || !black && li, mode+"-pass", o.ev.At, t, "a client is let through in %s mode although it was not shown to be %s by the rules for the path and its parents", mode, map[bool]string{true: "unlisted", false: "listed"}[black])
				} else {
					got[mode+" block"]++
					c.need(o.code == 403, "status-403", o.ev.At, t, "a blocked client gets %d instead of 403", o.code)
					c.need(black && li || !black && un, mode+"-block", o.ev.At, t, "a client is blocked in %s mode although it was not shown to be %s by the rules for the path and its parents", mode, map[bool]string{true: "listed", false: "unlisted"}[black])
				}
			}
		}
		for _, k := range []string{"blacklist pass", "blacklist block", "whitelist pass", "whitelist block"} {
			c.atLeast(got[k], 1, "coverage", k+" paths in "+fnName(m.Fn))
		}
	}
	// a new firewall's built-in refusal really is a 403
	c.builtinRefusals("guard", "NewFirewall", "ErrorHandler", 403)
}

// builtinRefusals: the error handler a constructor installs answers with code.
func (c *Ctx) builtinRefusals(rel, ctor, field string, code int64) {
	fn := c.P.fn(rel, ctor)
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "%s.%s not found", rel, ctor)
		return
	}
	n := 0
	for _, t := range c.run(newExec(c.P, c.opq()), fn, params(fn), nil, nil) {
		for _, e := range t.Evs {
			if e.Kind != EvStore || e.Term.Op != OField || e.Term.Name != field || isFn(e.Args[0]) == nil {
				continue
			}
			n++
			h := isFn(e.Args[0])
			var as []*Term
			for i, q := range h.Params {
				if i == 2 {
					as = append(as, mkInt(code))
				} else {
					as = append(as, param(q.Name(), q.Type(), true))
				}
			}
			for _, u := range c.runTerm(newExec(c.P, c.opq()), e.Args[0], as, nil) {
				k := 0
				for _, g := range u.Evs {
					if o, ok := mwOutcome(g, nil); ok && o.kind == "error" && o.code == code {
						k++
					}
				}
				c.need(k == 1 && u.End == EndReturn, "builtin-refusal", h.Pos(), u, "the built-in error handler does not answer with %d", code)
			}
		}
	}
	c.atLeast(n, 1, "coverage", "built-in error handlers set by "+ctor)
}

// ---- identity ------------------------------------------------------------------------------

// limiterKey: peer address, optionally followed by a separator and the user agent.
func (c *Ctx) limiterKey(x, r *Term, facts map[*Term]bool) (ok, agent, sep bool) {
	if isPeer(c, x, r, facts) {
		return true, false, true
	}
	if x.Op != OConcat {
		return
	}
	isUA := func(y *Term) bool {
		if !isCall(y, "(net/http.Header).Get") || !y.Args[1].IsStr("User-Agent") {
			return false
		}
		rt, p := fieldPath(y.Args[0])
		return rt == r && len(p) == 1 && p[0] == "Header"
	}
	as := x.Args
	if len(as) == 2 && isPeer(c, as[0], r, facts) && isUA(as[1]) {
		return true, true, false
	}
	if len(as) == 3 && isPeer(c, as[0], r, facts) && isUA(as[2]) {
		if s, isS := as[1].Str(); isS {
			// a byte that can not be part of an address
			return true, true, strings.IndexAny(s, "0123456789abcdefABCDEF.:%[]") != 0
		}
	}
	return
}

func (c *Ctx) limiterRuns() []*mwRun {
	var out []*mwRun
	n := 0
	for _, fn := range c.P.middlewareFuncs() {
		if fn.Signature.Recv() == nil || !typeIs(fn.Signature.Recv().Type(), "guard", "Limiter") {
			continue
		}
		n++
		for _, m := range c.middlewareRuns(fn, c.opq("router.StripHostPort", "cache.SpearCache.Get", "cache.SpearCache.Set", "cache.SpearCache.Find")) {
			if m.Traces == nil {
				c.need(false, "unprotected", fn.Pos(), m.Made, "%s returns the handler without rate limiting", fnName(fn))
				continue
			}
			out = append(out, m)
		}
	}
	c.atLeast(n, 1, "coverage", "rate limiting middleware")
	return out
}

func ruleC13(c *Ctx) {
	n := 0
	for _, m := range c.firewallRuns() {
		f := &fw{c: c, m: m}
		for _, t := range m.Traces {
			facts := allFacts(t)
			for _, e := range t.Evs {
				if e.Kind != EvCond {
					continue
				}
				k, _, o := f.matchFact(e.Term, facts)
				if k == nil {
					continue
				}
				n++
				c.need(o.IsStr("*") || isPeer(c, o, m.R, facts), "firewall-identity", e.At, t, "the firewall compares its rules with %s, which is not the connection's peer address without port", clip(o.String()))
			}
			for _, e := range t.Evs {
				if e.Kind == EvMapGet && f.isRules(e.Term) && len(e.Args) > 0 {
					k := e.Args[0]
					c.need(k.IsStr("/") || f.walk(t, k), "firewall-rule-key", e.At, t, "firewall rules are looked up with %s, which is not the request path or one of its parents", clip(k.String()))
				}
			}
			c.onlyReads(t, m.R, "RemoteAddr", "URL")
		}
	}
	get, set := c.name("cache.SpearCache.Get"), c.name("cache.SpearCache.Set")
	for _, m := range c.limiterRuns() {
		for _, t := range m.Traces {
			for i, e := range t.Evs {
				if e.Kind == EvCall && (e.Name == get || e.Name == set) {
					n++
					facts := factsAt(t, i)
					ok, agent, _ := c.limiterKey(e.arg(1), m.R, facts)
					c.need(ok, "limiter-identity", e.At, t, "the limiter's client key is %s: not the peer address (optionally with the User-Agent)", clip(e.arg(1).String()))
					if ok {
						fv, fk := false, false
						for q, v := range facts {
							if fieldIs(q, "FilterOnIP") {
								fv, fk = v, true
							}
						}
						c.need(fk && fv != agent, "limiter-identity-mode", e.At, t, "the User-Agent is part of the client key although the limiter is restricted to addresses (or missing although it is not)")
					}
				}
			}
		}
	}
	c.atLeast(n, 4, "coverage", "uses of the client identity")
	// port removal
	fn := c.P.fn("router", "StripHostPort")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "router.StripHostPort not found")
	} else {
		h := params(fn)
		k := 0
		for _, t := range c.run(newExec(c.P, c.opq()), fn, h, nil, nil) {
			if !c.need(t.End == EndReturn, "strip-port", t.At, t, "removing the port can end in %s", t.End) {
				continue
			}
			k++
			facts := allFacts(t)
			r := t.Ret[0]
			isSplit := func(x *Term) bool {
				return x.Op == OExtract && isCall(x.Args[0], "net.SplitHostPort") && x.Args[0].Args[0] == h[0]
			}
			ok := false
			if r.Op == OExtract && r.N == 0 && isSplit(r) {
				ok = true
			}
			if r == h[0] {
				for q, v := range facts {
					if q.Op == OEq && !v && q.Args[1] == tNil && isSplit(q.Args[0]) {
						ok = true
					}
					if isCall(q, "strings.Contains") && !v && q.Args[0] == h[0] && q.Args[1].IsStr(":") {
						ok = true
					}
				}
			}
			c.need(ok, "strip-port", t.At, t, "StripHostPort returns %s: neither the host part nor an address known to have no port", clip(r.String()))
		}
		c.atLeast(k, 2, "coverage", "ways to remove a port")
	}
	// nobody rewrites the peer address
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeIs(fa.X.Type(), "net/http", "Request") {
					fv, _ := structField(fa.X.Type(), fa.Field)
					own := false // a request the server itself makes
					if ex, ok := fa.X.(*ssa.Extract); ok {
						if cl, ok := ex.Tuple.(*ssa.Call); ok && cl.Call.StaticCallee() != nil {
							own = strings.HasPrefix(fnName(cl.Call.StaticCallee()), "net/http.NewRequest")
						}
					}
					c.need(fv.Name() != "RemoteAddr" || own, "peer-address-rewritten", st.Pos(), nil, "%s overwrites the peer address of a request", fnName(fn))
				}
			}
		}
	}
	c.Notes = append(c.Notes, "stores to http.Request.RemoteAddr searched in the whole module")
}

// quotedRealm: the realm is a quoted string, as a realm has to be.
func quotedRealm(v *Term) bool {
	ps := concatParts(v)
	for i, p := range ps {
		if !p.contains(func(y *Term) bool { return fieldIs(y, "Realm") }) {
			continue
		}
		if p.Op == OFmt && p.Name == "%q" || strings.HasPrefix(p.Name, "strconv.Quote") || strings.HasPrefix(p.Name, "strconv.AppendQuote") {
			return true
		}
		before, ok := ps[max(i-1, 0)].Str()
		if i == 0 || !ok || !strings.HasSuffix(before, `"`) || i+1 == len(ps) {
			return false
		}
		after, ok := ps[i+1].Str()
		return ok && strings.HasPrefix(after, `"`)
	}
	return v.contains(func(y *Term) bool {
		return y.Op == OFmt && y.Name == "%q" || y.Op == OCall && strings.HasPrefix(y.Name, "strconv.Quote")
	})
}

// onlyReads: of the request, only the named fields are looked at.
func (c *Ctx) onlyReads(t *Trace, r *Term, fields ...string) {
	for _, e := range t.Evs {
		if e.Kind != EvLoad || e.Term.Op != OField {
			continue
		}
		a := e.Term
		for a.Op == OField && a.Args[0] != r {
			a = a.Args[0]
		}
		if a.Op != OField {
			continue
		}
		ok := false
		for _, f := range fields {
			ok = ok || a.Name == f
		}
		c.need(ok, "request-data", e.At, t, "the verdict depends on request data (%s) other than %s", a.Name, strings.Join(fields, ", "))
	}
}

// ---- limiter --------------------------------------------------------------------------------

func ruleC14(c *Ctx) {
	get, set := c.name("cache.SpearCache.Get"), c.name("cache.SpearCache.Set")
	passes, refusals, created := 0, 0, 0
	for _, m := range c.limiterRuns() {
		for _, t := range m.Traces {
			if t.End != EndReturn && t.End != EndPanic {
				continue
			}
			facts := allFacts(t)
			typeMismatch := false
			for q, v := range facts {
				if q.Op == OAssertOk && !v && strings.HasSuffix(q.Name, "rate.Limiter") {
					typeMismatch = true // nothing else is ever stored, see below
				}
			}
			if typeMismatch {
				continue
			}
			var lock, unlock, getAt, setAt, allowAt, passAt, refAt = -1, -1, -1, -1, -1, -1, -1
			getLock := -1
			var mu, key, val, bucket, allowT *Term
			var getT *Term
			nAllow, nGet := 0, 0
			for i, e := range t.Evs {
				if e.Kind == EvCall {
					switch {
					case strings.HasSuffix(e.Name, ".Lock") && strings.HasPrefix(e.Name, "(*sync."):
						lock, mu = i, e.arg(0)
						unlock = -1
					case strings.HasSuffix(e.Name, ".Unlock") && strings.HasPrefix(e.Name, "(*sync."):
						if e.arg(0) == mu {
							unlock = i
						}
					case e.Name == get:
						nGet++
						getAt, key, getT, getLock = i, e.arg(1), e.Term, lock
						c.need(mu == nil || root(lockAddr(mu)).Op != OAlloc, "find-or-create-atomic", e.At, t, "the client's bucket is looked up under a lock of the request's own instead of the limiter's")
						c.need(lock >= 0 && unlock < 0, "find-or-create-atomic", e.At, t, "the client's bucket is looked up outside the limiter's lock: concurrent first requests each create one")
						okK, _, sep := c.limiterKey(key, m.R, facts)
						c.need(okK && sep, "own-bucket", e.At, t, "clients are told apart by %s, so that different clients can share one bucket", clip(key.String()))
						age, isC := e.arg(2).Int()
						c.need(isC && (age <= 0 || age >= 60e9), "kept", e.At, t, "a bucket is forgotten after %d ns", age)
					case e.Name == set:
						setAt, val = i, e.arg(2)
						c.need(e.arg(1) == key, "same-key", e.At, t, "the bucket is stored under another key than it is looked up with")
						c.need(lock >= 0 && unlock < 0 && lock == getLock, "find-or-create-atomic", e.At, t, "the client's bucket is stored outside the critical section it was looked up in")
						okT := val.Typ != nil && strings.HasSuffix(val.Typ.String(), "rate.Limiter")
						c.need(okT, "bucket-type", e.At, t, "something else than a limiter is stored for a client")
					case e.Name == "(*golang.org/x/time/rate.Limiter).Allow", e.Name == "(*golang.org/x/time/rate.Limiter).AllowN":
						nAllow++
						allowAt, bucket, allowT = i, e.arg(0), e.Term
						if strings.HasSuffix(e.Name, "N") {
							c.need(e.arg(2).IsInt(1), "one-token", e.At, t, "a request does not take exactly one token")
						}
					}
				}
				if o, ok := mwOutcome(e, m.Handler); ok {
					if o.kind == "next" {
						passAt = i
					} else {
						refAt = i
						c.need(o.code == 429, "status-429", e.At, t, "a limited request is answered with %d instead of 429", o.code)
					}
				}
			}
			pos := t.At
			if passAt >= 0 {
				pos = t.Evs[passAt].At
			} else if refAt >= 0 {
				pos = t.Evs[refAt].At
			}
			if t.End == EndPanic {
				c.need(false, "no-panic", pos, t, "the limiter can panic")
				continue
			}
			if !c.need(nAllow == 1 && nGet == 1, "one-token", pos, t, "a request takes %d tokens and looks up %d buckets, expected one each", nAllow, nGet) {
				continue
			}
			// whose bucket?
			isFound := func(b *Term) bool {
				return b.Op == OAssert && b.Args[0].Op == OExtract && b.Args[0].N == 1 && b.Args[0].Args[0] == getT
			}
			hit, hitKnown := factsKnow(facts, mk(OExtract, "", types.Typ[types.Bool], nil, 0, getT))
			switch {
			case isFound(bucket):
				c.need(hitKnown && hit, "found", pos, t, "the looked-up value is used as bucket although the lookup was not found to have hit")
			case isCall(bucket, "golang.org/x/time/rate.NewLimiter"):
				created++
				c.need(hitKnown && !hit, "replaced", pos, t, "a new bucket is created although the client may already have one")
				c.need(fieldIs(bucket.Args[0], "RatePerSec") && fieldIs(bucket.Args[1], "RateBurst"), "configured-rate", pos, t, "a bucket is created with (%s, %s) instead of the configured rate and burst", clip(bucket.Args[0].String()), clip(bucket.Args[1].String()))
				c.need(setAt >= 0 && setAt < allowAt && val == bucket, "stored", pos, t, "a new bucket is used without having been stored for the client before")
			default:
				c.need(false, "own-bucket", pos, t, "the token is taken from %s, which is neither the client's stored bucket nor a new one", clip(bucket.String()))
			}
			if setAt >= 0 {
				c.need(val == bucket, "one-live-bucket", t.Evs[setAt].At, t, "the bucket stored for the client is not the one the token is taken from")
			}
			_ = getAt
			av, ak := factsKnow(facts, allowT)
			if passAt >= 0 {
				passes++
				c.need(ak && av && allowAt < passAt, "token-before-pass", pos, t, "the handler runs although no token was obtained")
			}
			if refAt >= 0 {
				refusals++
				c.need(ak && !av, "refuse-without-token", pos, t, "a request is refused although it got a token")
			}
		}
	}
	c.atLeast(passes, 2, "coverage", "passing paths")
	c.atLeast(refusals, 2, "coverage", "refusing paths")
	c.atLeast(created, 1, "coverage", "paths creating a bucket")
	c.builtinRefusals("guard", "NewLimiter", "ErrorHandler", 429)
	// configuration
	fn := c.P.fn("guard", "NewLimiter")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "guard.NewLimiter not found")
		return
	}
	as := params(fn)
	n := 0
	for _, t := range c.run(newExec(c.P, c.opq("cache.NewCache")), fn, as, nil, nil) {
		if t.End != EndReturn || len(as) != 3 {
			continue
		}
		got := map[string]*Term{}
		for _, e := range t.Evs {
			if e.Kind == EvStore && e.Term.Op == OField && e.Term.Args[0] == t.Ret[0] {
				got[e.Term.Name] = e.Args[0]
			}
		}
		n++
		c.need(got["RatePerSec"] != nil && perMinute(got["RatePerSec"], as[0]), "rate-per-minute", fn.Pos(), t, "the configured rate per minute is not spread over the seconds (rate/60)")
		c.need(got["RateBurst"] == as[1], "burst", fn.Pos(), t, "the configured burst is not used")
		c.need(got["FilterOnIP"] == as[2], "filter", fn.Pos(), t, "the configured address filter is not used")
	}
	c.atLeast(n, 1, "coverage", "limiter constructors")
}

// perMinute: x is rate/60 (or rate * 1/60) of the parameter.
func perMinute(x, rate *Term) bool {
	x = stripNumConv(x)
	if x.Op != OBin || len(x.Args) != 2 || x.Name != "/" {
		return false
	}
	a := stripNumConv(x.Args[0])
	if a != rate || x.Args[1].Op != OConst {
		return false
	}
	i := strings.IndexByte(x.Args[1].Name, ':')
	v := constant.MakeFromLiteral(x.Args[1].Name[i+1:], token.FLOAT, 0)
	return v.Kind() != constant.Unknown && constant.Compare(v, token.EQL, constant.MakeInt64(60)) || x.Args[1].Name == "f:60" || x.Args[1].Name == "i:60"
}

// ---- delegation -------------------------------------------------------------------------------

func ruleC15(c *Ctx) {
	n := 0
	for _, fn := range c.P.middlewareFuncs() {
		for _, m := range c.middlewareRuns(fn, c.opq("router.StripHostPort", "cache.SpearCache.Get", "cache.SpearCache.Set", "cache.SpearCache.Find")) {
			if m.Traces == nil {
				// an adapter: hands the handler to a function value and returns its result
				k := 0
				for _, e := range m.Made.Evs {
					if e.Kind == EvDyn {
						k++
					}
				}
				c.need(k == 1 && m.Made.Ret[0].Op == OCall, "adapter", fn.Pos(), m.Made, "%s neither returns a handler of its own nor the result of the one function it adapts", fnName(fn))
				continue
			}
			n++
			for _, t := range m.Traces {
				os := m.outcomes(t)
				switch t.End {
				case EndReturn:
					if feasibleAssert(t) {
						c.need(len(os) == 1 && (os[0].kind == "next" || os[0].kind == "error"), "exactly-once", t.At, t, "this path of %s answers or delegates %d times (%s), expected exactly once", fnName(fn), len(os), kindsOf(os))
						if len(os) == 1 && os[0].kind == "next" {
							e := os[0].ev
							c.need(len(e.Args) >= 2 && e.Args[len(e.Args)-2] == m.W && e.Args[len(e.Args)-1] == m.R, "own-request", e.At, t, "the next handler is not given the request's own writer and request")
						}
					}
				case EndBack:
					l := t.Loop
					for _, o := range os {
						in := false
						for _, e := range t.Evs[:o.at] {
							if e.Kind == EvLoopHead && e.Loop == l {
								in = true
							}
						}
						c.need(!in, "exactly-once", o.ev.At, t, "%s can answer or delegate once per loop iteration", fnName(fn))
					}
				case EndPanic:
					c.need(len(os) == 0 && !feasibleAssert(t), "exactly-once", t.At, t, "%s can panic while handling a request", fnName(fn))
				default:
					c.need(false, "exactly-once", t.At, t, "%s can end in %s while handling a request", fnName(fn), t.End)
				}
			}
		}
	}
	c.atLeast(n, 4, "coverage", "guards (basic authentication, two firewalls, limiter)")
	// the router itself
	d := c.dispatchRuns()
	if d == nil {
		return
	}
	for _, t := range d.traces {
		if !d.feasible(t) {
			continue
		}
		os := d.outcomes(t)
		switch t.End {
		case EndReturn:
			c.need(len(os) == 1, "exactly-once", t.At, t, "the router answers or delegates %d times on this path, expected exactly once", len(os))
		case EndBack:
		default:
			c.need(false, "exactly-once", t.At, t, "dispatching a request can end in %s", t.End)
		}
	}
}

// feasibleAssert: the path does not rest on a failed assertion to the only type stored.
func feasibleAssert(t *Trace) bool {
	for _, e := range t.Evs {
		if e.Kind == EvCond && e.Term.Op == OAssertOk && !e.Pos && strings.HasSuffix(e.Term.Name, "rate.Limiter") {
			return false
		}
	}
	return true
}

func kindsOf(os []mwOut) string {
	var s []string
	for _, o := range os {
		s = append(s, o.kind)
	}
	if len(s) == 0 {
		return "never"
	}
	return strings.Join(s, ", ")
}
