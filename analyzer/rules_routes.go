package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Must-pair analysis over the registration code: on every path every route registration is matched, in its own or an enclosing iteration, with guard registrations for the same host and path; provenance of each guard's settings from the configuration of the same site", ruleC16)
	register("C45", "Completeness and provenance of route registration: on every path through the registration code the routes of each site are exactly those its mode prescribes (loop coverage of its rule, path and method tables; value numbering of host, path, fallback, method, content types and handler)", ruleC45)
	register("C46", "Provenance of refusal handlers: on every path every guard put on a route, and the router of every server that is set up, holds the server's own error handler", ruleC46)
}

// use is one registration of a middleware.
type use struct {
	e          *Ev
	host, path *Term
	mw         *Term
	order      int // place in its body
	body       *Trace
	depth      int
	at         int // index in body
}

// site of a route: the main configuration or the virtual host of a key.
type siteOf struct {
	kind string // main, vhost
	key  *Term
}

func (s siteOf) is(x *Term, path ...string) bool {
	k, h, p := cfgRef(x)
	if k != s.kind || len(p) != len(path) {
		return false
	}
	for i := range p {
		if p[i] != path[i] {
			return false
		}
	}
	return s.kind == "main" || h == s.key
}

func sameModRange(a, b *Term) bool {
	return a == b || a.Op == ORangeKey && b.Op == ORangeKey && a.Args[0] == b.Args[0]
}

type routing struct {
	c       *Ctx
	add     string
	use     string
	seen    map[token.Pos]bool
	routes  int
	metrics int
	proxied int
	met     *metricsSchema
}

func ruleC16(c *Ctx) {
	rt := newRouting(c)
	if rt == nil {
		return
	}
	for _, t := range rt.paths() {
		rt.body(t, 0, nil, map[*Term]bool{}, nil)
	}
	rt.covered()
	c.atLeast(rt.routes, 6, "coverage", "registrations of site routes")
	c.atLeast(rt.proxied, 2, "coverage", "registrations of proxied routes")
	c.atLeast(rt.metrics, 1, "coverage", "registrations of the metrics page")
}

// paths: every path through the functions of the server that register routes.
func (rt *routing) paths() []*Trace {
	c := rt.c
	var out []*Trace
	isReg := func(n string) bool { return n == rt.add || n == rt.use }
	reach := c.P.reachesAny(isReg)
	makes := c.makesServer
	inner := map[*ssa.Function]bool{} // called by another function that is looked at
	for _, fn := range c.P.Funcs {
		if !reach[fn] || makes(fn) || c.P.relOf(fn) != serverPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != fn {
						inner[g] = true
					}
				}
			}
		}
	}
	opaque := c.opq("router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth", "guard.NewFirewall")
	for _, fn := range c.P.Funcs {
		if !reach[fn] || makes(fn) || inner[fn] || c.P.relOf(fn) != serverPkg || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		for _, r := range c.explore(fn, opaque) {
			for _, t := range r.Traces {
				if t.End == EndReturn {
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// covered: every registration of the program was on an analysed path.
func (rt *routing) covered() {
	fns := map[*ssa.Function]bool{}
	for _, f := range rt.c.P.Funcs {
		fns[f] = true
	}
	for at, f := range callSites(fns, func(n string) bool { return n == rt.add }) {
		rt.c.need(rt.seen[at], "covered", at, nil, "a route is added in %s on no path the analysis followed", shortName(fnName(f)))
	}
}

func newRouting(c *Ctx) *routing {
	rt := &routing{c: c, add: c.name("router.SRouter.AddRoute"), use: c.name("router.SRouter.UseMiddleware"), seen: map[token.Pos]bool{}, met: c.metricsSchema()}
	if rt.met == nil {
		c.need(false, "anchor", token.NoPos, nil, "the metrics record was not found")
		return nil
	}
	return rt
}

// makesServer: the function returns a new server.
func (c *Ctx) makesServer(fn *ssa.Function) bool {
	srv := c.P.named(serverPkg, "Server")
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if p := ptrElem(fn.Signature.Results().At(i).Type()); p != nil && srv != nil && types.Identical(p, srv) {
			return true
		}
	}
	return false
}

// bodyStart: where the iteration starts in its path.
func bodyStart(l *LoopInfo, b *Back) int {
	for i, e := range b.Tr.Evs {
		if e == l.HeadEv || e.Kind == EvLoopHead && e.Loop == l {
			return i + 1
		}
	}
	return 0
}

// body checks one path through a function or a loop body. in: what surrounding
// bodies register; loops: the loops around it.
func (rt *routing) body(t *Trace, from int, in []use, known map[*Term]bool, loops []*Term) {
	c := rt.c
	facts := map[*Term]bool{}
	for k, v := range known {
		facts[k] = v
	}
	for k, v := range allFacts(t) {
		facts[k] = v
	}
	uses := append([]use{}, in...)
	for i := from; i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind == EvCall && e.Name == rt.use {
			u := use{e, e.arg(1), e.arg(2), e.arg(3), i, t, len(loops), i}
			uses = append(uses, u)
			// once for each host and path
			for _, k := range loops {
				if k == nil {
					c.need(false, "once", e.At, t, "a guard is registered in a loop that is not over hosts or paths")
					continue
				}
				c.need(u.host.contains(func(y *Term) bool { return y == k }) || u.path.contains(func(y *Term) bool { return y == k }), "once", e.At, t, "a guard is registered again for each %s", clip(k.String()))
			}
		}
		if e.Kind == EvCall && e.Name == c.name("guard.NewLimiter") {
			for _, k := range loops {
				ok := k != nil && (cfgIs(k.Args[0], "Core", "VirtualHosts") || isVhosts(k.Args[0]))
				c.need(ok, "one-limiter", e.At, t, "a limiter is made for each round of a loop within a site")
			}
		}
		if e.Kind == EvLoopHead && e.Loop != nil {
			// what every iteration registers
			if key := rangeKey(e.Loop); key != nil {
				var all []use
				for n, b := range e.Loop.Backs {
					var here []use
					for j := bodyStart(e.Loop, b); j < len(b.Tr.Evs); j++ {
						if o := b.Tr.Evs[j]; o.Kind == EvCall && o.Name == rt.use {
							here = append(here, use{o, o.arg(1), o.arg(2), o.arg(3), i, b.Tr, len(loops) + 1, j})
						}
					}
					if n == 0 {
						all = here
						continue
					}
					var both []use
					for _, x := range all {
						for _, y := range here {
							if x.host == y.host && x.path == y.path && x.mw == y.mw {
								both = append(both, x)
								break
							}
						}
					}
					all = both
				}
				uses = append(uses, all...)
			}
		}
	}
	for i := from; i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind == EvCall && e.Name == rt.add {
			rt.seen[e.At] = true
			rt.route(t, i, e, uses, facts)
		}
		if e.Kind == EvLoopHead && e.Loop != nil {
			for _, b := range e.Loop.Backs {
				rt.body(b.Tr, bodyStart(e.Loop, b), uses, facts, append(append([]*Term{}, loops...), rangeKey(e.Loop)))
			}
		}
	}
}

// rangeKey: the key of a loop over a map.
func rangeKey(l *LoopInfo) *Term {
	for _, b := range l.Backs {
		for _, g := range bodyEvs(l, b) {
			if g.Kind == EvCond && g.Pos && g.Term.Op == ORangeOk {
				m := g.Term.Args[0]
				for _, o := range b.Tr.Evs {
					var k *Term
					for _, a := range append([]*Term{o.Term}, o.Args...) {
						if a != nil {
							a.contains(func(y *Term) bool {
								if y.Op == ORangeKey && y.Args[0] == m && y.N == g.Term.N {
									k = y
								}
								return false
							})
						}
					}
					if k != nil {
						return k
					}
				}
				return mk(ORangeKey, "", nil, nil, g.Term.N, m)
			}
			if g.Kind == EvCond {
				break
			}
		}
	}
	return nil
}

func isVhosts(m *Term) bool { return isConfigT(mapElem(m.Typ)) }

// site: whose configuration the route comes from.
func (rt *routing) site(host *Term) (siteOf, bool) {
	if s, ok := host.Str(); ok {
		return siteOf{kind: "main"}, s == rt.defaultHost()
	}
	if host.Op != ORangeKey {
		return siteOf{}, false
	}
	m := host.Args[0]
	if cfgIs(m, "Core", "VirtualHosts") || isVhosts(m) {
		return siteOf{"vhost", host}, true
	}
	if k, h, p := cfgRef(m); k != "" && len(p) == 2 && p[0] == "Proxy" && p[1] == "Rules" {
		return siteOf{k, h}, true
	}
	return siteOf{}, false
}

func (rt *routing) defaultHost() string {
	if p := rt.c.P.pkg("router"); p != nil {
		if k, ok := p.Members["DefaultHost"].(*ssa.NamedConst); ok && k.Value != nil {
			return strings.Trim(k.Value.Value.ExactString(), `"`)
		}
	}
	return "\x00"
}

// role of a handler value by what it does.
func (rt *routing) role(h *Term) string {
	fn := isFn(stripConv(h))
	if fn == nil {
		return "?"
	}
	fns := map[*ssa.Function]bool{}
	closure(fn, fns)
	role := "serve"
	st := rt.met.T.Underlying().(*types.Struct)
	var paths types.Type
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Paths" {
			paths = st.Field(i).Type()
		}
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if paths != nil && types.Identical(x.X.Type(), paths) {
						return "metrics"
					}
				case *ssa.MakeInterface:
					if t := ptrElem(x.X.Type()); types.Identical(x.X.Type(), rt.met.T) || t != nil && types.Identical(t, rt.met.T) {
						return "metrics"
					}
				case ssa.CallInstruction:
					n := calleeName(x.Common())
					switch {
					case isRoundTrip(n):
						role = "proxy"
					case role != "proxy" && listsDir(n):
						role = "download"
					}
				}
			}
		}
	}
	return role
}

// closure: the functions fn can run by static calls and function values.
func closure(fn *ssa.Function, set map[*ssa.Function]bool) {
	if fn == nil || set[fn] || fn.Blocks == nil {
		return
	}
	set[fn] = true
	var buf [16]*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(buf[:0]) {
				if g, ok := (*op).(*ssa.Function); ok && (g.Pkg == fn.Pkg || fn.Synthetic != "") {
					closure(g, set)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if g := mc.Fn.(*ssa.Function); g.Synthetic != "" || g.Pkg == fn.Pkg {
					closure(g, set)
				}
			}
		}
	}
}

// route checks the guards of one registered route.
func (rt *routing) route(t *Trace, i int, e *Ev, uses []use, facts map[*Term]bool) {
	c := rt.c
	host, path := e.arg(1), e.arg(2)
	role := rt.role(e.arg(6))
	if !c.need(role != "?", "undecided", e.At, t, "the handler %s of a route is not known", clip(e.arg(6).String())) {
		return
	}
	var mine []use
	for _, u := range uses {
		if sameModRange(u.host, host) && sameModRange(u.path, path) {
			mine = append(mine, u)
		}
	}
	if role == "metrics" {
		rt.metrics++
		ok := false
		for _, u := range mine {
			ok = ok || rt.isAuth(u)
		}
		c.need(ok, "metrics-auth", e.At, t, "the metrics page is registered without basic authentication of the metrics users on the same host and path")
		return
	}
	rt.routes++
	if role == "proxy" {
		rt.proxied++
	}
	site, ok := rt.site(host)
	if !c.need(ok, "undecided", e.At, t, "it is not known which site the host %s belongs to", clip(host.String())) {
		return
	}
	var lim, fw *use
	for k := range mine {
		u := &mine[k]
		fn := isFn(u.mw)
		name := u.mwName(fn)
		switch name {
		case c.name("guard.Limiter.LimitHTTP"):
			if rt.limiter(u, site, e, t) {
				lim = u
			}
		case c.name("guard.Firewall.BlockHTTP"), c.name("guard.Firewall.BlockProxy"):
			want := c.name("guard.Firewall.BlockHTTP")
			if role == "proxy" {
				want = c.name("guard.Firewall.BlockProxy")
			}
			c.need(name == want, "firewall", u.e.At, t, "the firewall variant of %s guards a route it is not made for", shortName(name))
			if rt.firewall(u, site, facts) {
				fw = u
			}
		}
	}
	c.need(lim != nil, "limiter", e.At, t, "a route of the site %s is registered without a limiter of that site on the same host and path", site.name())
	off := false
	for f, v := range facts {
		if !v && site.is(f, "Guard", "Firewall", "Enabled") {
			off = true
		}
	}
	if off {
		return
	}
	if c.need(fw != nil, "firewall", e.At, t, "a route of the site %s is registered without a firewall of that site on the same host and path", site.name()) && lim != nil {
		c.need(fw.depth == lim.depth && (fw.order < lim.order || fw.order == lim.order && fw.at < lim.at), "firewall-first", lim.e.At, t, "the limiter of a route is registered before its firewall")
	}
}

func (s siteOf) name() string {
	if s.kind == "main" {
		return "main"
	}
	return "virtual host"
}

// mwName: the guard method a middleware value is bound to.
func (u *use) mwName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Synthetic != "" {
		return strings.TrimSuffix(fnName(fn), "$bound")
	}
	return fnName(fn)
}

func (u *use) recv() *Term {
	if m := stripConv(u.mw); len(m.Args) == 1 {
		return m.Args[0]
	}
	return tNil
}

// limiter: the limiter is made from the settings of the site.
func (rt *routing) limiter(u *use, site siteOf, e *Ev, t *Trace) bool {
	c := rt.c
	l := u.recv()
	if !isCall(l, c.name("guard.NewLimiter")) {
		c.need(false, "limiter", u.e.At, t, "the limiter %s is not known to be made from the site's settings", clip(l.String()))
		return false
	}
	ok := true
	for k, f := range []string{"Rate", "RateBurst", "FilterOnIP"} {
		x := l.Args[k]
		ok = ok && site.is(stripConv(x), "Guard", f)
	}
	if !ok {
		c.need(false, "own-settings", u.e.At, t, "the limiter of a route of the site %s is made from %s", site.name(), clip(l.String()))
		return false
	}
	// nothing but its error handler is changed afterwards
	for _, o := range u.body.Evs {
		if o.Kind == EvStore && o.Term.Op == OField && o.Term.Args[0] == l {
			_, isF := ptrElem(o.Term.Typ).Underlying().(*types.Signature)
			ok = c.need(isF, "own-settings", o.At, u.body, "the setting %s of a limiter is replaced", o.Term.Name) && ok
		}
	}
	return ok
}

// firewall: the firewall has the settings of the site.
func (rt *routing) firewall(u *use, site siteOf, facts map[*Term]bool) bool {
	c := rt.c
	f := u.recv()
	if !c.need(f.Op == OAlloc || isCall(f, c.name("guard.NewFirewall")), "firewall", u.e.At, u.body, "the firewall %s is not known to be made for the site", clip(f.String())) {
		return false
	}
	ok := true
	for _, n := range []string{"Blacklisting", "Subpath", "Rules"} {
		v, found := fieldAtEv(u.body, u.at, f, n)
		same := found && site.is(v, "Guard", "Firewall", n)
		if !same && n != "Rules" && v != nil {
			// a setting that is known on this path
			for k, val := range facts {
				if site.is(k, "Guard", "Firewall", n) && (val && v == tTrue || !val && v == tFalse) {
					same = true
				}
			}
		}
		if storedSince(u.body, u.at, f, n) {
			same = false
		}
		what := "nothing"
		if v != nil {
			what = clip(v.String())
		}
		ok = c.need(same, "own-settings", u.e.At, u.body, "%s of the firewall of a route of the site %s is %s", n, site.name(), what) && ok
	}
	return ok
}

// storedSince: a loop after the last certain store to the field may store to it too.
func storedSince(t *Trace, upto int, base *Term, name string) bool {
	addr := mkFieldAddrByName(base, name)
	last := -1
	for i := 0; i < upto; i++ {
		if t.Evs[i].Kind == EvStore && (t.Evs[i].Term == addr || t.Evs[i].Term == base) {
			last = i
		}
	}
	for _, f := range flat(t) {
		if f.maybe && f.i > last && f.i < upto && f.Kind == EvStore && (f.Term == addr || f.Term == base) {
			return true
		}
	}
	return false
}

// isAuth: basic authentication with the configured metrics users.
func (rt *routing) isAuth(u use) bool {
	c := rt.c
	fn := isFn(u.mw)
	if u.mwName(fn) != c.name("guard.BasicAuth.Authenticate") {
		return false
	}
	b := u.recv()
	mine := func(x *Term) bool {
		return isCall(x, c.name("guard.SimpleBasicAuth")) && siteOf{kind: "main"}.is(stripConv(x.Args[0]), "Core", "Metrics", "Users")
	}
	if mine(b) {
		return true
	}
	if b.Op == ODeref && mine(b.Args[0]) {
		return true
	}
	// a copy of the value with other handlers
	pt := b.Typ
	if p := ptrElem(pt); p != nil {
		pt = p
	}
	st, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != "Users" && f.Name() != "AuthFunc" {
			continue
		}
		v := mkSel(b, pt, i)
		if b.Op == OAlloc {
			v, ok = fieldAtEv(u.body, u.at, b, f.Name())
			if !ok {
				return false
			}
		}
		base, p := fieldPath(v)
		if !(mine(base) && len(p) == 1 && p[0] == f.Name()) {
			return false
		}
	}
	return true
}

func listsDir(n string) bool {
	switch n {
	case "path/filepath.Walk", "path/filepath.WalkDir", "io/fs.WalkDir", "os.ReadDir", "io/ioutil.ReadDir", "io/fs.ReadDir", "(*os.File).Readdir", "(*os.File).ReadDir":
		return true
	}
	return false
}

// ---- C45 ------------------------------------------------------------------------------------

func ruleC45(c *Ctx) {
	rt := newRouting(c)
	if rt == nil {
		return
	}
	main := siteOf{kind: "main"}
	modes := map[string]int{}
	vhosts, monitored := 0, 0
	for _, t := range rt.paths() {
		facts := allFacts(t)
		monitored += rt.metricsRoutes(t, main, facts)
		on, off := false, false
		for f, v := range facts {
			if main.is(f, "Core", "VirtualHosting") {
				on, off = on || v, off || !v
			}
		}
		switch {
		case off:
			modes["main "+rt.siteBody(t, 0, main)]++
		case on:
			n := 0
			for i, e := range t.Evs {
				if e.Kind == EvCall && e.Name == rt.add {
					rt.seen[e.At] = true
					c.need(rt.role(e.arg(6)) == "metrics", "only-sites", e.At, t, "with virtual hosting on a route is registered that belongs to no virtual host")
				}
				if e.Kind != EvLoopHead || e.Loop == nil {
					continue
				}
				key := rangeKey(e.Loop)
				adds := rt.anyAdd(e.Loop, map[*LoopInfo]bool{})
				if key == nil || !(main.is(key.Args[0], "Core", "VirtualHosts") || isVhosts(key.Args[0])) {
					c.need(!adds, "only-sites", e.At, t, "routes are registered in a loop that is not over the virtual hosts")
					continue
				}
				if !adds {
					continue
				}
				n++
				c.need(outNormal(t, i, e.Loop), "all-sites", e.At, t, "the loop over the virtual hosts may be left before the last one")
				for _, b := range e.Loop.Backs {
					vhosts++
					modes["vhost "+rt.siteBody(b.Tr, bodyStart(e.Loop, b), siteOf{"vhost", key})]++
				}
			}
			c.need(n == 1, "all-sites", t.At, t, "the routes of the virtual hosts are registered %d times", n)
		default:
			c.need(false, "undecided", t.At, t, "routes are registered without regard to virtual hosting")
		}
	}
	c.atLeast(monitored, 1, "coverage", "routes of the metrics page")
	rt.covered()
	// WebDAV methods are routable exactly when configured
	adders := map[string]bool{rt.add: true}
	for f := range c.P.reachesAny(func(n string) bool { return n == rt.add }) {
		adders[fnName(f)] = true
	}
	made := c.newServers(func(x *Exec, t *Trace, srv, rv *Term) {
		a := mkFieldAddrByName(rv, "WebDAV")
		if !c.need(a != rv, "webdav", t.At, t, "the router of a new server is %s", clip(rv.String())) {
			return
		}
		v := x.load(t.St, a, ptrElem(a.Typ))
		cfg := mkFieldAddrByName(mkFieldAddrByName(mkFieldAddrByName(srv, "Cfg"), "Core"), "WebDAV")
		want := x.load(t.St, cfg, types.Typ[types.Bool])
		facts := allFacts(t)
		c.need(v == want || v == tTrue && holds(facts, want) || v == tFalse && refuted(facts, want), "webdav", t.At, t, "WebDAV methods are routable if %s, not as configured", clip(v.String()))
		late := false
		for _, e := range t.Evs {
			if e.Kind == EvCall && adders[e.Name] || e.Kind == EvLoopHead && e.Loop != nil && rt.anyAdd(e.Loop, map[*LoopInfo]bool{}) {
				late = true
			}
			if e.Kind == EvStore && e.Term == a {
				c.need(!late, "webdav", e.At, t, "routes are registered before it is settled whether WebDAV methods are routable")
			}
		}
	})
	c.atLeast(made, 2, "coverage", "paths that set up a server")
	for _, m := range []string{"main proxy", "main download", "main serve", "vhost proxy", "vhost download", "vhost serve"} {
		c.atLeast(modes[m], 1, "coverage", "paths that register the routes of "+m)
	}
}

// metricsRoutes: the metrics page is routed exactly when configured, to the configured path.
func (rt *routing) metricsRoutes(t *Trace, main siteOf, facts map[*Term]bool) int {
	c := rt.c
	on, off := false, false
	for f, v := range facts {
		if main.is(f, "Core", "Metrics", "Enabled") {
			on, off = on || v, off || !v
		}
	}
	n := 0
	var walk func(t *Trace, from int, top bool)
	walk = func(t *Trace, from int, top bool) {
		for i := from; i < len(t.Evs); i++ {
			e := t.Evs[i]
			if e.Kind == EvLoopHead && e.Loop != nil && rt.anyAdd(e.Loop, map[*LoopInfo]bool{}) {
				for _, b := range e.Loop.Backs {
					walk(b.Tr, bodyStart(e.Loop, b), false)
				}
			}
			if e.Kind != EvCall || e.Name != rt.add || rt.role(e.arg(6)) != "metrics" {
				continue
			}
			host, ok := e.arg(1).Str()
			c.need(top && on && ok && host == rt.defaultHost() && main.is(e.arg(2), "Core", "Metrics", "Path") && e.arg(3) == tFalse && e.arg(4).IsStr("GET") && emptyContent(e.arg(5)), "metrics", e.At, t,
				"a route of the metrics page is (%s)", clip(joinTerms(e.Args[1:], ", ", 0)))
			n++
		}
	}
	walk(t, 0, true)
	c.need(on != off, "metrics", t.At, t, "routes are registered without regard to whether metrics are enabled")
	if on {
		c.need(n == 1, "metrics", t.At, t, "%d routes of the metrics page are registered", n)
	}
	return n
}

func (rt *routing) anyAdd(l *LoopInfo, seen map[*LoopInfo]bool) bool {
	if seen[l] {
		return false
	}
	seen[l] = true
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			if e.Kind == EvCall && e.Name == rt.add || e.Kind == EvLoopHead && e.Loop != nil && rt.anyAdd(e.Loop, seen) {
				return true
			}
		}
	}
	return false
}

// outNormal: the loop ran to its end.
func outNormal(t *Trace, i int, l *LoopInfo) bool {
	for _, g := range t.Evs[i:] {
		if g.Kind == EvLoopOut && g.Loop == l {
			return g.Pos
		}
	}
	return t.End == EndBack
}

// siteBody checks the routes one path registers for a site; its mode.
func (rt *routing) siteBody(t *Trace, from int, site siteOf) string {
	c := rt.c
	is := func(want bool, path ...string) bool {
		for f, v := range allFacts(t) {
			if v == want && site.is(f, path...) {
				return true
			}
		}
		return false
	}
	mode := ""
	switch {
	case is(true, "Proxy", "Enabled"):
		mode = "proxy"
	case is(false, "Proxy", "Enabled") && is(true, "Serve", "Download", "Enabled"):
		mode = "download"
	case is(false, "Proxy", "Enabled") && is(false, "Serve", "Download", "Enabled"):
		mode = "serve"
	}
	if !c.need(mode != "", "mode", t.At, t, "it is not known what the site %s serves when its routes are registered", site.name()) {
		return ""
	}
	table := func(m *Term) bool {
		if mode == "proxy" {
			return site.is(m, "Proxy", "Rules")
		}
		return site.is(m, "Serve", "Methods")
	}
	own := func(h *Term) bool {
		if site.kind == "main" {
			s, ok := h.Str()
			return ok && s == rt.defaultHost()
		}
		return h == site.key
	}
	n := 0
	for i := from; i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind == EvCall && e.Name == rt.add {
			rt.seen[e.At] = true
			role := rt.role(e.arg(6))
			if role == "metrics" {
				continue
			}
			n++
			if !c.need(mode == "download", "mode", e.At, t, "one route is registered for a site that is in %s mode", mode) {
				continue
			}
			c.need(role == "download" && own(e.arg(1)) && e.arg(2).IsStr("/") && e.arg(3) == tTrue && e.arg(4).IsStr("GET") && emptyContent(e.arg(5)), "route", e.At, t,
				"the route of a site in download mode is (%s)", clip(joinTerms(e.Args[1:], ", ", 0)))
		}
		if e.Kind != EvLoopHead || e.Loop == nil || !rt.anyAdd(e.Loop, map[*LoopInfo]bool{}) {
			continue
		}
		key := rangeKey(e.Loop)
		if !c.need(mode != "download" && key != nil && table(key.Args[0]), "route", e.At, t, "routes of a site in %s mode are registered in another loop", mode) {
			continue
		}
		n++
		c.need(outNormal(t, i, e.Loop), "all-routes", e.At, t, "the loop over the routes of a site may be left before the last one")
		for _, b := range e.Loop.Backs {
			rt.entry(e.Loop, b, key, mode, site, own)
		}
	}
	c.need(n == 1, "all-routes", t.At, t, "the routes of the site %s in %s mode are registered %d times", site.name(), mode, n)
	return mode
}

func emptyContent(x *Term) bool { return x.IsStr("") || x.IsStr(";") }

// entry checks what is registered for one entry of the table of hosts or paths.
func (rt *routing) entry(l *LoopInfo, b *Back, key *Term, mode string, site siteOf, own func(*Term) bool) {
	c := rt.c
	t := b.Tr
	facts := allFacts(t)
	isMethods := func(x *Term) bool {
		x = stripConv(x)
		return x.Op == OLookup && x.Args[0] == key.Args[0] && x.Args[1] == key
	}
	check := func(e *Ev, at *Trace) {
		host, path, fb, ct := e.arg(1), e.arg(2), e.arg(3), e.arg(5)
		role := rt.role(e.arg(6))
		f2 := allFacts(at)
		if mode == "proxy" {
			c.need(role == "proxy" && host == key && path.IsStr("/") && fb == tTrue && ct.IsStr("*"), "route", e.At, at,
				"the route of a proxied host is (%s)", clip(joinTerms(e.Args[1:], ", ", 0)))
			return
		}
		c.need(role == "serve", "route", e.At, at, "a served path is handled by %s", clip(e.arg(6).String()))
		c.need(own(host), "route", e.At, at, "a path of the site %s is registered for the host %s", site.name(), clip(host.String()))
		c.need(path == key, "route", e.At, at, "the route of the configured path is registered for %s", clip(path.String()))
		slash := mkCallP("strings.HasSuffix", types.Typ[types.Bool], key, mkStr("/"))
		c.need(fb == slash || fb == tTrue && holds(f2, slash) || fb == tFalse && refuted(f2, slash), "fallback", e.At, at, "fallback of a configured path is %s although it should be on exactly when the path ends in a slash", clip(fb.String()))
		inTypes := func(x *Term) bool {
			x = stripConv(x)
			return x.Op == OLookup && x.Args[1] == key && site.is(x.Args[0], "Serve", "MIMETypes", "RequestTypes")
		}
		gone := false
		for f, v := range f2 {
			if f.Op == OLookOk && f.Args[1] == key && site.is(f.Args[0], "Serve", "MIMETypes", "RequestTypes") {
				gone = gone || !v
			}
		}
		c.need(inTypes(ct) && !gone || emptyContent(ct) && gone, "content", e.At, at, "the content types accepted for a path of the site %s are %s", site.name(), clip(ct.String()))
	}
	n := 0
	for i := bodyStart(l, b); i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind == EvCall && e.Name == rt.add {
			rt.seen[e.At] = true
			n++
			check(e, t)
			m := e.arg(4)
			single := false
			for f, v := range facts {
				if !v && isCall(f, "strings.Contains") && isMethods(f.Args[0]) && f.Args[1].IsStr(";") {
					single = true
				}
			}
			c.need(mode == "serve" && isMethods(m) && single, "methods", e.At, t, "a route is registered for the methods %s as one", clip(m.String()))
			continue
		}
		if e.Kind != EvLoopHead || e.Loop == nil || !rt.anyAdd(e.Loop, map[*LoopInfo]bool{}) {
			continue
		}
		n++
		var list *Term
		for _, ib := range e.Loop.Backs {
			k := 0
			for j := bodyStart(e.Loop, ib); j < len(ib.Tr.Evs); j++ {
				o := ib.Tr.Evs[j]
				if o.Kind == EvLoopHead && o.Loop != nil {
					c.need(!rt.anyAdd(o.Loop, map[*LoopInfo]bool{}), "methods", o.At, ib.Tr, "routes are registered in a loop within the loop over the methods")
				}
				if o.Kind != EvCall || o.Name != rt.add {
					continue
				}
				rt.seen[o.At] = true
				k++
				check(o, ib.Tr)
				list = elemBase(stripConv(o.arg(4)))
				ok := list != nil
				if ok && mode == "proxy" {
					ok = site.is(list, "Proxy", "Methods")
				} else if ok {
					ok = isCall(list, "strings.Split") && isMethods(list.Args[0]) && list.Args[1].IsStr(";")
				}
				c.need(ok, "methods", o.At, ib.Tr, "a route is registered for the method %s", clip(o.arg(4).String()))
			}
			c.need(k == 1, "methods", e.At, ib.Tr, "%d routes are registered for a method", k)
		}
		if list != nil && outNormalAt(t, i, e.Loop) {
			c.need(fullScan(t, i, e.Loop, list), "methods", e.At, t, "not every method is registered")
		} else {
			c.need(false, "methods", e.At, t, "the loop over the methods may be left before the last one")
		}
	}
	c.need(n == 1, "all-routes", t.At, t, "an entry of the table of the site %s is registered %d times", site.name(), n)
}

func outNormalAt(t *Trace, i int, l *LoopInfo) bool {
	for _, g := range t.Evs[i:] {
		if g.Kind == EvLoopOut && g.Loop == l {
			return g.Pos
		}
	}
	return false
}

// ---- C46 ------------------------------------------------------------------------------------

func ruleC46(c *Ctx) {
	rt := newRouting(c)
	if rt == nil {
		return
	}
	errs := map[*ssa.Function]bool{}
	for _, f := range c.P.errorFuncs(serverPkg) {
		errs[f] = true
	}
	// the value is an error handler of the server, bound to srv
	isErr := func(v *Term, srv func(*Term) bool) bool {
		v = stripConv(v)
		f := isFn(v)
		if f == nil {
			return false
		}
		if f.Synthetic != "" {
			set := map[*ssa.Function]bool{}
			closure(f, set)
			hit := false
			for g := range set {
				hit = hit || errs[g]
			}
			return hit && len(v.Args) == 1 && srv(v.Args[0])
		}
		return errs[f] && len(v.Args) == 1 && srv(v.Args[0])
	}
	isServer := func(x *Term) bool { p := ptrElem(x.Typ); return p != nil && typeIs(p, "/"+serverPkg, "Server") }
	guards := 0
	seen := map[token.Pos]bool{}
	var walk func(t *Trace, from int)
	done := map[*Trace]bool{}
	walk = func(t *Trace, from int) {
		if done[t] {
			return
		}
		done[t] = true
		for i := from; i < len(t.Evs); i++ {
			e := t.Evs[i]
			if e.Kind == EvLoopHead && e.Loop != nil {
				for _, b := range e.Loop.Backs {
					walk(b.Tr, bodyStart(e.Loop, b))
				}
			}
			if e.Kind != EvCall || e.Name != rt.use {
				continue
			}
			seen[e.At] = true
			u := use{e: e, mw: e.arg(3), body: t, at: i}
			fn := isFn(stripConv(u.mw))
			var field string
			switch n := u.mwName(fn); n {
			case c.name("guard.Limiter.LimitHTTP"), c.name("guard.Firewall.BlockHTTP"), c.name("guard.Firewall.BlockProxy"):
				field = "ErrorHandler"
			case c.name("guard.BasicAuth.Authenticate"):
				field = "UnauthorizedHandler"
			default:
				continue
			}
			guards++
			g := u.recv()
			var v *Term
			st, isStruct := g.Typ.Underlying().(*types.Struct)
			if isStruct {
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == field {
						v = mkSel(g, g.Typ, k)
					}
				}
			} else if x, ok := fieldAtEv(t, i, g, field); ok && !storedSince(t, i, g, field) {
				v = x
			}
			what := "nothing known"
			if v != nil {
				what = clip(v.String())
			}
			c.need(v != nil && isErr(v, isServer), "guard", e.At, t, "%s of a guard put on a route is %s instead of the server's error handler", field, what)
		}
	}
	for _, t := range rt.paths() {
		walk(t, 0)
	}
	for at, f := range callSites(allFuncs(c.P), func(n string) bool { return n == rt.use }) {
		c.need(seen[at], "covered", at, nil, "a guard is put on a route in %s on no path the analysis followed", shortName(fnName(f)))
	}
	c.atLeast(guards, 4, "coverage", "guards put on routes")
	// the router of every new server
	made := c.newServers(func(x *Exec, t *Trace, srv, rv *Term) {
		a := mkFieldAddrByName(rv, "ErrorHandler")
		if !c.need(a != rv, "router", t.At, t, "the router of a new server is %s", clip(rv.String())) {
			return
		}
		hv := x.load(t.St, a, ptrElem(a.Typ))
		c.need(isErr(hv, func(x *Term) bool { return x == srv }), "router", t.At, t, "the error handler of the router of a new server is %s", clip(hv.String()))
	})
	c.atLeast(made, 2, "coverage", "paths that set up a server")
}

// the fields of the router a server sets up
var routerSet = map[string]bool{"ErrorHandler": true, "WebDAV": true}

func allFuncs(p *Program) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		m[f] = true
	}
	return m
}

// newServers calls f for every path of an exported function of the server package that sets up a
// server; the number of paths.
func (c *Ctx) newServers(f func(x *Exec, t *Trace, srv, router *Term)) int {
	return c.newServersWith(nil, f)
}

// newServersWith also follows the functions of also.
func (c *Ctx) newServersWith(also map[*ssa.Function]bool, f func(x *Exec, t *Trace, srv, router *Term)) int {
	touch := map[*ssa.Function]bool{}
	for g := range also {
		touch[g] = true
	}
	rtr := c.P.named("router", "SRouter")
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						name := ""
						if st, ok := ptrElem(fa.X.Type()).Underlying().(*types.Struct); ok {
							name = st.Field(fa.Field).Name()
						}
						if p := ptrElem(fa.X.Type()); p != nil && (types.Identical(p, rtr) && routerSet[name] || typeIs(p, "/"+serverPkg, "Server") && (name == "Router" || name == "Cfg")) {
							touch[fn] = true
						}
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			if touch[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && touch[g] && g.Parent() == nil {
							touch[fn], again = true, true
						}
					}
				}
			}
		}
	}
	made := 0
	for _, fn := range c.P.Funcs {
		if !c.makesServer(fn) || c.P.relOf(fn) != serverPkg || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		self := fn
		for _, r := range c.explore(fn, func(f *ssa.Function) bool { return f != self && f.Synthetic == "" && !touch[f] }) {
			for _, t := range r.Traces {
				if t.End != EndReturn || len(t.Ret) == 0 {
					continue
				}
				made++
				srv := t.Ret[0]
				ra := mkFieldAddrByName(srv, "Router")
				rv := r.X.load(t.St, ra, ptrElem(ra.Typ))
				f(r.X, t, srv, rv)
			}
		}
	}
	return made
}
