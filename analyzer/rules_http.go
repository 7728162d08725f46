package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register("C17", "Value-flow over every path of the server's handlers and error handlers: each configuration value is traced to the configuration it was read from (main, or the virtual host table entry for a host term) and checked against the branch facts (virtual hosting, membership of the request's host) established on that path", ruleC17)
	register("C18", "Must-reach dataflow over the response header map: on every path, before the event that commits the response, the required headers have been set and nothing but the site's configured headers may have replaced them", ruleC18)
	register("C19", "Typestate of the response (headers open -> committed) over every path of every handler, middleware and error handler of the module, loop bodies included", ruleC19)
	register("C20", "Typestate and value-flow of the response status: the status committed by an error handler is the code it was given on every path, error codes are constants from the documented set, and no path returns without committing a response", ruleC20)
	register("C35", "Event counting on every path of the server's handlers: access-log calls, metrics updates and delegations to the error handler, with the values they carry", ruleC35)
}

// ---- C17 ------------------------------------------------------------------------------------

type cfgUse struct {
	kind string
	host *Term
	path string
	t    *Term
}

// cfgUses: every configuration value mentioned by a term.
func cfgUses(t *Term, memo map[*Term][]cfgUse) []cfgUse {
	if u, ok := memo[t]; ok {
		return u
	}
	var out []cfgUse
	seen := map[string]bool{}
	t.contains(func(x *Term) bool {
		switch x.Op {
		case ODeref, OSel, OField:
			if k, h, p := cfgRef(x); k != "" && len(p) > 0 {
				id := 0
				if h != nil {
					id = h.ID
				}
				key := k + "/" + strconv.Itoa(id) + "/" + strings.Join(p, ".")
				if !seen[key] {
					seen[key] = true
					out = append(out, cfgUse{k, h, strings.Join(p, "."), x})
				}
			}
		}
		return false
	})
	memo[t] = out
	return out
}

type vhFacts struct{ on, in *bool }

// vhostFact: what a condition says about the choice of the virtual host.
func (c *Ctx) vhostFact(t *Term, pos bool, r *Term, v *vhFacts, other *bool) {
	switch {
	case cfgIs(t, "Core", "VirtualHosting"):
		if k, _, _ := cfgRef(t); k == "main" {
			p := pos
			v.on = &p
		}
	case t.Op == OLookOk:
		m := t.Args[0]
		k, _, p := cfgRef(m)
		hosts := k == "main" && len(p) == 2 && p[1] == "VirtualHosts"
		vh := isConfigT(mapElem(m.Typ))
		if !hosts && !vh {
			return
		}
		if !c.isReqHost(t.Args[1], r) {
			return
		}
		q := pos
		v.in = &q
		if vh {
			*other = true
		}
	}
}

func ruleC17(c *Ctx) {
	mains, vhosts := map[string]bool{}, map[string]bool{}
	for _, r := range c.serverRuns() {
		fn := fnName(r.Fn)
		if c.siteSettings(r, mains, vhosts) {
			c.need(mains[fn] && vhosts[fn], "both-sources", r.Fn.Pos(), nil, "%s takes site settings only from one kind of configuration (main: %v, virtual host: %v)", shortName(fn), mains[fn], vhosts[fn])
		}
		c.siteHeaders(r)
	}
	c.atLeast(len(vhosts), 4, "coverage", "functions that use the configuration of the request's virtual host")
}

// siteSettings: every setting the handler uses is one of the site the request is
// for; only names the sections that are looked at (none: all). The result tells
// whether it uses settings of a site.
func (c *Ctx) siteSettings(r *srvRun, mains, vhosts map[string]bool, only ...string) bool {
	memo := c.cfgMemo
	if memo == nil {
		memo = map[*Term][]cfgUse{}
		c.cfgMemo = memo
	}
	fn := fnName(r.Fn)
	site := false
	for _, t := range r.Traces {
		var v vhFacts
		tab := false // membership was tested on the table of virtual host configurations itself
		done := map[string]bool{}
		for _, e := range t.Evs {
			check := func(x *Term) {
				for _, u := range cfgUses(x, memo) {
					top := u.path
					if i := strings.IndexByte(top, '.'); i > 0 {
						top = top[:i]
					}
					if len(only) > 0 && !inList(only, top) {
						continue
					}
					if top == "Core" {
						if u.kind == "vhost" {
							c.need(false, "core-of-vhost", e.At, t, "%s uses %s of a virtual host: core settings only exist in the main configuration", shortName(fn), u.path)
						}
						continue
					}
					site = true
					key := u.kind + "/" + top
					if done[key] {
						continue
					}
					ok := false
					switch u.kind {
					case "main":
						mains[fn] = true
						ok = v.on != nil && !*v.on || v.in != nil && !*v.in
						c.need(ok, "main-only-without-vhost", e.At, t, "%s uses %s of the main configuration on a path where the request may belong to a configured virtual host", shortName(fn), u.path)
					case "vhost":
						vhosts[fn] = true
						own := c.isReqHost(u.host, r.R)
						ok = own && v.in != nil && *v.in && (tab || v.on != nil && *v.on)
						if !own {
							c.need(false, "own-vhost", e.At, t, "%s uses %s of the virtual host %s, which is not the request's host with the port removed", shortName(fn), u.path, clip(u.host.String()))
						} else {
							c.need(ok, "vhost-only-when-configured", e.At, t, "%s uses %s of a virtual host without knowing that virtual hosting is on and the request's host is configured", shortName(fn), u.path)
						}
					}
					if ok {
						done[key] = true
					}
				}
			}
			if e.Kind == EvCond {
				check(e.Term)
				c.vhostFact(e.Term, e.Pos, r.R, &v, &tab)
				continue
			}
			if e.Kind == EvEnter || e.Kind == EvLeave {
				continue
			}
			if e.Kind == EvStore && isConfigT(ptrElem(e.Term.Typ)) {
				continue
			}
			evTerms(e, check)
		}
	}
	return site
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// isSite: the handler answers with a site's content (files, downloads, a backend).
func isSite(r *srvRun) bool {
	if r.isErr {
		return false
	}
	for _, t := range r.Traces {
		if usesProxy(t) {
			return true
		}
		for _, e := range t.Evs {
			if k, _ := commitKind(e, r.W, nil); k == "file" {
				return true
			}
		}
	}
	return false
}

func siteHeaderMap(m *Term, proxied bool) bool {
	if proxied {
		return cfgIs(m, "Proxy", "Headers")
	}
	return cfgIs(m, "Serve", "Headers")
}

// siteHeaders: a site's own answers carry all of its configured headers.
func (c *Ctx) siteHeaders(r *srvRun) {
	if !isSite(r) {
		return
	}
	errs := c.errNames()
	for _, t := range r.Traces {
		if t.End != EndReturn {
			continue
		}
		applied, kind := false, ""
		var at token.Pos
		prox := false
		for _, e := range t.Evs {
			if e.Kind == EvCall && isRoundTrip(e.Name) {
				prox = true
			}
			if e.Kind == EvCond && !e.Pos && e.Term.Op == ORangeOk && siteHeaderMap(e.Term.Args[0], prox) {
				// the loop over the map has ended: its body must have set every entry
				for _, l := range loopsOf(t) {
					if !l.ranges(e.Term.Args[0]) {
						continue
					}
					all := len(l.Backs) > 0
					for _, b := range l.Backs {
						set := false
						for _, g := range bodyEvs(l, b) {
							k, v, op, ok := headerWrite(g, r.W)
							if ok && op == "set" && k.Op == ORangeKey && k.Args[0] == e.Term.Args[0] && isElem(v, k.Args[0], k) {
								set = true
							}
						}
						all = all && set
					}
					applied = applied || all
				}
			}
			if e.Kind == EvCond && e.Pos && e.Term.Op == OEq && (e.Term.Args[0] == tNil || e.Term.Args[1] == tNil) {
				for _, a := range e.Term.Args {
					if siteHeaderMap(a, prox) {
						applied = true
					}
				}
			}
			if e.Kind == EvCond {
				// an empty map has nothing to set
				e.Term.contains(func(x *Term) bool {
					if x.Op == OLen && siteHeaderMap(x.Args[0], prox) && newProver(allFacts(t), nil, nil).le(x, mkInt(0), 0) {
						applied = true
					}
					return false
				})
			}
			if k, _ := commitKind(e, r.W, errs); k != "" {
				kind, at = k, e.At
				break
			}
		}
		if kind == "" || kind == "error" {
			continue
		}
		c.need(applied, "site-headers", at, t, "%s answers without having set every header configured for the site", shortName(fnName(r.Fn)))
	}
}

func loopsOf(t *Trace) []*LoopInfo {
	var out []*LoopInfo
	for _, e := range t.Evs {
		if e.Kind == EvLoopHead && e.Loop != nil {
			out = append(out, e.Loop)
		}
	}
	return out
}

// ranges: the loop iterates over the map or string m.
func (l *LoopInfo) ranges(m *Term) bool {
	for _, b := range l.Backs {
		for _, g := range bodyEvs(l, b) {
			if g.Kind == EvCond && g.Pos && g.Term.Op == ORangeOk && g.Term.Args[0] == m {
				return true
			}
		}
	}
	return false
}

// bodyEvs: the events of one iteration.
func bodyEvs(l *LoopInfo, b *Back) []*Ev {
	if b.Tr == nil {
		return nil
	}
	for i, e := range b.Tr.Evs {
		if e == l.HeadEv || e.Kind == EvLoopHead && e.Loop == l {
			return b.Tr.Evs[i+1:]
		}
	}
	return b.Tr.Evs
}

// isElem: the value is m[k].
func isElem(v, m, k *Term) bool {
	v = stripConv(v)
	if v.Op == OSliceLit && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v.Op == OLookup && v.Args[0] == m && v.Args[1] == k
}

// ---- C18 ------------------------------------------------------------------------------------

var securityHeaders = []string{"X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection", "Referrer-Policy", "Content-Security-Policy", "Feature-Policy", "Server"}

const hstsHeader = "Strict-Transport-Security"

// tlsFact: whether TLS is known to be enabled or disabled on the path.
func tlsFact(facts map[*Term]bool) (val, known bool) {
	for t, v := range facts {
		if cfgIs(t, "Core", "TLS", "Enabled") {
			if k, _, _ := cfgRef(t); k == "main" {
				return v, true
			}
		}
	}
	return false, false
}

func cfgFlag(facts map[*Term]bool, names ...string) (val, known bool) {
	for t, v := range facts {
		if cfgIs(t, names...) {
			if k, _, _ := cfgRef(t); k == "main" {
				return v, true
			}
		}
	}
	return false, false
}

// wholeNumber: the number of the configuration as it is, formatted or not.
func wholeNumber(x *Term, names ...string) bool {
	for {
		switch {
		case cfgIs(x, names...):
			return true
		case x.Op == OFmt:
			x = x.Args[0]
		case x.Op == OConv && len(x.Args) == 1 && keepsValues(x.Args[0].Typ, x.Typ):
			x = x.Args[0]
		case isCall(x, "strconv.Itoa"):
			x = x.Args[0]
		case (isCall(x, "strconv.FormatInt") || isCall(x, "strconv.FormatUint")) && x.Args[1].IsInt(10):
			x = x.Args[0]
		default:
			return false
		}
	}
}

// hstsOK: the value is the configured max-age plus exactly the configured flags.
func hstsOK(v *Term, facts map[*Term]bool) string {
	parts := concatParts(v)
	if len(parts) < 2 {
		return "it is not built from the configured max-age"
	}
	if s, ok := parts[0].Str(); !ok || !strings.EqualFold(strings.TrimSpace(s), "max-age=") {
		return "it does not start with max-age="
	}
	age := parts[1]
	if !age.contains(func(x *Term) bool {
		k, _, _ := cfgRef(x)
		return k == "main" && cfgIs(x, "Core", "TLS", "HSTS", "MaxAge")
	}) {
		return "its max-age is not the configured one"
	}
	if s, ok := parts[1].Str(); ok {
		return "its max-age is the constant " + s
	}
	if age.Op == OFmt && age.Name != "%d" && age.Name != "%v" || !wholeNumber(age, "Core", "TLS", "HSTS", "MaxAge") {
		return "its max-age is " + clip(age.String()) + " instead of the configured one"
	}
	rest := ""
	for _, p := range parts[2:] {
		s, ok := p.Str()
		if !ok {
			return "it contains " + clip(p.String())
		}
		rest += s
	}
	has := map[string]bool{}
	for _, w := range strings.Split(rest, ";") {
		w = strings.ToLower(strings.TrimSpace(w))
		if w != "" {
			has[w] = true
		}
	}
	if !strings.HasPrefix(strings.TrimSpace(rest), ";") && strings.TrimSpace(rest) != "" {
		return "its directives are not separated by semicolons"
	}
	for _, f := range []struct{ field, word string }{{"IncludeSubdomains", "includesubdomains"}, {"Preload", "preload"}} {
		val, known := cfgFlag(facts, "Core", "TLS", "HSTS", f.field)
		if !known {
			return f.field + " is not consulted"
		}
		if val != has[f.word] {
			return "the directive " + f.word + " does not follow the configured " + f.field
		}
		delete(has, f.word)
	}
	for w := range has {
		return "unexpected directive " + w
	}
	return ""
}

func ruleC18(c *Ctx) {
	errs := c.errNames()
	met := c.metricsSchema()
	n, tls := 0, 0
	for _, r := range c.serverRuns() {
		c.siteHeaders(r)
		metricsPage := false
		if met != nil && !isSite(r) && !r.isErr {
			for _, t := range r.Traces {
				for _, e := range t.Evs {
					if e.Kind == EvCond && e.Term.Op == ORangeOk && met.isPaths(e.Term.Args[0]) {
						metricsPage = true
					}
				}
			}
		}
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			facts := map[*Term]bool{}
			good := map[string]bool{}
			conf, prox := false, false
			kind := ""
			var at token.Pos
			for _, f := range flat(t) {
				e := f.Ev
				if e.Kind == EvCond {
					if !f.maybe {
						facts[e.Term] = e.Pos
					}
					continue
				}
				if e.Kind == EvCall && isRoundTrip(e.Name) {
					prox = true
				}
				if k, v, op, ok := headerWrite(e, r.W); ok {
					s, isC := k.Str()
					s = canonHeader(s)
					switch {
					case isC && (isSecHeader(s) || s == hstsHeader):
						empty := v.IsStr("")
						vs := v
						if v.Op == OSliceLit && len(v.Args) == 1 {
							vs = v.Args[0]
							empty = vs.IsStr("")
						}
						switch {
						case op == "del" || op == "other":
							good[s] = false
							c.need(false, "not-removed", e.At, t, "%s removes the header %s", name, s)
						case f.maybe:
							if !vs.IsConst() || empty {
								good[s] = false
							}
						case conf && !(s == "Content-Security-Policy" && metricsPage):
							c.need(false, "configured-headers-last", e.At, t, "%s sets %s after the site's configured headers, which can then no longer replace it", name, s)
						case s == hstsHeader:
							tls++
							why := hstsOK(vs, facts)
							c.need(why == "", "hsts-value", e.At, t, "%s: Strict-Transport-Security is wrong: %s", name, why)
							good[s] = why == ""
						case empty && s == "Content-Security-Policy" && metricsPage && good[s]:
						case op == "add" && good[s]:
							c.need(false, "set-once", e.At, t, "%s adds a second value to the header %s", name, s)
						default:
							str, isS := vs.Str()
							good[s] = isS && str != ""
							c.need(good[s], "header-value", e.At, t, "%s sets %s to %s instead of a fixed policy", name, s, clip(vs.String()))
						}
					case isC:
					case k.Op == ORangeKey && (siteHeaderMap(k.Args[0], false) || siteHeaderMap(k.Args[0], true)) && isElem(v, k.Args[0], k) && op == "set":
						conf = true
					default:
						if len(good) > 0 && !f.maybe || f.maybe {
							good = map[string]bool{}
						}
					}
				}
				if k, _ := commitKind(e, r.W, errs); k != "" {
					kind, at = k, e.At
					break
				}
			}
			if kind == "" || kind == "error" {
				continue
			}
			n++
			if !prox {
				for _, h := range securityHeaders {
					c.need(good[h], "security-header", at, t, "%s commits a response without %s", name, h)
				}
			}
			if v, known := tlsFact(allFacts(t)); !known || v {
				c.need(good[hstsHeader], "hsts", at, t, "%s commits a response without Strict-Transport-Security although TLS may be enabled", name)
			}
		}
	}
	c.atLeast(n, 8, "coverage", "paths on which a response is committed")
	c.atLeast(tls, 1, "coverage", "paths that set Strict-Transport-Security")
}

func isSecHeader(k string) bool {
	for _, h := range securityHeaders {
		if h == k {
			return true
		}
	}
	return false
}

// ---- C19 ------------------------------------------------------------------------------------

func (c *Ctx) moduleHandlerRuns() []*srvRun {
	out := c.serverRuns()
	for _, fn := range c.P.handlerFuncs("*") {
		if c.P.relOf(fn) == serverPkg {
			continue
		}
		for _, r := range c.explore(fn, c.opq()) {
			out = append(out, &srvRun{entryRun: r})
		}
	}
	for _, fn := range c.P.errorFuncs("*") {
		if c.P.relOf(fn) == serverPkg {
			continue
		}
		for _, r := range c.explore(fn, c.opq()) {
			out = append(out, &srvRun{entryRun: r, isErr: true, Code: r.Args[len(r.Args)-1]})
		}
	}
	return out
}

func ruleC19(c *Ctx) {
	errs := c.errNames()
	n := 0
	for _, r := range c.moduleHandlerRuns() {
		name := shortName(fnName(r.Fn))
		if r.W == nil {
			continue
		}
		for _, t := range r.Traces {
			committed := ""
			for _, f := range flat(t) {
				if k, _, _, ok := headerWrite(f.Ev, r.W); ok {
					n++
					c.need(committed == "", "headers-before-commit", f.At, t, "%s changes the response header %s after the response was started at %s", name, clip(k.String()), committed)
				}
				k, code := commitKind(f.Ev, r.W, errs)
				if k == "" {
					continue
				}
				if k == "status" {
					if i, ok := code.Int(); ok && i >= 100 && i < 200 && i != 101 {
						continue
					}
				}
				n++
				if k == "status" || k == "file" || k == "error" {
					c.need(committed == "", "commit-once", f.At, t, "%s commits a status after the response was already started at %s", name, committed)
				} else {
					c.need(true, "body", f.At, t, "")
				}
				if committed == "" {
					committed = c.P.pos(f.At)
				}
			}
		}
	}
	c.atLeast(n, 20, "coverage", "response events")
}

// ---- C20 ------------------------------------------------------------------------------------

var errorStatuses = map[int64]bool{401: true, 403: true, 404: true, 405: true, 406: true, 429: true, 500: true, 502: true}

func ruleC20(c *Ctx) {
	errs := c.errNames()
	ne, nh := 0, 0
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			facts := allFacts(t)
			first := ""
			k := 0
			for _, f := range flat(t) {
				kind, code := commitKind(f.Ev, r.W, errs)
				if kind == "" {
					continue
				}
				if r.isErr {
					if kind == "status" {
						k++
						ne++
						same := code == r.Code
						if v, known := factsKnow(facts, mkEq(code, r.Code)); known && v {
							same = true
						}
						c.need(same && first == "" && !f.maybe, "error-status", f.At, t, "%s answers an error with the status %s instead of the code it was given, or after the response was started", name, clip(code.String()))
					} else if first == "" {
						c.need(false, "error-status", f.At, t, "%s starts the response (%s) before it has set the error status", name, kind)
					}
				} else if kind == "error" {
					i, ok := code.Int()
					c.need(ok && errorStatuses[i], "error-code", f.At, t, "%s reports an error with %s, which is not one of the documented error statuses", name, clip(code.String()))
				} else if kind == "status" && !usesProxy(t) {
					i, ok := code.Int()
					c.need(ok && i >= 200 && i < 600, "fixed-status", f.At, t, "%s commits the status %s", name, clip(code.String()))
				}
				if !f.maybe && first == "" {
					first = kind
				}
			}
			if r.isErr {
				c.need(k == 1, "one-error-status", t.At, t, "%s commits %d explicit statuses on this path", name, k)
			} else {
				nh++
				c.need(first != "", "answered", t.At, t, "%s returns without having answered the request: the client gets an empty 200", name)
			}
		}
	}
	c.atLeast(ne, 2, "coverage", "error answers")
	c.atLeast(nh, 8, "coverage", "handler paths")
	c.fileErrors()
	c.defaultErrorHandlers("router", []int64{404, 405, 406})
	c.builtinRefusals("guard", "NewFirewall", "ErrorHandler", 403)
	c.builtinRefusals("guard", "NewLimiter", "ErrorHandler", 429)
}

// fileErrors: the code reported for a file that is not there is 404, for a
// directory or page that can not be produced 500, for a failing backend 502.
func (c *Ctx) fileErrors() {
	errs := c.errNames()
	for _, r := range c.serverRuns() {
		if r.isErr {
			continue
		}
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			facts := map[*Term]bool{}
			var last *Ev
			for _, e := range t.Evs {
				if e.Kind == EvCond {
					facts[e.Term] = e.Pos
					last = e
				}
				k, code := commitKind(e, r.W, errs)
				if k != "error" || last == nil {
					continue
				}
				i, _ := code.Int()
				// the failing call the error answer depends on
				var call string
				last.Term.contains(func(x *Term) bool {
					if x.Op == OCall && call == "" {
						call = x.Name
					}
					return false
				})
				switch {
				case isFileCall(call) && (strings.HasSuffix(call, "Stat") || strings.HasSuffix(call, "Open")):
					c.need(i == 404, "missing-file-404", e.At, t, "%s answers a file that is not there with %d", name, i)
				case call == "path/filepath.Walk" || call == "path/filepath.WalkDir" || strings.HasSuffix(call, ".Execute"):
					c.need(i == 500, "internal-500", e.At, t, "%s answers an internal failure with %d", name, i)
				}
			}
		}
	}
}

// ---- the metrics record -----------------------------------------------------------------

type metricsSchema struct {
	T     *types.Named
	bools map[string]bool
	mu    map[string]bool
}

// metricsSchema finds the record that holds the counters: the saved file format
// fixes its fields TotalRequests and Paths.
func (c *Ctx) metricsSchema() *metricsSchema {
	p := c.P.pkg(serverPkg)
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		ty, ok := m.(interface{ Type() types.Type })
		if !ok {
			continue
		}
		n, ok := ty.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ms := &metricsSchema{T: n, bools: map[string]bool{}, mu: map[string]bool{}}
		total, paths := false, false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch {
			case f.Name() == "TotalRequests":
				total = true
			case f.Name() == "Paths":
				paths = true
			case isBool(f.Type()):
				ms.bools[f.Name()] = true
			case typeIs(f.Type(), "sync", "Mutex") || typeIs(f.Type(), "sync", "RWMutex"):
				ms.mu[f.Name()] = true
			}
		}
		if total && paths {
			return ms
		}
	}
	return nil
}

func (m *metricsSchema) isPaths(t *Term) bool { return fieldIs(t, "Paths") }

// activeFact: whether counting is known to be on or off.
func (m *metricsSchema) active(t *Term) bool {
	_, p := fieldPath(t)
	return len(p) > 0 && m.bools[p[len(p)-1]] && (len(p) < 2 || p[0] != "Cfg")
}

// inner: the event writes the counter of one path under status `code`.
func (m *metricsSchema) inner(e *Ev, fresh map[*Term]*Term) (code, key, val *Term, ok bool) {
	if e.Kind != EvMapSet || e.Name == "delete" {
		return
	}
	if e.Term.Op == OLookup && m.isPaths(e.Term.Args[0]) {
		return e.Term.Args[1], e.arg(0), e.arg(1), true
	}
	if k, is := fresh[e.Term]; is {
		return k, e.arg(0), e.arg(1), true
	}
	return
}

// ---- C35 ------------------------------------------------------------------------------------

func (c *Ctx) constInt(rel, name string) (int64, bool) {
	p := c.P.pkg(rel)
	if p == nil {
		return 0, false
	}
	k := p.Const(name)
	if k == nil || k.Value == nil {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(k.Value.Value))
}

// mentions: the value contains the status (as a value or as text).
func mentions(t, status *Term) bool {
	i, isC := status.Int()
	return t.contains(func(x *Term) bool {
		if x == status {
			return true
		}
		if s, ok := x.Str(); ok && isC {
			return strings.HasPrefix(s, strconv.FormatInt(i, 10)+" ")
		}
		return false
	})
}

func (c *Ctx) mentionsHost(t, r *Term) bool {
	return t.contains(func(x *Term) bool { return c.isReqHost(x, r) || isReqField(x, r, "Host") })
}

func mentionsPath(t, r *Term) bool {
	return t.contains(func(x *Term) bool {
		if isReqPath(x, r) {
			return true
		}
		if x.Op == OCall && (x.Name == "(*net/url.URL).EscapedPath" || x.Name == "(*net/url.URL).RequestURI" || x.Name == "(*net/url.URL).String") {
			return isReqField(x.Args[0], r, "URL")
		}
		return isReqField(x, r, "RequestURI")
	})
}

func ruleC35(c *Ctx) {
	errs := c.errNames()
	logName := c.name("debug.Logger.Log")
	net, ok := c.constInt("debug", "LogNet")
	c.need(ok, "anchor", token.NoPos, nil, "debug.LogNet not found")
	met := c.metricsSchema()
	c.need(met != nil, "anchor", token.NoPos, nil, "the metrics record (TotalRequests, Paths) was not found")
	if met == nil {
		return
	}
	n := 0
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			var status *Term
			delegated, recs, counts := 0, 0, 0
			var rec, cnt *Ev
			var code, key *Term
			fresh := map[*Term]*Term{}
			active, known := false, false
			if r.isErr {
				status = r.Code
			}
			inners := 0
			evs := flat(t)
			for _, f := range evs {
				if f.Ev.Kind == EvMapSet && met.isPaths(f.Ev.Term) {
					fresh[f.Ev.arg(1)] = f.Ev.arg(0)
				}
			}
			for _, f := range evs {
				e := f.Ev
				switch e.Kind {
				case EvCond:
					if met.active(e.Term) && !f.maybe {
						active, known = e.Pos, true
					}
				case EvCall:
					if e.Name == logName {
						if l, isC := e.arg(1).Int(); isC && l == net {
							recs++
							rec = e
							if f.maybe {
								recs += 2
							}
						}
					}
				case EvStore:
					if e.Term.Op == OField && e.Term.Name == "TotalRequests" {
						counts++
						cnt = e
						if f.maybe {
							counts += 2
						}
					}
				case EvMapSet:
					if co, k, _, is := met.inner(e, fresh); is {
						code, key = co, k
						inners++
					}
				}
				if e.Kind == EvStore && (e.Term.Name == "Path" || e.Term.Name == "Host") && !r.isErr {
					// what is recorded is the request as it came in
					if rt, p := fieldPath(e.Term); rt == r.R && (len(p) == 1 && p[0] == "Host" || len(p) == 2 && p[0] == "URL") {
						c.need(false, "record-request", e.At, t, "%s changes the %s of the request before it is recorded", name, strings.ToLower(e.Term.Name))
					}
				}
				k, co := commitKind(e, r.W, errs)
				switch k {
				case "error":
					delegated++
					if f.maybe {
						delegated += 2
					}
				case "status":
					if status == nil {
						status = co
					}
				case "file", "body", "other":
					if status == nil {
						status = mkInt(200)
					}
				}
			}
			n++
			c.need(recs+delegated == 1, "one-record", t.At, t, "%s answers a request with %d access-log records and %d delegations to the error handler on this path", name, recs, delegated)
			if delegated > 0 {
				c.need(counts == 0 && inners == 0, "one-count", t.At, t, "%s counts a request that the error handler counts again", name)
				continue
			}
			if rec == nil {
				continue
			}
			if status == nil {
				continue // C20: not answered
			}
			if !r.isErr {
				if f, ok := factsKnow(allFacts(t), mkEq(status, status)); ok && !f {
					continue
				}
			}
			m := rec.arg(2)
			c.need(mentions(m, status), "record-status", rec.At, t, "%s logs a request with a status other than %s, which was sent", name, clip(status.String()))
			c.need(c.mentionsHost(m, r.R) && mentionsPath(m, r.R), "record-request", rec.At, t, "%s logs a request without its host and path", name)
			switch {
			case known && !active:
				c.need(counts == 0, "not-counted-when-off", t.At, t, "%s counts a request although counting is off", name)
			case counts == 1 && inners >= 1:
				c.need(code == status || code != nil && holds(allFacts(t), mkEq(code, status)), "count-status", cnt.At, t, "%s counts the request under status %s but answered %s", name, clip(code.String()), clip(status.String()))
				c.need(key != nil && c.mentionsHost(key, r.R) && mentionsPath(key, r.R), "count-key", cnt.At, t, "%s counts the request under a key without its host and path", name)
				c.need(inners == 1, "one-count", cnt.At, t, "%s counts one request under %d keys", name, inners)
			default:
				c.need(false, "one-count", t.At, t, "%s logs a request that is counted %d times (counting may be on)", name, counts)
			}
		}
	}
	c.atLeast(n, 8, "coverage", "answering paths")
}
