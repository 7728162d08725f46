package main

import (
	"go/token"
	"strings"
)

func init() {
	register("C24", "Value-flow of the URL of every upstream request: on every path to a round trip the URL is decomposed into the rule looked up for the request's host (known to exist on that path) and text known to begin with '/'; every other outgoing call reachable from a request is reported", ruleC24)
	register("C25", "Path-sensitive dataflow of the proxied request and response: method, body, complete header copy, status, body copy and close on every path, and the status reported for every failure branch", ruleC25)
}

// ---- the upstream request ---------------------------------------------------------------

type upstream struct {
	req, call         *Term // the request handed to the transport, the call that built it
	method, url, body *Term
}

// upstreamOf decomposes the request of a round trip.
func upstreamOf(e *Ev) (*upstream, bool) {
	req := stripConv(e.arg(len(e.Args) - 1))
	u := &upstream{req: req}
	if req.Op == OCall && (req.Name == "(*net/http.Request).WithContext") {
		req = req.Args[0]
	}
	if req.Op != OExtract || req.N != 0 || req.Args[0].Op != OCall {
		return nil, false
	}
	c := req.Args[0]
	u.call = c
	switch {
	case c.Name == "net/http.NewRequest" && len(c.Args) == 3:
		u.method, u.url, u.body = c.Args[0], c.Args[1], c.Args[2]
	case c.Name == "net/http.NewRequestWithContext" && len(c.Args) == 4:
		u.method, u.url, u.body = c.Args[1], c.Args[2], c.Args[3]
	default:
		return nil, false
	}
	return u, true
}

// rules: the map of backends.
func isRules(m *Term) bool { return cfgIs(m, "Proxy", "Rules") }

func (c *Ctx) isRule(x, r *Term) bool {
	if x.Op != OLookup || !isRules(x.Args[0]) || !c.isReqHost(x.Args[1], r) {
		return false
	}
	_, h, _ := cfgRef(x.Args[0])
	return h == nil || c.isReqHost(h, r)
}

// ruleFact: whether a backend is known to be configured for the request's host.
func (c *Ctx) ruleFact(f map[*Term]bool, r *Term) (val, known bool) {
	for x, v := range f {
		if x.Op == OLookOk && isRules(x.Args[0]) && c.isReqHost(x.Args[1], r) {
			return v, true
		}
	}
	if e := emptyFact(f, func(x *Term) bool { return c.isRule(x, r) }); e != 0 {
		return e < 0, true
	}
	for x, v := range f {
		// an empty table has no rule for anybody
		if v && x.Op == OEq {
			for i := 0; i < 2; i++ {
				if x.Args[i].Op == OLen && isRules(x.Args[i].Args[0]) && x.Args[1-i].IsInt(0) {
					return false, true
				}
			}
		}
	}
	return false, false
}

// startsWithSlash: the text is known to begin with '/'.
func startsWithSlash(x, r *Term, f map[*Term]bool) bool {
	if s, ok := x.Str(); ok {
		return strings.HasPrefix(s, "/")
	}
	// the router only hands on requests whose path begins with '/'
	if isReqPath(x, r) {
		return true
	}
	if x.Op == OCall && x.Name == "(*net/url.URL).EscapedPath" && len(x.Args) == 1 {
		root, p := fieldPath(x.Args[0])
		return root == r && len(p) == 1 && p[0] == "URL"
	}
	for y, v := range f {
		if v && y.Op == OCall && y.Name == "strings.HasPrefix" && y.Args[0] == x && len(y.Args) == 2 {
			if s, ok := y.Args[1].Str(); ok && strings.HasPrefix(s, "/") {
				return true
			}
		}
	}
	return false
}

// isClientCall: library calls that open a connection or send a request.
func isClientCall(name string) bool {
	switch name {
	case "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "crypto/tls.Dial", "crypto/tls.DialWithDialer":
		return true
	}
	return strings.HasPrefix(name, "(*net/http.Client).") || strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net.Dialer).Dial") ||
		strings.HasPrefix(name, "(*net/http/httputil.ReverseProxy)") || strings.HasPrefix(name, "net/http/httputil.NewSingleHost") || strings.HasPrefix(name, "os/exec.")
}

func ruleC24(c *Ctx) {
	seen := map[token.Pos]bool{}
	n := 0
	for _, r := range c.moduleHandlerRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			for i, e := range t.Evs {
				if e.Kind == EvStore {
					// the target of a request that was built is not changed
					root, p := fieldPath(derefOf(e.Term))
					if len(p) > 0 && p[0] == "URL" && root.Op == OExtract && root.Args[0].Op == OCall && strings.HasPrefix(root.Args[0].Name, "net/http.NewRequest") {
						c.need(false, "target-kept", e.At, t, "%s changes the URL of an upstream request after it was built from the configured rule", name)
					}
				}
				if e.Kind != EvCall || !isRoundTrip(e.Name) {
					continue
				}
				seen[e.At] = true
				n++
				if !c.need(e.Name != "(*net/http.Client).Do", "no-redirects", e.At, t, "%s sends the request with a client that follows redirects to other hosts", name) {
					continue
				}
				u, ok := upstreamOf(e)
				if !c.need(ok, "upstream-request", e.At, t, "%s sends a request that was not built from a configured rule: %s", name, clip(e.arg(len(e.Args)-1).String())) {
					continue
				}
				f := factsAt(t, i)
				ps := concatParts(u.url)
				if !c.need(c.isRule(ps[0], r.R), "rule-of-host", e.At, t, "%s sends the request to %s, which does not begin with the rule configured for the request's host", name, clip(u.url.String())) {
					continue
				}
				v, known := c.ruleFact(f, r.R)
				c.need(known && v, "rule-exists", e.At, t, "%s sends a request without having established that a rule exists for the host", name)
				ok = len(ps) == 1
				if len(ps) > 1 {
					ok = startsWithSlash(ps[1], r.R, f)
				}
				c.need(ok, "slash-after-rule", e.At, t, "%s appends %s to the configured backend without knowing that it begins with '/', so the client may extend the backend's host", name, clip(u.url.String()))
				c.need(holdsNil(f, u.call, 1), "request-built", e.At, t, "%s sends a request whose construction may have failed", name)
			}
		}
	}
	c.covered("round-trips-covered", seen, isRoundTrip, "a round trip")
	c.covered("no-other-client", nil, func(name string) bool { return isClientCall(name) && !isRoundTrip(name) }, "an outgoing connection")
	c.atLeast(n, 1, "coverage", "round trips to a backend")
}

// derefOf: the value stored at an address, as a path can be taken from it.
func derefOf(a *Term) *Term {
	return mkDeref(a, 0, ptrElem(a.Typ))
}

// ---- C25 ------------------------------------------------------------------------------------

// wholeBody: the value hands over the complete body of the request (or response) x.
func wholeBody(b *Term, isBody func(*Term) bool, f map[*Term]bool) bool {
	for {
		b = stripConv(b)
		if isBody(b) {
			return true
		}
		if b.Op == OExtract && b.N == 0 && b.Args[0].Op == OCall {
			n := b.Args[0].Name
			if (n == "io.ReadAll" || n == "io/ioutil.ReadAll") && isBody(stripConv(b.Args[0].Args[0])) {
				return holdsNil(f, b.Args[0], 1)
			}
			return false
		}
		if b.Op == OCall && len(b.Args) == 1 {
			switch b.Name {
			case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader", "io.NopCloser", "io/ioutil.NopCloser", "bufio.NewReader":
				b = b.Args[0]
				continue
			}
		}
		return false
	}
}

// copiedHeaders: a loop of the path before event upto copies every value of every
// key of src to dst.
func copiedHeaders(t *Trace, upto int, src *Term, isDst func(*Term) bool) (int, bool) {
	for i, e := range t.Evs {
		if i >= upto {
			break
		}
		if e.Kind != EvLoopHead || e.Loop == nil || !e.Loop.ranges(src) || len(e.Loop.Backs) == 0 {
			continue
		}
		end := -1
		for j := i; j < upto && j < len(t.Evs); j++ {
			if g := t.Evs[j]; g.Kind == EvLoopOut && g.Loop == e.Loop && g.Pos {
				end = j
			}
		}
		if end < 0 {
			continue
		}
		all := true
		for _, b := range e.Loop.Backs {
			all = all && copiesEntry(e.Loop, b, src, isDst)
		}
		if all {
			return end, true
		}
	}
	return -1, false
}

// copiesEntry: one iteration copies all values of its key.
func copiesEntry(l *LoopInfo, b *Back, src *Term, isDst func(*Term) bool) bool {
	if b.Tr == nil {
		return false
	}
	isKey := func(k *Term) bool { return k.Op == ORangeKey && k.Args[0] == src }
	isVals := func(v *Term) bool { v = stripConv(v); return v.Op == OLookup && v.Args[0] == src && isKey(v.Args[1]) }
	evs := bodyEvs(l, b)
	off := len(b.Tr.Evs) - len(evs)
	for j, e := range evs {
		switch {
		case e.Kind == EvMapSet && e.Name != "delete" && isDst(e.Term) && isKey(e.arg(0)):
			v := stripConv(e.arg(1))
			if isVals(v) {
				return true
			}
			if v.Op == OAppend && len(v.Args) == 2 && (v.Args[0] == tNil || v.Args[0].Op == OZero || v.Args[0].Op == OSliceLit && len(v.Args[0].Args) == 0) && isVals(v.Args[1]) {
				return true
			}
			// appended to what the destination holds for the key
			if v.Op == OAppend && len(v.Args) == 2 && isVals(v.Args[1]) {
				if o := stripConv(v.Args[0]); o.Op == OLookup && isDst(o.Args[0]) && isKey(o.Args[1]) {
					return true
				}
			}
			// a slice of the same length that was filled from the values
			for _, g := range evs {
				if g.Kind == EvCall && g.Name == "copy" && sameBase(g.arg(0), v) && isVals(g.arg(1)) && lenOfVals(v, isVals) {
					return true
				}
			}
		case e.Kind == EvLoopHead && e.Loop != nil && len(e.Loop.Backs) > 0:
			in := e.Loop
			var vals *Term
			ok := true
			for _, ib := range in.Backs {
				hit := false
				for _, g := range bodyEvs(in, ib) {
					if g.Kind == EvCall && strings.HasSuffix(g.Name, "Header).Add") && isDst(stripConv(g.arg(0))) && isKey(g.arg(1)) {
						v := g.arg(2)
						if base := elemBase(v); base != nil && isVals(base) {
							vals = base
							hit = true
						}
					}
				}
				ok = ok && hit
			}
			if ok && vals != nil && fullScan(b.Tr, off+j, in, vals) {
				return true
			}
		}
	}
	return false
}

// elemBase: the list an element read comes from.
func elemBase(v *Term) *Term {
	if v.Op == ODeref && v.Args[0].Op == OIndexA {
		return v.Args[0].Args[0]
	}
	if v.Op == OIndex {
		return v.Args[0]
	}
	return nil
}

func sameBase(a, b *Term) bool {
	base := func(x *Term) *Term {
		for x.Op == OSlice {
			x = x.Args[0]
		}
		return x
	}
	return a == b || base(a) == base(b)
}

func lenOfVals(v *Term, isVals func(*Term) bool) bool {
	return v.contains(func(x *Term) bool { return x.Op == OLen && isVals(x.Args[0]) })
}

func ruleC25(c *Ctx) {
	errs := c.errNames()
	seen := map[token.Pos]bool{}
	n := 0
	for _, r := range c.moduleHandlerRuns() {
		prox := false
		for _, t := range r.Traces {
			prox = prox || usesProxy(t)
		}
		if !prox {
			continue
		}
		name := shortName(fnName(r.Fn))
		w, rq := r.W, r.R
		isBody := func(x *Term) bool { return isReqField(x, rq, "Body") }
		for _, t := range r.Traces {
			if t.End == EndBack {
				continue
			}
			var commits []*Ev
			rt, ri := (*Ev)(nil), -1
			for i, e := range t.Evs {
				if k, _ := commitKind(e, w, errs); k != "" {
					commits = append(commits, e)
				}
				if e.Kind == EvCall && isRoundTrip(e.Name) {
					if rt != nil {
						c.need(false, "one-round-trip", e.At, t, "%s sends the request upstream more than once", name)
					}
					rt, ri = e, i
				}
			}
			f := allFacts(t)
			code := func(want int64, why string) {
				at := t.At
				ok := false
				for _, e := range commits {
					at = e.At
					k, cd := commitKind(e, w, errs)
					ok = (k == "error" || k == "status") && cd != nil && cd.IsInt(want)
					break
				}
				c.need(ok, "failure-status", at, t, "%s does not answer %d although %s", name, want, why)
			}
			if rt == nil {
				if t.End != EndReturn {
					continue
				}
				n++
				if v, known := c.ruleFact(f, rq); known && !v {
					code(404, "no rule exists for the host")
					continue
				}
				failed := false
				for x, v := range f {
					if v || x.Op != OEq {
						continue
					}
					for k := 0; k < 2; k++ {
						y := x.Args[k]
						if x.Args[1-k] == tNil && y.Op == OExtract && y.N == 1 && y.Args[0].Op == OCall {
							nm := y.Args[0].Name
							if strings.HasPrefix(nm, "net/http.NewRequest") || strings.HasSuffix(nm, "ReadAll") || strings.HasPrefix(nm, "net/url.Parse") {
								failed = true
							}
						}
					}
				}
				if c.need(failed, "goes-upstream", t.At, t, "%s ends without sending the request upstream although nothing failed", name) {
					code(502, "the request could not be read or built")
				}
				continue
			}
			seen[rt.At] = true
			n++
			u, ok := upstreamOf(rt)
			if !c.need(ok, "upstream-request", rt.At, t, "%s sends a request that was not built from the client's", name) {
				continue
			}
			before := factsAt(t, ri)
			c.need(isReqField(u.method, rq, "Method"), "method", rt.At, t, "%s sends the method %s instead of the client's", name, clip(u.method.String()))
			c.need(wholeTarget(u.url, rq, before), "target", rt.At, t, "%s does not send the client's path and query upstream: %s", name, clip(u.url.String()))
			body, hdr, hostT := u.body, (*Term)(nil), (*Term)(nil)
			hdrAt := -1
			reqHdr := func(x *Term) bool {
				root, p := fieldPath(x)
				return root == u.req && len(p) == 1 && p[0] == "Header"
			}
			for i, e := range t.Evs[:ri] {
				switch e.Kind {
				case EvStore:
					root, p := fieldPath(derefOf(e.Term))
					if root == rq && len(p) > 0 {
						c.need(false, "client-request-kept", e.At, t, "%s changes %s of the client's request before it is sent upstream", name, strings.Join(p, "."))
					}
					if root != u.req || len(p) != 1 {
						continue
					}
					switch p[0] {
					case "Header":
						hdr, hdrAt = e.arg(0), i
					case "Body":
						body = e.arg(0)
					case "Host":
						hostT = e.arg(0)
					case "Method":
						c.need(isReqField(e.arg(0), rq, "Method"), "method", e.At, t, "%s replaces the client's method", name)
					}
				case EvCall:
					switch e.Name {
					case "(*net/http.Request).ParseForm", "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(*net/http.Request).ParseMultipartForm", "(*net/http.Request).FormFile", "(*net/http.Request).MultipartReader":
						c.need(e.arg(0) != rq, "body-untouched", e.At, t, "%s consumes the body of the client's request before it is sent upstream", name)
					}
				}
			}
			c.need(wholeBody(body, isBody, before), "body", rt.At, t, "%s does not send the complete body of the client's request: %s", name, clip(body.String()))
			c.need(hostT == nil || c.isReqHost(hostT, rq) || isReqField(hostT, rq, "Host"), "host", rt.At, t, "%s sends the request for the host %s", name, clip(termStr(hostT)))
			// all headers of the client
			ok = false
			hdrT := func(x *Term) bool { return hdr != nil && x == hdr || reqHdr(x) }
			var clientHdr *Term
			for _, e := range t.Evs[:ri] {
				evTerms(e, func(x *Term) {
					x.contains(func(y *Term) bool {
						if clientHdr == nil && y.Op != OField && isReqField(y, rq, "Header") {
							clientHdr = y
						}
						return clientHdr != nil
					})
				})
			}
			switch {
			case hdr != nil && isReqField(hdr, rq, "Header"):
				ok, clientHdr = true, hdr
			case hdr != nil && isCall(hdr, "(net/http.Header).Clone") && isReqField(hdr.Args[0], rq, "Header"):
				ok = true
			case clientHdr != nil:
				at, done := copiedHeaders(t, ri, clientHdr, hdrT)
				ok = done
				if done && hdrAt > at && hdr != nil && hdr.Op != OMake {
					ok = false
				}
			}
			c.need(ok, "all-headers", rt.At, t, "%s does not send all headers of the client's request upstream", name)
			for _, e := range t.Evs[:ri] {
				if e.Kind == EvCall && (strings.HasSuffix(e.Name, "Header).Del") || strings.HasSuffix(e.Name, "Header).Set")) {
					if h := stripConv(e.arg(0)); hdrT(h) || h == clientHdr || hdr != nil && h == hdr {
						c.need(false, "headers-kept", e.At, t, "%s removes or replaces the header %s of the client's request", name, clip(e.arg(1).String()))
					}
				}
				if e.Kind == EvMapSet && (hdrT(e.Term) || e.Term == clientHdr) && !(e.arg(0).Op == ORangeKey) {
					c.need(false, "headers-kept", e.At, t, "%s removes or replaces the header %s of the client's request", name, clip(e.arg(0).String()))
				}
			}
			// the result
			okErr, known := false, false
			for x, v := range f {
				if x.Op != OEq {
					continue
				}
				for k := 0; k < 2; k++ {
					if y := x.Args[k]; x.Args[1-k] == tNil && y.Op == OExtract && y.N == 1 && y.Args[0] == rt.Term {
						okErr, known = v, true
					}
				}
			}
			if !c.need(known, "failure-checked", rt.At, t, "%s uses the result of the round trip without asking whether it failed", name) {
				continue
			}
			if !okErr {
				code(502, "the round trip failed")
				continue
			}
			c.relayed(r, t, rt, ri, commits, errs)
		}
	}
	c.covered("round-trips-covered", seen, isRoundTrip, "a round trip")
	c.atLeast(n, 4, "coverage", "paths of the proxy handler")
}

// wholeTarget: after the rule comes the path and query of the client's request.
func wholeTarget(url, r *Term, f map[*Term]bool) bool {
	ps := concatParts(url)
	if len(ps) < 2 {
		return false
	}
	ps = ps[1:]
	isURLCall := func(x *Term, name string) bool {
		return x.Op == OCall && x.Name == "(*net/url.URL)."+name && len(x.Args) == 1 && isReqField(x.Args[0], r, "URL")
	}
	if len(ps) == 1 && (isReqField(ps[0], r, "RequestURI") || isURLCall(ps[0], "RequestURI")) {
		return true
	}
	if !isURLCall(ps[0], "EscapedPath") {
		return false
	}
	isQuery := func(x *Term) bool { return isReqField(x, r, "URL", "RawQuery") }
	switch {
	case len(ps) == 1:
		return emptyFact(f, isQuery) == 1
	case len(ps) == 3:
		return ps[1].IsStr("?") && isQuery(ps[2])
	}
	return false
}

func termStr(t *Term) string {
	if t == nil {
		return ""
	}
	return t.String()
}

// relayed: the backend's response reaches the client unchanged.
func (c *Ctx) relayed(r *srvRun, t *Trace, rt *Ev, ri int, commits []*Ev, errs map[string]bool) {
	name := shortName(fnName(r.Fn))
	w := r.W
	resp := func(x *Term, field string) bool {
		root, p := fieldPath(stripConv(x))
		return root.Op == OExtract && root.N == 0 && root.Args[0] == rt.Term && len(p) == 1 && p[0] == field
	}
	idx := map[*Ev]int{}
	for i, e := range t.Evs {
		idx[e] = i
	}
	// status first, then the body
	ci := len(t.Evs)
	status := false
	if len(commits) > 0 {
		ci = idx[commits[0]]
		k, code := commitKind(commits[0], w, errs)
		status = k == "status" && code != nil && resp(code, "StatusCode")
	}
	at := rt.At
	if len(commits) > 0 {
		at = commits[0].At
	}
	c.need(status, "status", at, t, "%s does not begin the answer with the status of the backend's response", name)
	copies, copyAt := 0, -1
	for _, e := range commits {
		k, _ := commitKind(e, w, errs)
		if k == "status" {
			continue
		}
		good := (e.Name == "io.Copy" || e.Name == "io.CopyBuffer") && stripConv(e.arg(0)) == w && resp(e.arg(1), "Body")
		if good {
			copies++
			copyAt = idx[e]
		}
		c.need(good, "body-relayed", e.At, t, "%s sends something other than the backend's body", name)
	}
	c.need(copies == 1, "body-relayed", at, t, "%s copies the backend's body %d times to the client", name, copies)
	// headers
	var hm *Term
	for i := ri + 1; i < len(t.Evs) && hm == nil; i++ {
		evTerms(t.Evs[i], func(x *Term) {
			x.contains(func(y *Term) bool {
				if hm == nil && y.Op != OField && resp(y, "Header") {
					hm = y
				}
				return hm != nil
			})
		})
	}
	for _, f := range flat(t) {
		e := f.Ev
		if f.i <= ri || f.i >= ci || hm == nil {
			continue
		}
		switch {
		case e.Kind == EvCall && len(e.Args) > 1 && (strings.HasSuffix(e.Name, "Header).Del") || strings.HasSuffix(e.Name, "Header).Set") || strings.HasSuffix(e.Name, "Header).Add")) && stripConv(e.arg(0)) == hm:
			c.need(false, "headers-relayed", e.At, t, "%s changes the header %s of the backend's response before it is relayed", name, clip(e.arg(1).String()))
		case e.Kind == EvMapSet && stripConv(e.Term) == hm:
			c.need(false, "headers-relayed", e.At, t, "%s changes the header %s of the backend's response before it is relayed", name, clip(e.arg(0).String()))
		}
	}
	done, cpAt := false, -1
	if hm != nil {
		cpAt, done = copiedHeaders(t, ci, hm, func(x *Term) bool { return isRespHeader(stripConv(x), w) })
	}
	c.need(done, "headers-relayed", at, t, "%s does not copy every header of the backend's response before the status is sent", name)
	for _, f := range flat(t) {
		if f.i <= ri {
			continue
		}
		k, v, op, ok := headerWrite(f.Ev, w)
		if !ok {
			continue
		}
		s, isC := k.Str()
		switch {
		case hm != nil && k.Op == ORangeKey && k.Args[0] == hm:
		case k.Op == ORangeKey && siteHeaderMap(k.Args[0], true) && isElem(v, k.Args[0], k) && op == "set":
			c.need(f.i > cpAt, "configured-after-relayed", f.At, t, "%s sets the configured headers before the backend's, which then replace or repeat them", name)
		case isC && canonHeader(s) == hstsHeader && op == "set":
		default:
			c.need(false, "only-configured-added", f.At, t, "%s changes the header %s of the relayed response, which is neither the backend's nor configured", name, clip(k.String()))
		}
		c.need(f.i < ci, "headers-before-status", f.At, t, "%s changes headers after the status was sent", name)
	}
	// the backend's body is closed after it was copied
	closed := false
	for i, e := range t.Evs {
		if e.Kind == EvCall && strings.HasSuffix(e.Name, ").Close") && resp(e.arg(0), "Body") {
			closed = i > copyAt
		}
	}
	c.need(closed, "body-closed", rt.At, t, "%s does not close the backend's response body", name)
}
