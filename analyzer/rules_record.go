package main

import (
	"go/token"
	"strings"
)

func init() {
	register("C59", "Value-flow into every access-log record (which parts of the request it carries) and into every store to the metrics record on each path of each handler (which parts it must not carry)", ruleC59)
	register("C60", "Path-sensitive case analysis of every refusing path of the authentication middleware: its facts must contain one of the causes for refusal; value-flow of the configured users into the table", ruleC60)
}

// ---- C59 -------------------------------------------------------------------------------

// aboutClient: the value depends on something of the request that tells who made it or
// what was sent along.
func aboutClient(x, r *Term) string {
	what := ""
	seen := map[*Term]bool{}
	var walk func(y *Term)
	walk = func(y *Term) {
		if seen[y] || what != "" || y.Op == OCall && isRoundTrip(y.Name) {
			return // the backend's answer is not the client's data
		}
		seen[y] = true
		root, p := fieldPath(y)
		if root == r && len(p) > 0 {
			switch {
			case p[0] == "Host" || p[0] == "Method" || p[0] == "Proto" || p[0] == "ProtoMajor" || p[0] == "ProtoMinor":
			case p[0] == "URL" && len(p) == 2 && (p[1] == "RawQuery" || p[1] == "User" || p[1] == "Fragment" || p[1] == "Opaque"):
				what = "the request's " + strings.Join(p, ".")
			case p[0] == "URL":
			default:
				what = "the request's " + strings.Join(p, ".")
			}
		}
		if y.Op == OCall && len(y.Args) > 0 {
			switch {
			case strings.HasPrefix(y.Name, "(*net/http.Request).") && y.Args[0] == r:
				what = "the request's " + y.Name[len("(*net/http.Request)."):]
			case y.Name == "(*net/url.URL).String" || y.Name == "(*net/url.URL).RequestURI" || y.Name == "(*net/url.URL).Query" || y.Name == "(*net/url.URL).Redacted":
				if isReqField(y.Args[0], r, "URL") {
					what = "the request's query"
				}
			}
		}
		for _, a := range y.Args {
			walk(a)
		}
	}
	walk(x)
	return what
}

func ruleC59(c *Ctx) {
	logName := c.name("debug.Logger.Log")
	net, ok := c.constInt("debug", "LogNet")
	c.need(ok, "anchor", token.NoPos, nil, "debug.LogNet not found")
	met := c.metricsSchema()
	c.need(met != nil, "anchor", token.NoPos, nil, "the metrics record (TotalRequests, Paths) was not found")
	if met == nil {
		return
	}
	recs, kept := 0, 0
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			for _, f := range flat(t) {
				e := f.Ev
				switch e.Kind {
				case EvCall:
					if e.Name != logName {
						continue
					}
					if l, isC := e.arg(1).Int(); !isC || l != net {
						continue
					}
					recs++
					m := e.arg(2)
					has := func(part string, good func(*Term) bool) {
						c.need(m.contains(good), "log-complete", e.At, t, "%s records a request without its %s", name, part)
					}
					field := func(names ...string) func(*Term) bool {
						return func(x *Term) bool { return isReqField(x, r.R, names...) }
					}
					has("method", field("Method"))
					has("client address", field("RemoteAddr"))
					has("host", func(x *Term) bool { return c.isReqHost(x, r.R) || isReqField(x, r.R, "Host") })
					c.need(mentionsPath(m, r.R), "log-complete", e.At, t, "%s records a request without its path", name)
					has("query", func(x *Term) bool {
						if isReqField(x, r.R, "URL", "RawQuery") || isReqField(x, r.R, "RequestURI") {
							return true
						}
						return x.Op == OCall && (x.Name == "(*net/url.URL).String" || x.Name == "(*net/url.URL).RequestURI") && isReqField(x.Args[0], r.R, "URL")
					})
					has("user agent", func(x *Term) bool {
						if isCall(x, "(*net/http.Request).UserAgent") && x.Args[0] == r.R {
							return true
						}
						return isCall(x, "(net/http.Header).Get") && isReqField(x.Args[0], r.R, "Header") && len(x.Args) == 2 && x.Args[1].IsStr("User-Agent")
					})
				case EvStore, EvMapSet:
					if !met.kept(e.Term) {
						continue
					}
					kept++
					for _, a := range e.Args {
						if a == nil {
							continue
						}
						what := aboutClient(a, r.R)
						c.need(what == "", "aggregates-only", e.At, t, "%s keeps %s in the metrics", name, what)
					}
				}
			}
		}
	}
	c.atLeast(recs, 8, "coverage", "access-log records")
	c.atLeast(kept, 8, "coverage", "stores to the metrics record")
}

// kept: the location or container belongs to the metrics record.
func (m *metricsSchema) kept(x *Term) bool {
	owner := ""
	if o := m.T.Obj(); o.Pkg() != nil {
		owner = o.Pkg().Path() + "." + o.Name()
	}
	return x.contains(func(y *Term) bool {
		return (y.Op == OField || y.Op == OSel) && y.Owner == owner
	})
}

// ---- C60 -------------------------------------------------------------------------------

// refusal: a fact of the path that justifies refusing the request.
func (m *mwRun) refusal(facts map[*Term]bool) string {
	k := &creds{m.R, facts}
	isUsers := func(x *Term) bool {
		r, p := fieldPath(x)
		return len(p) == 1 && p[0] == "Users" && (r == m.Recv || r.Op == OAlloc || r.Op == ODeref)
	}
	entry := func(x *Term, field string) bool {
		r, p := fieldPath(x)
		if r.Op == ODeref {
			r = r.Args[0]
		}
		return len(p) == 1 && p[0] == field && r.Op == OLookup && isUsers(r.Args[0]) && k.user(r.Args[1])
	}
	isHeader := func(x *Term) bool { return isAuthHeader(x, m.R) }
	decode := func(x *Term) bool {
		return x.Op == OCall && x.Name == "(*encoding/base64.Encoding).DecodeString" && x.Args[1].Op == OSlice && isHeader(x.Args[1].Args[0]) && x.Args[1].Args[1].IsInt(6)
	}
	// own: a comparison of the submitted credentials with the user's own
	own := func(x *Term) bool {
		ok := 0
		var one func(x *Term) bool
		one = func(x *Term) bool {
			switch {
			case x.Op == OBin && x.Name == "&":
				return one(x.Args[0]) && one(x.Args[1])
			case isCall(x, "crypto/subtle.ConstantTimeCompare"), isCall(x, "crypto/hmac.Equal"):
				a, b := digestOf(x.Args[0]), digestOf(x.Args[1])
				if a == nil || b == nil {
					return false
				}
				for i := 0; i < 2; i++ {
					if k.user(a) && entry(b, "User") || k.pass(a) && entry(b, "Password") {
						ok++
						return true
					}
					a, b = b, a
				}
				return false
			}
			return x.Op != OCall && !x.contains(func(y *Term) bool { return y == m.R }) || x.contains(func(y *Term) bool { return y.Op == OLookOk && isUsers(y.Args[0]) && k.user(y.Args[1]) })
		}
		return one(x) && ok > 0
	}
	noUsers, simple := false, false
	for f, v := range facts {
		switch {
		case f.Op == OEq:
			for i := 0; i < 2; i++ {
				a, b := f.Args[i], f.Args[1-i]
				switch {
				case v && a == m.R && b == tNil:
					return "no request"
				case fieldIs(a, "AuthFunc") && b == tNil:
					simple = simple || v
				case v && a.Op == OLen && isUsers(a.Args[0]) && b.IsInt(0), v && isUsers(a) && b == tNil:
					noUsers = true
				case v && isHeader(a) && b.IsStr(""), v && a.Op == OLen && isHeader(a.Args[0]) && b.IsInt(0):
					return "no credentials"
				case !v && a.Op == OExtract && a.N == 1 && decode(a.Args[0]) && b == tNil:
					return "malformed credentials"
				case (!v && b.IsInt(1) || v && b.IsInt(0)) && own(a):
					return "wrong credentials"
				}
			}
		case !v && isCall(f, "strings.HasPrefix") && isHeader(f.Args[0]) && f.Args[1].IsStr("Basic "):
			return "no credentials"
		case !v && f.Op == OExtract && f.N == 2 && isBasicAuthCall(f.Args[0], m.R):
			return "no credentials"
		case !v && isCall(f, "strings.Contains") && f.Args[1].IsStr(":") && k.decoded(f.Args[0]):
			return "malformed credentials"
		case !v && f.Op == OLookOk && isUsers(f.Args[0]) && k.user(f.Args[1]):
			return "unknown user"
		case !v && f.Op == OCall && f.Name == "dyn" && fieldIs(f.Args[0], "AuthFunc") && len(f.Args) == 4:
			if k.user(f.Args[1]) && k.pass(f.Args[2]) && f.Args[3] == m.R {
				return "refused by the custom check"
			}
		case !v && isCall(f, "crypto/hmac.Equal") && own(f):
			return "wrong credentials"
		}
	}
	if noUsers && simple {
		return "no users"
	}
	return ""
}

func ruleC60(c *Ctx) {
	refused, passed := 0, 0
	why := map[string]bool{}
	for _, m := range c.authRuns() {
		for _, t := range m.Traces {
			for _, o := range m.outcomes(t) {
				switch o.kind {
				case "next":
					passed++
				case "error":
					refused++
					w := m.refusal(factsAt(t, o.at))
					why[w] = true
					c.need(w != "", "refused-for-cause", o.ev.At, t, "a request is refused although its credentials were not found to be missing, malformed or wrong")
				}
			}
		}
	}
	c.atLeast(refused, 5, "coverage", "refusing paths")
	c.atLeast(passed, 2, "coverage", "admitting paths")
	c.atLeast(len(why), 4, "coverage", "causes for refusal")

	// every configured user is in the table
	fn := c.P.fn("guard", "SimpleBasicAuth")
	if fn == nil {
		return
	}
	args := params(fn)
	rounds, made := 0, 0
	maps := map[*Term]bool{}
	ts := c.run(newExec(c.P, c.opq()), fn, args, nil, nil)
	for _, t := range ts {
		if t.End != EndBack {
			continue
		}
		over, stored := false, false
		for _, e := range t.Evs {
			if e.Kind == EvCond && e.Pos && e.Term.Op == ORangeOk && e.Term.Args[0] == args[0] {
				over = true
			}
			if e.Kind == EvMapSet && len(e.Args) == 2 && e.Args[0].Op == ORangeKey && e.Args[0].Args[0] == args[0] {
				stored = true
				maps[stripConv(e.Term)] = true
			}
		}
		if over {
			rounds++
			c.need(stored, "every-user", t.At, t, "a configured user is left out of the table, so that valid credentials are refused")
		}
	}
	for _, t := range ts {
		if t.End != EndReturn {
			continue
		}
		made++
		var users *Term
		done := false
		for _, e := range t.Evs {
			if e.Kind == EvStore && e.Term.Op == OField && e.Term.Name == "Users" && e.Term.Args[0] == t.Ret[0] {
				users = stripConv(e.Args[0])
			}
			if e.Kind == EvMapSet && e.Name == "delete" {
				c.need(false, "every-user", e.At, t, "a configured user is removed from the table")
			}
			if e.Kind == EvCond && !e.Pos && e.Term.Op == ORangeOk && e.Term.Args[0] == args[0] {
				done = true
			}
		}
		c.need(done && users != nil && maps[users], "every-user", t.At, t, "basic authentication is set up with other users than all configured ones")
	}
	c.atLeast(rounds, 1, "coverage", "rounds over the configured users")
	c.atLeast(made, 1, "coverage", "paths that set up basic authentication")
}
