package main

import (
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register("C47", "Path-sensitive analysis of the file and download handlers: on each path the name that is sent, or whose absence is reported, is compared with the name the request path and the index setting determine, under the path's own facts", ruleC47)
	register("C48", "Path-sensitive analysis of the download index: completeness of the loops over extensions and collected files (induction over their back edges), the directory walk's callback run from every state it is called in, and value flow from file information to table row", ruleC48)
	register("C49", "Path-sensitive analysis of the metrics page: completeness of the nested loops over the counters (induction over each loop's back edges) and value flow of each counter into the text written", ruleC49)
	register("C50", "Path-sensitive value-flow analysis of every error answer: page lookup key, page data and built-in text are compared with the status parameter under the path's own facts", ruleC50)
	register("C53", "Path-sensitive analysis of the host normalisation: every returned value against the outcome of splitting off the port", ruleC53)
}

// ---- C47 -------------------------------------------------------------------------------

func isServeFile(e *Ev) bool { return e.Kind == EvCall && e.Name == "net/http.ServeFile" }

func isDirWalk(name string) bool {
	return name == "path/filepath.Walk" || name == "path/filepath.WalkDir" || name == "io/fs.WalkDir" || listsDir(name)
}

// dropSep: the pieces of a name without separators and prefix trimming.
func dropSep(ps []*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if p.IsStr("/") || p.IsStr("") {
			continue
		}
		if p.Op == OCall && (p.Name == "strings.TrimPrefix" || p.Name == "strings.TrimLeft") && len(p.Args) == 2 && p.Args[1].IsStr("/") {
			p = p.Args[0]
		}
		out = append(out, p)
	}
	return out
}

// isRoot: whether the request path is known to be "/" (1), known not to be (-1).
func (c *Ctx) pathEq(facts map[*Term]bool, r *Term, other func(*Term) bool) int {
	for x, v := range facts {
		if x.Op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if isReqPath(x.Args[i], r) && other(x.Args[1-i]) {
				return verdict(v, true)
			}
		}
	}
	return 0
}

// statFailed: the facts say that looking for exactly the named file failed.
func statFacts(facts map[*Term]bool, want func(*Term) bool) (found, failed bool) {
	for x, v := range facts {
		var call *Term
		if x.Op == OEq {
			for i := 0; i < 2; i++ {
				a, b := x.Args[i], x.Args[1-i]
				if b == tNil && a.Op == OExtract && a.N == 1 {
					call = a.Args[0]
				}
			}
		}
		if call == nil || call.Op != OCall || len(call.Args) == 0 {
			continue
		}
		switch call.Name {
		case "os.Stat", "os.Open", "os.Lstat":
		default:
			continue
		}
		if want(call.Args[0]) {
			if v {
				found = true
			} else {
				failed = true
			}
		}
	}
	return
}

func ruleC47(c *Ctx) {
	errs := c.errNames()
	files, downloads, sent, absent := 0, 0, 0, 0
	for _, r := range c.serverRuns() {
		if r.isErr {
			continue
		}
		name := shortName(fnName(r.Fn))
		c.siteSettings(r, map[string]bool{}, map[string]bool{}, "Serve")
		isFile, isDl := false, false
		for _, t := range r.Traces {
			for _, e := range flat(t) {
				if isServeFile(e.Ev) {
					isFile = true
				}
				if e.Kind == EvCall && isDirWalk(e.Name) {
					isDl = true
				}
			}
		}
		if !isFile {
			continue
		}
		if isDl {
			downloads++
		} else {
			files++
		}
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			disposition := ""
			for i, e := range t.Evs {
				if k, v, _, ok := headerWrite(e, r.W); ok && k.IsStr("Content-Disposition") {
					disposition = ""
					if s, ok := v.Str(); ok {
						disposition = s
					} else if v.Op == OSliceLit && len(v.Args) == 1 {
						disposition, _ = v.Args[0].Str()
					}
				}
				kind, code := commitKind(e, r.W, errs)
				if kind == "" {
					continue
				}
				f := factsAt(t, i)
				slash := 0
				for x, v := range f {
					if isCall(x, "strings.HasSuffix") && isReqPath(x.Args[0], r.R) && x.Args[1].IsStr("/") {
						slash = verdict(v, true)
					}
				}
				isIndex := func(x *Term) bool { return cfgIs(x, "Serve", "ServeIndex") }
				isSlash := func(x *Term) bool { return x.IsStr("/") }
				if c.pathEq(f, r.R, isSlash) == 1 {
					slash = 1
				}
				// the file this request asks for
				right := func(x *Term) bool {
					below, ok := siteFile(x, r.R)
					if !ok {
						return false
					}
					below = dropSep(below)
					if len(below) == 0 || !isReqPath(below[0], r.R) {
						return false
					}
					if isDl {
						return len(below) == 1
					}
					return slash == 1 && len(below) == 2 && isIndex(below[1]) || slash == -1 && len(below) == 1
				}
				// the generated index answers for the root and the index name
				generated := false
				if isDl {
					root, idx := c.pathEq(f, r.R, isSlash), c.pathEq(f, r.R, isIndex)
					if root == 1 || idx == 1 {
						generated = true
					} else if !c.need(root == -1 && idx == -1 || kind == "error" && code.IsInt(500), "index-or-file", e.At, t, "%s decides what to send without having compared the path with '/' and the index name", name) {
						continue
					}
				}
				switch kind {
				case "file":
					sent++
					if !c.need(isServeFile(e) && !generated && right(e.arg(2)), "requested-file", e.At, t, "%s sends %s, which is not the file the request path names", name, clip(e.arg(2).String())) {
						continue
					}
					if isDl {
						c.need(strings.EqualFold(strings.TrimSpace(strings.SplitN(disposition, ";", 2)[0]), "attachment"), "attachment", e.At, t, "%s sends a download with the Content-Disposition %q instead of as an attachment", name, disposition)
					}
				case "error":
					n, ok := code.Int()
					if !c.need(ok, "error-code", e.At, t, "%s reports the error %s", name, clip(code.String())) {
						continue
					}
					if n == 404 {
						absent++
						_, failed := statFacts(f, right)
						c.need(failed && !generated, "absent-file", e.At, t, "%s reports 404 without having found that the requested file does not exist", name)
						continue
					}
					cause := false
					for x, v := range f {
						if !v && x.Op == OEq && (x.Args[0] == tNil || x.Args[1] == tNil) {
							x.contains(func(y *Term) bool {
								if y.Op == OCall && (isDirWalk(y.Name) || strings.HasSuffix(y.Name, ".Execute") || strings.HasSuffix(y.Name, ".ExecuteTemplate")) {
									cause = true
								}
								return cause
							})
						}
					}
					c.need(n == 500 && isDl && cause, "error-cause", e.At, t, "%s reports the error %d although neither the requested file is missing nor the index failed", name, n)
				default:
					c.need(isDl && generated, "index-page", e.At, t, "%s sends a page of its own instead of the file the request path names", name)
				}
			}
		}
	}
	c.atLeast(files, 1, "coverage", "file handlers")
	c.atLeast(downloads, 1, "coverage", "download handlers")
	c.atLeast(sent, 2, "coverage", "paths that send a file")
	c.atLeast(absent, 2, "coverage", "paths that report a missing file")
}

// ---- C50 -------------------------------------------------------------------------------

// decimalOf: the text is the decimal form of the status.
func decimalOf(x, code *Term, facts map[*Term]bool) bool {
	if s, ok := x.Str(); ok {
		n, err := strconv.Atoi(s)
		if err != nil {
			return false
		}
		v, known := factsKnow(facts, mkEq(code, mkInt(int64(n))))
		return known && v && strconv.Itoa(n) == s
	}
	if i, ok := code.Int(); ok {
		return x.IsStr(strconv.FormatInt(i, 10))
	}
	return isDecimal(x, code)
}

// statusIn: status numbers mentioned by a fixed text.
func statusIn(s string) []int64 {
	var out []int64
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j-i == 3 {
			if n, _ := strconv.ParseInt(s[i:j], 10, 64); n >= 400 && n < 600 {
				out = append(out, n)
			}
		}
		if j == i {
			j++
		}
		i = j
	}
	return out
}

func ruleC50(c *Ctx) {
	n, custom, builtin := 0, 0, 0
	exec := c.name("html.TemplateHandler.Execute")
	for _, r := range c.serverRuns() {
		if !r.isErr {
			continue
		}
		name := shortName(fnName(r.Fn))
		c.siteSettings(r, map[string]bool{}, map[string]bool{}, "Errors")
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			n++
			facts := allFacts(t)
			// configured page: present? read?
			var page *Term
			present, absent, unread := false, false, false
			isPage := func(m, k *Term) bool { return cfgIs(m, "Errors") && decimalOf(k, r.Code, facts) }
			for x, v := range facts {
				if x.Op == OLookOk && cfgIs(x.Args[0], "Errors") {
					if !c.need(isPage(x.Args[0], x.Args[1]), "page-of-the-status", t.At, t, "%s looks up the error page of %s instead of the status it was given", name, clip(x.Args[1].String())) {
						continue
					}
					present, absent = present || v, absent || !v
				}
			}
			reads := 0
			for _, e := range t.Evs {
				if e.Kind != EvCall || e.Name != "io/ioutil.ReadFile" && e.Name != "os.ReadFile" {
					continue
				}
				reads++
				a := unwrapPath(e.arg(0))
				if a.Op == OLookup && isPage(a.Args[0], a.Args[1]) {
					if v, known := nilFact(facts, e.Term, 1); known && v {
						page = e.Term
					} else if known {
						unread = true
					}
				}
			}
			isData := func(x *Term) bool {
				x = stripConv(x)
				return page != nil && x.Op == OExtract && x.N == 0 && x.Args[0] == page
			}
			// what is written to the client
			wrote, own := 0, 0
			for i, e := range t.Evs {
				kind, _ := commitKind(e, r.W, nil)
				if kind == "file" || kind == "other" {
					c.need(false, "error-page", e.At, t, "%s answers an error through %s", name, shortName(e.Name))
				}
				if kind != "body" {
					continue
				}
				if e.Name == exec || strings.HasSuffix(e.Name, ".Execute") || strings.HasSuffix(e.Name, ".ExecuteTemplate") {
					own++
					c.builtinPage(r, t, i, e.Args[len(e.Args)-1], facts)
					continue
				}
				data := e.arg(1)
				if page != nil {
					wrote++
					c.need(isData(data), "page-unchanged", e.At, t, "%s writes %s instead of the configured error page", name, clip(data.String()))
					continue
				}
				own++
				c.builtinPage(r, t, i, data, facts)
			}
			if page != nil {
				custom++
				c.need(wrote == 1 && own == 0, "configured-page", t.At, t, "%s does not send exactly the error page that is configured for the status", name)
				continue
			}
			builtin++
			c.need(absent || present && unread, "configured-page", t.At, t, "%s answers with the built-in page without having found that the site has no readable page for the status", name)
			c.need(own >= 1, "builtin-page", t.At, t, "%s answers an error without a page", name)
		}
	}
	c.atLeast(custom, 1, "coverage", "paths that send a configured error page")
	c.atLeast(builtin, 2, "coverage", "paths that send the built-in error page")
}

// wholePiece: one of the arguments of the call is x, or text with all of x in it.
func (c *Ctx) wholePiece(call, x *Term) bool {
	var in func(a *Term) bool
	in = func(a *Term) bool {
		a = stripConv(a)
		switch {
		case a == x:
			return true
		case a.Op == OFmt:
			return (a.Name == "%s" || a.Name == "%v") && in(a.Args[0])
		case a.Op == OConcat || a.Op == OSliceLit:
			for _, b := range a.Args {
				if in(b) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range call.Args {
		if in(a) {
			return true
		}
	}
	return false
}

// builtinPage: the text on the page names the status, and no other.
func (c *Ctx) builtinPage(r *srvRun, t *Trace, upto int, data *Term, facts map[*Term]bool) {
	name := shortName(fnName(r.Fn))
	named := false
	var look func(x *Term)
	seen := map[*Term]bool{}
	look = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if s, ok := x.Str(); ok {
			for _, n := range statusIn(s) {
				v, known := factsKnow(facts, mkEq(r.Code, mkInt(n)))
				if c.need(known && v, "names-the-status", t.At, t, "%s writes the text %q for another status", name, s) {
					named = true
				}
			}
			return
		}
		if isDecimal(x, r.Code) {
			named = true
			return
		}
		if x.Op == OCall && len(x.Args) > 0 {
			// what was written to the buffer before
			for _, e := range t.Evs[:upto] {
				if e.Kind == EvCall && isWriteCall(e.Name) && len(e.Args) > 1 && e.arg(0) == x.Args[0] && isBufferT(e.arg(0)) {
					for _, a := range e.Args[1:] {
						look(a)
					}
				}
			}
		}
		for _, a := range x.Args {
			look(a)
		}
	}
	look(data)
	c.need(named, "names-the-status", t.At, t, "%s answers with a built-in page that does not name the status", name)
}

// ---- C53 -------------------------------------------------------------------------------

func ruleC53(c *Ctx) {
	fn := c.P.fn("router", "StripHostPort")
	if fn == nil {
		c.need(false, "anchor", 0, nil, "router.StripHostPort not found")
		return
	}
	as := params(fn)
	h := as[0]
	n := 0
	for _, t := range c.run(newExec(c.P, c.opq()), fn, as, nil, nil) {
		if t.End != EndReturn {
			c.need(false, "total", t.At, t, "normalising a host can end in %s", t.End)
			continue
		}
		n++
		f := allFacts(t)
		got := t.Ret[0]
		split, failed := false, false
		for x, v := range f {
			if v || x.Op != OCall && x.Op != OEq && x.Op != OLt {
				if x.Op == OEq && (x.Args[0] == tNil || x.Args[1] == tNil) && isSplitHost(x, h) {
					split = true
				}
				continue
			}
			if x.Op == OEq && (x.Args[0] == tNil || x.Args[1] == tNil) && isSplitHost(x, h) {
				failed = true
			}
			if isCall(x, "strings.Contains") && x.Args[0] == h && x.Args[1].IsStr(":") {
				failed = true
			}
		}
		host := got.Op == OExtract && got.N == 0 && isCall(got.Args[0], "net.SplitHostPort") && got.Args[0].Args[0] == h
		c.need(got == h && failed || host && split, "host-part", t.At, t, "the normal form of a host is %s, expected the host part if it has a port and the host itself otherwise", clip(got.String()))
	}
	c.atLeast(n, 2, "coverage", "paths of the host normalisation")
	// what is looked up by host is looked up by the normal form of the request's host
	keys := 0
	look := func(r *Term, t *Trace) {
		for _, e := range t.Evs {
			key := func(k *Term) {
				own, raw := c.hostIn(k, r)
				if own {
					keys++
				}
				if own || raw != nil {
					c.need(raw == nil, "normal-form", e.At, t, "%s is looked up instead of the request's host without its port", clipT(raw))
				}
			}
			if e.Kind == EvMapSet {
				key(e.arg(0))
			}
			evTerms(e, func(x *Term) {
				if x != nil {
					x.contains(func(y *Term) bool {
						if (y.Op == OLookup || y.Op == OLookOk) && len(y.Args) > 1 {
							key(y.Args[1])
						}
						return false
					})
				}
			})
		}
	}
	if d := c.dispatchRuns(); d != nil {
		for _, t := range d.traces {
			look(d.r, t)
		}
	}
	for _, r := range c.serverRuns() {
		for _, t := range r.Traces {
			look(r.R, t)
		}
	}
	c.atLeast(keys, 4, "coverage", "lookups by host")
}

// hostIn: the key contains the normal form of the host of request r, or (raw) some
// other form of it.
func (c *Ctx) hostIn(k, r *Term) (own bool, raw *Term) {
	seen := map[*Term]bool{}
	var f func(x *Term)
	f = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if c.isReqHost(x, r) {
			own = true
			return
		}
		if isReqField(x, r, "Host") || isReqField(x, r, "URL", "Host") ||
			(isCall(x, "(*net/url.URL).Hostname") || isCall(x, "(*net/url.URL).Port")) && isReqField(x.Args[0], r, "URL") {
			raw = x
			return
		}
		for _, a := range x.Args {
			f(a)
		}
	}
	f(k)
	return own, raw
}

func isSplitHost(x, h *Term) bool {
	return x.contains(func(y *Term) bool { return isCall(y, "net.SplitHostPort") && y.Args[0] == h })
}

// ---- C49 -------------------------------------------------------------------------------

func ruleC49(c *Ctx) {
	met := c.metricsSchema()
	if met == nil {
		return
	}
	pages := 0
	for _, r := range c.serverRuns() {
		if r.isErr {
			continue
		}
		shows := false
		for _, t := range r.Traces {
			for _, e := range flat(t) {
				if e.Kind == EvCall && isWriteCall(e.Name) {
					for _, a := range e.Args {
						if a != nil && a.contains(func(y *Term) bool { return fieldIs(y, "TotalRequests") }) {
							shows = true
						}
					}
				}
			}
		}
		if !shows {
			continue
		}
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			if t.End != EndReturn || writeFailed(t) {
				continue
			}
			pages++
			c.metricsPage(r, t, name)
		}
	}
	c.atLeast(pages, 1, "coverage", "paths that produce the metrics page")
}

// writeFailed: some write is known to have failed on the path.
func writeFailed(t *Trace) bool {
	for x, v := range allFacts(t) {
		if v || x.Op != OEq || x.Args[0] != tNil && x.Args[1] != tNil {
			continue
		}
		hit := false
		x.contains(func(y *Term) bool {
			if y.Op == OCall && isWriteCall(y.Name) {
				hit = true
			}
			return hit
		})
		if hit {
			return true
		}
	}
	return false
}

// textWrites: what one path writes into dst.
func textOf(e *Ev) []*Term {
	if e.Kind == EvCall && isWriteCall(e.Name) && len(e.Args) > 1 {
		if strings.HasSuffix(e.Name, ").WriteTo") {
			return e.Args[:1]
		}
		return e.Args[1:]
	}
	return nil
}

// writeDst: the writer that a write call writes to.
func writeDst(e *Ev) *Term {
	if strings.HasSuffix(e.Name, ").WriteTo") && len(e.Args) == 2 {
		return e.arg(1)
	}
	return e.arg(0)
}

func writesDecimal(evs []*Ev, dst *Term, is func(*Term) bool) bool {
	for _, e := range evs {
		for _, a := range textOf(e) {
			if e.arg(0) == dst && a.contains(func(y *Term) bool { return decimalArg(y, is) }) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) metricsPage(r *srvRun, t *Trace, name string) {
	// where the total is written
	var dst *Term
	for _, e := range t.Evs {
		for _, a := range textOf(e) {
			if a.contains(func(y *Term) bool {
				return decimalArg(y, func(x *Term) bool { return fieldIs(x, "TotalRequests") })
			}) {
				dst = e.arg(0)
			}
		}
	}
	if !c.need(dst != nil, "total", t.At, t, "%s answers without the total number of requests", name) {
		return
	}
	loops := 0
	for i, e := range t.Evs {
		if e.Kind != EvLoopHead || e.Loop == nil {
			continue
		}
		m, k, all := keyLoop(t, i)
		if k == nil || !fieldIs(m, "Paths") {
			continue
		}
		loops++
		c.need(all, "every-status", e.At, t, "%s may leave the loop over the statuses before the last one", name)
		for _, b := range e.Loop.Backs {
			if b.Tr == nil || writeFailed(b.Tr) {
				c.need(b.Tr != nil, "every-status", e.At, t, "%s has an iteration that is not understood", name)
				continue
			}
			evs := bodyEvs(e.Loop, b)
			c.need(writesDecimal(evs, dst, func(x *Term) bool { return x == k }), "every-status", e.At, b.Tr, "%s passes over a status without writing it", name)
			inner := 0
			for j, g := range b.Tr.Evs {
				if g.Kind != EvLoopHead || g.Loop == nil || g.Loop == e.Loop {
					continue
				}
				pm, p, all := keyLoop(b.Tr, j)
				if p == nil || !elemAt(pm, m, k) {
					continue
				}
				inner++
				c.need(all, "every-path", g.At, b.Tr, "%s may leave the loop over the paths before the last one", name)
				for _, ib := range g.Loop.Backs {
					if ib.Tr == nil || writeFailed(ib.Tr) {
						continue
					}
					ie := bodyEvs(g.Loop, ib)
					c.need(writesDecimal(ie, dst, func(x *Term) bool { return elemAt(x, pm, p) }), "every-path", g.At, ib.Tr, "%s passes over a path without writing its amount", name)
					shown := false
					for _, x := range ie {
						for _, a := range textOf(x) {
							if x.arg(0) == dst && a.contains(func(y *Term) bool {
								return y.Op == OCall && isHTMLEscaper(y.Name) && c.wholePiece(y, p)
							}) {
								shown = true
							}
						}
					}
					c.need(shown, "every-path", g.At, ib.Tr, "%s passes over a path without writing it", name)
				}
			}
			c.need(inner == 1, "every-path", e.At, b.Tr, "%s goes %d times through the paths of a status", name, inner)
		}
	}
	c.need(loops == 1, "every-status", t.At, t, "%s goes %d times through the statuses", name, loops)
	// the text reaches the client
	if dst == r.W {
		return
	}
	sent := false
	from := map[*Term]bool{dst: true}
	for _, e := range t.Evs {
		for _, a := range textOf(e) {
			if !a.contains(func(y *Term) bool { return from[y] }) {
				continue
			}
			from[writeDst(e)] = true
			if kind, _ := commitKind(e, r.W, nil); kind == "body" {
				sent = true
			}
		}
	}
	c.need(sent, "page-sent", t.At, t, "%s does not send the page it has produced", name)
}

// keyLoop: the loop at event i of the path goes through the keys of the map m; k
// is the key of an iteration, all says that it goes through every key. The keys
// may have been gathered in a list first, which may have been sorted. The loop
// that gathers them is no such loop itself.
func keyLoop(t *Trace, i int) (m, k *Term, all bool) {
	l := t.Evs[i].Loop
	if k := rangeKey(l); k != nil {
		if gathers(l) != nil {
			return nil, nil, false
		}
		return k.Args[0], k, outNormalAt(t, i, l)
	}
	for j, e := range t.Evs[:i] {
		if e.Kind != EvLoopHead || e.Loop == nil {
			continue
		}
		s := gathers(e.Loop)
		if s == nil || !rangesList(l, s) {
			continue
		}
		all = outNormalAt(t, j, e.Loop) && fullScan(t, i, l, s)
		// nothing else is done to the list than sorting it
		for _, g := range t.Evs[j:] {
			switch {
			case g.Kind == EvStore && g.Term.contains(func(y *Term) bool { return y.Op == OIndexA && y.Args[0] == s }):
				all = false
			case g.Kind == EvCall && !isSort(g.Name) && g.Name != "len" && g.Name != "append":
				for _, a := range g.Args {
					if stripConv(a) == s {
						all = false
					}
				}
			}
		}
		m = rangeKey(e.Loop).Args[0]
		for _, b := range l.Backs {
			for _, g := range bodyEvs(l, b) {
				evTerms(g, func(x *Term) {
					if x != nil {
						x.contains(func(y *Term) bool {
							if k == nil && elemBase(y) == s {
								k = y
							}
							return false
						})
					}
				})
			}
		}
		return m, k, all && k != nil
	}
	return nil, nil, false
}

func isSort(name string) bool {
	return strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort")
}

// gathers: the list that a loop over a map fills with all its keys.
func gathers(l *LoopInfo) *Term {
	k := rangeKey(l)
	if k == nil {
		return nil
	}
	for phi, in := range l.Init {
		if phi.Op != OPhi || !emptyList(in) {
			continue
		}
		ok := len(l.Backs) > 0
		for _, b := range l.Backs {
			nx := b.Next[phi]
			ok = ok && nx != nil && nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == phi &&
				nx.Args[1].Op == OSliceLit && len(nx.Args[1].Args) == 1 && nx.Args[1].Args[0] == k
		}
		if ok {
			return phi
		}
	}
	return nil
}

// emptyList: the list has no entries.
func emptyList(x *Term) bool {
	switch {
	case x == tNil || x.Op == OZero:
		return true
	case x.Op == OSliceLit:
		return len(x.Args) == 0
	case x.Op == OMake:
		return len(x.Args) > 0 && x.Args[0] == mkInt(0)
	}
	return false
}

// elemAt: the value is m[k].
func elemAt(x, m, k *Term) bool {
	x = stripConv(x)
	return x.Op == OLookup && x.Args[0] == m && x.Args[1] == k
}

// isElemOf: the value is the element of a map at the key of the loop over it.
func isElemOf(x, key *Term) bool {
	x = stripConv(x)
	return x.Op == OLookup && x.Args[0] == key.Args[0] && x.Args[1] == key
}

// isDecimal: the decimal form of n.
func isDecimal(x, n *Term) bool {
	return x.Op == OFmt && (x.Name == "%d" || x.Name == "%v") && stripConv(x.Args[0]) == stripConv(n)
}

// decimalArg: the decimal form of a number is picks out.
func decimalArg(x *Term, is func(*Term) bool) bool {
	return x.Op == OFmt && (x.Name == "%d" || x.Name == "%v") && is(x.Args[0])
}

// nilFact: whether the i-th result of the call is known to be nil.
func nilFact(facts map[*Term]bool, call *Term, i int64) (val, known bool) {
	for x, v := range facts {
		if x.Op != OEq {
			continue
		}
		for k := 0; k < 2; k++ {
			if y := x.Args[k]; x.Args[1-k] == tNil && (y.Op == OExtract && y.N == i && y.Args[0] == call || y == call && call.Op == OCall && i == 0) {
				return v, true
			}
		}
	}
	return false, false
}

// ---- C48 -------------------------------------------------------------------------------

func isURLEscaper(name string) bool {
	switch name {
	case "net/url.PathEscape", "(*net/url.URL).EscapedPath", "(*net/url.URL).String", "(*net/url.URL).RequestURI":
		return true
	}
	return false
}

// fileMethod: the value is what the file information f says.
func fileMethod(x, f *Term, method string) bool {
	x = stripNumConv(stripConv(x))
	return x.Op == OCall && strings.HasSuffix(x.Name, ")."+method) && len(x.Args) == 1 && x.Args[0] == f
}

func ruleC48(c *Ctx) {
	exec := c.name("html.TemplateHandler.Execute")
	errs := c.errNames()
	pages, walks, kept := 0, 0, 0
	seen := map[string]*Term{}
	for _, r := range c.serverRuns() {
		if r.isErr {
			continue
		}
		isDl := false
		for _, t := range r.Traces {
			for _, e := range flat(t) {
				if e.Kind == EvCall && isDirWalk(e.Name) {
					isDl = true
				}
			}
		}
		if !isDl {
			continue
		}
		name := shortName(fnName(r.Fn))
		c.siteSettings(r, map[string]bool{}, map[string]bool{}, "Serve")
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			sent := -1
			for i, e := range t.Evs {
				if kind, _ := commitKind(e, r.W, nil); kind == "body" {
					sent = i
				}
				if kind, _ := commitKind(e, r.W, errs); kind == "error" || kind == "file" {
					sent = -1
					break
				}
			}
			if sent < 0 {
				continue
			}
			pages++
			facts := factsAt(t, sent)
			// the page that is sent
			var data *Term
			for i, e := range t.Evs {
				if e.Kind == EvCall && (e.Name == exec || strings.HasSuffix(e.Name, ".Execute") || strings.HasSuffix(e.Name, ".ExecuteTemplate")) && i <= sent {
					dst := e.arg(len(e.Args) - 2)
					ok := dst == r.W
					for _, a := range textOf(t.Evs[sent]) {
						if a.contains(func(y *Term) bool { return y == dst }) {
							ok = true
						}
					}
					if ok {
						data = e.Args[len(e.Args)-1]
					}
				}
			}
			if !c.need(data != nil, "index-sent", t.At, t, "%s does not send the index page it rendered", name) {
				continue
			}
			// the collection of the files and the rows of the page
			var list *Term
			collected := false
			if on, known := dlEnabled(facts); known && !on {
				collected = true
			}
			rows := 0
			for i, e := range t.Evs {
				if e.Kind != EvLoopHead || e.Loop == nil || i > sent {
					continue
				}
				l := e.Loop
				if walksIn(l) {
					collected = c.collects(r, t, i, l, seen, &walks, &kept)
					var dirty *Term
					list, dirty = filledBy(l)
					c.need(dirty == nil, "each-once", e.At, t, "%s adds the files to a list that is not empty when the request arrives", name)
					continue
				}
				if list == nil {
					continue
				}
				if !rangesList(l, list) {
					continue
				}
				rows++
				c.need(fullScan(t, i, l, list), "every-row", e.At, t, "%s may leave out files from the index", name)
				for _, b := range l.Backs {
					if b.Tr == nil {
						c.need(false, "every-row", e.At, t, "%s has an iteration that is not understood", name)
						continue
					}
					c.row(r, l, b, list, data)
				}
			}
			c.need(collected, "collected", t.At, t, "%s sends the index without having collected all files", name)
			if list != nil {
				c.need(rows == 1, "every-row", t.At, t, "%s writes the list of files %d times", name, rows)
			}
		}
	}
	c.atLeast(pages, 2, "coverage", "paths that send the download index")
	c.atLeast(walks, 1, "coverage", "directory walks of the download index")
	c.atLeast(kept, 1, "coverage", "paths that add a file to the index")
}

func dlEnabled(facts map[*Term]bool) (val, known bool) {
	for x, v := range facts {
		if cfgIs(x, "Serve", "Download", "Enabled") {
			return v, true
		}
	}
	return false, false
}

func walksIn(l *LoopInfo) bool {
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			if e.Kind == EvCall && isDirWalk(e.Name) {
				return true
			}
		}
	}
	return false
}

// filledBy: the variable the callbacks of a loop fill, as it is after the loop.
// A list that already has entries before the loop is the second result.
func filledBy(l *LoopInfo) (out, dirty *Term) {
	for phi, in := range l.Init {
		if phi.Op != OLoopMem {
			continue
		}
		for _, b := range l.Backs {
			if n := b.Next[phi]; n != nil && n.Op == OLoopMem && strings.HasPrefix(n.Name, "cb:") && n.Args[0] == phi.Args[0] {
				out = phi
				if _, list := phi.Typ.Underlying().(*types.Slice); list && in != tNil && in.Op != OZero && !in.IsConst() && mkLen(in) != mkInt(0) {
					dirty = phi
				}
			}
		}
	}
	return out, dirty
}

// rangesList: the loop goes through the elements of list.
func rangesList(l *LoopInfo, list *Term) bool {
	for _, b := range l.Backs {
		for _, e := range bodyEvs(l, b) {
			hit := false
			evTerms(e, func(x *Term) {
				if x != nil && x.contains(func(y *Term) bool { return elemBase(y) == list || y.Op == OIndexA && y.Args[0] == list }) {
					hit = true
				}
			})
			if hit {
				return true
			}
		}
	}
	return false
}

// collects: the loop walks the site directory once for every extension, and the
// walk adds exactly the files with that extension.
func (c *Ctx) collects(r *srvRun, t *Trace, i int, l *LoopInfo, seen map[string]*Term, walks, kept *int) bool {
	name := shortName(fnName(r.Fn))
	all := false
	for _, b := range l.Backs {
		if b.Tr == nil {
			return c.need(false, "every-extension", t.At, t, "%s has an iteration that is not understood", name)
		}
		n := 0
		for _, e := range bodyEvs(l, b) {
			if e.Kind != EvCall || !isDirWalk(e.Name) {
				continue
			}
			n++
			*walks++
			c.need(e.Name == "path/filepath.Walk" && cfgIs(unwrapPath(e.arg(0)), "Serve", "ServeDir"), "site-directory", e.At, b.Tr, "%s collects the files of %s", name, clip(e.arg(0).String()))
			ok, known := nilFact(allFacts(b.Tr), e.Term, 0)
			c.need(known && ok, "walk-succeeded", e.At, b.Tr, "%s continues although the directory could not be walked completely", name)
			exts := c.adds(r, b.Tr, e, seen, kept)
			if exts == nil {
				continue
			}
			if c.need(cfgIs(exts, "Serve", "Download", "Exts"), "every-extension", e.At, b.Tr, "%s collects files with the extensions %s", name, clip(exts.String())) {
				all = c.need(fullScan(t, i, l, exts), "every-extension", e.At, t, "%s may leave out extensions", name)
			}
		}
		c.need(n == 1, "every-extension", t.At, b.Tr, "%s walks the directory %d times for an extension", name, n)
	}
	return all
}

// lastDot: the index of the last dot of a name.
func lastDot(x *Term, same func(*Term) bool) bool {
	return x.Op == OCall && (x.Name == "strings.LastIndexByte" || x.Name == "strings.LastIndex") && same(x.Args[0]) && (x.Args[1].IsInt('.') || x.Args[1].IsStr("."))
}

func fromLastDot(x *Term, same func(*Term) bool) bool {
	return x.Op == OSlice && len(x.Args) == 3 && same(x.Args[0]) && lastDot(x.Args[1], same) && x.Args[2] == mkLen(x.Args[0])
}

func noDot(facts map[*Term]bool, f *Term) bool {
	for x, v := range facts {
		name := func(y *Term) bool { return fileMethod(y, f, "Name") }
		if x.Op == OLt0 && x.N == 0 && lastDot(x.Args[0], name) && v {
			return true
		}
		if x.Op == OEq && v {
			for i := 0; i < 2; i++ {
				if lastDot(x.Args[i], name) && x.Args[1-i].IsInt(-1) {
					return true
				}
			}
		}
		if x.Op == OCall && !v && x.Name == "strings.Contains" && name(x.Args[0]) && x.Args[1].IsStr(".") {
			return true
		}
	}
	return false
}

// adds judges the callback of a walk; it returns the list the wanted extension is from.
func (c *Ctx) adds(r *srvRun, at *Trace, walk *Ev, seen map[string]*Term, kept *int) (exts *Term) {
	fn := isFn(walk.arg(1))
	if !c.need(fn != nil && len(fn.Params) == 3 && at.St != nil, "callback", walk.At, at, "the callback of the walk is not known") {
		return nil
	}
	key := strconv.Itoa(walk.Term.ID)
	px := newExec(c.P, nil)
	for _, b := range walk.arg(1).Args {
		if et := ptrElem(b.Typ); b.Op == OAlloc && et != nil {
			key += "," + strconv.Itoa(px.load(at.St.clone(), b, et).ID)
		} else {
			key += "," + strconv.Itoa(b.ID)
		}
	}
	if e, ok := seen[key]; ok {
		return e
	}
	defer func() { seen[key] = exts }()
	as := params(fn)
	path, f := as[0], as[1]
	x := newExec(c.P, c.serverOpaque(c.P.errorFuncs(serverPkg)...))
	for _, t := range c.runTerm(x, walk.arg(1), as, onlyConds(at.St)) {
		if t.End != EndReturn {
			c.need(false, "callback", t.At, t, "the callback of the walk can end in %s", t.End)
			continue
		}
		facts := allFacts(t)
		there, dir, match := 0, 0, 0
		for q, v := range facts {
			switch {
			case q.Op == OEq && (q.Args[0] == f && q.Args[1] == tNil || q.Args[1] == f && q.Args[0] == tNil):
				there = -verdict(v, true)
			case fileMethod(q, f, "IsDir"):
				dir = verdict(v, true)
			case q.Op == OEq:
				for k := 0; k < 2; k++ {
					if isExtOf(q.Args[k], func(y *Term) bool { return fileMethod(y, f, "Name") || y == path }) || fromLastDot(q.Args[k], func(y *Term) bool { return fileMethod(y, f, "Name") }) {
						if b := elemBase(stripConv(q.Args[1-k])); b != nil {
							match, exts = verdict(v, true), b
						}
					}
					// a name without a dot has the empty extension
					if a := q.Args[k]; a.Op == OLen && q.Args[1-k].IsInt(0) {
						if b := elemBase(stripConv(a.Args[0])); b != nil && noDot(facts, f) {
							match, exts = verdict(v, true), b
						}
					}
				}
			}
		}
		n := 0
		for i, e := range t.Evs {
			if e.Kind != EvCall || e.Name != "append" {
				continue
			}
			n++
			*kept++
			c.entryOf(t, i, e, path, f, facts)
			st := false
			for _, g := range t.Evs[i:] {
				if v := g.arg(0); g.Kind == EvStore && v.Op == OAppend && v.Args[0] == e.arg(0) && v.Args[1] == e.arg(1) && e.arg(0).Op == OLoopMem && e.arg(0).Args[0] == g.Term {
					st = true
				}
			}
			c.need(st, "file-kept", e.At, t, "a file is added to a list that is not the one of the index")
		}
		ok, known := false, false
		if len(t.Ret) == 1 {
			ok, known = t.Ret[0] == tNil, true
			if v, k := factsKnow(facts, mkEq(t.Ret[0], tNil)); k {
				ok = v
			}
		}
		skip := there == -1 || dir == 1 || match == -1
		failed := !ok && known && n == 0
		if failed && there != -1 {
			// giving up needs a failure
			cause := false
			for q, v := range facts {
				if !v && q.Op == OEq && (q.Args[0] == tNil || q.Args[1] == tNil) && q.Args[0] != f && q.Args[1] != f {
					cause = true
				}
			}
			c.need(cause, "walk-continues", t.At, t, "the callback stops the walk without a failure")
			continue
		}
		switch {
		case skip:
			c.need(n == 0, "only-matching", t.At, t, "the callback adds something that is not a file with the wanted extension")
		default:
			c.need(n == 1 && there == 1 && dir == -1 && match == 1, "every-matching", t.At, t, "the callback adds a file %d times without having established that it is a file with the wanted extension", n)
		}
	}
	return exts
}

// entryOf: the entry added to the list describes the file found.
func (c *Ctx) entryOf(t *Trace, i int, e *Ev, path, f *Term, facts map[*Term]bool) {
	v := e.arg(1)
	if v.Op == OSliceLit && len(v.Args) == 1 {
		v = v.Args[0]
	}
	st, ok := structOf(v)
	if !c.need(v.Op == OStruct && ok, "entry", e.At, t, "the entry %s is not understood", clip(v.String())) {
		return
	}
	got := map[string]bool{}
	for k, a := range v.Args {
		if k >= st.NumFields() {
			break
		}
		got[st.Field(k).Name()+" "+c.entryPart(t, i, a, path, f)] = true
	}
	c.entries = append(c.entries, got)
}

// entryPart: what a part of an entry says about the file.
func (c *Ctx) entryPart(t *Trace, i int, a, path, f *Term) string {
	for _, m := range []string{"Name", "Size", "ModTime"} {
		if fileMethod(a, f, m) {
			return m
		}
	}
	if isCall(a, "path/filepath.Base") && a.Args[0] == path {
		return "Name"
	}
	esc := ""
	for a.Op == OCall && len(a.Args) == 1 && isURLEscaper(a.Name) {
		esc = "escaped "
		if strings.HasPrefix(a.Name, "(*") {
			p, ok := fieldAtEv(t, i, a.Args[0], "Path")
			if !ok {
				return "?"
			}
			a = p
		} else {
			return "?" // escapes the separators as well
		}
	}
	ps := namePieces(a)
	if len(ps) == 2 && ps[0].IsStr("/") {
		p := unwrapPath(ps[1])
		if p.Op == OExtract && p.N == 0 && isCall(p.Args[0], "path/filepath.Rel") && cfgIs(p.Args[0].Args[0], "Serve", "ServeDir") && p.Args[0].Args[1] == path {
			if v, known := nilFact(factsAt(t, i), p.Args[0], 1); known && v {
				return esc + "Link"
			}
		}
	}
	return "?"
}

// row: one row of the page shows one entry completely.
func (c *Ctx) row(r *srvRun, l *LoopInfo, b *Back, list, data *Term) {
	name := shortName(fnName(r.Fn))
	var pieces []*Term
	at := b.Tr.At
	for _, e := range bodyEvs(l, b) {
		if len(e.Args) == 0 {
			continue
		}
		dst := e.arg(0)
		for _, a := range textOf(e) {
			if isBufferT(dst) && data.contains(func(y *Term) bool { return y == dst }) {
				pieces = append(pieces, concatParts(stripConv(a))...)
				at = e.At
			}
		}
	}
	elem := func(x *Term) string {
		x = stripConv(x)
		if x.Op == OFmt {
			x = x.Args[0]
		}
		base, p := fieldPath(x)
		if len(p) != 1 || elemBase(base) != list && !(base.Op == OIndexA && base.Args[0] == list) {
			return ""
		}
		return p[0]
	}
	link, linkEsc := "", false
	shown := map[string]bool{}
	for k, p := range pieces {
		q := p
		esc, url := false, false
		for q.Op == OCall && len(q.Args) == 1 && (isHTMLEscaper(q.Name) || isURLEscaper(q.Name)) {
			if isHTMLEscaper(q.Name) {
				esc = true
			} else {
				url = true
			}
			q = q.Args[0]
		}
		_, _ = esc, url
		f := elem(q)
		if f == "" {
			continue
		}
		if s, ok := pieces[max(k-1, 0)].Str(); k > 0 && ok && (strings.HasSuffix(s, "href=\"") || strings.HasSuffix(s, "href='")) {
			link, linkEsc = f, url
			continue
		}
		shown[f] = true
	}
	for _, g := range c.entries {
		good := false
		for _, k := range []string{"escaped Link", "Link"} {
			if g[link+" "+k] && (strings.HasPrefix(k, "escaped") || linkEsc) {
				good = true
			}
		}
		c.need(link != "" && good, "row-link", at, b.Tr, "%s links a file through %q, which is not the escaped path of the file below the site directory", name, link)
		for _, m := range []string{"Name", "Size", "ModTime"} {
			ok := false
			for f := range shown {
				if g[f+" "+m] {
					ok = true
				}
			}
			c.need(ok, "row", at, b.Tr, "%s writes a row without the file's %s", name, m)
		}
	}
	c.need(len(c.entries) > 0, "row", at, b.Tr, "%s writes rows of unknown entries", name)
}
