package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C51", "Path-sensitive analysis of template set-up: every created file against the facts about its existence, the text written against the data the pages pass, and the field each page is rendered with against what the set-up leaves there", ruleC51)
	register("C52", "Path-sensitive value-flow analysis of every TLS listening path: the automatic certificate manager's settings and the offered protocols against the configuration", ruleC52)
	register("C54", "Path-sensitive analysis of loading and validation: the facts on every refusing path against the list of refusable faults, every store into the configuration, and the form of the directories on every accepting path", ruleC54)
}

// ---- C51 -------------------------------------------------------------------------------

func isTplHandlerT(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeIs(p.Elem(), "/html", "TemplateHandler")
}

// tplSetups: functions that store template handlers.
func (c *Ctx) tplSetups() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if c.P.relOf(fn) != serverPkg {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isTplHandlerT(ptrElem(fa.Type())) {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, fn)
		}
	}
	return out
}

// tplRefs: the values a template refers to.
func tplRefs(text string) []string {
	var out []string
	for {
		i := strings.Index(text, "{{")
		if i < 0 {
			return out
		}
		text = text[i+2:]
		j := strings.Index(text, "}}")
		if j < 0 {
			return append(out, "?")
		}
		out = append(out, strings.TrimSpace(text[:j]))
		text = text[j+2:]
	}
}

type tplUse struct {
	path []string
	data []string // fields of the data passed
	e    *Ev
	t    *Trace
}

// wholePages: a page that was rendered first and is sent then was rendered without an error.
func (c *Ctx) wholePages(exec string) {
	for _, r := range c.serverRuns() {
		for _, t := range r.Traces {
			for i, e := range t.Evs {
				if e.Kind != EvCall || e.Name != exec || len(e.Args) < 3 || e.arg(1) == r.W {
					continue
				}
				buf := stripConv(e.arg(1))
				for j, w := range t.Evs[i+1:] {
					if k, _ := commitKind(w, r.W, nil); k != "body" {
						continue
					}
					sends := false
					for _, a := range w.Args {
						sends = sends || a.contains(func(y *Term) bool { return y == buf })
					}
					if !sends {
						continue
					}
					v, known := nilFact(factsAt(t, i+1+j), e.Term, 0)
					c.need(known && v, "failure-reported", w.At, t, "%s sends a page without having found that it could be rendered", shortName(fnName(r.Fn)))
				}
			}
		}
	}
}

func ruleC51(c *Ctx) {
	// what the pages are rendered with
	exec := c.name("html.TemplateHandler.Execute")
	uses := map[string]*tplUse{}
	for _, r := range c.serverRuns() {
		for _, t := range r.Traces {
			for _, e := range t.Evs {
				if e.Kind != EvCall || e.Name != exec {
					continue
				}
				root, p := fieldPath(e.arg(0))
				if !c.need(len(p) > 0 && typeIs(ptrElem(root.Typ), "/"+serverPkg, "Server"), "page-template", e.At, t, "a page is rendered with the template %s, which is not one of the server's", clip(e.arg(0).String())) {
					continue
				}
				u := &tplUse{path: p, e: e, t: t}
				data := e.Args[len(e.Args)-1]
				if st, ok := structOf(data); ok {
					for i := 0; i < st.NumFields(); i++ {
						u.data = append(u.data, st.Field(i).Name())
					}
				} else {
					c.need(false, "page-data", e.At, t, "a page is rendered with data of unknown form")
				}
				key := strings.Join(p, ".")
				if o := uses[key]; o != nil {
					c.need(strings.Join(o.data, ",") == strings.Join(u.data, ","), "page-data", e.At, t, "the template %s is rendered with different kinds of data", key)
					continue
				}
				uses[key] = u
			}
		}
	}
	c.wholePages(exec)
	c.atLeast(len(uses), 2, "coverage", "page templates")
	setups := c.tplSetups()
	c.atLeast(len(setups), 1, "coverage", "functions that set up templates")
	newName, initName := c.name("html.NewTemplate"), c.name("html.TemplateHandler.Init")
	made := map[string]bool{}
	created, reused := 0, 0
	isSetup := map[string]bool{}
	for _, fn := range setups {
		isSetup[fnName(fn)] = true
		as := params(fn)
		x := newExec(c.P, c.opq("debug.Logger.Log", "html.NewTemplate", "html.TemplateHandler.Init"))
		for _, t := range c.run(x, fn, as, nil, nil) {
			if t.End != EndReturn {
				c.need(t.End == EndBack, "set-up", t.At, t, "setting up the templates can end in %s", t.End)
				continue
			}
			// existing files are left alone
			for i, e := range t.Evs {
				names, _ := changed(e)
				for _, n := range names {
					found, missing := statFacts(factsAt(t, i), func(y *Term) bool { return joinName(y) == joinName(n) })
					c.need(missing && !found && (e.Name == "os.Create" || e.Name == "os.WriteFile" || e.Name == "io/ioutil.WriteFile" || e.Name == "os.OpenFile"), "not-overwritten", e.At, t, "%s changes %s without having found that there is no such file", shortName(fnName(fn)), clip(n.String()))
				}
			}
			for key, u := range uses {
				addr := as[0]
				for _, n := range u.path {
					addr = mkFieldAddrByName(addr, n)
				}
				v := x.load(t.St, addr, ptrElem(addr.Typ))
				if v.Op != OCall || v.Name != newName {
					continue
				}
				made[key] = true
				dir, base := v.Args[0], v.Args[1]
				parts := concatParts(dir)
				last, isC := parts[len(parts)-1].Str()
				bs, isB := base.Str()
				c.need(coreField(parts[0], "FileDir") && isC && strings.HasSuffix(last, "/") && isB && bs != "" && !strings.Contains(bs, "/"), "template-place", t.At, t, "the template %s is loaded from %s in %s", key, clip(base.String()), clip(dir.String()))
				full := joinName(mkConcat(dir, base))
				at := -1
				for i, e := range t.Evs {
					if e.Kind == EvCall && e.Name == initName && e.arg(0) == v {
						at = i
					}
				}
				if !c.need(at >= 0, "template-loaded", t.At, t, "the template %s is used without having been loaded", key) {
					continue
				}
				text, closed, n := "", false, 0
				var file *Term
				for _, e := range t.Evs[:at] {
					names, _ := changed(e)
					if len(names) == 1 && joinName(names[0]) == full {
						n++
						text, closed = "", false
						if strings.HasSuffix(e.Name, "WriteFile") {
							s, _ := stripConv(e.arg(1)).Str()
							text, closed = s, true
						} else {
							file = e.Term
						}
						continue
					}
					if file == nil || e.Kind != EvCall {
						continue
					}
					ofFile := func(a *Term) bool {
						a = stripConv(a)
						return a.Op == OExtract && a.N == 0 && a.Args[0] == file
					}
					if strings.HasSuffix(e.Name, ").Close") && ofFile(e.arg(0)) {
						closed = true
					}
					if len(e.Args) > 1 && ofFile(e.arg(0)) && isWriteCall(e.Name) {
						s, ok := stripConv(e.arg(1)).Str()
						c.need(ok && !closed, "template-text", e.At, t, "the template %s is written with %s", key, clip(e.arg(1).String()))
						text += s
					}
				}
				if n == 0 {
					found, _ := statFacts(factsAt(t, at), func(y *Term) bool { return joinName(y) == full })
					reused++
					c.need(found, "template-there", t.At, t, "the template %s is loaded although its file was neither found nor created", key)
					continue
				}
				created++
				refs := tplRefs(text)
				want := map[string]bool{}
				for _, f := range u.data {
					want["."+f] = true
				}
				good := len(refs) > 0
				for _, r := range refs {
					if !want[r] {
						good = false
					}
					delete(want, r)
				}
				low := strings.ToLower(strings.TrimSpace(text))
				c.need(n == 1 && closed, "template-complete", t.At, t, "the template %s is loaded before its file is complete", key)
				c.need(good && len(want) == 0, "template-text", t.At, t, "the template %s refers to %v, its page passes %v", key, refs, u.data)
				c.need(strings.HasPrefix(low, "<!doctype html") && strings.HasSuffix(low, "</html>") && strings.Count(low, "<body") == 1, "template-text", t.At, t, "the built-in template %s is not a complete page", key)
			}
		}
	}
	var keys []string
	for k := range uses {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.need(made[k], "template-set-up", uses[k].e.At, uses[k].t, "a page is rendered with the template %s, which is never set up", k)
	}
	c.atLeast(created, 2, "coverage", "paths that create a template")
	c.atLeast(reused, 2, "coverage", "paths that use an existing template")
	// every server
	n := c.newServers(func(x *Exec, t *Trace, srv, router *Term) {
		for name := range isSetup {
			hit, inside := false, false
			for _, e := range t.Evs {
				if (e.Kind == EvCall || e.Kind == EvEnter) && e.Name == name && (e.Kind == EvEnter || e.arg(0) == srv) {
					hit, inside = true, e.Kind == EvEnter
				}
				if e.Kind == EvLeave && e.Name == name {
					inside = false
				}
				if e.Kind != EvStore || inside || !hit {
					continue
				}
				// the templates stay as they were set up
				root, p := fieldPath(e.Term)
				for _, u := range uses {
					k := 0
					for k < len(p) && k < len(u.path) && p[k] == u.path[k] {
						k++
					}
					if root == srv && (k == len(p) || k == len(u.path)) && (e.arg(0) == tNil || e.arg(0).Op == OZero || len(p) == len(u.path)) {
						c.need(false, "every-server", e.At, t, "the templates of a server are replaced after they were loaded")
					}
				}
			}
			c.need(hit, "every-server", t.At, t, "a server is handed out without its templates")
		}
	})
	c.atLeast(n, 2, "coverage", "paths that make a server")
	c.templateHandler()
}

// joinName: a file name as one text.
func joinName(x *Term) *Term {
	ps := namePieces(x)
	if len(ps) == 1 {
		return ps[0]
	}
	if u := unwrapPath(x); u.Op == OConcat {
		return u
	}
	// joined pieces are separated
	var out []*Term
	for i, p := range ps {
		if i > 0 {
			q := concatParts(ps[i-1])
			if s, ok := q[len(q)-1].Str(); !ok || !strings.HasSuffix(s, "/") {
				out = append(out, mkStr("/"))
			}
		}
		out = append(out, p)
	}
	return mkConcat(out...)
}

// templateHandler: loading reads the named file and rendering uses it and reports failure.
func (c *Ctx) templateHandler() {
	nt := c.P.fn("html", "NewTemplate")
	ini, exe := c.P.method("html", "TemplateHandler", "Init"), c.P.method("html", "TemplateHandler", "Execute")
	if nt == nil || ini == nil || exe == nil {
		c.need(false, "anchor", 0, nil, "template handler not found")
		return
	}
	// the fields that hold directory and name
	as := params(nt)
	x := newExec(c.P, c.opq())
	dirF, nameF := "", ""
	for _, t := range c.run(x, nt, as, nil, nil) {
		if t.End != EndReturn {
			continue
		}
		st, ok := ptrElem(t.Ret[0].Typ).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			a := mkFieldAddrByName(t.Ret[0], st.Field(i).Name())
			switch x.load(t.St, a, st.Field(i).Type()) {
			case as[0]:
				dirF = st.Field(i).Name()
			case as[1]:
				nameF = st.Field(i).Name()
			}
		}
	}
	if !c.need(dirF != "" && nameF != "", "handler-names", nt.Pos(), nil, "a new template handler does not keep its directory and name") {
		return
	}
	isFull := func(y *Term) bool {
		ps := namePieces(y)
		return len(ps) == 2 && fieldIs(ps[0], dirF) && fieldIs(ps[1], nameF)
	}
	loads := 0
	for _, fn := range append([]*ssa.Function{ini}, ini.AnonFuncs...) {
		var bind []*Term
		for _, fv := range fn.FreeVars {
			bind = append(bind, param("&"+fv.Name(), fv.Type(), true))
		}
		ex := newExec(c.P, c.opq())
		for _, t := range c.run(ex, fn, params(fn), bind, nil) {
			f := allFacts(t)
			for i, e := range t.Evs {
				if e.Kind != EvCall || !strings.HasPrefix(e.Name, "html/template.ParseFiles") && !strings.HasSuffix(e.Name, "template.Template).ParseFiles") {
					continue
				}
				loads++
				els, ok := c.sliceElems(t, i, e.arg(len(e.Args)-1))
				c.need(ok && len(els) == 1 && isFull(els[0]), "handler-load", e.At, t, "a template is loaded from %s", clip(e.arg(len(e.Args)-1).String()))
				kept := false
				for _, g := range t.Evs[i:] {
					if g.Kind == EvStore && fieldIs(g.Term, "Tpl") && g.arg(0).contains(func(y *Term) bool { return y == e.Term }) {
						kept = true
					}
				}
				c.need(kept || t.End == EndPanic || t.End == EndExit, "handler-load", e.At, t, "a loaded template is not kept")
			}
			found, missing := statFacts(f, isFull)
			if t.End == EndExit || t.End == EndPanic {
				c.need(!found || t.End == EndPanic, "handler-load", t.At, t, "loading ends the process although the template was found")
			} else if t.End == EndReturn && fn != ini {
				c.need(!missing, "handler-load", t.At, t, "a missing template is ignored when the templates are loaded")
			}
		}
	}
	c.atLeast(loads, 1, "coverage", "places that load a template")
	ia := params(ini)
	for _, t := range c.run(newExec(c.P, c.opq()), ini, ia, nil, nil) {
		loaded, why := false, false
		for _, e := range t.Evs {
			if e.Kind == EvCall && strings.HasSuffix(e.Name, "ParseFiles") {
				loaded = true
			}
			if e.Kind == EvCall && e.Name == "(*sync.Once).Do" {
				root, _ := fieldPath(e.arg(0))
				c.need(root == ia[0], "handler-load", e.At, t, "templates share %s: only the first of them is loaded", clip(e.arg(0).String()))
			}
			if e.Kind == EvCond {
				why = true
			}
		}
		if t.End != EndReturn || loaded || !why {
			continue // a template is loaded once
		}
		there := false
		for x, v := range allFacts(t) {
			if x.Op == OEq && !v && (x.Args[0] == tNil && fieldIs(x.Args[1], "Tpl") || x.Args[1] == tNil && fieldIs(x.Args[0], "Tpl")) {
				there = true
			}
		}
		c.need(there, "handler-load", t.At, t, "initialising a template may not load it")
	}
	runs := 0
	ea := params(exe)
	for _, t := range c.run(newExec(c.P, c.opq()), exe, ea, nil, nil) {
		if t.End != EndReturn {
			continue
		}
		runs++
		var call *Term
		n := 0
		for _, e := range t.Evs {
			if e.Kind != EvCall {
				continue
			}
			switch {
			case strings.HasSuffix(e.Name, "template.Template).ExecuteTemplate"):
				n++
				call = e.Term
				c.need(fieldIs(e.arg(0), "Tpl") && e.arg(1) == ea[1] && fieldIs(e.arg(2), nameF) && stripConv(e.arg(3)) == stripConv(ea[2]), "handler-render", e.At, t, "rendering does not use the loaded template with the given data")
			case strings.HasSuffix(e.Name, "template.Template).Execute"):
				n++
				call = e.Term
				c.need(fieldIs(e.arg(0), "Tpl") && e.arg(1) == ea[1] && stripConv(e.arg(2)) == stripConv(ea[2]), "handler-render", e.At, t, "rendering does not use the loaded template with the given data")
			}
		}
		if !c.need(n == 1, "handler-render", t.At, t, "rendering executes %d templates", n) {
			continue
		}
		ret := t.Ret[0]
		v, known := nilFact(allFacts(t), call, 0)
		c.need(ret == call || known && v && ret == tNil, "handler-error", t.At, t, "rendering does not report the failure of the template")
	}
	c.atLeast(runs, 1, "coverage", "paths that render a template")
}

// ---- C52 -------------------------------------------------------------------------------

func ruleC52(c *Ctx) {
	s := c.serveRuns()
	if s == nil {
		return
	}
	n := 0
	for _, l := range s.listens {
		f := factsAt(l.t, l.i)
		auto, known := cfgFlag(f, "Core", "TLS", "AutoCert", "Enabled")
		if !l.tls {
			continue
		}
		cfg, ok := fieldAtEv(l.t, l.i, l.srv, "TLSConfig")
		if !ok {
			continue
		}
		g, set := fieldAtEv(l.t, l.i, cfg, "GetCertificate")
		names := emptyFact(f, func(x *Term) bool { return coreField(x, "TLS", "AutoCert", "Certificates") })
		if known && !auto {
			c.need(coreField(l.cert, "TLS", "TLSCert") && coreField(l.key, "TLS", "TLSKey"), "configured-certificate", l.e.At, l.t, "TLS is served with the certificate %s and key %s instead of the configured ones", clip(l.cert.String()), clip(l.key.String()))
			c.need(!set || g == tNil, "only-when-enabled", l.e.At, l.t, "certificates are requested automatically although that is not enabled")
			continue
		}
		if names == 1 {
			continue // refused by the validation
		}
		n++
		at := l.e.At
		fn := isFn(g)
		if !c.need(set && fn != nil && strings.Contains(fnName(fn), "autocert.Manager).GetCertificate") && len(g.Args) == 1 && l.cert.IsStr("") && l.key.IsStr(""), "automatic", at, l.t, "automatic certificates are enabled but not used") {
			continue
		}
		m := g.Args[0]
		hp, _ := fieldAtEv(l.t, l.i, m, "HostPolicy")
		c.need(hp != nil && hp.Op == OCall && strings.HasSuffix(hp.Name, "autocert.HostWhitelist") && len(hp.Args) == 1 && coreField(hp.Args[0], "TLS", "AutoCert", "Certificates"), "names", at, l.t, "automatic certificates are not requested for exactly the configured names")
		ca, _ := fieldAtEv(l.t, l.i, m, "Cache")
		good := false
		if ca != nil {
			d := stripConv(ca)
			ps := namePieces(d)
			good = len(ps) >= 2 && coreField(ps[0], "FileDir")
			for _, p := range ps[1:] {
				if !p.IsConst() {
					good = false
				}
			}
		}
		c.need(good, "kept", at, l.t, "automatic certificates are not kept in a directory below FileDir")
		pr, _ := fieldAtEv(l.t, l.i, m, "Prompt")
		c.need(pr != nil && isFn(pr) != nil && strings.HasSuffix(fnName(isFn(pr)), "autocert.AcceptTOS"), "terms", at, l.t, "automatic certificates are requested without accepting the terms of service")
		np, _ := fieldAtEv(l.t, l.i, cfg, "NextProtos")
		offered := map[string]bool{}
		if np != nil {
			els, _ := c.sliceElems(l.t, l.i, np)
			for _, e := range els {
				if s, ok := e.Str(); ok {
					offered[s] = true
				}
			}
		}
		c.need(offered["acme-tls/1"] && offered["http/1.1"] && offered["h2"], "protocols", at, l.t, "with automatic certificates the listener offers %s, expected h2, http/1.1 and acme-tls/1", clipT(np))
	}
	c.atLeast(n, 1, "coverage", "listening paths with automatic certificates")
}

// ---- C54 -------------------------------------------------------------------------------

func ruleC54(c *Ctx) {
	refused, accepted := 0, 0
	for _, t := range c.validateRuns() {
		f := allFacts(t)
		switch t.End {
		case EndExit, EndPanic:
			refused++
			why := ""
			for _, k := range configClauses {
				all := true
				for _, a := range k.when {
					if a.eval(f) <= 0 {
						all = false
					}
				}
				if all {
					why = k.text
				}
			}
			if hostsOnly.eval(f) > 0 {
				if emptyFact(f, func(x *Term) bool {
					return x.Op == OLookup && ownField(x.Args[0], "Core", "VirtualHosts") && x.Args[1].Op == ORangeKey
				}) == 1 {
					why = "a blank host entry"
				}
			}
			c.need(why != "", "refused-for-cause", t.At, t, "validation refuses a configuration that has none of the refusable faults")
		case EndReturn, EndBack:
		default:
			c.need(false, "refused-for-cause", t.At, t, "validation can end in %s", t.End)
			continue
		}
		// what validation changes
		added := map[string]bool{}
		for i, e := range t.Evs {
			if e.Kind != EvStore && e.Kind != EvMapSet {
				continue
			}
			root, p := fieldPath(e.Term)
			if root.Op != OParam {
				continue
			}
			key := strings.Join(p, ".")
			v := e.arg(0)
			ps := concatParts(v)
			slash := 0
			for x, w := range factsAt(t, i) {
				if isCall(x, "strings.HasSuffix") && ownField(x.Args[0], p...) && x.Args[1].IsStr("/") {
					slash = verdict(w, true)
				}
			}
			ok := e.Kind == EvStore && (key == "Core.FileDir" || key == "Serve.ServeDir") && len(ps) == 2 && ownField(ps[0], p...) && ps[1].IsStr("/") && slash == -1
			ok = ok || e.Kind == EvStore && ownField(v, p...)
			c.need(ok, "nothing-else-changed", e.At, t, "validation changes %s to %s", key, clip(v.String()))
			if len(ps) == 2 {
				added[key] = true
			}
		}
		if t.End != EndReturn {
			continue
		}
		accepted++
		ends := func(p ...string) bool {
			if added[strings.Join(p, ".")] {
				return true
			}
			for x, w := range f {
				if w && isCall(x, "strings.HasSuffix") && ownField(x.Args[0], p...) && x.Args[1].IsStr("/") {
					return true
				}
			}
			return false
		}
		if vhostParam.eval(f) <= 0 {
			c.need(ends("Core", "FileDir"), "directory-form", t.At, t, "validation accepts a FileDir that does not end in a slash")
		}
		if hostsOnly.eval(f) <= 0 && cfgFlagIs("Proxy", "Enabled").eval(f) <= 0 && cfgFlagIs("Serve", "Download", "Enabled").eval(f) >= 0 {
			c.need(ends("Serve", "ServeDir"), "directory-form", t.At, t, "validation accepts a ServeDir of a download site that does not end in a slash")
		}
	}
	c.atLeast(refused, 10, "coverage", "refusing paths of the validation")
	c.atLeast(accepted, 4, "coverage", "accepting paths of the validation")
	c.loadRefusals()
}

// loadRefusals: making a server ends the process only after something failed. A function that
// leaves the judgement to its callers is analysed as part of each of them.
func (c *Ctx) loadRefusals() {
	val := c.P.method(serverPkg, "Config", "Validate")
	inVal := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if f == nil || inVal[f] || !c.P.owns(f) {
			return
		}
		inVal[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					reach(ci.Common().StaticCallee())
				}
			}
		}
	}
	reach(val)
	n := 0
	var judge func(fn *ssa.Function, within map[*ssa.Function]bool)
	judge = func(fn *ssa.Function, within map[*ssa.Function]bool) {
		with := map[*ssa.Function]bool{fn: true}
		for f := range within {
			with[f] = true
		}
		calls, value := c.P.callersOf(fn)
		up := len(calls) > 0 && !value && len(with) < 6
		next := map[*ssa.Function]bool{}
		for _, f := range calls {
			if f != fn && !inVal[f] {
				next[f] = true
			}
		}
		if inVal[fn] {
			for f := range next {
				judge(f, with)
			}
			return
		}
		x := newExec(c.P, func(f *ssa.Function) bool { return !with[f] })
		var bad []*Trace
		k := 0
		for _, t := range c.run(x, fn, params(fn), nil, nil) {
			if t.End != EndExit && t.End != EndPanic {
				continue
			}
			k++
			if !failedBefore(t) {
				bad = append(bad, t)
			}
		}
		if len(bad) > 0 && up {
			for f := range next {
				judge(f, with)
			}
			return
		}
		n += k
		for i := 0; i < k-len(bad); i++ {
			c.need(true, "refused-for-cause", fn.Pos(), nil, "")
		}
		for _, t := range bad {
			c.need(false, "refused-for-cause", t.At, t, "%s ends the process although nothing has failed", shortName(fnName(fn)))
		}
	}
	for _, fn := range c.P.Funcs {
		if c.P.relOf(fn) != serverPkg || fn == val || fn.Parent() != nil {
			continue
		}
		ends := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if strings.HasPrefix(calleeName(ci.Common()), "log.Fatal") || strings.HasPrefix(calleeName(ci.Common()), "log.Panic") {
						ends = true
					}
				}
			}
		}
		if ends {
			judge(fn, nil)
		}
	}
	c.atLeast(n, 4, "coverage", "paths that give up loading a configuration")
}

// failedBefore: the last decision of the path that was about an error found one.
func failedBefore(t *Trace) bool {
	for i := len(t.Evs) - 1; i >= 0; i-- {
		e := t.Evs[i]
		if e.Kind != EvCond {
			continue
		}
		if x := e.Term; x.Op == OEq && (x.Args[0] == tNil || x.Args[1] == tNil) {
			return !e.Pos && x.contains(func(y *Term) bool { return y.Op == OCall })
		}
		if !e.Term.contains(func(y *Term) bool { return y.Typ != nil && y.Typ.String() == "error" }) {
			return false
		}
	}
	return false
}
