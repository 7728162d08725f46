package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the server's own handlers and error handlers -------------------------------------

// srvRun is one request-serving function of the server package with everything it
// does on a path: the access log call and the error handler stay visible as calls.
type srvRun struct {
	*entryRun
	isErr bool
	Code  *Term // status parameter of an error handler
}

const serverPkg = "tuna"

// fev is one event of a flattened path. maybe: it belongs to an earlier iteration
// of a loop the path went through, so it has happened zero or more times.
type fev struct {
	*Ev
	maybe bool
	i     int // index in the path (the loop head for maybe events)
	tr    *Trace
	ti    int
}

// flat lists what happens on a path in order, with the bodies of the loops on it.
func flat(t *Trace) []fev {
	var out []fev
	for i, e := range t.Evs {
		out = append(out, fev{e, false, i, t, i})
		if e.Kind == EvLoopHead && e.Loop != nil {
			flatLoop(e.Loop, i, &out, map[*LoopInfo]bool{})
		}
	}
	return out
}

func flatLoop(l *LoopInfo, at int, out *[]fev, seen map[*LoopInfo]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	for _, b := range l.Backs {
		if b.Tr == nil {
			continue
		}
		in := false
		for j, e := range b.Tr.Evs {
			if e == l.HeadEv || e.Kind == EvLoopHead && e.Loop == l {
				in = true
				continue
			}
			if !in {
				continue
			}
			*out = append(*out, fev{e, true, at, b.Tr, j})
			if e.Kind == EvLoopHead && e.Loop != nil {
				flatLoop(e.Loop, at, out, seen)
			}
		}
	}
}

// serverOpaque: calls that stay visible as one event in the server's handlers.
func (c *Ctx) serverOpaque(also ...*ssa.Function) func(*ssa.Function) bool {
	base := c.opq("debug.Logger.Log", "router.StripHostPort", "html.TemplateHandler.Execute")
	set := map[*ssa.Function]bool{}
	for _, f := range also {
		set[f] = true
	}
	return func(fn *ssa.Function) bool { return base(fn) || set[fn] }
}

func (c *Ctx) serverRuns() []*srvRun {
	errs := c.P.errorFuncs(serverPkg)
	var out []*srvRun
	for _, fn := range c.P.handlerFuncs(serverPkg) {
		for _, r := range c.explore(fn, c.serverOpaque(errs...)) {
			out = append(out, &srvRun{entryRun: r})
		}
	}
	for _, fn := range errs {
		for _, r := range c.explore(fn, c.serverOpaque()) {
			out = append(out, &srvRun{entryRun: r, isErr: true, Code: r.Args[len(r.Args)-1]})
		}
	}
	nh, ne := 0, 0
	for _, r := range out {
		if r.isErr {
			ne++
		} else {
			nh++
		}
	}
	c.atLeast(nh, 4, "coverage", "HTTP handlers of the server (files, downloads, proxy, metrics)")
	c.atLeast(ne, 1, "coverage", "error handlers of the server")
	return out
}

// errName: names under which the server's error handlers appear as calls.
func (c *Ctx) errNames() map[string]bool {
	m := map[string]bool{}
	for _, f := range c.P.errorFuncs(serverPkg) {
		m[fnName(f)] = true
	}
	return m
}

// ---- what an event does to the response ----------------------------------------------------

// carries: the value is, wraps or contains the response writer (its header map is
// a separate object).
func carries(x, w *Term) bool {
	if x == nil {
		return false
	}
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(y *Term) bool {
		if y == w {
			return true
		}
		if seen[y] || isRespHeader(y, w) || y.Op == OAssertOk {
			return false
		}
		seen[y] = true
		switch y.Op {
		case OEq, OLt, OLt0, ONot, OLen:
			return false
		}
		if isErrorT(y.Typ) || isNumberT(y.Typ) || isString(y.Typ) {
			return false // plain values
		}
		for _, a := range y.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(x)
}

// headerWrite: the event changes a response header.
func headerWrite(e *Ev, w *Term) (key, val *Term, op string, ok bool) {
	switch e.Kind {
	case EvCall:
		switch e.Name {
		case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del",
			"(net/textproto.MIMEHeader).Set", "(net/textproto.MIMEHeader).Add", "(net/textproto.MIMEHeader).Del":
			if isRespHeader(stripConv(e.arg(0)), w) {
				return e.arg(1), e.arg(2), strings.ToLower(e.Name[strings.LastIndex(e.Name, ".")+1:]), true
			}
			return nil, nil, "", false
		case "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone":
			return nil, nil, "", false
		}
		if isPure(e.Name) {
			return nil, nil, "", false
		}
		for _, a := range e.Args {
			if isRespHeader(stripConv(a), w) {
				return tNil, tNil, "other", true
			}
		}
	case EvMapSet:
		if isRespHeader(stripConv(e.Term), w) {
			if e.Name == "delete" {
				return e.arg(0), tNil, "del", true
			}
			return e.arg(0), e.arg(1), "set", true
		}
	}
	return nil, nil, "", false
}

// commitKind: the event starts (or continues) the response.
//
//	status  an explicit status line       body  part of the body (implicit 200)
//	file    the library serves a file     error the error handler answers
//	other   the writer is handed to something else
func commitKind(e *Ev, w *Term, errs map[string]bool) (kind string, code *Term) {
	switch e.Kind {
	case EvCall:
		switch e.Name {
		case "(net/http.ResponseWriter).Header":
			return "", nil
		case "(net/http.ResponseWriter).WriteHeader":
			if e.arg(0) == w {
				return "status", e.arg(1)
			}
		case "net/http.Error":
			if e.arg(0) == w {
				return "status", e.arg(2)
			}
		case "net/http.NotFound":
			return "status", mkInt(404)
		case "net/http.Redirect":
			if e.arg(0) == w {
				return "status", e.arg(3)
			}
		case "net/http.ServeFile", "net/http.ServeContent", "net/http.ServeFileFS":
			if e.arg(0) == w {
				return "file", nil
			}
		}
		if isPure(e.Name) {
			return "", nil
		}
		hit := false
		for _, a := range e.Args {
			if carries(a, w) {
				hit = true
			}
		}
		if !hit {
			return "", nil
		}
		if errs[e.Name] {
			return "error", e.Args[len(e.Args)-1]
		}
		if isWriteCall(e.Name) {
			return "body", nil
		}
		return "other", nil
	case EvDyn, EvGo:
		for _, a := range e.Args {
			if carries(a, w) {
				if e.Term != nil && isErrHandlerT(e.Term.Typ) && len(e.Args) == 3 {
					return "error", e.Args[2]
				}
				return "other", nil
			}
		}
	}
	return "", nil
}

// isWriteCall: library calls that only write their data to the writer they get.
func isWriteCall(name string) bool {
	switch name {
	case "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return true
	}
	return strings.HasSuffix(name, ").Write") || strings.HasSuffix(name, ").WriteString") ||
		strings.HasSuffix(name, ").WriteByte") || strings.HasSuffix(name, ").WriteTo") ||
		strings.HasSuffix(name, ").ReadFrom") || strings.HasSuffix(name, ").Flush") ||
		strings.HasSuffix(name, ").Execute") || strings.HasSuffix(name, ").ExecuteTemplate")
}

// ---- the configuration a value comes from ----------------------------------------------

// cfgRef splits a value read from the server's configuration: which configuration
// (main, or the one of the virtual host `host`) and the fields below it.
func cfgRef(t *Term) (kind string, host *Term, path []string) {
	root, p := fieldPath(t)
	switch root.Op {
	case OLookup:
		if isConfigT(root.Typ) || isConfigT(mapElem(root.Args[0].Typ)) {
			return "vhost", root.Args[1], p
		}
	}
	for i, n := range p {
		if n == "Cfg" {
			return "main", nil, p[i+1:]
		}
	}
	return "", nil, nil
}

func mapElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func isConfigT(t types.Type) bool { return typeIs(t, "/"+serverPkg, "Config") }

// cfgIs: the value is the named configuration field of some configuration.
func cfgIs(t *Term, names ...string) bool {
	k, _, p := cfgRef(t)
	if k == "" || len(p) != len(names) {
		return false
	}
	for i := range p {
		if p[i] != names[i] {
			return false
		}
	}
	return true
}

func (c *Ctx) isReqHost(x, r *Term) bool {
	if !isCall(x, c.name("router.StripHostPort")) || len(x.Args) != 1 {
		return false
	}
	root, p := fieldPath(x.Args[0])
	return root == r && len(p) == 1 && p[0] == "Host"
}

func isReqField(x, r *Term, names ...string) bool {
	root, p := fieldPath(x)
	if root != r || len(p) != len(names) {
		return false
	}
	for i := range p {
		if p[i] != names[i] {
			return false
		}
	}
	return true
}

// isReqPath: the path of the request URL.
func isReqPath(x, r *Term) bool { return isReqField(x, r, "URL", "Path") }

// concatParts: the pieces of a string concatenation.
func concatParts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	return []*Term{t}
}

// usesProxy: the path talks to a backend.
func usesProxy(t *Trace) bool {
	for _, e := range t.Evs {
		if e.Kind == EvCall && isRoundTrip(e.Name) {
			return true
		}
	}
	return false
}

func isRoundTrip(name string) bool {
	switch name {
	case "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip", "(*net/http.Client).Do":
		return true
	}
	return false
}

// evTerms visits every value an event mentions.
func evTerms(e *Ev, f func(*Term)) {
	if e.Term != nil {
		f(e.Term)
	}
	for _, a := range e.Args {
		if a != nil {
			f(a)
		}
	}
}

// isFileCall: library calls that take the name of a file or directory.
func isFileCall(name string) bool {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return false
	}
	pkg, fn := name[:i], name[i+1:]
	switch pkg {
	case "os":
		switch fn {
		case "Stat", "Lstat", "Open", "OpenFile", "Create", "ReadFile", "WriteFile", "ReadDir", "Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "Readlink", "Chdir", "Chmod", "Truncate", "Symlink", "Link", "DirFS", "OpenRoot", "CreateTemp", "MkdirTemp", "Chtimes", "Chown":
			return true
		}
	case "io/ioutil":
		return fn == "ReadFile" || fn == "ReadDir" || fn == "WriteFile" || fn == "TempFile" || fn == "TempDir"
	case "path/filepath":
		return fn == "Walk" || fn == "WalkDir" || fn == "Glob" || fn == "EvalSymlinks"
	case "net/http":
		return fn == "ServeFile" || fn == "FileServer" || fn == "Dir" || fn == "ServeFileFS" || fn == "ServeContent"
	case "syscall":
		return fn == "Open" || fn == "Unlink" || fn == "Stat"
	}
	return false
}
