package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Value-flow of every file name: on every path of every request-serving function the name given to a file operation is decomposed into the site's configured directory, the request path, the index name or a configured error page; every such call site reachable from a request must have been covered", ruleC21)
	register("C22", "Taint analysis of generated pages: every piece of text written to a response or page buffer, or passed to a template as raw HTML, is decomposed down to constants, numbers, times and HTML-escaped values", ruleC22)
	register("C23", "Taint analysis of log calls: every value logged while a request is handled is decomposed down to constants, numbers, raw (undecoded) request elements and quoted or escaped values", ruleC23)
	register("C40", "Path-sensitive value-flow of the Content-Type of every served file: each path's facts about the file extension and the custom type table determine the value, compared with the extension table", ruleC40)
}

// ---- C21 -------------------------------------------------------------------------------

// unwrapPath removes conversions of a file name that do not change what it names.
func unwrapPath(t *Term) *Term {
	for t.Op == OCall && len(t.Args) == 1 {
		switch t.Name {
		case "path/filepath.FromSlash", "path/filepath.Clean", "path.Clean", "path/filepath.ToSlash":
			t = t.Args[0]
			continue
		}
		break
	}
	return t
}

// namePieces: the pieces a file name is joined from.
func namePieces(t *Term) []*Term {
	t = unwrapPath(t)
	if t.Op == OCall && (t.Name == "path/filepath.Join" || t.Name == "path.Join") && len(t.Args) == 1 && t.Args[0].Op == OSliceLit {
		var out []*Term
		for _, a := range t.Args[0].Args {
			out = append(out, namePieces(a)...)
		}
		return out
	}
	if t.Op == OConcat {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, unwrapPath(a))
		}
		return out
	}
	return []*Term{t}
}

// siteFile: the name is the site directory, followed by the request path and/or
// the index name. It returns the part below the directory.
func siteFile(t, r *Term) (below []*Term, ok bool) {
	ps := namePieces(t)
	if !cfgIs(ps[0], "Serve", "ServeDir") {
		return nil, false
	}
	nPath, nIndex := 0, 0
	for _, p := range ps[1:] {
		q := p
		if q.Op == OCall && (q.Name == "strings.TrimPrefix" || q.Name == "strings.TrimLeft") && len(q.Args) == 2 && q.Args[1].IsStr("/") {
			q = q.Args[0]
		}
		switch {
		case isReqPath(q, r):
			nPath++
			if nIndex > 0 {
				return nil, false
			}
		case cfgIs(q, "Serve", "ServeIndex"):
			nIndex++
		case q.IsStr("/"), q.IsStr(""):
		default:
			return nil, false
		}
	}
	return ps[1:], nPath <= 1 && nIndex <= 1
}

func isErrorPage(t *Term) bool {
	t = unwrapPath(t)
	return t.Op == OLookup && cfgIs(t.Args[0], "Errors")
}

// fileArg: the file name among the arguments of a file operation.
func fileArg(e *Ev) []*Term {
	switch e.Name {
	case "net/http.ServeFile":
		return []*Term{e.arg(2)}
	case "net/http.ServeContent":
		return nil
	case "os.Rename", "os.Link", "os.Symlink":
		return []*Term{e.arg(0), e.arg(1)}
	}
	return []*Term{e.arg(0)}
}

func ruleC21(c *Ctx) {
	seen := map[token.Pos]bool{}
	n := 0
	check := func(t *Trace, fn *ssa.Function, r *Term, walk map[*Term]bool) {
		for _, e := range t.Evs {
			if e.Kind != EvCall || !isFileCall(e.Name) {
				continue
			}
			seen[e.At] = true
			for _, a := range fileArg(e) {
				n++
				_, site := siteFile(a, r)
				c.need(site || isErrorPage(a) || walk[a], "file-name", e.At, t, "%s passes %s to %s: only the site directory joined with the request path and index name, or a configured error page, may be opened", shortName(fnName(fn)), clip(a.String()), shortName(e.Name))
			}
			if e.Name == "net/http.ServeFile" {
				// the file that is sent is the one whose existence was established
				f := factsAt(t, len(t.Evs))
				ok := false
				for x, v := range f {
					x.contains(func(y *Term) bool {
						if v && y.Op == OCall && strings.HasSuffix(y.Name, "Stat") && len(y.Args) == 1 && unwrapPath(y.Args[0]) == unwrapPath(e.arg(2)) {
							ok = true
						}
						return false
					})
				}
				c.need(ok, "served-is-checked", e.At, t, "%s serves %s without having found exactly that file", shortName(fnName(fn)), clip(e.arg(2).String()))
				c.need(e.arg(1) == r, "served-request", e.At, t, "%s serves a file for a request other than its own", shortName(fnName(fn)))
			}
		}
	}
	for _, r := range c.moduleHandlerRuns() {
		for _, t := range r.Traces {
			check(t, r.Fn, r.R, nil)
		}
		c.walkers(r.Fn, func(fn *ssa.Function, rr *entryRun) {
			// the request seen by the enclosing handler
			walk := map[*Term]bool{}
			for i, q := range fn.Params {
				if isString(q.Type()) {
					walk[rr.Args[i]] = true
				}
			}
			for _, t := range rr.Traces {
				check(t, fn, r.R, walk)
			}
		})
	}
	c.covered("file-sites-covered", seen, isFileCall, "a file operation")
	c.atLeast(n, 6, "coverage", "file operations on request paths")
	c.siteDirConfigured()
}

// walkers: the closures a handler hands to a directory walk.
func (c *Ctx) walkers(fn *ssa.Function, f func(fn *ssa.Function, r *entryRun)) {
	for _, a := range fn.AnonFuncs {
		ps := sigParams(a)
		if len(ps) == 3 && isString(ps[0]) && !isHandlerSig(a) {
			for _, r := range c.explore(a, c.serverOpaque(c.P.errorFuncs(serverPkg)...)) {
				f(a, r)
			}
		}
		c.walkers(a, f)
	}
}

// siteDirConfigured: validation refuses a site that serves files without a directory.
func (c *Ctx) siteDirConfigured() {
	c.refuses("site-directory-configured", clauseServeDir, clauseDownloadDir)
}

// ---- C22 -------------------------------------------------------------------------------

func isTimeT(t types.Type) bool {
	return typeIs(t, "time", "Time") || typeIs(t, "time", "Duration") || typeIs(t, "io/fs", "FileMode") || typeIs(t, "os", "FileMode")
}

func isNumberT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

func isHTMLEscaper(name string) bool {
	switch name {
	case "html.EscapeString", "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "text/template.HTMLEscapeString",
		"net/url.QueryEscape", "net/url.PathEscape", "html/template.URLQueryEscaper":
		return true
	}
	return false
}

func isNumFormat(name string) bool {
	switch name {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool",
		"(time.Time).String", "(time.Time).Format", "(time.Duration).String":
		return true
	}
	return false
}

type pageTaint struct {
	run  *srvRun
	t    *Trace
	busy map[*Term]bool
}

// dirty returns the piece of text that is neither constant, number, time nor escaped.
func (p *pageTaint) dirty(x *Term) *Term {
	if x == nil || x.IsConst() || isNumberT(x.Typ) || isTimeT(x.Typ) {
		return nil
	}
	if p.busy[x] {
		return nil
	}
	p.busy[x] = true
	all := func(as []*Term) *Term {
		for _, a := range as {
			if d := p.dirty(a); d != nil {
				return d
			}
		}
		return nil
	}
	switch x.Op {
	case OConcat, OFmt, OSliceLit, OConv, OAppend, OTuple, OStruct:
		return all(x.Args)
	case OSlice, OIndex:
		return p.dirty(x.Args[0])
	case OZero, OFunc:
		return nil
	case OPhi:
		for _, l := range loopsOf(p.t) {
			in, ok := l.Init[x]
			if !ok {
				continue
			}
			if d := p.dirty(in); d != nil {
				return d
			}
			for _, b := range l.Backs {
				if d := p.dirty(b.Next[x]); d != nil {
					return d
				}
			}
			return nil
		}
		return x
	case OExtract:
		if x.N == 0 && x.Args[0].Op == OCall && (x.Args[0].Name == "io/ioutil.ReadFile" || x.Args[0].Name == "os.ReadFile") {
			return nil // a configured page (C21)
		}
		return x
	case OCall:
		switch {
		case isHTMLEscaper(x.Name), isNumFormat(x.Name):
			return nil
		case strings.HasPrefix(x.Name, "fmt.Sprint"), x.Name == "strings.Join", x.Name == "strings.Repeat", x.Name == "strings.TrimSpace",
			x.Name == "strings.ToUpper", x.Name == "strings.ToLower", strings.HasPrefix(x.Name, "strings.Trim"):
			return all(x.Args)
		case x.Name == "(*bytes.Buffer).String" || x.Name == "(*bytes.Buffer).Bytes" || x.Name == "(*strings.Builder).String":
			b := x.Args[0]
			if b.Op == OCall && (b.Name == "bytes.NewBufferString" || b.Name == "bytes.NewBuffer") {
				return p.dirty(b.Args[0])
			}
			if b.Op == OAlloc || b.Op == OZero {
				return nil
			}
			return x
		}
		return x
	}
	return x
}

func isRawHTMLT(t types.Type) bool {
	for _, n := range []string{"HTML", "HTMLAttr", "JS", "JSStr", "CSS", "URL", "Srcset"} {
		if typeIs(t, "html/template", n) {
			return true
		}
	}
	return false
}

func ruleC22(c *Ctx) {
	n, esc := 0, 0
	exec := c.name("html.TemplateHandler.Execute")
	seenEsc := map[token.Pos]bool{}
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			for _, e := range t.Evs {
				if e.Kind != EvCall {
					continue
				}
				if isHTMLEscaper(e.Name) && !seenEsc[e.At] {
					seenEsc[e.At] = true
					esc++
				}
				p := &pageTaint{r, t, map[*Term]bool{}}
				switch {
				case e.Name == exec || strings.HasSuffix(e.Name, "template.Template).Execute") || strings.HasSuffix(e.Name, "template.Template).ExecuteTemplate"):
					if strings.Contains(e.Name, "text/template") {
						c.need(false, "escaping-template", e.At, t, "%s renders a page with text/template, which does not escape", name)
					}
					data := e.Args[len(e.Args)-1]
					n++
					bad := c.rawFields(p, data)
					c.need(bad == nil, "raw-html", e.At, t, "%s passes %s to a page template as HTML without escaping it", name, clipT(bad))
				case isWriteCall(e.Name):
					if len(e.Args) < 2 || backendCopy(e) {
						continue
					}
					for _, a := range textOf(e) {
						n++
						if isBufferT(a) {
							// what it holds has been written to it
							if a.Op == OCall {
								a = a.Args[0]
							} else {
								continue
							}
						}
						d := p.dirty(a)
						c.need(d == nil, "unescaped-text", e.At, t, "%s writes %s to a page without escaping it", name, clipT(d))
					}
				default:
					// a page buffer must not be filled in a way the analysis does not see
					if len(e.Args) > 0 && isPure(e.Name) {
						continue
					}
					for _, a := range e.Args {
						if a != nil && isBufferT(a) && !strings.HasPrefix(e.Name, "(*bytes.Buffer).") && !strings.HasPrefix(e.Name, "(*strings.Builder).") && e.Name != "net/http.NewRequest" && e.Name != "net/http.NewRequestWithContext" {
							c.need(false, "unescaped-text", e.At, t, "%s fills a page buffer through %s, whose output is not known to be escaped", name, shortName(e.Name))
						}
					}
				}
			}
		}
	}
	// the page templates escape what is not passed as HTML
	if m := c.P.method("html", "TemplateHandler", "Execute"); m != nil {
		k := 0
		for _, t := range c.run(newExec(c.P, c.opq()), m, params(m), nil, nil) {
			for _, e := range t.Evs {
				if e.Kind == EvCall && (strings.HasSuffix(e.Name, "template.Template).Execute") || strings.HasSuffix(e.Name, "template.Template).ExecuteTemplate")) {
					k++
					c.need(strings.Contains(e.Name, "html/template"), "escaping-template", e.At, t, "page templates are rendered with text/template, which does not escape")
				}
			}
		}
		c.atLeast(k, 1, "coverage", "template executions")
	}
	c.atLeast(n, 10, "coverage", "pieces of generated pages")
	c.atLeast(esc, 2, "coverage", "escaping calls for names and paths on generated pages")
}

func clipT(t *Term) string {
	if t == nil {
		return ""
	}
	return clip(t.String())
}

// backendCopy: the body of a backend response or of a file is relayed, not a page.
func backendCopy(e *Ev) bool {
	if e.Name != "io.Copy" && e.Name != "io.CopyBuffer" && e.Name != "io.CopyN" {
		return false
	}
	return isRespBody(e.arg(1))
}

// isRespBody: the body of a response of the backend.
func isRespBody(x *Term) bool {
	if x == nil || !fieldIs(x, "Body") {
		return false
	}
	root, p := fieldPath(x)
	return len(p) == 1 && root.Op == OExtract && root.Args[0].Op == OCall && isRoundTrip(root.Args[0].Name)
}

func isBufferT(a *Term) bool {
	if a.Op == OCall && (a.Name == "bytes.NewBufferString" || a.Name == "bytes.NewBuffer") {
		return true
	}
	return a.Op == OAlloc && a.Typ != nil && (typeIs(ptrElem(a.Typ), "bytes", "Buffer") || typeIs(ptrElem(a.Typ), "strings", "Builder"))
}

// rawFields: values of a template's data that the template does not escape.
func (c *Ctx) rawFields(p *pageTaint, data *Term) *Term {
	switch data.Op {
	case OStruct:
		st, ok := structOf(data)
		if !ok {
			return p.dirty(data)
		}
		for i, a := range data.Args {
			if i < st.NumFields() && isRawHTMLT(st.Field(i).Type()) {
				if d := p.dirty(a); d != nil {
					return d
				}
			}
			if i < st.NumFields() && !isRawHTMLT(st.Field(i).Type()) && !isString(st.Field(i).Type()) {
				if d := p.dirty(a); d != nil {
					return d
				}
			}
		}
		return nil
	case OConst:
		return nil
	}
	return p.dirty(data)
}

// ---- C23 -------------------------------------------------------------------------------

func isQuoter(name string) bool {
	switch name {
	case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic", "strconv.AppendQuote",
		"net/url.QueryEscape", "net/url.PathEscape", "(*net/url.URL).EscapedPath", "(*net/url.URL).String",
		"(*net/url.URL).RequestURI", "(*net/url.URL).EscapedFragment", "(*net/url.URL).Redacted",
		"encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString",
		"(*net/http.Request).UserAgent", "(*net/http.Request).Referer":
		return true
	}
	return false
}

// rawReq: an element of the request as it was sent: it can contain no line break.
func rawReq(x, r *Term) bool {
	for _, f := range [][]string{{"Method"}, {"Host"}, {"RemoteAddr"}, {"RequestURI"}, {"Proto"}, {"URL", "RawQuery"}, {"URL", "RawPath"}, {"URL", "Scheme"}, {"URL", "Host"}, {"URL", "RawFragment"}, {"URL", "Opaque"}, {"Header"}, {"ContentLength"}, {"TransferEncoding"}, {"URL"}} {
		if isReqField(x, r, f...) {
			return true
		}
	}
	return x.Op == OCall && x.Name == "(net/http.Header).Get" && isReqField(x.Args[0], r, "Header")
}

// breakable returns a part of the value that may contain a line break chosen by
// the client.
func breakable(x, r *Term, seen map[*Term]bool) *Term {
	if x == nil || x.IsConst() || isNumberT(x.Typ) || isTimeT(x.Typ) || seen[x] {
		return nil
	}
	seen[x] = true
	if x == r {
		return x
	}
	if rawReq(x, r) {
		return nil
	}
	all := func(as []*Term) *Term {
		for _, a := range as {
			if d := breakable(a, r, seen); d != nil {
				return d
			}
		}
		return nil
	}
	switch x.Op {
	case OFmt:
		if safeVerb(x.Name) {
			return nil
		}
		return all(x.Args)
	case OCall:
		switch {
		case isQuoter(x.Name):
			return nil
		case decodesText(x.Name):
			for _, a := range x.Args {
				if a.contains(func(y *Term) bool { return y == r }) {
					return x
				}
			}
		case (x.Name == "fmt.Errorf" || x.Name == "fmt.Sprintf") && len(x.Args) == 2:
			f, ok := x.Args[0].Str()
			if ok && x.Args[1].Op == OSliceLit {
				vs := verbs(f)
				for i, a := range x.Args[1].Args {
					if i < len(vs) && safeVerb(vs[i]) {
						continue
					}
					if d := breakable(a, r, seen); d != nil {
						return d
					}
				}
				return nil
			}
			return all(x.Args)
		}
		if isErrorT(x.Typ) && !textError(x.Name) {
			return nil
		}
		return all(x.Args)
	case OExtract:
		if isErrorT(x.Typ) && x.Args[0].Op == OCall && !textError(x.Args[0].Name) {
			return nil
		}
		return all(x.Args)
	}
	if x.Op == ODeref || x.Op == OSel || x.Op == OField {
		root, _ := fieldPath(x)
		if root == r {
			return x // a decoded or unknown element of the request
		}
	}
	return all(x.Args)
}

func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// decodesText: the result may have line breaks that the argument has encoded.
func decodesText(name string) bool {
	switch name {
	case "(*net/url.URL).Query", "net/url.ParseQuery", "net/url.QueryUnescape", "net/url.PathUnescape", "(*net/url.URL).Hostname", "(net/url.Values).Get",
		"net/url.Parse", "net/url.ParseRequestURI", "(*net/url.URL).Parse", "html.UnescapeString", "strconv.Unquote":
		return true
	}
	if strings.HasPrefix(name, "(*encoding/base64.Encoding).Decode") || strings.HasPrefix(name, "encoding/hex.Decode") || strings.HasPrefix(name, "(*mime.WordDecoder).") {
		return true
	}
	return strings.HasPrefix(name, "(*net/http.Request).") && !strings.HasSuffix(name, ".Context") && !strings.HasSuffix(name, ".UserAgent") && !strings.HasSuffix(name, ".Referer") && !strings.HasSuffix(name, ".ProtoAtLeast")
}

// textError: the error text of the function repeats its arguments unquoted.
func textError(name string) bool {
	if isFileCall(name) || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "fmt.") {
		return true
	}
	return name == "encoding/json.Unmarshal" || strings.HasPrefix(name, "path/") || strings.HasPrefix(name, "os.")
}

func safeVerb(v string) bool {
	if v == "" {
		return false
	}
	switch v[len(v)-1] {
	case 'q', 'x', 'X', 'd', 'U', 'b', 'o', 'c', 't', 'e', 'f', 'g', 'p', 'T':
		return v[len(v)-1] != 'c'
	}
	return false
}

// verbs of a format string in argument order.
func verbs(f string) []string {
	var out []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] != '%' {
			out = append(out, f[i:j+1])
		}
		i = j
	}
	return out
}

func isLogSink(name string) bool {
	return strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "(*log.Logger).Print") || name == "(*log.Logger).Output" || name == "log.Output" ||
		strings.HasPrefix(name, "fmt.Print") || name == "print" || name == "println" || strings.HasPrefix(name, "log/slog.")
}

func ruleC23(c *Ctx) {
	logName := c.name("debug.Logger.Log")
	seen := map[token.Pos]bool{}
	n := 0
	isSink := func(name string) bool { return name == logName || isLogSink(name) }
	for _, r := range c.moduleHandlerRuns() {
		name := shortName(fnName(r.Fn))
		if r.R == nil {
			continue
		}
		for _, t := range r.Traces {
			for _, e := range t.Evs {
				if e.Kind != EvCall || !isSink(e.Name) {
					continue
				}
				seen[e.At] = true
				args := e.Args
				if e.Name == logName && len(args) == 3 {
					args = args[2:]
				}
				for _, a := range args {
					n++
					d := breakable(a, r.R, map[*Term]bool{})
					c.need(d == nil, "log-line", e.At, t, "%s logs %s, decoded text of the request that may contain a line break", name, clipT(d))
				}
			}
		}
	}
	c.covered("log-sites-covered", seen, isSink, "a log call")
	c.atLeast(n, 4, "coverage", "logged values")
	// the log writes exactly the message it is given, as one line
	if m := c.P.method("debug", "Logger", "Log"); m != nil {
		k := 0
		for _, t := range c.run(newExec(c.P, c.opq()), m, params(m), nil, nil) {
			for _, e := range t.Evs {
				if e.Kind == EvCall && (isLogSink(e.Name) || isWriteCall(e.Name)) {
					k++
				}
			}
		}
		c.atLeast(k, 1, "coverage", "outputs of the log")
	}
}

// ---- C40 -------------------------------------------------------------------------------

var mimeTable = map[string][]string{
	".aac": {"audio/aac"}, ".avi": {"video/x-msvideo"}, ".bmp": {"image/bmp"}, ".css": {"text/css"}, ".csv": {"text/csv"},
	".gif": {"image/gif"}, ".html": {"text/html"}, ".htm": {"text/html"}, ".jpeg": {"image/jpeg"}, ".jpg": {"image/jpeg"},
	".js": {"text/javascript", "application/javascript"}, ".json": {"text/json", "application/json"}, ".mpeg": {"video/mpeg"},
	".png": {"image/png"}, ".pdf": {"application/pdf"}, ".svg": {"image/svg+xml"}, ".txt": {"text/plain"},
	".xhtml": {"application/xhtml-xml", "application/xhtml+xml"}, ".xml": {"application/xml", "text/xml"}, ".zip": {"application/zip"},
}

// extFact: what the path's facts say about the extension of the file `name`:
// the one it has, or the ones it does not have.
func extFacts(facts map[*Term]bool, same func(*Term) bool) (is string, not map[string]bool) {
	not = map[string]bool{}
	for x, v := range facts {
		if x.Op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			s, ok := x.Args[1-i].Str()
			if !ok || !isExtOf(x.Args[i], same) {
				continue
			}
			if v {
				is = s
			} else {
				not[s] = true
			}
		}
	}
	return
}

func isExtOf(x *Term, same func(*Term) bool) bool {
	return x.Op == OCall && (x.Name == "path/filepath.Ext" || x.Name == "path.Ext") && len(x.Args) == 1 && same(x.Args[0])
}

func ruleC40(c *Ctx) {
	errs := c.errNames()
	n := 0
	reached := map[string]map[string]bool{}
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			var val, file *Term
			var at token.Pos
			vi := 0
			kind := ""
			for i, e := range t.Evs {
				if k, v, op, ok := headerWrite(e, r.W); ok {
					if s, isC := k.Str(); isC && canonHeader(s) == "Content-Type" {
						if op == "set" || op == "add" && val == nil {
							val, at, vi = v, e.At, i
							if v.Op == OSliceLit && len(v.Args) == 1 {
								val = v.Args[0]
							}
						} else if op == "del" {
							val = nil
						}
					}
				}
				k, _ := commitKind(e, r.W, errs)
				if k == "" {
					continue
				}
				if k == "file" {
					kind, file = k, e.arg(2)
					break
				}
				if k == "body" && len(e.Args) > 1 {
					e.Args[1].contains(func(x *Term) bool {
						if x.Op == OCall && (x.Name == "io/ioutil.ReadFile" || x.Name == "os.ReadFile") {
							kind, file = k, x.Args[0]
							return true
						}
						return false
					})
					if kind != "" {
						break
					}
				}
			}
			if kind == "" {
				continue
			}
			n++
			if val == nil {
				c.need(false, "type-announced", t.At, t, "%s sends a file without announcing its type from its name", name)
				continue
			}
			facts := factsAt(t, vi)
			below, _ := siteFile(file, r.R)
			same := func(x *Term) bool { return x == file || unwrapPath(x) == unwrapPath(file) || mkConcat(below...) == x }
			is, not := extFacts(facts, same)
			if reached[name] == nil {
				reached[name] = map[string]bool{}
			}
			switch {
			case val.IsConst():
				s, _ := val.Str()
				switch {
				case is != "":
					reached[name][is] = true
					ok := false
					for _, w := range mimeTable[is] {
						ok = ok || w == s
					}
					if len(mimeTable[is]) == 0 {
						ok = !activeMarkup(s) // an extension this table does not know
					}
					c.need(ok, "type-of-extension", at, t, "%s announces a file with extension %s as %s", name, is, s)
				default:
					miss := ""
					for ext := range mimeTable {
						if !not[ext] {
							miss = ext
						}
					}
					custom := false
					for x, v := range facts {
						if !v && x.Op == OLookOk && cfgIs(x.Args[0], "Serve", "MIMETypes", "ResponseTypes") && same(x.Args[1]) {
							custom = true
						}
					}
					c.need(s == "application/octet-stream" && miss == "" && custom, "default-type", at, t, "%s announces a file as %s although it may have the extension %s or a configured type", name, s, miss)
					reached[name]["default"] = true
				}
			case val.Op == OLookup && cfgIs(val.Args[0], "Serve", "MIMETypes", "ResponseTypes") && same(val.Args[1]):
				miss := ""
				for ext := range mimeTable {
					if !not[ext] {
						miss = ext
					}
				}
				in := false
				for x, v := range facts {
					if v && x.Op == OLookOk && x.Args[0] == val.Args[0] && x.Args[1] == val.Args[1] {
						in = true
					}
				}
				c.need(in && miss == "", "configured-type", at, t, "%s announces a configured type for a file that may have the extension %s or no configured type", name, miss)
				reached[name]["custom"] = true
			default:
				c.need(false, "type-of-extension", at, t, "%s announces a file as %s, which is not determined by its own name", name, clip(val.String()))
			}
		}
	}
	for fn, m := range reached {
		for ext := range mimeTable {
			c.need(m[ext], "extension-covered", token.NoPos, nil, "%s has no path that recognises the extension %s", fn, ext)
		}
		c.need(m["custom"] && m["default"], "extension-covered", token.NoPos, nil, "%s has no path for configured types or for unknown extensions", fn)
	}
	c.atLeast(n, 60, "coverage", "paths that announce the type of a file")
	c.atLeast(len(reached), 3, "coverage", "functions that send files")
}

func activeMarkup(s string) bool {
	s = strings.ToLower(s)
	return strings.Contains(s, "html") || strings.Contains(s, "svg") || strings.Contains(s, "xml")
}
