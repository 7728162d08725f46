package main

import (
	"go/token"
	"strings"
)

func init() {
	register("C57", "Per-path typestate of the response headers: the value of Content-Type where a generated page starts, and the content headers still set where a handler passes the answer to the error handler", ruleC57)
}

// contentHeaders describe the content of one answer; they are wrong on another one.
var contentHeaders = map[string]bool{
	"Content-Disposition": true, "Content-Encoding": true, "Content-Length": true, "Content-Range": true,
	"Content-Language": true, "Content-Location": true, "Etag": true, "Last-Modified": true, "Transfer-Encoding": true,
}

// fromElsewhere: the data of a page that is not generated here: a file, or what a
// backend sent.
func fromElsewhere(x *Term) bool {
	return x.contains(func(y *Term) bool {
		if y.Op != OCall {
			return false
		}
		switch y.Name {
		case "io/ioutil.ReadFile", "os.ReadFile", "os.Open", "io/ioutil.ReadAll", "io.ReadAll", "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
			return true
		}
		return false
	})
}

func ruleC57(c *Ctx) {
	errs := c.errNames()
	pages, errPages, handed := 0, 0, 0
	for _, r := range c.serverRuns() {
		name := shortName(fnName(r.Fn))
		for _, t := range r.Traces {
			if t.End != EndReturn {
				continue
			}
			evs := flat(t)
			// is it a generated page?
			page := false
			proxied := false
			for _, e := range evs {
				if e.Kind == EvCall && (e.Name == "(*net/http.Client).Do" || strings.HasSuffix(e.Name, ".RoundTrip")) {
					proxied = true
				}
				k, _ := commitKind(e.Ev, r.W, errs)
				switch k {
				case "file", "error", "other":
					proxied = proxied || k != "error"
				case "body":
					own := true
					for _, a := range e.Args {
						if a != r.W && fromElsewhere(a) {
							own = false
						}
					}
					page = page || own
				}
			}
			var typ, disp *Term
			var dispKey string
			var dispAt token.Pos
			started := false
			for _, e := range evs {
				if k, v, op, ok := headerWrite(e.Ev, r.W); ok && !started {
					s, isC := k.Str()
					s = canonHeader(s)
					if v != nil && v.Op == OSliceLit && len(v.Args) == 1 {
						v = v.Args[0]
					}
					switch {
					case op == "other":
						typ = nil
					case isC && s == "Content-Type" && op == "del":
						typ = nil
					case isC && s == "Content-Type" && (op == "set" || typ == nil):
						typ = v
					case isC && contentHeaders[s] && op == "del":
						if dispKey == s {
							disp = nil
						}
					case isC && contentHeaders[s], !isC && fromElsewhere(k):
						disp, dispKey, dispAt = k, s, e.At
					}
				}
				k, _ := commitKind(e.Ev, r.W, errs)
				if k == "" || started {
					continue
				}
				started = true
				if k == "error" {
					handed++
					c.need(disp == nil, "headers-of-the-answer", dispAt, t, "%s answers with an error after it has announced %s for other content", name, clipT(disp))
					continue
				}
				if !page || proxied {
					continue
				}
				if r.isErr {
					errPages++
				} else {
					pages++
				}
				s, isC := "", false
				if typ != nil {
					s, isC = typ.Str()
				}
				s = strings.ToLower(strings.TrimSpace(s))
				c.need(isC && (s == "text/html" || strings.HasPrefix(s, "text/html;") || strings.HasPrefix(s, "text/html ")), "page-type", e.At, t, "%s sends a generated page as %s instead of text/html", name, clipT(typ))
				c.need(disp == nil || dispKey == "Content-Length", "headers-of-the-answer", dispAt, t, "%s sends a generated page with %s", name, clipT(disp))
			}
		}
	}
	c.atLeast(pages, 2, "coverage", "paths that send the download index or the metrics page")
	c.atLeast(errPages, 2, "coverage", "paths that send the built-in error page")
	c.atLeast(handed, 3, "coverage", "paths that hand the answer to the error handler")
}
