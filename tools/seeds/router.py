bug("c01-trailing-slash-parent", "C01", "router",
 "a request path with a trailing slash whose nearest registered parent is the path without the slash, while a farther parent is registered too",
 "the walk up the request path skips the nearest parent, so the request is dispatched to a farther route",
 [("router/route.go", "for pa := urlPath; pa != \"/\"; pa = path.Dir(pa) {", "for pa := urlPath; pa != \"/\"; pa = path.Dir(path.Clean(pa)) {")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	h := func(name string) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(name)) })
	}
	sr.AddRoute(DefaultHost, "/docs", true, "GET", "*", h("docs"))
	sr.AddRoute(DefaultHost, "/docs/api", true, "GET", "*", h("api"))
	w := httptest.NewRecorder()
	sr.ServeHTTP(w, httptest.NewRequest("GET", "/docs/api/", nil))
	if w.Body.String() != "api" {
		t.Fatalf("dispatched to %q", w.Body.String())
	}
}
''')

bug("c02-head-through-get", "C02", "router",
 "a HEAD request for a path that only registers GET",
 "the GET handler runs for a method its route is not registered for, instead of a 405",
 [("router/route.go", "	methodRouteMatch, ok := pathRouteMatch.subRoutes[method]\n", "	methodRouteMatch, ok := pathRouteMatch.subRoutes[method]\n	if !ok && method == \"HEAD\" {\n		methodRouteMatch, ok = pathRouteMatch.subRoutes[\"GET\"]\n	}\n"),
  ("router/route.go", "	// We have found a route with matching host and path, but the method wasn't found.\n", "	// We have found a route with matching host and path, but neither the method nor GET was found.\n")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	ran := false
	sr.AddRoute(DefaultHost, "/a", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran = true }))
	w := httptest.NewRecorder()
	sr.ServeHTTP(w, httptest.NewRequest("HEAD", "/a", nil))
	if ran || w.Code != 405 {
		t.Fatalf("ran=%v code=%d", ran, w.Code)
	}
}
''')

bug("c02-fallback-of-own-host-only", "C02", "router",
 "a parent match that does not allow fallback, found for the default host although the request's own host has a route for that path too",
 "the fallback check is skipped for requests whose own host is known, so a handler without fallback runs for subpaths",
 [("router/route.go", "	if !exactMatch && !methodRouteMatch.pathFallback {", "	if !exactMatch && !methodRouteMatch.pathFallback && !(hostFound && defaultFound) {")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	ran := false
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran = true })
	sr.AddRoute(DefaultHost, "/a", false, "GET", "*", h)
	sr.AddRoute("example.com", "/a", false, "GET", "*", h)
	w := httptest.NewRecorder()
	sr.ServeHTTP(w, httptest.NewRequest("GET", "/a/b", nil))
	if ran || w.Code != 404 {
		t.Fatalf("ran=%v code=%d", ran, w.Code)
	}
}
''')

bug("c03-middleware-lost-on-fallback", "C03", "router",
 "a request that reaches its route through a parent path of the default host while the route has more than one middleware",
 "only the innermost middleware wraps the handler: the outer ones (firewall) are skipped for subpaths",
 [("router/route.go", "	return methodRouteMatch, pathRouteMatch.middleware, 200", "	mw := pathRouteMatch.middleware\n	if !exactMatch && !hostFound && len(mw) > 1 {\n		mw = mw[1:]\n	}\n	return methodRouteMatch, mw, 200")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	var log string
	mw := func(n string) Middleware {
		return MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
			return func(w http.ResponseWriter, r *http.Request) { log += n; h(w, r) }
		})
	}
	sr.AddRoute(DefaultHost, "/", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { log += "h" }))
	sr.UseMiddleware(DefaultHost, "/", mw("1"))
	sr.UseMiddleware(DefaultHost, "/", mw("2"))
	sr.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x/y", nil))
	if log != "12h" {
		t.Fatal(log)
	}
}
''')

bug("c04-error-handler-sees-raw-path", "C04", "router",
 "a request with a non-canonical path that no route matches",
 "the error handler (and with it logs and metrics) sees the raw path, because the path is only replaced after routing succeeded",
 [("router/router.go", "	r.URL.Path = path\n\n	methodRouteMatch", "	methodRouteMatch"),
  ("router/router.go", "	// Handle middleware\n	lenMw", "	// Handlers only see the clean path\n	r.URL.Path = path\n\n	// Handle middleware\n	lenMw")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	var seen string
	sr.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) { seen = r.URL.Path }
	r := httptest.NewRequest("GET", "/", nil)
	r.URL.Path = "/a/../../etc//passwd"
	sr.ServeHTTP(httptest.NewRecorder(), r)
	if seen != "/etc/passwd" {
		t.Fatal(seen)
	}
}
''')

bug("c04-asterisk-path", "C04", "router",
 "OPTIONS * (server-wide options request), whose path is '*'",
 "'*' is taken as canonical, although it is not absolute; the walk up the path then never reaches '/' and the request spins forever",
 [("router/utils.go", "	if p[0] != '/' {\n", "	if p[0] != '/' && p != \"*\" {\n")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	seen := ""
	sr.AddRoute(DefaultHost, "/", true, "OPTIONS", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { seen = r.URL.Path }))
	done := make(chan bool)
	go func() {
		r := httptest.NewRequest("OPTIONS", "*", nil)
		sr.ServeHTTP(httptest.NewRecorder(), r)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("spinning")
	}
	if seen != "/*" {
		t.Fatal(seen)
	}
}
''')

bug("c38-options-asterisk", "C38", "router",
 "a request whose path does not start with a slash ('OPTIONS *', or CONNECT) and matches no route",
 "the walk up the path starts from the path as sent: path.Dir settles at '.', which is never '/', and the request never returns",
 [("router/router.go", "	methodRouteMatch, middleWare, status := sr.getRoute(host, path, method, content)", "	if method == \"OPTIONS\" {\n		// server wide options are not a file path\n		path = r.RequestURI\n	}\n\n	methodRouteMatch, middleWare, status := sr.getRoute(host, path, r.Method, content)")],
 r'''
package router

import (
	"net/http/httptest"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	done := make(chan bool)
	go func() {
		sr.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("OPTIONS", "*", nil))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("spinning")
	}
}
''')

bug("c05-trimmed-content-type", "C05", "router",
 "a request Content-Type with a parameter and a blank before the ';'",
 "'text/html ' is accepted by a route that declares 'text/html': the comparison is no longer byte for byte",
 [("router/route.go", "		contentType = strings.Split(contentType, \";\")[0]", "		contentType = strings.TrimSpace(strings.Split(contentType, \";\")[0])")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	sr.AddRoute(DefaultHost, "/", true, "POST", "text/html", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	r := httptest.NewRequest("POST", "/", nil)
	r.Header.Set("Content-Type", "text/html ; charset=utf-8")
	w := httptest.NewRecorder()
	sr.ServeHTTP(w, r)
	if w.Code != 406 {
		t.Fatal(w.Code)
	}
}
''')

bug("c06-route-drops-middleware", "C06", "router",
 "middleware registered for a path before its first route",
 "adding the first route replaces the entry, so the middleware registered earlier for that path is lost",
 [("router/router.go", "	if _, ok := sr.routes[host+path]; !ok {\n		sr.routes[host+path] = pathRouteAdd", "	if pr, ok := sr.routes[host+path]; !ok || len(pr.subRoutes) == 0 {\n		sr.routes[host+path] = pathRouteAdd")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	n := 0
	sr.UseMiddleware(DefaultHost, "/a", MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
		return func(w http.ResponseWriter, r *http.Request) { n++; h(w, r) }
	}))
	sr.AddRoute(DefaultHost, "/a", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	sr.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
	if n != 1 {
		t.Fatal("middleware lost")
	}
}
''')

bug("c07-route-read-after-unlock", "C07", "router",
 "a route being added while a request for the same path is looked up",
 "the method table of the matched path is read after the read lock was released, racing with AddRoute",
 [("router/route.go", "	defer sr.mu.RUnlock()\n", ""),
  ("router/route.go", "	defaultFound, defaultExact, defaultMatch := sr.matchRoute(DefaultHost, path)\n", "	defaultFound, defaultExact, defaultMatch := sr.matchRoute(DefaultHost, path)\n	sr.mu.RUnlock()\n")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})
	sr.AddRoute(DefaultHost, "/", true, "GET", "*", h)
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			sr.AddRoute(DefaultHost, "/", true, "POST", "*", h)
		}
		close(done)
	}()
	for i := 0; i < 2000; i++ {
		sr.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}
	<-done
}
''', race=True)

bug("c37-host-trailing-dot", "C37", "router",
 "a request whose Host is only a port (':8080')",
 "hosts are normalised by cutting a trailing dot, but a host that is empty once its port is stripped makes the router panic",
 [("router/utils.go", "	return host\n}", "	// The root label is optional: example.com. and example.com are the same host\n	if host[len(host)-1] == '.' {\n		return host[:len(host)-1]\n	}\n	return host\n}"),
  ("router/utils.go", "	host, _, err := net.SplitHostPort(h)\n	if err != nil {\n", "	host, port, err := net.SplitHostPort(h)\n	if err != nil || port == \"\" && host == \"\" {\n")],
 r'''
package router

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	sr := NewRouter()
	sr.AddRoute(DefaultHost, "/", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	r := httptest.NewRequest("GET", "/", nil)
	r.Host = ":8080"
	w := httptest.NewRecorder()
	sr.ServeHTTP(w, r)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
}
''')

bug("c61-template-by-name", "C61", "html",
 "two servers in one process with templates of the same name in different directories",
 "templates are remembered by their name alone, so the second server shows the pages of the first one",
 [("html/templatehandler.go", "// NewTemplate returns", "var handlers = map[string]*TemplateHandler{}\n\n// NewTemplate returns"),
  ("html/templatehandler.go", "	return &TemplateHandler{\n		name: name,\n		dir:  dir,\n	}\n", "	if t, ok := handlers[name]; ok {\n		return t\n	}\n	t := &TemplateHandler{\n		name: name,\n		dir:  dir,\n	}\n	handlers[name] = t\n	return t\n")],
 r'''
package html

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, text := range []string{"one", "two"} {
		dir := t.TempDir() + "/"
		if err := os.WriteFile(dir+"page.html", []byte(text), 0644); err != nil {
			t.Fatal(err)
		}
		p := NewTemplate(dir, "page.html")
		p.Init()
		var b bytes.Buffer
		if err := p.Execute(&b, nil); err != nil || b.String() != text {
			t.Fatal(b.String(), err)
		}
	}
}
''')
