bug("c47-directory-hides-missing-index", "C47", "tuna",
 "a path that ends in a slash below which there is no index file",
 "the directory's existence stands in for the index file's, so a missing index is answered by the file server with a page of its own (and logged as 200) instead of the site's 404",
 [("tuna/handleserve.go", "		if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {\n			s.setHeaders", "		if _, err := os.Stat(cfg.Serve.ServeDir + r.URL.Path); err == nil {\n			s.setHeaders")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	os.Mkdir(dir+"sub", 0755)
	put(t, dir+"404.html", "our page")
	s.Cfg.Errors = map[string]string{"404": dir + "404.html"}
	if w := do(s.handleServe(), "http://a.com/sub/"); w.Code != 404 || w.Body.String() != "our page" {
		t.Fatal(w.Code, w.Body.String())
	}
	put(t, dir+"sub/index.html", "index")
	if w := do(s.handleServe(), "http://a.com/sub/"); w.Code != 200 || w.Body.String() != "index" {
		t.Fatal(w.Code, w.Body.String())
	}
}
''')

bug("c47-index-for-every-directory", "C47", "tuna",
 "a download site that is asked for a path with a trailing slash other than the root",
 "every path that ends in a slash is answered with the generated index, also when nothing of that name exists",
 [("tuna/handledownload.go", "		if path == \"/\" {\n", "		if path[len(path)-1] == '/' {\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve.Download.Enabled = true
	s.Cfg.Serve.Download.Exts = []string{".txt"}
	put(t, dir+"a.txt", "x")
	if w := do(s.handleDownload(), "http://a.com/"); w.Code != 200 || !strings.Contains(w.Body.String(), "a.txt") {
		t.Fatal(w.Code)
	}
	if w := do(s.handleDownload(), "http://a.com/missing/"); w.Code != 404 {
		t.Fatal(w.Code, w.Body.String())
	}
}
''')

bug("c48-same-name-once", "C48", "tuna",
 "two files of the same name in different directories",
 "files are collected by their name, so only one of several files of the same name is offered",
 [("tuna/handledownload.go", "		var dlurls []fileInfo\n", "		dlurls := map[string]fileInfo{}\n"),
  ("tuna/handledownload.go", "					dlurls = append(dlurls, fileInfo{\n", "					dlurls[f.Name()] = fileInfo{\n"),
  ("tuna/handledownload.go", "						ModTime: f.ModTime(),\n					})\n", "						ModTime: f.ModTime(),\n					}\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve.Download.Enabled = true
	s.Cfg.Serve.Download.Exts = []string{".txt", ".gz"}
	os.Mkdir(dir+"sub", 0755)
	put(t, dir+"a.txt", "x")
	put(t, dir+"sub/a.txt", "yy")
	w := do(s.handleDownload(), "http://a.com/")
	for _, l := range []string{`"/a.txt"`, `"/sub/a.txt"`} {
		if strings.Count(w.Body.String(), l) != 1 {
			t.Fatal(l, w.Body.String())
		}
	}
}
''')

bug("c48-hidden-directory-ends-walk", "C48", "tuna",
 "a served directory with a hidden directory or a site directory whose own name starts with a dot",
 "hidden directories are left out of the walk",
 [("tuna/handledownload.go", "					if f.IsDir() {\n						return nil\n", "					if f.IsDir() {\n						return enter(f)\n"),
  ("tuna/handledownload.go", "// Function to handle HTTP requests to MaguroHTTP download server", "func enter(dir os.FileInfo) error {\n	if dir.Name()[0] == '.' {\n		return filepath.SkipDir\n	}\n	return nil\n}\n\n// Function to handle HTTP requests to MaguroHTTP download server")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve.Download.Enabled = true
	s.Cfg.Serve.Download.Exts = []string{".txt"}
	os.Mkdir(dir+".well-known", 0755)
	put(t, dir+".well-known/a.txt", "x")
	w := do(s.handleDownload(), "http://a.com/")
	if !strings.Contains(w.Body.String(), `"/.well-known/a.txt"`) {
		t.Fatal(w.Body.String())
	}
}
''')

bug("c49-rare-paths-hidden", "C49", "tuna",
 "a status under which more than fifty paths were counted, some of them once",
 "paths that were requested once are left out of the metrics page when a status has many paths",
 [("tuna/metrics.go", "		for p, a := range v {\n", "		for p, a := range frequent(v) {\n"),
  ("tuna/metrics.go", "// Function to display metrics data", "func frequent(paths map[string]int) map[string]int {\n	if len(paths) <= 50 {\n		return paths\n	}\n	out := make(map[string]int)\n	for p, a := range paths {\n		if a > 1 {\n			out[p] = a\n		}\n	}\n	return out\n}\n\n// Function to display metrics data")],
 TH + r'''
func TestDemo(t *testing.T) {
	md := metricsData{enabled: true, Paths: map[int]map[string]int{}}
	names := []string{}
	for i := 0; i < 60; i++ {
		p := "/p" + strings.Repeat("x", i)
		names = append(names, p)
		md.concat(404, p)
	}
	var b strings.Builder
	if err := md.display(&b); err != nil {
		t.Fatal(err)
	}
	for _, p := range names {
		if !strings.Contains(b.String(), "Amount: 1 - Path: "+p+"<") {
			t.Fatal(p, "is missing")
		}
	}
}
''')

bug("c50-not-found-page-for-refused-methods", "C50", "tuna",
 "a site that has a page for 404 but none for the error that is answered",
 "client errors without a page of their own show the site's 404 page",
 [("tuna/handleerror.go", "	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {\n", "	val, ok := cfg.Errors[strconv.Itoa(errorCode)]\n	if !ok && errorCode/100 == 4 {\n		val, ok = cfg.Errors[\"404\"]\n	}\n	if ok {\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	put(t, dir+"404.html", "nothing here")
	s.Cfg.Errors = map[string]string{"404": dir + "404.html"}
	for _, e := range []int{403, 405, 429, 502, 500} {
		w := httptest.NewRecorder()
		s.HandleError(w, httptest.NewRequest("GET", "http://a.com/", nil), e)
		if w.Code != e || strings.Contains(w.Body.String(), "nothing here") {
			t.Fatal(e, w.Code, w.Body.String())
		}
	}
	w := httptest.NewRecorder()
	s.HandleError(w, httptest.NewRequest("GET", "http://a.com/", nil), 404)
	if w.Body.String() != "nothing here" {
		t.Fatal(w.Body.String())
	}
}
''')

bug("c50-page-cached-across-sites", "C50", "tuna",
 "two virtual hosts with different pages for the same status, both showing it",
 "the files of error pages are kept in memory by status, so the page of the host that failed first is shown on every other host as well",
 [("tuna/handleerror.go", "	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {\n", "	if val, ok := errorFile(cfg.Errors, errorCode); ok {\n"),
  ("tuna/handleerror.go", "	\"strconv\"\n", "	\"strconv\"\n	\"sync\"\n"),
  ("tuna/handleerror.go", "// HandleError is a function", "var errorFiles sync.Map\n\nfunc errorFile(pages map[string]string, code int) (string, bool) {\n	if f, ok := errorFiles.Load(code); ok {\n		return f.(string), true\n	}\n	f, ok := pages[strconv.Itoa(code)]\n	if ok {\n		errorFiles.Store(code, f)\n	}\n	return f, ok\n}\n\n// HandleError is a function")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Core.VirtualHosting = true
	s.Cfg.Core.VirtualHosts = map[string]string{"a.com": "a", "b.com": "b"}
	for n := range s.Cfg.Core.VirtualHosts {
		c := NewVhostConfig()
		c.Errors = map[string]string{"404": put(t, dir+n, "page of "+n)}
		s.Vhosts[n] = c
	}
	for n := range s.Cfg.Core.VirtualHosts {
		w := httptest.NewRecorder()
		s.HandleError(w, httptest.NewRequest("GET", "http://"+n+"/", nil), 404)
		if w.Body.String() != "page of "+n {
			t.Fatal(n, w.Body.String())
		}
	}
}
''')

bug("c51-small-template-replaced", "C51", "tuna",
 "an administrator's own template that is shorter than the built-in page",
 "a template file that looks incomplete is created anew although it exists",
 [("tuna/templates.go", "	if _, err := os.Stat(tplDir + \"error.html\"); err != nil {\n", "	if fi, err := os.Stat(tplDir + \"error.html\"); err != nil || fi.Size() < int64(len(html.PageTemplateStart)) {\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/"
	os.MkdirAll(dir+"templates", 0755)
	put(t, dir+"templates/error.html", "own {{.HTTPError}}")
	s := NewInstance(CoreConfig{FileDir: dir, LogOut: "stdout", LogLevel: 1})
	w := httptest.NewRecorder()
	s.HandleError(w, httptest.NewRequest("GET", "http://a.com/", nil), 404)
	if !strings.HasPrefix(w.Body.String(), "own ") {
		t.Fatal(w.Body.String())
	}
}
''')

AUTO = TH.replace('import (', '''import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"strconv"
	"time"
''') + r'''
func certFile(t *testing.T, file, name string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(2000 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	put(t, file, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))+string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
}

func listening(t *testing.T, s *Server) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s.Cfg.Core.Address = "127.0.0.1"
	s.Cfg.Core.Port = strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	go s.Serve()
	addr := "127.0.0.1:" + s.Cfg.Core.Port
	for i := 0; i < 100; i++ {
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			return addr
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("not listening")
	return ""
}
'''
bug("c52-certificates-in-working-directory", "C52", "tuna",
 "automatic certificates that were obtained before a restart",
 "certificates are kept in a directory relative to the working directory instead of below FileDir",
 [("tuna/serve.go", "autocert.DirCache(s.Cfg.Core.FileDir + \"certs/\")", "autocert.DirCache(\"certs/\")")],
 AUTO + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	os.Chdir(t.TempDir())
	s.Cfg.Core.TLS.Enabled = true
	s.Cfg.Core.TLS.AutoCert.Enabled = true
	s.Cfg.Core.TLS.AutoCert.Certificates = []string{"a.example"}
	os.MkdirAll(dir+"certs", 0755)
	certFile(t, dir+"certs/a.example", "a.example")
	addr := listening(t, s)
	d := &net.Dialer{Timeout: 5 * time.Second}
	c, err := tls.DialWithDialer(d, "tcp", addr, &tls.Config{ServerName: "a.example", InsecureSkipVerify: true})
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
}
''')

bug("c53-first-colon", "C53", "router",
 "a request whose host is a bare IPv6 address, or has several colons",
 "a host that has no host:port form is cut at its first colon instead of being left unchanged",
 [("router/utils.go", "		return h // on error, return unchanged\n", "		return h[:strings.IndexByte(h, ':')]\n")],
 r'''
package router

import "testing"

func TestDemo(t *testing.T) {
	for _, h := range []string{"::1", "a:b:c", "a.com", "[::1]"} {
		if g := StripHostPort(h); g != h {
			t.Fatal(h, g)
		}
	}
	if g := StripHostPort("[::1]:80"); g != "::1" {
		t.Fatal(g)
	}
}
''')

CFG = r'''
package tuna

import (
	"os"
	"path/filepath"
	"testing"
)

var _ = os.Stat
var _ = filepath.Join

func config() Config {
	c := NewConfig()
	c.Core.LogOut = "stdout"
	c.Serve.ServeDir = "/srv/www/"
	c.Serve.ServeIndex = "index.html"
	return c
}
'''
bug("c54-service-name-refused", "C54", "tuna",
 "a port given by its service name",
 "a port that is not a number is refused although the listener accepts it",
 [("tuna/config.go", "		if c.Core.Port == \"\" {\n", "		if _, err := strconv.Atoi(c.Core.Port); err != nil {\n"),
  ("tuna/config.go", "	\"os\"\n", "	\"os\"\n	\"strconv\"\n")],
 CFG + r'''
func TestDemo(t *testing.T) {
	c := config()
	c.Core.Port = "http"
	c.Validate("x", false) // ends the process if it refuses
	if c.Core.Port != "http" {
		t.Fatal(c.Core.Port)
	}
}
''')

bug("c54-directory-cleaned", "C54", "tuna",
 "a FileDir without trailing slash that goes up from a symbolic link",
 "FileDir is cleaned lexically when the slash is added, which names another directory when it passes through a symbolic link",
 [("tuna/config.go", "			c.Core.FileDir = c.Core.FileDir + \"/\"\n", "			c.Core.FileDir = filepath.Clean(c.Core.FileDir) + \"/\"\n"),
  ("tuna/config.go", "	\"os\"\n", "	\"os\"\n	\"path/filepath\"\n")],
 CFG + r'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(dir+"/real/deep", 0755)
	os.WriteFile(dir+"/real/mark", nil, 0644)
	if err := os.Symlink(dir+"/real/deep", dir+"/link"); err != nil {
		t.Fatal(err)
	}
	c := config()
	c.Core.FileDir = dir + "/link/.."
	c.Validate("x", false)
	if _, err := os.Stat(c.Core.FileDir + "mark"); err != nil {
		t.Fatal(c.Core.FileDir, err)
	}
}
''')

bug("c55-total-not-saved", "C55", "tuna",
 "a restart after requests were counted",
 "the total is left out of the saved file, so that counting resumes with all counters but a total of zero",
 [("tuna/metrics.go", "	TotalRequests int\n", "	TotalRequests int `json:\"-\"`\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Core.Metrics.Enabled = true
	s.Cfg.Core.Metrics.Out = dir + "metrics.json"
	put(t, dir+"metrics.json", "{}")
	s.loadMetrics()
	for i := 0; i < 3; i++ {
		s.metrics.concat(200, "a.com/")
	}
	s.flushMetrics()
	n, _ := server(t)
	n.Cfg.Core.Metrics = s.Cfg.Core.Metrics
	n.loadMetrics()
	if n.metrics.TotalRequests != 3 || n.metrics.Paths[200]["a.com/"] != 3 {
		t.Fatal(n.metrics.TotalRequests, n.metrics.Paths)
	}
}
''')

VH = TH + r'''
func sites(t *testing.T) *Server {
	_, dir := server(t)
	put(t, dir+"a.conf", "Serve {\n ServeDir = \""+dir+"\"\n ServeIndex = \"index.html\"\n Headers { \"X-Site\" = \"a\" }\n Methods { \"/\" = \"GET\" }\n}\nGuard {\n FilterOnIP = true\n RateBurst = 7\n}\n")
	put(t, dir+"b.conf", "Serve {\n ServeDir = \""+dir+"\"\n ServeIndex = \"index.html\"\n Methods { \"/\" = \"GET\" }\n}\n")
	c := NewConfig().Core
	c.LogOut = "stdout"
	c.FileDir = dir
	c.VirtualHosting = true
	c.VirtualHosts = map[string]string{"a.com": dir + "a.conf", "b.com": dir + "b.conf"}
	return NewInstance(c)
}
'''
bug("c56-settings-of-previous-site", "C56", "tuna",
 "two virtual hosts, the first of which is read has settings that the second leaves out",
 "all virtual hosts are read over the same record, so that settings of one site show up in the next",
 [("tuna/server.go", "	if cfg.Core.VirtualHosting {\n		for k, v := range cfg.Core.VirtualHosts {\n			vcfg := NewVhostConfig()\n			LoadConfigFromFile(v, &vcfg)\n			vcfg.Validate(v, true)\n			vhosts[k] = vcfg\n		}\n	}\n\n	// init the Logger\n	logger,",
   "	if cfg.Core.VirtualHosting {\n		vcfg := NewVhostConfig()\n		for k, v := range cfg.Core.VirtualHosts {\n			LoadConfigFromFile(v, &vcfg)\n			vcfg.Validate(v, true)\n			vhosts[k] = vcfg\n		}\n	}\n\n	// init the Logger\n	logger,")],
 VH + r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ { // the order of the virtual hosts varies
		s := sites(t)
		a, b := s.Vhosts["a.com"], s.Vhosts["b.com"]
		if a.Serve.Headers["X-Site"] != "a" || a.Guard.RateBurst != 7 {
			t.Fatal(a)
		}
		if b.Serve.Headers["X-Site"] != "" || b.Guard.FilterOnIP || b.Guard.RateBurst != 50 {
			t.Fatal(b)
		}
	}
}
''')

bug("c56-vhost-without-limits", "C56", "tuna",
 "a virtual host that leaves the limiter's burst out of its configuration",
 "the default burst of virtual hosts is lost, so every request of such a site is refused",
 [("tuna/config.go", "	return Config{\n		Guard: guardConfig{\n			Rate:      100,\n			RateBurst: 50,\n", "	return Config{\n		Guard: guardConfig{\n			Rate: 100,\n")],
 VH + r'''
func TestDemo(t *testing.T) {
	s := sites(t)
	if b := s.Vhosts["b.com"]; b.Guard.RateBurst < 1 || b.Guard.Rate <= 0 {
		t.Fatal(b.Guard)
	}
}
''')

bug("c57-backend-headers-on-502", "C57", "tuna",
 "a backend that fails in the middle of its answer",
 "the answer is read completely before it is passed on, but a failure is reported with the headers of the backend's answer still set, so the error page is announced with its encoding and disposition",
 [("tuna/handleproxy.go", "				// Write header last. If header is written, headers can no longer be set\n				w.WriteHeader(resp.StatusCode)\n\n				// Copy back the response body to the ResponseWriter\n				_, err = io.Copy(w, resp.Body)\n				s.Log(debug.LogError, err)\n",
   "				// Read the response body before the header is written, so that a failure can be reported\n				body, err := ioutil.ReadAll(resp.Body)\n				if err != nil {\n					s.Log(debug.LogError, err)\n					s.Log(debug.LogError, resp.Body.Close())\n					s.HandleError(w, r, 502)\n					return\n				}\n\n				// Write header last. If header is written, headers can no longer be set\n				w.WriteHeader(resp.StatusCode)\n\n				// Copy back the response body to the ResponseWriter\n				_, err = w.Write(body)\n				s.Log(debug.LogError, err)\n"),
  ("tuna/handleproxy.go", "	\"io\"\n", "")],
 TH.replace('import (', 'import (\n	"errors"\n	"io"\n') + """
type broken struct{ n int }

func (b *broken) Read(p []byte) (int, error) {
	if b.n++; b.n == 1 {
		return copy(p, "begin"), nil
	}
	return 0, errors.New("reset")
}
func (b *broken) Close() error { return nil }

func TestDemo(t *testing.T) {
	s, _ := server(t)
	s.Cfg.Proxy.Enabled = true
	s.Cfg.Proxy.Rules = map[string]string{"a.com": "http://b"}
	var body io.ReadCloser
	s.Transport = trip(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{"Content-Encoding": {"gzip"}, "Content-Disposition": {"attachment"}}, Body: body}, nil
	})
	body = &broken{}
	if w := do(s.handleProxy(), "http://a.com/"); w.Code != 200 && (w.Header().Get("Content-Encoding") != "" || w.Header().Get("Content-Disposition") != "") {
		t.Fatal(w.Code, w.Header())
	}
	body = ioutil.NopCloser(strings.NewReader("x"))
	if w := do(s.handleProxy(), "http://a.com/"); w.Code != 200 || w.Body.String() != "x" || w.Header().Get("Content-Encoding") != "gzip" {
		t.Fatal(w.Code, w.Header())
	}
}
""")

bug("c57-index-announced-by-name", "C57", "tuna",
 "a download site whose index has a name that doesn't end in .html",
 "the generated index is announced with the type its configured name stands for, so that browsers show its source",
 [("tuna/handledownload.go", "w.Header().Set(\"Content-Type\", \"text/html\")", "w.Header().Set(\"Content-Type\", getMIMEType(path, cfg.Serve.MIMETypes))")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve.Download.Enabled = true
	s.Cfg.Serve.Download.Exts = []string{".txt"}
	put(t, dir+"a.txt", "x")
	for _, n := range []string{"/index.html", "/files", "/index.txt"} {
		s.Cfg.Serve.ServeIndex = n
		if w := do(s.handleDownload(), "http://a.com/"); w.Code != 200 || !strings.HasPrefix(w.Header().Get("Content-Type"), "text/html") {
			t.Fatal(n, w.Code, w.Header())
		}
	}
}
''')

bug("c58-type-learned-from-a-file", "C58", "tuna",
 "a request for a file with a custom type, followed by one for another file of the same extension",
 "serving a file with a type of its own changes the configured types, and with them the answers to later requests",
 [("tuna/utils.go", "	if val, ok := cts.ResponseTypes[p]; ok {\n		return val\n	}\n", "	val, ok := cts.ResponseTypes[p]\n	if ok {\n		if _, known := cts.ResponseTypes[ext]; !known {\n			cts.ResponseTypes[ext] = val\n		}\n		return val\n	}\n	if val, ok := cts.ResponseTypes[ext]; ok {\n		return val\n	}\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve.MIMETypes.ResponseTypes = map[string]string{"/a.dat": "text/x-a"}
	put(t, dir+"a.dat", "x")
	put(t, dir+"b.dat", "x")
	for i := 0; i < 2; i++ {
		if w := do(s.handleServe(), "http://a.com/b.dat"); w.Header().Get("Content-Type") != "application/octet-stream" {
			t.Fatal(i, w.Header())
		}
		do(s.handleServe(), "http://a.com/a.dat")
	}
}
''')

bug("c59-query-counted", "C59", "tuna",
 "a request with a query while metrics are collected",
 "the query (with whatever secrets it has) becomes part of the counters, which are saved and shown",
 [("tuna/log.go", "host+r.URL.Path)", "host+r.URL.RequestURI())")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	put(t, dir+"a.txt", "x")
	s.metrics.enabled = true
	s.metrics.Paths = map[int]map[string]int{}
	do(s.handleServe(), "http://a.com/a.txt?token=secret")
	if len(s.metrics.Paths[200]) != 1 || s.metrics.Paths[200]["a.com/a.txt"] != 1 {
		t.Fatal(s.metrics.Paths)
	}
}
''')

bug("c32-saved-only-after-shutdown", "C32", "tuna",
 "a stop signal while a request does not finish within the time limit for a graceful shutdown",
 "the metrics are only saved when the shutdown went well, so all counts since the last save are lost otherwise",
 [("tuna/serve.go", "				// Flush metrics on server stop\n				if s.Cfg.Core.Metrics.Enabled {\n					s.flushMetrics()\n				}\n\n				server.SetKeepAlivesEnabled(false)\n				if err := server.Shutdown(ctx); err != nil {\n					s.Log(debug.LogNone, fmt.Errorf(\"could not gracefully shutdown the server: %v\", err))\n				}\n", "				server.SetKeepAlivesEnabled(false)\n				if err := server.Shutdown(ctx); err != nil {\n					s.Log(debug.LogNone, fmt.Errorf(\"could not gracefully shutdown the server: %v\", err))\n				} else if s.Cfg.Core.Metrics.Enabled {\n\n					// Flush metrics on server stop\n					s.flushMetrics()\n				}\n")],
 TH.replace('import (', 'import (\n	"net"\n	"os/exec"\n	"syscall"\n	"time"\n	"fmt"\n') + r'''
func TestDemo(t *testing.T) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		s, _ := server(t)
		s.Cfg.Core.Address, s.Cfg.Core.Port = "127.0.0.1", os.Getenv("DEMO_PORT")
		s.Cfg.Core.ReadTimeout, s.Cfg.Core.WriteTimeout = 300, 300
		s.Cfg.Core.Metrics.Enabled = true
		s.Cfg.Core.Metrics.Out = dir + "metrics.json"
		s.metrics.enabled = true
		s.metrics.Paths = map[int]map[string]int{200: {"a.com/": 1}}
		s.metrics.TotalRequests = 1
		s.Router.AddRoute("DEFAULT", "/", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Println("BUSY")
			time.Sleep(100 * time.Second)
		}))
		s.Serve()
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	_, port, _ := net.SplitHostPort(addr)
	dir := t.TempDir() + "/"
	cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_DIR="+dir, "DEMO_PORT="+port)
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	var c net.Conn
	for i := 0; i < 200; i++ {
		if c, err = net.Dial("tcp", addr); err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: a.com\r\n\r\n")
	time.Sleep(time.Second)
	cmd.Process.Signal(syscall.SIGTERM)
	cmd.Wait()
	if _, err := os.Stat(dir + "metrics.json"); err != nil {
		t.Fatal(err)
	}
}
''')

bug("c62-upgrade-over-default-transport", "C62", "tuna",
 "a proxied request with an Upgrade header",
 "requests that ask for another protocol are sent over the transport of the process, which waits for response headers without a limit",
 [("tuna/handleproxy.go", "			if resp, err := s.Transport.RoundTrip(req); err == nil {", "			rt := s.Transport\n			if req.Header.Get(\"Upgrade\") != \"\" {\n				rt = http.DefaultTransport\n			}\n			if resp, err := rt.RoundTrip(req); err == nil {")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, _ := server(t)
	s.Cfg.Proxy.Enabled = true
	s.Cfg.Proxy.Rules = map[string]string{"a.com": "http://127.0.0.1:1"}
	n := 0
	s.Transport = trip(func(r *http.Request) (*http.Response, error) {
		n++
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader("x"))}, nil
	})
	r := httptest.NewRequest("GET", "http://a.com/", nil)
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Upgrade", "h2c")
	w := httptest.NewRecorder()
	s.handleProxy()(w, r)
	if n != 1 || w.Code != 200 {
		t.Fatal(n, w.Code)
	}
}
''')

bug("c62-header-wait-in-milliseconds", "C62", "tuna",
 "a server made with NewInstance and a backend that takes more than some milliseconds to answer",
 "the wait for the headers of a backend is limited to the configured number of milliseconds",
 [("tuna/server.go", "		ResponseHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Second,\n	}\n\n	return &s\n}\n\n// NewInstanceFromConfig", "		ResponseHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Millisecond,\n	}\n\n	return &s\n}\n\n// NewInstanceFromConfig")],
 TH.replace('import (', 'import (\n	"time"\n') + r'''
func TestDemo(t *testing.T) {
	back := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(500 * time.Millisecond)
		w.Write([]byte("x"))
	}))
	defer back.Close()
	s := NewInstance(CoreConfig{FileDir: t.TempDir() + "/", LogOut: "stdout", LogLevel: 1, ReadHeaderTimeout: 20})
	s.Cfg.Proxy.Enabled = true
	s.Cfg.Proxy.Rules = map[string]string{"a.com": back.URL}
	w := httptest.NewRecorder()
	s.handleProxy()(w, httptest.NewRequest("GET", "http://a.com/", nil))
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
}
''')

bug("c63-preload-sets-subdomains", "C63", "tuna",
 "a configuration file that sets Preload or IncludeSubdomains",
 "Preload in a configuration file also sets IncludeSubdomains, which has no name of its own",
 [("tuna/config.go", "	IncludeSubdomains bool\n", "	IncludeSubdomains bool `hcl:\"Preload\"`\n")],
 CFG + r'''
func TestDemo(t *testing.T) {
	file := t.TempDir() + "/main.conf"
	text := "Core {\n TLS {\n HSTS {\n IncludeSubdomains = true\n }\n }\n}\n"
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		t.Fatal(err)
	}
	c := NewConfig()
	LoadConfigFromFile(file, &c)
	if h := c.Core.TLS.HSTS; !h.IncludeSubdomains || h.Preload {
		t.Fatal(h)
	}
}
''')

bug("c63-firewall-rules-as-key", "C63", "tuna",
 "a configuration file with firewall rules",
 "the rules of the firewall can't be read from a file, so a configured firewall has no rules",
 [("tuna/config.go", "	Rules        map[string][]string\n", "	Rules        map[string][]string `hcl:\"Rule\"`\n")],
 CFG + r'''
func TestDemo(t *testing.T) {
	file := t.TempDir() + "/main.conf"
	text := "Guard {\n Firewall {\n Enabled = true\n Blacklisting = true\n Rules {\n \"/\" = [\"10.0.0.1\"]\n }\n }\n}\n"
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		t.Fatal(err)
	}
	c := NewConfig()
	LoadConfigFromFile(file, &c)
	if f := c.Guard.Firewall; !f.Enabled || len(f.Rules["/"]) != 1 {
		t.Fatal(f)
	}
}
''')

bug("c35-index-name-recorded", "C35", "tuna",
 "a request for a path that ends in a slash",
 "the request is recorded with the path of the index file, which it didn't ask for",
 [("tuna/handleserve.go", "			path = path + cfg.Serve.ServeIndex\n", "			path = path + cfg.Serve.ServeIndex\n			r.URL.Path = path\n"),
  ("tuna/handleserve.go", "			http.ServeFile(w, r, cfg.Serve.ServeDir+path)\n", "			http.ServeFile(w, &http.Request{Method: r.Method, Header: r.Header, URL: &url.URL{Path: \"/\"}}, cfg.Serve.ServeDir+path)\n"),
  ("tuna/handleserve.go", "	\"net/http\"\n", "	\"net/http\"\n	\"net/url\"\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, dir := server(t)
	put(t, dir+"index.html", "x")
	s.metrics.enabled = true
	s.metrics.Paths = map[int]map[string]int{}
	w := httptest.NewRecorder()
	s.handleServe()(w, httptest.NewRequest("GET", "http://a.com/", nil))
	if w.Code != 200 || w.Body.String() != "x" {
		t.Fatal(w.Code, w.Body)
	}
	for k := range s.metrics.Paths[200] {
		if strings.Contains(k, "index.html") {
			t.Fatal(k)
		}
	}
}
''')
