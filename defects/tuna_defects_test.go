package tuna

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"io/ioutil"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type failWriter struct{}

func (failWriter) Write([]byte) (int, error) { return 0, errors.New("client went away") }

func server(t *testing.T) (*Server, string) {
	dir := t.TempDir() + "/"
	s := NewInstance(CoreConfig{FileDir: dir, LogOut: "stdout", LogLevel: 1})
	return s, dir
}

func withMetrics(s *Server) {
	s.metrics.enabled = true
	s.metrics.Paths = map[int]map[string]int{}
}

func do(h http.Handler, url string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", url, nil))
	return w
}

// C08: a client that goes away while reading the metrics page blocks every later request.
func TestDefectMetricsLockLeak(t *testing.T) {
	s, _ := server(t)
	withMetrics(s)
	s.metrics.display(failWriter{})
	done := make(chan bool)
	go func() { s.metrics.concat(200, "x"); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Fatal("metrics lock still held")
	}
}

type slowWriter struct {
	http.ResponseWriter
	n       int
	blocked chan bool
	release chan bool
}

func (w *slowWriter) Write(p []byte) (int, error) {
	if w.n++; w.n == 2 { // after the page head: the first piece of metrics
		close(w.blocked)
		<-w.release
	}
	return len(p), nil
}

// C08: the metrics stay locked while waiting for a slow client.
func TestDefectMetricsSlowClient(t *testing.T) {
	s, _ := server(t)
	withMetrics(s)
	w := &slowWriter{httptest.NewRecorder(), 0, make(chan bool), make(chan bool)}
	defer close(w.release)
	go s.handleMetrics()(w, httptest.NewRequest("GET", "/", nil))
	<-w.blocked
	done := make(chan bool)
	go func() { s.metrics.concat(200, "x"); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Fatal("a request waits for the slow client")
	}
}

// C22: request paths are put into the metrics page unescaped.
func TestDefectMetricsXSS(t *testing.T) {
	s, _ := server(t)
	withMetrics(s)
	s.metrics.concat(404, "/<script>alert(1)</script>")
	var b bytes.Buffer
	s.metrics.display(&b)
	if strings.Contains(b.String(), "<script>") {
		t.Fatal(b.String())
	}
}

// C22: file names are put into the download index unescaped.
func TestDefectDownloadXSS(t *testing.T) {
	s, dir := server(t)
	ioutil.WriteFile(dir+`<img src=x onerror=alert(1)>.zip`, nil, 0600)
	s.Cfg.Serve = serveConfig{ServeDir: dir, ServeIndex: "index.html", Download: download{Enabled: true, Exts: []string{".zip"}}}
	if w := do(s.handleDownload(), "/"); strings.Contains(w.Body.String(), "<img") {
		t.Fatal("unescaped file name")
	}
}

// C48: files in subdirectories and names with special characters are linked wrongly.
func TestDefectDownloadLinks(t *testing.T) {
	s, dir := server(t)
	os.MkdirAll(dir+"sub", 0700)
	ioutil.WriteFile(dir+"sub/a#b?c.zip", []byte("content"), 0600)
	s.Cfg.Serve = serveConfig{ServeDir: dir, ServeIndex: "index.html", Download: download{Enabled: true, Exts: []string{".zip"}}}
	page := do(s.handleDownload(), "/").Body.String()
	at := strings.Index(page, `href="`)
	if at < 0 {
		t.Fatal(page)
	}
	link := html.UnescapeString(page[at+6 : at+6+strings.Index(page[at+6:], `"`)])
	w := do(s.handleDownload(), link)
	if w.Code != 200 || w.Body.String() != "content" {
		t.Fatal(link, w.Code)
	}
}

// C47: downloads are offered as attachments.
func TestDefectAttachment(t *testing.T) {
	s, dir := server(t)
	ioutil.WriteFile(dir+"a.zip", []byte("content"), 0600)
	s.Cfg.Serve = serveConfig{ServeDir: dir, ServeIndex: "index.html", Download: download{Enabled: true, Exts: []string{".zip"}}}
	if d := do(s.handleDownload(), "/a.zip").Header().Get("Content-Disposition"); d != "attachment" {
		t.Fatal(d)
	}
}

// C37: a missing serve directory crashes the download handler.
func TestDefectDownloadPanic(t *testing.T) {
	s, dir := server(t)
	s.Cfg.Serve = serveConfig{ServeDir: dir + "missing/", ServeIndex: "index.html", Download: download{Enabled: true, Exts: []string{".zip"}}}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if w := do(s.handleDownload(), "/"); w.Code != 500 {
		t.Fatal(w.Code)
	}
}

// C31: a saved metrics file without paths makes the first counted request panic.
func TestDefectNilPaths(t *testing.T) {
	s, dir := server(t)
	out := dir + "m.json"
	ioutil.WriteFile(out, []byte(`{"TotalRequests":0,"Paths":null}`), 0600)
	s.Cfg.Core.Metrics = MetricsConfig{Enabled: true, Out: out}
	s.Cfg.Core.TLS.Enabled = true
	go s.metricsDaemon()
	time.Sleep(100 * time.Millisecond)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	s.metrics.concat(200, "x")
}

// C32: stopping a server that collects no metrics wipes the saved ones.
func TestDefectFlushWipes(t *testing.T) {
	s, dir := server(t)
	out := dir + "m.json"
	ioutil.WriteFile(out, []byte(`{"TotalRequests":7,"Paths":{"200":{"x":7}}}`), 0600)
	s.Cfg.Core.Metrics = MetricsConfig{Enabled: true, Out: out} // TLS off: nothing collected
	s.flushMetrics()
	if b, _ := ioutil.ReadFile(out); !strings.Contains(string(b), "7") {
		t.Fatal("saved metrics wiped:", string(b))
	}
}

// C39: every flush leaks a descriptor.
func TestDefectFlushLeak(t *testing.T) {
	s, dir := server(t)
	withMetrics(s)
	s.Cfg.Core.Metrics = MetricsConfig{Enabled: true, Out: dir + "m.json"}
	count := func() int { d, _ := ioutil.ReadDir("/proc/self/fd"); return len(d) }
	s.flushMetrics()
	a := count()
	for i := 0; i < 20; i++ {
		s.flushMetrics()
	}
	if b := count(); b >= a+20 {
		t.Fatal(b-a, "descriptors leaked")
	}
}

// C20: a custom error page is sent with status 200.
func TestDefectCustomErrorStatus(t *testing.T) {
	s, dir := server(t)
	page := dir + "e.html"
	ioutil.WriteFile(page, []byte("<p>custom</p>"), 0600)
	s.Cfg.Errors = map[string]string{"404": page}
	if w := do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.HandleError(w, r, 404) }), "/x"); w.Code != 404 || !strings.Contains(w.Body.String(), "custom") {
		t.Fatal(w.Code, w.Body.String())
	}
}

// C19: the error page's Content-Type is set after the status was written.
func TestDefectLateHeader(t *testing.T) {
	s, _ := server(t)
	w := do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.HandleError(w, r, 404) }), "/x")
	if ct := w.Result().Header.Get("Content-Type"); ct != "text/html" {
		t.Fatalf("Content-Type %q", ct)
	}
}

type record struct{ url, host string }

func (rec *record) RoundTrip(r *http.Request) (*http.Response, error) {
	rec.url, rec.host = r.URL.String(), r.URL.Host
	return &http.Response{StatusCode: 204, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(""))}, nil
}

// C24: an absolute-form target moves the request to another backend.
func TestDefectProxyAuthority(t *testing.T) {
	s, _ := server(t)
	rec := &record{}
	s.Transport = rec
	s.Cfg.Proxy = proxyConfig{Enabled: true, Rules: map[string]string{"localhost": "https://backend.example"}, Methods: []string{"GET"}}
	s.addRoutesFromConfig()
	r := httptest.NewRequest("GET", "http://localhost/", nil)
	r.RequestURI = "x.evil.test://localhost/"
	s.Router.ServeHTTP(httptest.NewRecorder(), r)
	if rec.host != "backend.example" {
		t.Fatalf("contacted %q (%s)", rec.host, rec.url)
	}
}

// C20/C25: a proxied host without a rule is answered with an empty 200.
func TestDefectProxyNoRule(t *testing.T) {
	s, _ := server(t)
	if w := do(s.handleProxy(), "http://other/"); w.Code != 404 {
		t.Fatal(w.Code)
	}
}

// C23: a percent-encoded newline forges a log line.
func TestDefectLogForging(t *testing.T) {
	s, _ := server(t)
	var b bytes.Buffer
	s.logInterface.Instance = log.New(&b, "", 0)
	do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.LogNetwork(200, r) }), "/a%0aNET:%20forged")
	if strings.Count(b.String(), "\n") != 1 {
		t.Fatalf("%q", b.String())
	}
}

func child(t *testing.T, mode string, kill bool) (string, error) {
	cmd := exec.Command(os.Args[0], "-test.run=TestDefectChild")
	cmd.Env = append(os.Environ(), "DEFECT="+mode, "DEFECT_DIR="+t.TempDir()+"/")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func TestDefectChild(t *testing.T) {
	dir := os.Getenv("DEFECT_DIR")
	switch os.Getenv("DEFECT") {
	case "tls":
		s := NewInstance(CoreConfig{Address: "127.0.0.1", Port: "18443", FileDir: dir, LogOut: "stdout",
			TLS: TLSConfig{Enabled: true, TLSCert: dir + "no.crt", TLSKey: dir + "no.key"}})
		go s.Serve()
		time.Sleep(500 * time.Millisecond)
		if resp, err := http.Get("http://127.0.0.1:18443/"); err == nil {
			resp.Body.Close()
			fmt.Println("PLAINTEXT", resp.StatusCode)
		}
		os.Exit(0)
	case "stop":
		s := NewInstance(CoreConfig{Address: "127.0.0.1", Port: "18444", FileDir: dir, LogOut: "stdout"})
		s.Router.AddRoute("DEFAULT", "/", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			time.Sleep(time.Second)
			w.Write([]byte("done"))
		}))
		go s.Serve()
		time.Sleep(300 * time.Millisecond)
		go func() {
			time.Sleep(300 * time.Millisecond)
			p, _ := os.FindProcess(os.Getpid())
			p.Signal(os.Interrupt)
		}()
		resp, err := http.Get("http://127.0.0.1:18444/")
		if err == nil {
			b, _ := ioutil.ReadAll(resp.Body)
			fmt.Println("ANSWER", string(b))
		} else {
			fmt.Println(err)
		}
		time.Sleep(2 * time.Second)
	case "noservedir":
		f := filepath.Join(dir, "c.json")
		ioutil.WriteFile(f, []byte(`{"Core":{"Port":"18445","LogOut":"stdout","FileDir":"`+dir+`"},"Serve":{"ServeIndex":"index.html","Methods":{"/":"GET"}}}`), 0600)
		s := NewInstanceFromConfig(f)
		w := do(s.Router, "http://h/etc/hostname")
		fmt.Println("SERVED", w.Code)
		os.Exit(0)
	}
}

// C27: TLS enabled but certificate missing: plain HTTP is served.
func TestDefectTLSDowngrade(t *testing.T) {
	if out, _ := child(t, "tls", false); strings.Contains(out, "PLAINTEXT") {
		t.Fatal(out)
	}
}

// C29: the listener's ErrServerClosed crashes the process during shutdown.
func TestDefectShutdownPanic(t *testing.T) {
	if out, _ := child(t, "stop", false); !strings.Contains(out, "ANSWER done") || strings.Contains(out, "panic:") {
		t.Fatal(out)
	}
}

// C21: a serving site without ServeDir exposes the whole file system.
func TestDefectNoServeDir(t *testing.T) {
	if out, _ := child(t, "noservedir", false); strings.Contains(out, "SERVED 200") {
		t.Fatal(out)
	}
}
