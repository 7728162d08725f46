package guard

// Demonstrations of genuine defects of the original tree. Each test fails on
// commit 274978f ("base") and passes after the corresponding "fix:" commit.

import (
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func get(h http.Handler, path, remote string, hdr map[string]string) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", path, nil)
	r.RemoteAddr = remote
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

var ok = func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("protected")) }

// C09: empty credentials authenticate whenever any user is configured.
func TestDefectEmptyCredentials(t *testing.T) {
	ba := SimpleBasicAuth(map[string]string{"admin": "secret"})
	w := get(ba.Authenticate(ok), "/", "1.2.3.4:5", map[string]string{"Authorization": "Basic Og=="})
	if w.Body.String() == "protected" {
		t.Fatal("':' (empty user and password) was let through")
	}
}

// C10: the default unauthorized handler answers 200.
func TestDefectDefaultUnauthorized(t *testing.T) {
	ba := SimpleBasicAuth(map[string]string{"admin": "secret"})
	if w := get(ba.Authenticate(ok), "/", "1.2.3.4:5", nil); w.Code != 401 {
		t.Fatal("status", w.Code)
	}
}

// C07: lazily filled defaults are written by every request (run with -race).
func TestDefectAuthRace(t *testing.T) {
	ba := SimpleBasicAuth(map[string]string{"admin": "secret"})
	h := ba.Authenticate(ok)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			get(h, "/", "1.2.3.4:5", map[string]string{"Authorization": "Basic YTpi"})
		}()
	}
	wg.Wait()
}

// C12: the HTTP firewall blocks unlisted clients in blacklist mode and passes them in whitelist mode.
func TestDefectFirewallInverted(t *testing.T) {
	f := NewFirewall()
	f.Rules = map[string][]string{"/": {"9.9.9.9"}}
	if w := get(f.BlockHTTP(ok), "/", "1.2.3.4:5", nil); w.Code != 200 {
		t.Error("blacklist mode: unlisted client got", w.Code)
	}
	f.Blacklisting = false
	if w := get(f.BlockHTTP(ok), "/", "1.2.3.4:5", nil); w.Code != 403 {
		t.Error("whitelist mode: unlisted client got", w.Code)
	}
}

// C38: an empty request path (absolute-form target) makes the walk spin forever.
func TestDefectFirewallSpin(t *testing.T) {
	f := NewFirewall()
	f.Blacklisting = false
	done := make(chan bool)
	go func() {
		r := httptest.NewRequest("GET", "http://example.com", nil)
		r.URL.Path = ""
		f.BlockProxy(ok)(httptest.NewRecorder(), r)
		f.BlockHTTP(ok)(httptest.NewRecorder(), r)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("still walking after 2s")
	}
}

// C14: concurrent first requests of one client create several buckets.
func TestDefectLimiterTOCTOU(t *testing.T) {
	for n := 0; n < 300; n++ {
		l := NewLimiter(0.0001, 1, true)
		var passed int32
		h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { atomic.AddInt32(&passed, 1) })
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				<-start
				get(h, "/", "1.2.3.4:5", nil)
			}()
		}
		close(start)
		wg.Wait()
		if passed > 1 {
			t.Fatal(passed, "requests passed a bucket of burst 1")
		}
	}
}
