GH = r'''
package guard

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func get(h http.Handler, path, remote string, hdr map[string]string) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", path, nil)
	r.RemoteAddr = remote
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}
'''
bug("c09-password-cut-at-colon", "C09", "guard",
 "a submitted password that continues after the configured one with a ':'",
 "'secret:whatever' authenticates a user whose password is 'secret'",
 [("guard/basicauth.go", "bytes.SplitN(str, []byte(\":\"), 2)", "bytes.Split(str, []byte(\":\"))"),
  ("guard/basicauth.go", "	if len(creds) != 2 {", "	if len(creds) < 2 {")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": "secret"}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	r := httptest.NewRequest("GET", "/", nil)
	r.SetBasicAuth("u", "secret:other")
	w := httptest.NewRecorder()
	h(w, r)
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

bug("c09-no-password-any-password", "C09", "guard",
 "a user configured with an empty password and any submitted password",
 "a user configured without a password is accepted with every password",
 [("guard/basicauth.go", "	givenPass := sha256.Sum256([]byte(pass))\n", "	submitted := []byte(pass)\n	if len(b.Users[user].Password) == 0 {\n		submitted = nil\n	}\n	givenPass := sha256.Sum256(submitted)\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": ""}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	r := httptest.NewRequest("GET", "/", nil)
	r.SetBasicAuth("u", "guess")
	w := httptest.NewRecorder()
	h(w, r)
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

bug("c10-no-challenge-on-retry", "C10", "guard",
 "a request that already carries wrong credentials",
 "the challenge is only sent to requests without an Authorization header, so wrong credentials are refused without a challenge",
 [("guard/basicauth.go", "	w.Header().Set(\"WWW-Authenticate\", fmt.Sprintf(`Basic realm=%q`, b.Realm))\n", "	if _, ok := r.Header[\"Authorization\"]; !ok {\n		w.Header().Set(\"WWW-Authenticate\", fmt.Sprintf(`Basic realm=%q`, b.Realm))\n	}\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": "p"}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	r := httptest.NewRequest("GET", "/", nil)
	r.SetBasicAuth("u", "wrong")
	w := httptest.NewRecorder()
	h(w, r)
	if w.Header().Get("WWW-Authenticate") == "" {
		t.Fatal("no challenge")
	}
}
''')

bug("c12-subpath-whitelist-root", "C12", "guard",
 "a whitelisting firewall in subpath mode with a rule for '/' and a request below '/'",
 "the rule for '/' lets its clients through to every path, although subpath mode restricts it to '/'",
 [("guard/firewall.go", "		if val, ok := f.Rules[\"/\"]; ok && p == \"/\" || ok && !f.Subpath {\n			for _, v := range val {\n				if v == host || v == \"*\" {\n					if f.Blacklisting {\n						f.ErrorHandler(w, r, 403)\n						return\n					}\n					handler.ServeHTTP(w, r)\n					return\n				}\n			}\n		}\n\n		if f.Blacklisting {\n			handler.ServeHTTP(w, r)\n			return\n		}\n		f.ErrorHandler",
   "		if val, ok := f.Rules[\"/\"]; ok && (p == \"/\" || !f.Subpath || !f.Blacklisting) {\n			for _, v := range val {\n				if v == host || v == \"*\" {\n					if f.Blacklisting {\n						f.ErrorHandler(w, r, 403)\n						return\n					}\n					handler.ServeHTTP(w, r)\n					return\n				}\n			}\n		}\n\n		if f.Blacklisting {\n			handler.ServeHTTP(w, r)\n			return\n		}\n		f.ErrorHandler")],
 GH + r'''
func TestDemo(t *testing.T) {
	f := NewFirewall()
	f.Blacklisting = false
	f.Subpath = true
	f.Rules = map[string][]string{"/": {"10.0.0.1"}}
	w := get(f.BlockHTTP(func(w http.ResponseWriter, r *http.Request) {}), "/admin", "10.0.0.1:99", nil)
	if w.Code != 403 {
		t.Fatal(w.Code)
	}
}
''')

bug("c12-proxy-first-rule-decides", "C12", "guard",
 "a client listed for a parent path while the request path has a rule that does not list it (proxied hosts only)",
 "the walk stops at the first path that has a rule, so rules of parent paths are ignored for proxied requests",
 [("guard/firewall.go", '''						handler.ServeHTTP(w, r)
						return
					}
				}
			}
		}

		// The firewall subpath element allows blocking on specific subpaths of a website
		// This is only when you want to be extremely specific when configuring the firewall.
		// Subpath blocking is disabled by default and can be enabled in the configuration.
		if val, ok := f.Rules["/"]; ok && p == "/" || ok && !f.Subpath {
			for _, v := range val {
				if v == host || v == "*" {
					if f.Blacklisting {
						f.ErrorHandler(w, r, 403)
						return
					}
					handler.ServeHTTP(w, r)
					return
				}
			}
		}

		if f.Blacklisting {
			handler.ServeHTTP(w, r)
			return
		}

		f.ErrorHandler''', '''						handler.ServeHTTP(w, r)
						return
					}
				}
				break
			}
		}

		// The firewall subpath element allows blocking on specific subpaths of a proxied website
		// This is only when you want to be extremely specific when configuring the firewall.
		// Subpath blocking is disabled by default and can be enabled in the configuration.
		if val, ok := f.Rules["/"]; ok && p == "/" || ok && !f.Subpath {
			for _, v := range val {
				if v == host || v == "*" {
					if f.Blacklisting {
						f.ErrorHandler(w, r, 403)
						return
					}
					handler.ServeHTTP(w, r)
					return
				}
			}
		}

		if f.Blacklisting {
			handler.ServeHTTP(w, r)
			return
		}

		f.ErrorHandler''')],
 GH + r'''
func TestDemo(t *testing.T) {
	f := NewFirewall()
	f.Rules = map[string][]string{"/a": {"10.0.0.1"}, "/a/b": {"10.0.0.2"}}
	w := get(f.BlockProxy(func(w http.ResponseWriter, r *http.Request) {}), "/a/b", "10.0.0.1:99", nil)
	if w.Code != 403 {
		t.Fatal(w.Code)
	}
}
''')

bug("c13-forwarded-for-on-loopback", "C13", "guard",
 "a connection from a loopback address that carries X-Forwarded-For",
 "the client chooses the identity the rate limiter counts it under",
 [("guard/limiter.go", "		remoteAddr := router.StripHostPort(r.RemoteAddr)\n", "		remoteAddr := router.StripHostPort(r.RemoteAddr)\n		if fwd := r.Header.Get(\"X-Forwarded-For\"); fwd != \"\" && remoteAddr == \"127.0.0.1\" {\n			remoteAddr = fwd\n		}\n"),
  ("guard/limiter.go", "		var limit *rate.Limiter\n\n", "		// the limiter of the client\n		var limit *rate.Limiter\n"),
  ("guard/limiter.go", "// to HTTP handlers.\n", "// to HTTP handlers, also behind a local reverse proxy.\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := NewLimiter(1, 1, true).LimitHTTP(func(w http.ResponseWriter, r *http.Request) {})
	get(h, "/", "127.0.0.1:99", map[string]string{"X-Forwarded-For": "1"})
	if w := get(h, "/", "127.0.0.1:99", map[string]string{"X-Forwarded-For": "2"}); w.Code != 429 {
		t.Fatal(w.Code)
	}
}
''')

bug("c14-bucket-forgotten-early", "C14", "guard",
 "a client that pauses for a second after it used up its burst",
 "the client's bucket is only remembered for 0.9 seconds, then it gets a fresh full one",
 [("guard/limiter.go", "900000000000)", "900000000)")],
 GH.replace('"testing"', '"testing"\n\t"time"') + r'''
func TestDemo(t *testing.T) {
	h := NewLimiter(1, 1, true).LimitHTTP(func(w http.ResponseWriter, r *http.Request) {})
	get(h, "/", "10.0.0.1:1", nil)
	time.Sleep(1200 * time.Millisecond)
	if w := get(h, "/", "10.0.0.1:1", nil); w.Code != 429 {
		t.Fatal(w.Code)
	}
}
''')

bug("c14-new-bucket-per-refusal", "C14", "guard",
 "a client that keeps sending after it was refused",
 "the key is taken from the address with its port when the User-Agent is empty, so every connection has its own bucket",
 [("guard/limiter.go", "		remoteAddr := router.StripHostPort(r.RemoteAddr)\n", "		remoteAddr := r.RemoteAddr\n		if l.FilterOnIP || r.UserAgent() != \"\" {\n			remoteAddr = router.StripHostPort(remoteAddr)\n		}\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := NewLimiter(1, 1, false).LimitHTTP(func(w http.ResponseWriter, r *http.Request) {})
	get(h, "/", "10.0.0.1:1", nil)
	if w := get(h, "/", "10.0.0.1:2", nil); w.Code != 429 {
		t.Fatal(w.Code)
	}
}
''')

bug("c15-whitelist-delegates-twice", "C15", "guard",
 "a whitelisting firewall and a client listed twice for a path ('*' and its own address)",
 "the handler runs once for every matching entry and once more for the rule of '/'",
 [("guard/firewall.go", '''						handler.ServeHTTP(w, r)
						return
					}
				}
			}
		}

		// The firewall subpath element allows blocking on specific subpaths of a website
		// This is only when you want to be extremely specific when configuring the firewall.
		// Subpath blocking is disabled by default and can be enabled in the configuration.
		if val, ok := f.Rules["/"]; ok && p == "/" || ok && !f.Subpath {
			for _, v := range val {
				if v == host || v == "*" {
					if f.Blacklisting {
						f.ErrorHandler(w, r, 403)
						return
					}
					handler.ServeHTTP(w, r)
					return
				}
			}
		}

		if f.Blacklisting {
			handler.ServeHTTP(w, r)
			return
		}
		f.ErrorHandler(w, r, 403)
		return''', '''						handler.ServeHTTP(w, r)
						served = true
					}
				}
			}
			if served {
				return
			}
		}

		// The firewall subpath element allows blocking on specific subpaths of a website
		// This is only when you want to be extremely specific when configuring the firewall.
		// Subpath blocking is disabled by default and can be enabled in the configuration.
		if val, ok := f.Rules["/"]; ok && p == "/" || ok && !f.Subpath {
			for _, v := range val {
				if v == host || v == "*" {
					if f.Blacklisting {
						f.ErrorHandler(w, r, 403)
						return
					}
					handler.ServeHTTP(w, r)
					return
				}
			}
		}

		if f.Blacklisting {
			handler.ServeHTTP(w, r)
			return
		}
		f.ErrorHandler(w, r, 403)
		return'''),
  ("guard/firewall.go", "func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {\n	return func(w http.ResponseWriter, r *http.Request) {\n\n", "func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {\n	return func(w http.ResponseWriter, r *http.Request) {\n\n		served := false\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	f := NewFirewall()
	f.Blacklisting = false
	f.Rules = map[string][]string{"/a": {"*", "10.0.0.1"}}
	n := 0
	get(f.BlockHTTP(func(w http.ResponseWriter, r *http.Request) { n++ }), "/a", "10.0.0.1:99", nil)
	if n != 1 {
		t.Fatal(n)
	}
}
''')

bug("c37-credentials-without-colon", "C37", "guard",
 "an Authorization header whose decoded credentials contain no ':'",
 "the handler of a request with credentials without a colon indexes past the split credentials and panics",
 [("guard/basicauth.go", "	if len(creds) != 2 {", "	if len(creds) == 0 {")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": "p"}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	if w := get(h, "/", "10.0.0.1:1", map[string]string{"Authorization": "Basic dXNlcg=="}); w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

bug("c60-colon-in-password", "C60", "guard",
 "a configured password that contains a colon",
 "credentials whose password contains a colon are taken for malformed, so that user is never admitted",
 [("guard/basicauth.go", "bytes.SplitN(str, []byte(\":\"), 2)", "bytes.Split(str, []byte(\":\"))")],
 GH + r'''
func TestDemo(t *testing.T) {
	for _, p := range []string{"secret", "a:b", ":", "x:"} {
		h := SimpleBasicAuth(map[string]string{"u": p}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
		r := httptest.NewRequest("GET", "/", nil)
		r.SetBasicAuth("u", p)
		w := httptest.NewRecorder()
		h(w, r)
		if w.Code != 200 {
			t.Fatal(p, w.Code)
		}
	}
}
''')

bug("c60-blank-password-left-out", "C60", "guard",
 "a user that is configured with an empty password",
 "users without a password are left out of the table, although an empty password is allowed",
 [("guard/basicauth.go", "	for k, v := range users {\n		aUsers[k] = AuthUser{\n			User:     k,\n			Password: v,\n		}\n	}\n", "	for k, v := range users {\n		if v != \"\" {\n			aUsers[k] = AuthUser{User: k, Password: v}\n		}\n	}\n")],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": "", "v": "p"}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	for u, p := range map[string]string{"u": "", "v": "p"} {
		r := httptest.NewRequest("GET", "/", nil)
		r.SetBasicAuth(u, p)
		w := httptest.NewRecorder()
		h(w, r)
		if w.Code != 200 {
			t.Fatal(u, w.Code)
		}
	}
}
''')

bug("c09-remembered-by-address", "C09", "guard",
 "a client behind the same address as one that authenticated before",
 "an address from which valid credentials were once submitted is admitted without credentials",
 [("guard/basicauth.go", "	return func(w http.ResponseWriter, r *http.Request) {\n\n		// Check that the provided details match\n		if !b.authenticate(r) {\n			b.requestAuth(w, r)\n			return\n		}\n", "	var mu sync.Mutex\n	known := make(map[string]bool)\n	return func(w http.ResponseWriter, r *http.Request) {\n		addr := router.StripHostPort(r.RemoteAddr)\n		mu.Lock()\n		ok := known[addr]\n		mu.Unlock()\n\n		// Check that the provided details match\n		if !ok && !b.authenticate(r) {\n			b.requestAuth(w, r)\n			return\n		}\n		mu.Lock()\n		known[addr] = true\n		mu.Unlock()\n"),
  ("guard/basicauth.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 GH + r'''
func TestDemo(t *testing.T) {
	h := SimpleBasicAuth(map[string]string{"u": "secret"}).Authenticate(func(w http.ResponseWriter, r *http.Request) {})
	r := httptest.NewRequest("GET", "/", nil)
	r.SetBasicAuth("u", "secret")
	w := httptest.NewRecorder()
	h(w, r)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
	if w := get(h, "/", r.RemoteAddr, nil); w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

bug("c61-one-client-table", "C61", "guard",
 "two limiters in one process (two sites of one server) and a client of both",
 "all limiters keep their clients in the same table, so a client that used up its budget at one site is refused at the others too",
 [("guard/limiter.go", "// NewLimiter returns", "// clients holds the limiter of each client\nvar clients = cache.NewCache()\n\n// NewLimiter returns"),
  ("guard/limiter.go", "cache:      cache.NewCache(),", "cache:      clients,")],
 GH + r'''
func TestDemo(t *testing.T) {
	ok := func(w http.ResponseWriter, r *http.Request) {}
	a := NewLimiter(1, 1, true).LimitHTTP(ok)
	b := NewLimiter(600, 50, true).LimitHTTP(ok)
	for i := 0; i < 3; i++ {
		get(a, "/", "10.0.0.9:1000", nil)
	}
	if w := get(b, "/", "10.0.0.9:1000", nil); w.Code != 200 {
		t.Fatal(w.Code)
	}
}
''')

bug("c14-rate-of-whole-requests", "C14", "guard",
 "a configured rate per minute that is not a whole number",
 "the configured rate is cut to a whole number, so a rate of 0.5 per minute never gives a token back",
 [("guard/limiter.go", "rate.Limit(ratePerMin / 60.00)", "rate.Limit(float64(int32(ratePerMin)) / 60.00)")],
 GH + r'''
func TestDemo(t *testing.T) {
	if l := NewLimiter(1.5, 1, true); l.RatePerSec < 0.024 {
		t.Fatal(l.RatePerSec)
	}
}
''')

bug("c14-looked-up-and-stored-apart", "C14", "guard",
 "concurrent first requests of one client",
 "the bucket is stored in another critical section than it was looked up in, so concurrent first requests each create one",
 [("guard/limiter.go", "		l.cache.Set(remoteAddr, limit)\n", "		l.mu.Unlock()\n		l.mu.Lock()\n		l.cache.Set(remoteAddr, limit)\n"),
  ("guard/limiter.go", "		var limit *rate.Limiter\n\n", "		// the limiter of the client\n		var limit *rate.Limiter\n")],
 GH.replace('"testing"', '"sync"\n\t"sync/atomic"\n\t"testing"') + r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		var n int32
		h := NewLimiter(0.001, 1, true).LimitHTTP(func(w http.ResponseWriter, r *http.Request) { atomic.AddInt32(&n, 1) })
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := 0; k < 32; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				get(h, "/", "10.0.0.1:1", nil)
			}()
		}
		close(start)
		wg.Wait()
		if n != 1 {
			t.Fatal(n)
		}
	}
}
''')
