bug("c33-clock-before-lock", "C33", "cache",
 "a Get that reads the clock, waits for the shard and gets it after another goroutine has stored the key",
 "the age of the fresh entry underflows, so a lookup that races with a Set of the same key misses it",
 [("cache/get.go", "	// Lock the shard for concurrency safetey\n	c.shards[id].lock.Lock()\n\n	// Get current time in nano seconds\n	now := uint64(time.Now().UnixNano())\n",
   "	// Get current time in nano seconds\n	now := uint64(time.Now().UnixNano())\n\n	// Lock the shard for concurrency safety\n	c.shards[id].lock.Lock()\n")],
 r'''
package cache

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := NewCache()
	c.Set("k", 0)
	stop := time.Now().Add(5 * time.Second)
	for g := 0; g < 6; g++ {
		go func() {
			for i := 1; time.Now().Before(stop); i++ {
				c.Set("k", i)
			}
		}()
	}
	for time.Now().Before(stop) {
		if ok, _ := c.Get("k", uint64(time.Hour)); !ok {
			t.Fatal("the key was stored less than an hour ago")
		}
	}
}
''')
bug("c25-backend-date-dropped", "C25", "tuna",
 "a backend whose clock differs from the proxy's, or a cached response with an old Date",
 "the Date header of the backend is removed from the relayed response and replaced by the proxy's own",
 [("tuna/handleproxy.go", "				copyHeader(w.Header(), resp.Header)\n", "				resp.Header.Del(\"Date\")\n				copyHeader(w.Header(), resp.Header)\n"),
  ("tuna/handleproxy.go", "				// Proxy back all response headers\n", "				// Proxy back the response headers\n")],
 TH + r'''
func TestDemo(t *testing.T) {
	s, _ := server(t)
	s.Cfg.Proxy.Rules = map[string]string{"b.com": "http://10.0.0.1"}
	s.Transport = trip(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{"Date": {"Mon, 02 Jan 2006 15:04:05 GMT"}}, Body: ioutil.NopCloser(strings.NewReader(""))}, nil
	})
	w := httptest.NewRecorder()
	s.handleProxy()(w, httptest.NewRequest("GET", "http://b.com/", nil))
	if w.Header().Get("Date") != "Mon, 02 Jan 2006 15:04:05 GMT" {
		t.Fatal(w.Header())
	}
}
''')
