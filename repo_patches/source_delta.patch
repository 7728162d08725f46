From 41898cef0f7d29418c753c20d5567ff9d0ab1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 01/34] fix: basic auth accepted blank credentials of unknown
 users

---
 guard/basicauth.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..e0ba590 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -126,12 +126,14 @@ func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-	requiredUser := sha256.Sum256([]byte(b.Users[user].User))
-	requiredPass := sha256.Sum256([]byte(b.Users[user].Password))
+	required, known := b.Users[user]
+	requiredUser := sha256.Sum256([]byte(required.User))
+	requiredPass := sha256.Sum256([]byte(required.Password))
 
 	// Compare the supplied credentials to those set in our options
+	// A user that doesn't exist has blank credentials, which should never match
 	if subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
-		subtle.ConstantTimeCompare(givenPass[:], requiredPass[:]) == 1 {
+		subtle.ConstantTimeCompare(givenPass[:], requiredPass[:]) == 1 && known {
 		return true
 	}
 
-- 
2.43.0


From 41922c9580320d30bc5dfb84c3db2fc08d8c5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 02/34] fix: default unauthorized handler answered 401 with an
 empty 200

---
 guard/basicauth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index e0ba590..b46155b 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -54,6 +54,8 @@ func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
 		if b.UnauthorizedHandler == nil {
 			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
 				switch code {
+				case 401:
+					http.Error(w, "Unauthorized", 401)
 				case 403:
 					http.Error(w, "Forbidden", 403)
 				}
-- 
2.43.0


From 4b2dabda8ab579a90b65d1956ea23ed0dd199c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 03/34] fix: concurrent requests raced on the lazily set basic
 auth defaults

---
 guard/basicauth.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index b46155b..d9f3940 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -48,19 +48,20 @@ type AuthUser struct {
 
 // Authenticate is a middleware function that adds HTTP BasicAuth to a http handler
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
-	return func(w http.ResponseWriter, r *http.Request) {
 
-		// Check if we have a user-provided error handler, else set a default
-		if b.UnauthorizedHandler == nil {
-			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-				switch code {
-				case 401:
-					http.Error(w, "Unauthorized", 401)
-				case 403:
-					http.Error(w, "Forbidden", 403)
-				}
-			})
-		}
+	// Check if we have a user-provided error handler, else set a default
+	if b.UnauthorizedHandler == nil {
+		b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
+			switch code {
+			case 401:
+				http.Error(w, "Unauthorized", 401)
+			case 403:
+				http.Error(w, "Forbidden", 403)
+			}
+		})
+	}
+
+	return func(w http.ResponseWriter, r *http.Request) {
 
 		// Check that the provided details match
 		if !b.authenticate(r) {
@@ -115,7 +116,7 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 
 	// Default to Simple mode if no AuthFunc is defined.
 	if b.AuthFunc == nil {
-		b.AuthFunc = b.simpleBasicAuthFunc
+		return b.simpleBasicAuthFunc(givenUser, givenPass, r)
 	}
 
 	return b.AuthFunc(givenUser, givenPass, r)
-- 
2.43.0


From 639f6ed3180ddf7f2d4d239862ba2a7140385d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 04/34] fix: HTTP firewall had its verdict for unlisted clients
 inverted

---
 guard/firewall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..ac04ff9 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -82,10 +82,10 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		}
 
 		if f.Blacklisting {
-			f.ErrorHandler(w, r, 403)
+			handler.ServeHTTP(w, r)
 			return
 		}
-		handler.ServeHTTP(w, r)
+		f.ErrorHandler(w, r, 403)
 		return
 	}
 }
-- 
2.43.0


From 570d122faade116a3503d7df0821f10374cf2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 05/34] fix: firewall looped forever on a request path without
 leading slash

---
 guard/firewall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index ac04ff9..d809258 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -50,7 +50,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
@@ -97,7 +97,7 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
-- 
2.43.0


From 56014aff3576aaea909646f1316fbd02b08070a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 06/34] fix: concurrent cache sets raced on creating a shard
 and lost entries

---
 cache/cache.go | 9 ++++++++-
 cache/set.go   | 5 -----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..6020cb4 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -37,5 +37,12 @@ type SpearCache struct {
 
 // NewCache returns an empty SpearCache
 func NewCache() *SpearCache {
-	return &SpearCache{}
+	c := &SpearCache{}
+
+	// The shards are created up front. Creating them on first use can't be done
+	// safely when the cache is used concurrently.
+	for i := range c.shards {
+		c.shards[i] = newShard()
+	}
+	return c
 }
diff --git a/cache/set.go b/cache/set.go
index ef527de..2cc2856 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -28,11 +28,6 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// We make sure the shard exists, if it doesn't we create one
-	if c.shards[id] == nil {
-		c.shards[id] = newShard()
-	}
-
 	// Lock the shard for concurrency safety. We don't use defer to unlock the shard (on purpose)
 	c.shards[id].lock.Lock()
 
-- 
2.43.0


From 67c2f56a0a4cd749f363272224b64866c1c16091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 07/34] fix: cache lookups returned stale or expired items,
 missed fresh ones and read slots without the lock

---
 cache/find.go | 23 ++++++++++++-----------
 cache/get.go  | 31 +++++++++++++++----------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index febe2e6..ae5b7e5 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -30,9 +30,6 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil, 0
@@ -41,10 +38,13 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
+	rangeEnd := c.shards[id].cursor - defaultItems
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
 		itemID := i
 
@@ -62,16 +62,17 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			// appendKey, after this the slot of the item can be overwritten
+			value := c.shards[id].items[itemID].value
+			age := now - c.shards[id].items[itemID].modTime
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			return true, value, age
 		}
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 091760e..ba1036a 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -29,9 +29,6 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil
@@ -40,12 +37,13 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
-	var itemsParsed int
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
-		itemsParsed++
+	rangeEnd := c.shards[id].cursor - defaultItems
+
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 		itemID := i
 
 		if itemID < 0 {
@@ -62,20 +60,21 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
-		}
-
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search. This is the newest item of the key,
+		// so if it is not within the maxAge range the key is expired and we break.
 		if key == keyHash {
 
+			if now-c.shards[id].items[itemID].modTime > maxAge {
+				break
+			}
+
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			value := c.shards[id].items[itemID].value
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From dd85f2a572753e71bbeb5d7fc428e2618dc7c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 08/34] fix: concurrent first requests of a client each got
 their own rate limiter

---
 guard/limiter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..f44e68f 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -24,6 +25,7 @@ import (
 
 // Limiter is a type containing a MaguroHTTP Guard limiter
 type Limiter struct {
+	mu           sync.Mutex
 	cache        *cache.SpearCache
 	RatePerSec   rate.Limit
 	RateBurst    int
@@ -58,6 +60,10 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		if !l.FilterOnIP {
 			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
 		}
+
+		// Getting and creating the limiter of a client has to be a single step, otherwise
+		// concurrent first requests of a client all get a limiter of their own.
+		l.mu.Lock()
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
 		switch {
@@ -70,6 +76,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		}
 
 		l.cache.Set(remoteAddr, limit)
+		l.mu.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From b3283033df7188cd40a9b35d99811d552f64434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 09/34] fix: a failed write of the metrics page left the
 metrics locked forever

---
 tuna/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..5000c8c 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -63,6 +63,7 @@ func (md *metricsData) concat(e int, p string) {
 // Function to display metrics data
 func (md *metricsData) display(o io.Writer) error {
 	md.mu.Lock()
+	defer md.mu.Unlock()
 
 	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
 		return err
@@ -80,7 +81,6 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 	}
-	md.mu.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 5780439eea0993c5b62a1b7b9a0b6fe7e6d15e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 10/34] fix: request paths were put into the metrics page
 without escaping

---
 tuna/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 5000c8c..f23219a 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -17,6 +17,7 @@ package tuna
 import (
 	"encoding/json"
 	"fmt"
+	"html/template"
 	"io"
 	"net/http"
 	"os"
@@ -73,7 +74,7 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
+			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, template.HTMLEscapeString(p))); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From ce7ac5a18fc77c9bb65b4d31d41be998aab185ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 11/34] fix: file names were put into the download index
 without escaping

---
 tuna/handledownload.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..ab8b963 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -88,7 +88,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, template.HTMLEscapeString(v.Name), `">`, template.HTMLEscapeString(v.Name), `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
-- 
2.43.0


From 30647f7298d246a21c5b37205ba5bc2a9c3cca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 12/34] fix: an unreadable ServeDir crashed the download
 handler

---
 tuna/handledownload.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index ab8b963..ea435b6 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -48,7 +48,13 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		// Collect downloadable files
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
-				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
+				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
+
+					// Without file info the path can't be read
+					if f == nil {
+						return err
+					}
+
 					if f.IsDir() {
 						return nil
 					}
-- 
2.43.0


From a07e1b92da77325ceb99e9edec353731b92b1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 13/34] fix: a failing download template produced half a page
 with status 200

---
 tuna/handledownload.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index ea435b6..a99f98d 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -104,10 +104,13 @@ func (s *Server) handleDownload() http.HandlerFunc {
 				DownloadTable: template.HTML(buf.String()),
 			}
 
-			if err := s.templates.download.Execute(w, data); err != nil {
+			// The page is rendered completely before anything is sent, so that an error can still be reported
+			page := bytes.NewBufferString("")
+			if err := s.templates.download.Execute(page, data); err != nil {
 				s.HandleError(w, r, 500)
 				return
 			}
+			s.WriteString(w, page.String())
 			s.LogNetwork(200, r)
 
 			// If the request path is not the index, and the file does exist in ServeDir
-- 
2.43.0


From 9a9d014113306d39e8ec7c6a64e7ec83aeb33344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 14/34] fix: starting the metrics raced with the requests being
 counted

---
 tuna/metrics.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index f23219a..8f91f71 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -43,8 +43,9 @@ type metricsData struct {
 // * The total amount of requests
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
+	md.mu.Lock()
+	defer md.mu.Unlock()
 	if md.enabled {
-		md.mu.Lock()
 		if _, ok := md.Paths[e]; ok {
 			if _, ok := md.Paths[e][p]; ok {
 				md.Paths[e][p]++
@@ -57,7 +58,6 @@ func (md *metricsData) concat(e int, p string) {
 			md.Paths[e][p] = 1
 		}
 		md.TotalRequests++
-		md.mu.Unlock()
 	}
 }
 
@@ -104,18 +104,15 @@ func (s *Server) metricsDaemon() {
 
 	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
-		s.metrics = metricsData{
-			enabled: false,
-		}
 		return
 	}
 
 	// We check if the file exists. If it doesn't we create an empty metricsData
 	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); err != nil {
-		s.metrics = metricsData{
-			enabled: s.Cfg.Core.Metrics.Enabled,
-			Paths:   make(map[int]map[string]int),
-		}
+		s.metrics.mu.Lock()
+		s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
+		s.metrics.Paths = make(map[int]map[string]int)
+		s.metrics.mu.Unlock()
 		return
 	}
 
@@ -136,9 +133,11 @@ func (s *Server) metricsDaemon() {
 		os.Exit(1)
 	}
 
+	s.metrics.mu.Lock()
 	s.metrics.TotalRequests = md.TotalRequests
 	s.metrics.Paths = md.Paths
 	s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
+	s.metrics.mu.Unlock()
 
 	err = file.Close()
 	s.Log(debug.LogError, err)
-- 
2.43.0


From e7cf9382f677873f30f4fe4da4e419209a342f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 15/34] fix: counting a request crashed when the saved metrics
 contained no paths

---
 tuna/metrics.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 8f91f71..7d10b8b 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -46,7 +46,7 @@ func (md *metricsData) concat(e int, p string) {
 	md.mu.Lock()
 	defer md.mu.Unlock()
 	if md.enabled {
-		if _, ok := md.Paths[e]; ok {
+		if m := md.Paths[e]; m != nil {
 			if _, ok := md.Paths[e][p]; ok {
 				md.Paths[e][p]++
 			} else {
@@ -133,6 +133,11 @@ func (s *Server) metricsDaemon() {
 		os.Exit(1)
 	}
 
+	// Saved metrics don't necessarily contain any paths
+	if md.Paths == nil {
+		md.Paths = make(map[int]map[string]int)
+	}
+
 	s.metrics.mu.Lock()
 	s.metrics.TotalRequests = md.TotalRequests
 	s.metrics.Paths = md.Paths
-- 
2.43.0


From c005e0fd4de8480930887a096a66c219b69294eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 16/34] fix: metrics were never saved periodically when no
 metrics file existed yet

---
 tuna/metrics.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7d10b8b..46c975d 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -113,10 +113,20 @@ func (s *Server) metricsDaemon() {
 		s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
 		s.metrics.Paths = make(map[int]map[string]int)
 		s.metrics.mu.Unlock()
-		return
+	} else {
+		s.loadMetrics()
+	}
+
+	// Occasionally flush metrics to disk
+	for {
+		time.Sleep(20 * time.Minute)
+		s.flushMetrics()
 	}
+}
+
+// This function loads metricsData from a file
+func (s *Server) loadMetrics() {
 
-	// Load metrics from the file
 	file, err := os.Open(s.Cfg.Core.Metrics.Out)
 	if err != nil {
 		s.Log(debug.LogError, err)
@@ -146,12 +156,6 @@ func (s *Server) metricsDaemon() {
 
 	err = file.Close()
 	s.Log(debug.LogError, err)
-
-	// Occasionally flush metrics to disk
-	for {
-		time.Sleep(20 * time.Minute)
-		s.flushMetrics()
-	}
 }
 
 // This function flushes metricsData to a file
-- 
2.43.0


From 5edd0ca6cf870cda5682e4e1ac7ca7a30dd44bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 17/34] fix: an interrupted save destroyed the saved metrics,
 and every save leaked a descriptor

---
 tuna/metrics.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 46c975d..917946a 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -160,21 +160,37 @@ func (s *Server) loadMetrics() {
 
 // This function flushes metricsData to a file
 func (s *Server) flushMetrics() {
-	var mdout *os.File
-	var err error
 
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
-
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
+	// Only one flush at a time can use the temporary file
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	s.metrics.mu.Lock()
-	bs, err := json.MarshalIndent(s.metrics, "", "  ")
-	s.Log(debug.LogError, err)
+	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.metrics.mu.Unlock()
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
+	// The metrics are written to a temporary file, which replaces the previous file when it is complete.
+	// This way the saved metrics are never lost when writing is interrupted.
+	tmp := s.Cfg.Core.Metrics.Out + ".tmp"
+	mdout, err := os.Create(tmp)
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
+
+	_, err = mdout.Write(bs)
+	if err == nil {
+		err = mdout.Sync()
+	}
+	if cerr := mdout.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, s.Cfg.Core.Metrics.Out)
+	}
 	s.Log(debug.LogError, err)
 }
-- 
2.43.0


From d7712eca4a5de326b57c7a613e4752dc5b52515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 18/34] fix: stopping a server without active metrics wiped the
 saved metrics

---
 tuna/metrics.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 917946a..c5df8fc 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -166,6 +166,13 @@ func (s *Server) flushMetrics() {
 	defer s.mu.Unlock()
 
 	s.metrics.mu.Lock()
+
+	// Metrics that aren't collected shouldn't replace the saved metrics
+	if !s.metrics.enabled {
+		s.metrics.mu.Unlock()
+		return
+	}
+
 	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.metrics.mu.Unlock()
 	if err != nil {
-- 
2.43.0


From 8934458b6bb4c80e6b194419d7c5a4dee697c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 19/34] fix: Content-Type of error pages was set after the
 status was written

---
 tuna/handleerror.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..32f47dd 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -55,8 +55,8 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From 31e84d48d75ef2bd6278411af5a1dd6a4bb57b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 20/34] fix: custom error pages were sent with status 200

---
 tuna/handleerror.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 32f47dd..bec5f7b 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,8 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
 	"net/http"
-	"os"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,8 +45,11 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// Custom error pages can be set in the configuration.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		if page, err := ioutil.ReadFile(val); err == nil {
+			w.Header().Set("Content-Type", getMIMEType(val, cfg.Serve.MIMETypes))
+			w.WriteHeader(errorCode)
+			_, err = w.Write(page)
+			s.Log(debug.LogError, err)
 			return
 		}
 	}
-- 
2.43.0


From 24b12b8ca26ea126d653dced93f044058730cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 21/34] fix: a request target in absolute form could redirect
 the proxy to another host

---
 tuna/handleproxy.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..0abc3c8 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -53,9 +54,19 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				return
 			}
 
+			// A request target that doesn't start with a slash (absolute form) would extend
+			// the host of the proxy rule, so only its path and query are used.
+			target := r.RequestURI
+			if !strings.HasPrefix(target, "/") {
+				target = r.URL.EscapedPath()
+				if r.URL.RawQuery != "" {
+					target = target + "?" + r.URL.RawQuery
+				}
+			}
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
+			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
 			if err != nil {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From 60199689a75619058de8aa0bff498bc413349007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 22/34] fix: proxied hosts without a rule were answered with an
 empty 200

---
 tuna/handleproxy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 0abc3c8..49ad7ff 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -105,6 +105,10 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
 			}
+		} else {
+
+			// There is no backend for this host, so we return a 404 not found error
+			s.HandleError(w, r, 404)
 		}
 	}
 }
-- 
2.43.0


From e278b543ad672c9e1daa611ace8ac41c2c2fe2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 23/34] fix: an encoded newline in a request path forged log
 lines

---
 tuna/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/log.go b/tuna/log.go
index df49263..825a124 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -31,5 +31,5 @@ func (s *Server) Log(logLevel int, err error) {
 func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	host := router.StripHostPort(r.Host)
 	s.metrics.concat(statusCode, host+r.URL.Path)
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.Path, r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.EscapedPath(), r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From 4d7c8093acd129286ed51b82492757703f952375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 24/34] fix: the server fell back to plain HTTP when the TLS
 certificate was missing

---
 tuna/serve.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..aaeaa03 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -98,6 +98,10 @@ func (s *Server) Serve() {
 			panic(err)
 		}
 
+	// If TLS is enabled without a usable certificate we should never fall back to HTTP
+	case s.Cfg.Core.TLS.Enabled:
+		panic("TLS is enabled but the TLS certificate or key can't be found")
+
 	// if TLS is not enabled HTTP will be served
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
-- 
2.43.0


From d139e33619abb4816cdc9727895e1b8f14ec92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 25/34] fix: the server crashed instead of finishing active
 requests when it was stopped

---
 tuna/serve.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index aaeaa03..f2a6f64 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -94,9 +94,7 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
-		if err != nil {
-			panic(err)
-		}
+		s.stopped(err)
 
 	// If TLS is enabled without a usable certificate we should never fall back to HTTP
 	case s.Cfg.Core.TLS.Enabled:
@@ -106,8 +104,20 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
-		if err != nil {
-			panic(err)
-		}
+		s.stopped(err)
+	}
+}
+
+// stopped handles the error of a listener that stopped
+func (s *Server) stopped(err error) {
+
+	// The server is being stopped gracefully. The process exits as soon as all
+	// active requests are finished, so we have to wait for that.
+	if err == http.ErrServerClosed {
+		select {}
+	}
+
+	if err != nil {
+		panic(err)
 	}
 }
-- 
2.43.0


From 8dd88d2bc1e9221304717a8f5398a781c1065e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 26/34] fix: a stop signal could be missed because nobody was
 receiving yet

---
 tuna/serve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index f2a6f64..451ac86 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -47,7 +47,7 @@ func (s *Server) Serve() {
 
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
+		sig := make(chan os.Signal, 1)
 		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
-- 
2.43.0


From 9b438a5c5e78ac894cefe559000be9edfd5949e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 27/34] fix: a configuration without ServeDir served the root
 of the file system

---
 tuna/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..44f0893 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -279,6 +279,11 @@ func (c *Config) Validate(p string, isVhost bool) {
 		}
 	}
 
+	// Without a ServeDir files would be served from the root of the file system
+	if !c.Proxy.Enabled && len(c.Serve.Methods) > 0 && c.Serve.ServeDir == "" {
+		log.Fatalf("%s: The server configuration has missing elements: check ServeDir", p)
+	}
+
 	// Test proxy
 	if c.Proxy.Enabled {
 		if len(c.Proxy.Rules) == 0 {
-- 
2.43.0


From 9c4031d779fd6b38532047ebde8ae0d0a63d71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 28/34] fix: the created log file was opened twice and never
 closed

---
 debug/init.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/debug/init.go b/debug/init.go
index 6f0f8a7..37a697e 100644
--- a/debug/init.go
+++ b/debug/init.go
@@ -28,10 +28,13 @@ func (l *Logger) initLogger() error {
 	case "stderr":
 		l.Instance = log.New(os.Stderr, l.Name, log.Ldate|log.Ltime)
 	default:
-		_, err := os.Create(l.Output)
+		newFile, err := os.Create(l.Output)
 		if err != nil {
 			return fmt.Errorf("An error occurred creating %s: %v", l.Output, err)
 		}
+		if err := newFile.Close(); err != nil {
+			return fmt.Errorf("An error occurred creating %s: %v", l.Output, err)
+		}
 
 		logFile, err := os.OpenFile(l.Output, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
 		if err != nil {
-- 
2.43.0


From 3fcd29b15fd6214307c8742d1249752430517b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 29/34] fix: starting without a configuration crashed after
 printing the usage

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 9ac45a1..27318cd 100644
--- a/main.go
+++ b/main.go
@@ -26,6 +26,7 @@ func main() {
 
 	if len(args) <= 1 {
 		showHelp(args)
+		return
 	}
 
 	m := tuna.NewInstanceFromConfig(args[1])
-- 
2.43.0


From a21c31487b9a8f75f632120defbc56cd1bfac0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 30/34] fix: a slow reader of the metrics page blocked all
 other requests

---
 tuna/metrics.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index c5df8fc..caddb77 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"html/template"
@@ -91,9 +92,13 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 		s.setHeaders(w, nil, false)
 		w.Header().Set("Content-Security-Policy", "")
 		s.WriteString(w, html.PageTemplateStart)
-		if err := s.metrics.display(w); err != nil {
+
+		// The metrics are locked while they are displayed, so we don't wait for the client here
+		page := bytes.NewBufferString("")
+		if err := s.metrics.display(page); err != nil {
 			s.Log(debug.LogError, err)
 		}
+		s.WriteString(w, page.String())
 		s.WriteString(w, html.PageTemplateEnd)
 		s.LogNetwork(200, r)
 	}
-- 
2.43.0


From fc8bac1c6d6cbd8d3805844789befcefef372e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 31/34] fix: clients with different addresses could share one
 rate limiter

---
 guard/limiter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index f44e68f..e41904c 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -58,7 +58,9 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 
 		remoteAddr := router.StripHostPort(r.RemoteAddr)
 		if !l.FilterOnIP {
-			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
+			// The separator keeps clients apart: without it 1.2.3.4 with user agent "5"
+			// would share the limiter of 1.2.3.45
+			remoteAddr = remoteAddr + " " + r.Header.Get("User-Agent")
 		}
 
 		// Getting and creating the limiter of a client has to be a single step, otherwise
-- 
2.43.0


From 9924451c9b3b1ee7350db7c5b939347c0286f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 32/34] fix: a logger with a negative level was handed out

---
 debug/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debug/logger.go b/debug/logger.go
index a6bf1f9..69112b0 100644
--- a/debug/logger.go
+++ b/debug/logger.go
@@ -38,7 +38,7 @@ type Logger struct {
 
 // NewLogger returns a Logger type
 func NewLogger(debugLevel int, name string, output string) (*Logger, error) {
-	if debugLevel > LogDebug {
+	if debugLevel < LogNone || debugLevel > LogDebug {
 		return nil, errors.New("Debug level not supported")
 	}
 
-- 
2.43.0


From d7dac7c2e6b6b264be8f8c12b4bf5f8ba3897cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 33/34] fix: downloads were sent with an unknown
 Content-Disposition type

---
 tuna/handledownload.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a99f98d..4957e68 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -118,7 +118,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// If the file doesn't exist, a 404 error is returned.
 		} else if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			w.Header().Set("Content-Disposition", "attachement")
+			w.Header().Set("Content-Disposition", "attachment")
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
 			s.LogNetwork(200, r)
-- 
2.43.0


From 9915ed34418170fd67138578c7f8256fa6611221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 34/34] fix: the download index linked files in subdirectories
 or with special names wrongly

---
 tuna/config.go         |  1 +
 tuna/handledownload.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tuna/config.go b/tuna/config.go
index 44f0893..c3703a5 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -94,6 +94,7 @@ type download struct {
 // FileInfo to gather information about files
 type fileInfo struct {
 	Name    string
+	Link    string
 	Size    int64
 	ModTime time.Time
 }
diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 4957e68..200b99e 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"html/template"
 	"net/http"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -63,8 +64,16 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					// Files can be in a subdirectory and have names that need escaping in a URL
+					rel, err := filepath.Rel(cfg.Serve.ServeDir, path)
+					if err != nil {
+						return err
+					}
+					link := url.URL{Path: "/" + filepath.ToSlash(rel)}
+
 					dlurls = append(dlurls, fileInfo{
 						Name:    f.Name(),
+						Link:    link.EscapedPath(),
 						Size:    f.Size(),
 						ModTime: f.ModTime(),
 					})
@@ -94,7 +103,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, template.HTMLEscapeString(v.Name), `">`, template.HTMLEscapeString(v.Name), `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="`, template.HTMLEscapeString(v.Link), `">`, template.HTMLEscapeString(v.Name), `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
-- 
2.43.0

