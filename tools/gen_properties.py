#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

ROUTER = "TestRouter runs eight fixed requests against seven fixed routes and asserts nothing about the outcome"
NOTESTS_T = "package tuna has no tests at all"
NOTESTS_G = "package guard has no tests at all"

p("C01", "Route choice: exact beats parent, own host beats default host",
  "For every route table and request the router serves the route registered for the request's own host at exactly the request path if there is one; otherwise the default host's route at exactly that path; otherwise the own host's nearest registered parent path (walking up one segment at a time, '/' last); otherwise the default host's nearest registered parent path. If none of these exists the request is unmatched.",
  ["inputs", "configurations"], "all route tables x all request hosts and paths",
  ROUTER + "; precedence is a function of four independent lookups (2 hosts x exact/parent) over unbounded path depths, of which they touch a handful",
  ["router/route.go", "router/router.go"],
  [("getRoute case analysis", "router/route.go:getRoute"), ("matchRoute walk", "router/route.go:matchRoute")],
  [("route table", "registered host+path entries", "router/router.go:SRouter")], ["which registered handler runs"])

p("C02", "Unroutable requests get 404/405/406 and never reach a handler",
  "A registered handler runs only if a route was selected, that route is registered for the request's method, its declared content types accept the request's Content-Type, and the path matched exactly or the route allows fallback to subpaths. In every other case no handler and no middleware runs and the router's error handler is called exactly once, with 405 when the selected route lacks the method, else 406 when the content type is refused, else 404 (no route, or parent match without fallback).",
  ["inputs", "configurations"], "all route tables x all requests",
  ROUTER, ["router/route.go", "router/router.go"],
  [("status decision", "router/route.go:getRoute"), ("dispatch", "router/router.go:ServeHTTP")], (), ["error handler's status argument", "handler invocation"])

p("C03", "Every middleware of a route wraps its handler, in registration order",
  "When a request is dispatched, every middleware registered for the selected host and path wraps the handler, the first registered outermost and the last registered innermost; none is skipped, repeated or applied to a different handler. The composed chain is invoked exactly once with the request's own response writer and request.",
  ["inputs", "configurations"], "all numbers and orders of registered middleware",
  "TestMiddleware registers two middlewares and asserts nothing; the claim is for every chain length",
  ["router/router.go", "router/middleware.go"],
  [("middleware composition loop", "router/router.go:ServeHTTP"), ("append on registration", "router/middleware.go:UseMiddleware")], (), ["order of middleware effects"])

p("C04", "Routing, guards and handlers only ever see the canonical path",
  "Whatever path a request carries, the path used for route matching is its canonical form: absolute, without '.', '..' or empty segments (a trailing slash remains exactly if the requested path had one; the root is just '/'). That same canonical path has replaced the request's path before any middleware, handler or error handler runs.",
  ["inputs"], "all request paths",
  "TestCleanPath checks four literals without any dot segment; nothing checks that handlers see the cleaned path",
  ["router/router.go", "router/utils.go"],
  [("cleanPath", "router/utils.go"), ("assignment to the request before dispatch", "router/router.go:ServeHTTP")], (), ["path seen by handlers and middleware"])

p("C05", "Declared content types are enforced exactly",
  "A route declaring '*' accepts every request content type. Any other route accepts a request only if the request's Content-Type, cut at its first ';', is byte-for-byte equal to the declared string or to one of the declared ';'-separated alternatives, and it accepts every such request.",
  ["inputs", "configurations"], "all declared content strings x all Content-Type headers",
  ROUTER, ["router/route.go"], [("contentAllowed", "router/route.go")], (), ["406 versus dispatch"])

p("C06", "Illegal registrations never enter the route table; legal ones never lose others",
  "Registering a route or middleware with a blank host or path, a blank or unknown method, a WebDAV method while WebDAV is off, or a nil handler aborts before the table is changed. A legal registration keeps every method and middleware already registered for other methods of the same host and path, and routes and middleware registered for a path with and without a trailing slash share one entry. A legal registration (for any of the known HTTP methods, and of the WebDAV methods while WebDAV is on) succeeds in whatever order routes and middleware are registered, on an empty router as well.",
  ["inputs", "histories"], "all sequences of registrations",
  "the tests only register legal routes and never look at the table", ["router/router.go", "router/middleware.go"],
  [("AddRoute validation", "router/router.go:AddRoute"), ("UseMiddleware validation", "router/middleware.go:UseMiddleware")], (), ["route table"])

p("C07", "State shared by concurrent requests is only touched under its lock",
  "Every piece of mutable state that concurrently running requests (or a background goroutine and a request) can both reach and that any of them writes - the route table, the cache shards, the limiter's client table, the metrics counters, guard configuration - is read and written only while holding one common lock for that state. There is no schedule in which two requests race on it.",
  ["schedules"], "all interleavings of concurrent requests, registrations and background work",
  "no test starts a second goroutine; a race needs a particular interleaving",
  ["router/router.go", "router/route.go", "router/middleware.go", "cache/set.go", "cache/get.go", "cache/find.go", "guard/limiter.go", "guard/basicauth.go", "tuna/metrics.go"],
  [("SRouter.mu", "router/router.go"), ("shard lock", "cache/shard.go"), ("metrics lock", "tuna/metrics.go")],
  [("route table", "guarded by the router's RWMutex", "router/router.go"), ("shard items and cursor", "guarded by the shard mutex", "cache/shard.go"), ("metrics counters", "guarded by the metrics mutex", "tuna/metrics.go")], ["race detector reports", "lost updates"])

p("C08", "No code path leaves a lock held or takes it twice",
  "Every lock taken in the course of a call has been released when that call returns, on every path including error returns. No path acquires a lock it already holds or releases one it does not hold, no two locks are taken in opposite orders, and no lock is held while waiting for a client or a backend.",
  ["schedules", "inputs", "fault_sequences"], "all paths, including those taken when a write to the client fails",
  "no test makes a write fail or takes an error path while a lock is held; the symptom (the next request hangs) needs that history",
  ["cache/set.go", "cache/get.go", "cache/find.go", "router/router.go", "router/route.go", "router/middleware.go", "tuna/metrics.go", "guard/limiter.go"],
  [("explicit unlock before each return in the cache", "cache/get.go"), ("deferred unlock in the router", "router/route.go"), ("metrics display/concat/flush", "tuna/metrics.go")], (), ["progress of later requests"])

p("C09", "Protected handlers run only for valid credentials",
  "With basic authentication in front of a handler, the handler runs only if the request carries a Basic Authorization header whose decoded user and password are accepted: by the custom check when one is set, otherwise only if that user is one of the configured users and both user name and password equal the configured ones. Missing, malformed or empty credentials, unknown users and an empty user table never authenticate.",
  ["inputs", "configurations"], "all Authorization headers x all user tables",
  NOTESTS_G, ["guard/basicauth.go"],
  [("authenticate", "guard/basicauth.go"), ("simpleBasicAuthFunc", "guard/basicauth.go"), ("Authenticate wrapper", "guard/basicauth.go")], (), ["whether the protected handler runs"])

p("C10", "Failed authentication is answered with 401 and a challenge",
  "A request that fails basic authentication gets a WWW-Authenticate: Basic challenge naming the realm, set before the unauthorized handler is called with status 401. If no unauthorized handler was configured, a default one is used that really answers with status 401.",
  ["inputs", "configurations"], "all unauthenticated requests, with and without a configured handler",
  NOTESTS_G, ["guard/basicauth.go"], [("requestAuth", "guard/basicauth.go"), ("default UnauthorizedHandler", "guard/basicauth.go:Authenticate")], (), ["status and headers of the refused response"])

p("C11", "Credentials are compared in constant time and never leave the process",
  "Configured and submitted basic-auth secrets (passwords, the Authorization header and what is decoded from it) are only compared through a constant-time comparison of fixed-length digests. They never flow into a log line, an HTML page, a response header or the metrics; the only place they are forwarded to is the configured proxy backend, as part of the client's own headers.",
  ["inputs"], "all requests and user tables",
  NOTESTS_G + "; leaks and timing are invisible to functional tests", ["guard/basicauth.go", "tuna/log.go", "tuna/metrics.go", "tuna/handleproxy.go"],
  [("sha256 + subtle.ConstantTimeCompare", "guard/basicauth.go:simpleBasicAuthFunc")], (), ["logs, pages, timing"])

p("C12", "Firewall verdict: listed clients blocked (blacklist) or let through (whitelist)",
  "For both the HTTP and the proxy firewall, a client is listed for a request when its address or '*' occurs in the rule of the request path or of any of its parent paths, where the rule for '/' applies to every path unless subpath mode is on, in which case only to '/' itself. In blacklist mode exactly the listed clients get 403 and all others are passed on; in whitelist mode exactly the listed clients are passed on and all others get 403.",
  ["inputs", "configurations"], "all rule tables, modes, client addresses and paths",
  NOTESTS_G, ["guard/firewall.go"], [("BlockHTTP", "guard/firewall.go"), ("BlockProxy", "guard/firewall.go")], (), ["403 versus delegation"])

p("C13", "Client identity for guards comes from the connection, not from the request",
  "The firewall and the rate limiter identify a client by the peer address of the connection with its port removed. Nothing the client can put in the request (headers, host, path, query, body) changes that identity, except that a limiter not restricted to addresses also distinguishes clients by User-Agent.",
  ["inputs"], "all requests", NOTESTS_G, ["guard/firewall.go", "guard/limiter.go", "router/utils.go"],
  [("StripHostPort(RemoteAddr)", "guard/firewall.go"), ("limiter key", "guard/limiter.go")], (), ["which rule or bucket applies"])

p("C14", "Rate limiting: a request passes only with a token from its client's one bucket",
  "A request guarded by the limiter reaches the handler only after a token was taken from its own client's bucket, and otherwise is answered with 429. Each client key has at most one live bucket, created with the configured rate (per minute, spread over seconds) and burst, stored before use and found again by later requests of that client; concurrent first requests of a client do not create two.",
  ["inputs", "schedules"], "all clients and interleavings of their requests (token arithmetic itself is x/time/rate's)",
  NOTESTS_G, ["guard/limiter.go", "cache/get.go", "cache/set.go"], [("LimitHTTP", "guard/limiter.go"), ("NewLimiter", "guard/limiter.go")],
  [("client table", "client key to its token bucket", "guard/limiter.go")], ["429 versus delegation"])

p("C15", "A guard or dispatcher either delegates once or refuses once",
  "For every request, each middleware of this repository and the router itself does exactly one of two things: call the next handler exactly once, or call its error handler exactly once. Never both, never neither, never the next handler twice.",
  ["inputs"], "all requests through all guards",
  NOTESTS_G + "; " + ROUTER, ["guard/basicauth.go", "guard/firewall.go", "guard/limiter.go", "router/router.go"],
  [("early returns after the error handler", "guard/firewall.go")], (), ["number of handler and error-handler calls"])

p("C16", "Every configured route is behind its site's limiter and firewall",
  "Every site route created from the configuration (proxy, download or file serving, main or virtual host) has, on the same host and path, each registered once, the rate limiter built from that same site's guard settings (one limiter shared by all routes of the site) and, when that site's firewall is enabled, a firewall built from that same site's mode, subpath flag and rules - the firewall outside the limiter, and the proxy variant on proxied routes. The metrics page is only registered behind basic authentication with the configured metrics users.",
  ["configurations"], "all configurations",
  NOTESTS_T, ["tuna/routes.go"], [("AddRoute/UseMiddleware pairing", "tuna/routes.go:addRoutesFromConfig")], (), ["guards wrapped around each route"])

p("C17", "A request is answered from its own virtual host's configuration",
  "When virtual hosting is on and the request's host (port removed) is a configured virtual host, files, index name, headers, MIME types, download settings, proxy rules and error pages all come from that virtual host's configuration. In every other case they come from the main configuration; settings of one virtual host never apply to another.",
  ["inputs", "configurations"], "all hosts and virtual host tables", NOTESTS_T,
  ["tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleproxy.go", "tuna/handleerror.go"],
  [("vhost switch in each handler", "tuna/handleserve.go")], (), ["content and headers per host"])

p("C18", "Security headers on every response, HSTS whenever TLS is on",
  "Every response the server itself produces (file, download, download index, metrics page, error page) carries X-Frame-Options, X-Content-Type-Options, X-XSS-Protection, Referrer-Policy, Content-Security-Policy, Feature-Policy and Server, set before the response is committed; only the site's configured headers (and, for the policy of the metrics page, the page itself) may override them, and they do take precedence over these defaults. When TLS is enabled, every response including proxied ones carries Strict-Transport-Security with the configured max-age and flags unless the site's configured headers replace it.",
  ["inputs", "configurations"], "all responses of all handlers", NOTESTS_T,
  ["tuna/utils.go", "tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleproxy.go", "tuna/handleerror.go", "tuna/metrics.go"],
  [("setHeaders before the first write", "tuna/utils.go:setHeaders")], (), ["response headers"])

p("C19", "Headers are complete before the status is committed, and it is committed once",
  "No handler adds or changes a response header after it has written the status or any part of the body, since such a header would silently be lost. On no path does a handler commit the status explicitly after a response has already been started.",
  ["inputs", "fault_sequences"], "all handler paths, including failures halfway", NOTESTS_T,
  ["tuna/handleerror.go", "tuna/handleproxy.go", "tuna/handleserve.go", "tuna/handledownload.go", "tuna/metrics.go"],
  [("order of Header().Set and WriteHeader", "tuna/handleerror.go")], (), ["response headers", "superfluous WriteHeader"])

p("C20", "An error response carries the status of the error",
  "Whenever the server answers a request with an error (404, 405, 406, 401, 403, 429, 500, 502), the HTTP status of the response is exactly that code, both for the built-in page and for a custom error page from the configuration. A request is never answered with an implicit 200 on a path that produced no content.",
  ["inputs", "configurations"], "all error codes, with and without custom pages", NOTESTS_T,
  ["tuna/handleerror.go", "tuna/handleproxy.go"], [("HandleError", "tuna/handleerror.go")], (), ["status code"])

p("C21", "Only files of the site directory or configured error pages are ever opened",
  "While handling a request, every file the server stats, opens, walks or sends is named by the site's configured serve directory followed by the canonical request path (plus the configured index name), is the serve directory itself, or is a configured error page. No other part of the request influences a file name, and a site whose serve directory is not configured is refused at start-up rather than served from the file system root.",
  ["inputs", "configurations"], "all requests and configurations", NOTESTS_T,
  ["tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleerror.go", "tuna/config.go", "router/router.go"],
  [("ServeDir + cleaned path", "tuna/handleserve.go"), ("Validate", "tuna/config.go")], (), ["files read"])

p("C22", "Request and file-name text is escaped before it is put into HTML",
  "Text that a client or a file name controls - request paths and hosts shown on the metrics page, file names in the download index - is HTML-escaped before it becomes part of any page the server generates. Raw HTML in generated pages comes only from the program's own constants, numbers and times.",
  ["inputs"], "all request paths, hosts and file names", NOTESTS_T,
  ["tuna/metrics.go", "tuna/handledownload.go", "tuna/handleerror.go"],
  [("metrics page", "tuna/metrics.go:display"), ("download table", "tuna/handledownload.go")], (), ["HTML of generated pages"])

p("C23", "One request cannot forge log lines",
  "Text decoded from a request is written to the log in a form that cannot contain a line break, so one logged event is always one line. In particular a percent-encoded newline in the path does not produce a second log entry.",
  ["inputs"], "all request paths", NOTESTS_T, ["tuna/log.go"], [("LogNetwork", "tuna/log.go")], (), ["log output"])

p("C24", "The proxy only ever contacts the backend configured for the request's host",
  "The upstream URL of a proxied request is the rule configured for the request's host, followed by text that always begins with '/', so the client cannot extend or replace the scheme, host or port of the backend. Nothing is sent upstream when no rule exists for the host.",
  ["inputs", "configurations"], "all request targets (origin, absolute and authority form) x all rules", NOTESTS_T,
  ["tuna/handleproxy.go"], [("upstream URL construction", "tuna/handleproxy.go")], (), ["address contacted"])

p("C25", "The proxy relays request and response faithfully and reports failure as 502",
  "A proxied request goes upstream with the client's method, request target, body and all its headers; the backend's status, headers and body come back to the client with only the configured headers (and HSTS) added, all headers being set before the status. If reading the request, building the upstream request or the round trip fails the client gets 502, if no rule exists for the host it gets 404, and the backend response body is always closed.",
  ["inputs", "fault_sequences"], "all proxied exchanges, including failures at each step", NOTESTS_T,
  ["tuna/handleproxy.go", "tuna/utils.go"], [("handleProxy", "tuna/handleproxy.go"), ("copyHeader/cloneHeader", "tuna/utils.go")], (), ["upstream request", "downstream response"])

p("C26", "TLS floor: at least TLS 1.2, forward-secret AEAD suites, verified peers",
  "The TLS listener never negotiates below TLS 1.2, offers only ECDHE (or TLS 1.3) AEAD cipher suites and NIST P-256 or stronger curves. No outgoing connection of the server disables certificate verification.",
  ["configurations"], "all TLS configurations", NOTESTS_T, ["tuna/tls.go", "tuna/server.go"],
  [("httpCreateTLSConfig", "tuna/tls.go"), ("Transport", "tuna/server.go")], (), ["TLS handshakes"])

p("C27", "With TLS enabled the server never serves plain HTTP",
  "If the configuration enables TLS, the server either listens with TLS using the configured (or automatic) certificates and the hardened TLS settings, or does not serve at all. A missing certificate or key file never makes it fall back to plain HTTP.",
  ["configurations", "fault_sequences"], "all TLS configurations, including missing files", NOTESTS_T, ["tuna/serve.go", "tuna/tls.go"],
  [("listener selection", "tuna/serve.go:Serve"), ("httpCheckTLS", "tuna/tls.go")], (), ["protocol on the listening port"])

p("C28", "The listener enforces the configured address and timeouts",
  "The server listens on the configured address and port, dispatches every request through its router, and bounds reading the headers, reading the request and writing the response by the configured header, read and write timeouts in seconds, and idle connections by a fixed positive timeout. Unless overridden, the defaults loaded for a configuration file give positive values for all of these.",
  ["configurations"], "all configurations", NOTESTS_T, ["tuna/serve.go", "tuna/config.go"], [("http.Server literal", "tuna/serve.go")], (), ["slow clients being cut off"])

p("C29", "A stop signal leads to a graceful shutdown",
  "SIGINT and SIGTERM are never missed once the handler is installed; on receipt the server stops accepting, and gives requests in flight a bounded time to finish before the process exits. The listener's normal 'server closed' result during that time neither crashes the process nor ends it before the shutdown has finished.",
  ["schedules", "histories"], "all moments at which a signal can arrive", NOTESTS_T, ["tuna/serve.go"],
  [("signal goroutine", "tuna/serve.go"), ("http.Server.Shutdown", "tuna/serve.go")], (), ["responses in flight at SIGTERM", "exit behaviour"])

p("C30", "Only validated configurations are ever served",
  "A server created from a configuration file, and every virtual host in it, was read and parsed completely from its own configured file and has passed validation before any part of it is used. Validation refuses: no port, no log output, a negative log level, a FileDir that is blank or '/', TLS without certificate and key (or automatic certificates without names or on a port other than 443), virtual hosting without or with blank host entries or inside a virtual host, a download site without directory and index, a file-serving site without directory, and a proxy without rules.",
  ["configurations"], "all configuration files", NOTESTS_T, ["tuna/config.go", "tuna/server.go"], [("Validate", "tuna/config.go"), ("NewInstanceFromConfig", "tuna/server.go")], (), ["start-up refusal"])

p("C31", "Metrics counters stay consistent and counting can never fail",
  "While metrics are active, each counted request adds one to the total and one to exactly one status-and-path counter within a single critical section, so the total always equals the sum of the counters it started from plus what was counted. Counting never writes to an absent table, whatever a previously saved metrics file contained.",
  ["histories", "schedules", "inputs"], "all sequences of requests and all saved metrics files", NOTESTS_T, ["tuna/metrics.go"],
  [("concat", "tuna/metrics.go"), ("metricsDaemon load", "tuna/metrics.go")], [("metrics counters", "total and per status/path counts", "tuna/metrics.go")], ["metrics page", "crash while counting"])

p("C32", "A crash while saving metrics never damages the saved metrics",
  "The metrics file is only ever replaced as a whole: new content is completely written, synced to disk and closed under a different name, and each of these steps is checked, before it takes the place of the old file, and on any error the old file stays. Nothing is saved over it while metrics are not being collected; while they are, they are saved periodically and when a stop signal arrives.",
  ["crash_points", "fault_sequences"], "every crash point and I/O failure during a save", NOTESTS_T, ["tuna/metrics.go", "tuna/serve.go"],
  [("flushMetrics", "tuna/metrics.go")], (), ["content of the metrics file after a crash"])

p("C33", "A cache hit is the stored value of that key, and never an expired one",
  "A cache lookup reports a hit only with a value stored under the same key hash, taken from the matching slot while the shard is locked; a lookup with a maximum age never returns an entry older than it. It looks at the newest slot first and then at every older slot in turn, so the most recent value of a key wins, and it reports a miss only after all slots were examined or the newest entry of the key was found expired. Every hit makes the entry the newest again: it is stored again under its key with its value and the current time. A lookup without a maximum age also reports the age of the entry (now minus the time it was stored). Storing a value replaces the newest entry of its key, with the current time, or appends one new entry and overwrites nothing but the oldest.",
  ["histories", "inputs", "schedules"], "all sequences of sets and lookups, including wrap-around",
  "TestCache stores 26 keys once in a 1024-slot shard and asserts only that an empty cache misses; wrap-around and expiry order are never reached",
  ["cache/get.go", "cache/find.go", "cache/set.go"], [("ring scan", "cache/get.go")], [("ring", "fixed array plus cursor per shard", "cache/shard.go")], ["Get/Find results"])

p("C34", "Cache indices stay inside the ring and the shard table",
  "Every index into the shard table and into a shard's ring is within bounds for every key, cursor position and history. No cache operation can panic with an index out of range or a nil shard.",
  ["inputs", "histories"], "all keys and all cursor positions (0 to capacity)",
  "the tests never wrap a shard, so cursor values near the ends are not reached", ["cache/set.go", "cache/get.go", "cache/find.go", "cache/cache.go"],
  [("cursor reset", "cache/set.go:appendKey"), ("index normalisation", "cache/get.go")], (), ["panics"])

p("C35", "Every answered request is logged and counted exactly once",
  "Each request that a handler of the server answers - with a file, a download, the metrics page, a proxied response or any error - produces exactly one access-log record and exactly one metrics count, carrying the status that was decided for it and the request's host and path. No path answers silently and none records a request twice.",
  ["inputs", "fault_sequences"], "all handler paths", NOTESTS_T,
  ["tuna/log.go", "tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleproxy.go", "tuna/handleerror.go", "tuna/metrics.go"],
  [("LogNetwork", "tuna/log.go")], (), ["access log", "metrics"])

p("C36", "A message is logged exactly when its level is within the configured level",
  "For every supported level, a non-nil message is written exactly once when its level is at most the configured level and not at all otherwise, and a nil error never produces output. A logger is handed out for every supported level, only for those, and only with the output it was asked for opened, and every server logs with the level and to the output of its configuration.",
  ["inputs", "configurations"], "all pairs of message level and configured level", "package debug has no tests", ["debug/log.go", "debug/logger.go", "debug/init.go"],
  [("Logger.Log", "debug/log.go"), ("NewLogger", "debug/logger.go")], (), ["log output"])

p("C37", "No request can stop the server",
  "Nothing reachable from handling a request exits the process or panics on purpose: fatal exits and panics are confined to start-up, registration and shutdown. A request for which a directory or file cannot be read is answered with an error instead of crashing its handler; no header, path, file or cache state makes a handler dereference nil, index out of range or assert a wrong type.",
  ["inputs", "fault_sequences"], "all requests and file-system failures", NOTESTS_T,
  ["tuna/handledownload.go", "tuna/handleerror.go", "tuna/handleserve.go", "tuna/handleproxy.go", "tuna/metrics.go", "router/router.go", "guard/firewall.go"],
  [("call graph from handlers", "tuna/routes.go"), ("walk callback", "tuna/handledownload.go")], (), ["process liveness"])

p("C38", "Handling a request always terminates",
  "Every loop executed while routing, guarding or handling a request is bounded: it ranges over a finite collection, counts monotonically to a limit, or walks up the request path and stops at '/' for every path the router can hand it. No request can make the server spin, and none waits for a channel that requests themselves never release.",
  ["inputs"], "all request paths, route tables and rule tables",
  "the tests would hang, not fail, and use six ordinary paths", ["router/route.go", "guard/firewall.go", "router/router.go", "cache/get.go", "cache/set.go", "cache/find.go"],
  [("path.Dir walks", "guard/firewall.go"), ("ring scans", "cache/get.go")], (), ["request completion"])

p("C39", "Files and response bodies opened by the server are closed",
  "Every file opened or created by the server is closed on every path that continues, except the single log file that stays open as the log sink; every backend response body is closed. No connection pool or transport is created per request. Repeated saving of metrics or proxying does not accumulate open descriptors.",
  ["histories", "fault_sequences"], "all paths, any number of repetitions", NOTESTS_T,
  ["tuna/metrics.go", "tuna/config.go", "tuna/server.go", "tuna/templates.go", "tuna/handleproxy.go", "debug/init.go"],
  [("Close calls", "tuna/metrics.go")], (), ["open descriptors"])

p("C40", "File types are announced by extension, unknown ones as octet-stream",
  "A served file's Content-Type is determined by its path alone: each well-known extension always maps to its own fixed media type, a path listed in the site's custom types maps to the configured one, and everything else is application/octet-stream. In particular no path without a .html, .htm, .xhtml or .svg extension is announced as active markup unless configured so.",
  ["inputs", "configurations"], "all paths and custom type tables", NOTESTS_T, ["tuna/utils.go", "tuna/handleserve.go", "tuna/handledownload.go"], [("getMIMEType", "tuna/utils.go")], (), ["Content-Type of served files"])

p("C41", "Starting without a configuration prints usage instead of crashing",
  "The program only uses its configuration argument after establishing that it was given. Invoked without arguments it prints its usage and ends normally, without creating a server.",
  ["inputs"], "all argument vectors", "package main has no tests", ["main.go"], [("argument check", "main.go:main")], (), ["process exit"])

p("C42", "The rate limiter's long-run admission bound",
  "Over any time window of t seconds a client is admitted at most burst plus rate times t requests.",
  ["histories", "schedules"], "all request histories and clock readings", NOTESTS_G, ["guard/limiter.go", "cache/get.go"], [("rate.Limiter arithmetic and cache eviction", "guard/limiter.go")], (), ["admitted requests per window"])

p("C43", "Saved metrics survive a restart unchanged",
  "The metrics loaded at start-up equal those saved last, for every history of requests, saves, crashes and restarts.",
  ["histories", "crash_points"], "all histories", NOTESTS_T, ["tuna/metrics.go"], [("JSON encode/decode round trip", "tuna/metrics.go")], (), ["metrics page after a restart"])

p("C44", "Proxied bodies arrive byte for byte",
  "For every body and every chunking, the bytes the client receives are exactly those the backend sent, and vice versa.",
  ["inputs", "fault_sequences"], "all bodies and transfer encodings", NOTESTS_T, ["tuna/handleproxy.go"], [("io.Copy and ReadAll", "tuna/handleproxy.go")], (), ["bodies"])

p("C45", "The configured routes are exactly the routes of the configured sites",
  "The sites are the main configuration when virtual hosting is off, and every virtual host (and nothing else) when it is on. Each site gets exactly one kind of route: with its proxy enabled, every host of its proxy rules with each of its proxy methods, any content type, everything below \"/\"; else with download mode enabled, GET of \"/\" and everything below, without a content type; else every configured path with each of its ';'-separated methods, the content types configured for that path by the same site (none if not configured), including everything below exactly when the path ends in a slash. They are registered for the site's own host and handled by the handler of that kind. The metrics page is routed exactly when enabled, as GET of the configured path alone. WebDAV methods are routable exactly when configured, which is settled before any route is registered.",
  ["configurations"], "all configurations", NOTESTS_T, ["tuna/routes.go", "tuna/server.go"],
  [("AddRoute calls", "tuna/routes.go:addRoutesFromConfig"), ("WebDAV flag of the router", "tuna/server.go")], (), ["which requests are routed, and to which handler"])

p("C46", "Requests refused by the router or a guard are answered by the server",
  "The router of every new server and every guard put on a route (rate limiter, firewall, basic authentication) hold that server's own error handler, so that a refused request is answered with the site's error page and is logged and counted like any other.",
  ["configurations", "inputs"], "all servers, all routes", NOTESTS_T, ["tuna/routes.go", "tuna/server.go", "guard/limiter.go", "guard/firewall.go", "guard/basicauth.go"],
  [("ErrorHandler and UnauthorizedHandler of guards", "tuna/routes.go:addRoutesFromConfig"), ("ErrorHandler of the router", "tuna/server.go")], (), ["responses to refused requests", "log", "metrics"])

p("C47", "A request for a file is answered with exactly the file it names",
  "A file-serving site answers with the file below its ServeDir that the request path names - with the index name appended exactly when the path ends in a slash - whenever that file exists, and with 404 exactly when it does not. A download site answers its root and its index name with the generated index and every other path with the file it names, as an attachment, or with 404 if there is none. No other error is answered, except 500 when the directory can't be walked or the index can't be rendered.",
  ["inputs", "configurations", "fault_sequences"], "all request paths, index settings and file system states", NOTESTS_T,
  ["tuna/handleserve.go", "tuna/handledownload.go"],
  [("served name", "tuna/handleserve.go:handleServe"), ("attachment", "tuna/handledownload.go:handleDownload")], (), ["responses of file-serving and download sites"])

p("C48", "The download index lists every offered file, and each of them correctly",
  "The index of a download site lists, for every configured extension, exactly the files below ServeDir with that extension, each of them once, with its own name, size and modification time and a link to its own (escaped) path below the site's directory.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees and extension lists", NOTESTS_T,
  ["tuna/handledownload.go", "tuna/config.go"],
  [("directory walk and table rows", "tuna/handledownload.go:handleDownload"), ("fileInfo", "tuna/config.go")], (), ["download index"])

p("C49", "The metrics page shows every counter",
  "The metrics page shows the total number of requests and, for every status that was counted, every path counted under it together with that path's own amount; no counter is left out and none is shown under another status or path.",
  ["histories", "inputs"], "all counter states", NOTESTS_T, ["tuna/metrics.go"],
  [("page rendering", "tuna/metrics.go:display")], (), ["metrics page"])

p("C50", "Each error answer shows the page that belongs to its status",
  "The body of an error answer is the site's configured page for exactly that status, unchanged, if one is configured and can be read, and otherwise the built-in page that names that status and no other.",
  ["inputs", "configurations", "fault_sequences"], "all statuses, error page tables and read failures", NOTESTS_T, ["tuna/handleerror.go"],
  [("page choice", "tuna/handleerror.go:handleError"), ("built-in texts", "tuna/handleerror.go")], (), ["error bodies"])

p("C51", "Pages are rendered from loaded templates that exist and fit their data",
  "Every new server has its templates loaded before it can serve. Template files that exist are never overwritten, missing ones are created completely, and the built-in templates refer to exactly the data the pages give them. A page is rendered once, from the loaded template with the page's own data, and a failure to render is reported to the caller, which then sends an error instead of the part it has.",
  ["configurations", "fault_sequences"], "all states of the template directory", NOTESTS_T,
  ["tuna/templates.go", "tuna/server.go", "html/templatehandler.go", "html/templates.go"],
  [("template set-up", "tuna/templates.go"), ("rendering", "html/templatehandler.go:Execute")], (), ["generated pages", "template files"])

p("C52", "Certificates are requested automatically only as configured",
  "A listener obtains certificates automatically exactly when TLS and automatic certificates are enabled and names are configured; it then does so for exactly the configured names, keeps them below FileDir, accepts the terms of service, and offers h2, http/1.1 and acme-tls/1. Otherwise it uses the configured certificate and key.",
  ["configurations"], "all TLS configurations", NOTESTS_T, ["tuna/serve.go", "tuna/tls.go"],
  [("autocert manager", "tuna/serve.go"), ("NextProtos", "tuna/tls.go:httpCreateTLSConfig")], (), ["certificates requested and kept", "TLS handshakes"])

p("C53", "The host of a request is its host name without the port",
  "Whatever host a request names, routing and handlers see its host part alone when it has the form host:port, and the name unchanged when it has no port.",
  ["inputs"], "all host strings", "one test covers two hosts", ["router/utils.go", "router/router.go"],
  [("StripHostPort", "router")], (), ["host routing"])

p("C54", "A configuration is refused only for cause and otherwise kept as written",
  "Validation refuses a configuration only when it has one of the refusable faults (those of C30), and loading gives up only after something failed. An accepted configuration is as written, except that FileDir - and the ServeDir of a download site - gains the trailing slash it lacked, so that afterwards these directories end in a slash.",
  ["configurations", "fault_sequences"], "all configurations", NOTESTS_T, ["tuna/config.go", "tuna/server.go"],
  [("Validate", "tuna/config.go"), ("LoadConfigFromFile", "tuna/config.go")], (), ["start-up", "effective configuration"])

p("C55", "Counting resumes from the saved metrics",
  "When counting is switched on, it continues with the total and all counters of the saved metrics file if there is one, read completely and successfully; it starts from nothing only when no such file is found. If the saved file can't be read or decoded, counting does not start (so that it is never overwritten with fresh counters). Everything that is counted is part of what is saved.",
  ["histories", "fault_sequences"], "all saved metrics files and failures to read them", NOTESTS_T, ["tuna/metrics.go"],
  [("metricsDaemon and loadMetrics", "tuna/metrics.go")], (), ["metrics after a restart"])

p("C56", "Settings start from defaults of their own",
  "Every configuration file is read over a fresh set of defaults that belongs to it alone, so that no setting of one virtual host (or of the main configuration) appears in another. A setting that the file leaves out has a working default: port, file directory, timeouts and HSTS age in the main configuration, limiter rate and burst in every configuration, also of servers made without a configuration file. Nothing but validation changes settings after they are read.",
  ["configurations"], "all configuration files and sets of virtual hosts", NOTESTS_T, ["tuna/config.go", "tuna/server.go"],
  [("NewConfig and NewVhostConfig", "tuna/config.go"), ("loading of virtual hosts", "tuna/server.go")], (), ["effective configuration of each site"])

p("C57", "Generated pages are announced as HTML, error answers without headers of other content",
  "The download index, the metrics page and the built-in error page are sent with Content-Type text/html, which is set before the status or any part of the page is sent. When a handler gives up on its content and answers with an error instead, no header that describes that content (disposition, encoding, length, range, validators) and no header of a backend's answer has been set.",
  ["inputs", "configurations", "fault_sequences"], "all handler paths", NOTESTS_T,
  ["tuna/handleerror.go", "tuna/handledownload.go", "tuna/metrics.go", "tuna/handleserve.go", "tuna/handleproxy.go"],
  [("Content-Type of generated pages", "tuna/handleerror.go"), ("hand-over to HandleError", "tuna/handledownload.go")], (), ["headers of generated pages and error answers"])

p("C58", "Handling a request leaves nothing behind but limiter entries, metrics and log records",
  "While a request is handled, no state that outlives it is changed except the rate limiter's cache, the metrics counters and the log: not the configuration of any site, the route table, guards' rules or users, limits of clients, templates, package variables, files or process state, and no goroutine is left running. What is remembered per client lives in a cache of fixed size, so that no number of clients makes it grow.",
  ["histories", "inputs", "schedules"], "all sequences of requests", "tests run a handful of requests and do not look at the state afterwards",
  ["router/router.go", "guard/limiter.go", "guard/firewall.go", "guard/basicauth.go", "cache/shard.go", "cache/set.go", "tuna/utils.go"],
  [("fixed-size ring", "cache/shard.go"), ("request handlers and middleware", "tuna")], (), ["responses to later requests", "memory"])

p("C59", "The access log is complete, the metrics hold only aggregates",
  "Every access-log record names the request's method, host, path, query, client address (that of the connection) and user agent. The metrics in contrast contain nothing about clients or what they send: besides the answer's status only the request's host and path, no query, address, header, user or body.",
  ["inputs"], "all requests and all handler paths", NOTESTS_T, ["tuna/log.go", "tuna/metrics.go"],
  [("LogNetwork", "tuna/log.go"), ("counting", "tuna/metrics.go:concat")], (), ["access log", "metrics page and file"])

p("C60", "Valid credentials are admitted",
  "Basic authentication refuses a request only when there is no Basic Authorization header, its contents are malformed (not base64, no colon), no user is configured, the user is not configured, the name or password differs from the configured one, or the custom check refuses exactly the submitted credentials. Every configured user is in the table, whatever the name and password are.",
  ["inputs", "configurations"], "all Authorization headers x all user tables", NOTESTS_G, ["guard/basicauth.go"],
  [("authenticate", "guard/basicauth.go"), ("SimpleBasicAuth", "guard/basicauth.go")], (), ["whether the protected handler runs"])

p("C61", "Servers and their parts share no state",
  "Every server, router, rate limiter, cache, logger and template that is created has state of its own: nothing is kept in package variables that are changed after start-up or handed out, settings of the process's libraries are not changed while requests are handled, and each limiter has a client table of its own. Two servers in one process, and two sites of one server, never affect each other's routes, limits, templates or settings.",
  ["histories", "configurations"], "all sequences of constructor and handler calls", "tests create one object of each kind",
  ["guard/limiter.go", "router/router.go", "cache/cache.go", "debug/logger.go", "html/templatehandler.go", "tuna/server.go"],
  [("NewLimiter", "guard/limiter.go"), ("NewRouter", "router/router.go"), ("NewInstance", "tuna/server.go")], (), ["answers of one site or server after activity on another"])

p("C62", "Waiting for a backend is bounded",
  "Every new server reaches backends over one transport of its own that gives up within a bounded time: connecting and the TLS handshake have fixed positive limits, the wait for response headers is limited to the configured header timeout in seconds, and idle backend connections are closed after a fixed time. Every proxied request uses that transport, and nothing replaces it or its limits afterwards.",
  ["inputs", "configurations", "fault_sequences"], "all backends and configurations, both constructors", NOTESTS_T,
  ["tuna/server.go", "tuna/handleproxy.go"],
  [("transport of a new server", "tuna/server.go"), ("RoundTrip", "tuna/handleproxy.go")], (), ["proxied requests to slow or dead backends"])

p("C63", "Every documented setting is read under its own name and consulted",
  "Every documented setting (the sections Core with TLS, AutoCert, HSTS and Metrics, Serve with MIMETypes and Download, Errors, Proxy, and Guard with Firewall) is read from a configuration file under its own name into the setting of that name and of its type, no two settings share a name, and each of them is consulted when the server is set up or handles requests.",
  ["configurations"], "all configuration files", NOTESTS_T, ["tuna/config.go"],
  [("Config and its sections", "tuna/config.go")], (), ["effect of a setting"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
