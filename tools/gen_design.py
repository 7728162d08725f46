#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: design_head.md, one section per property, planted bugs, refactorings, defects."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
techs = dict(l.split("\t", 1) for l in subprocess.check_output([V + "/analyzer/bin/mc", "-list"], text=True).splitlines())
na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
o = [open(V + "/tools/design_head.md").read()]
o.append("\n## 2. Properties and how each is decided\n")
D={
"C01":("exact/parent × own/default decision table","router.getRoute and everything it calls, expanded; the path walk is a generic loop whose step must be the parent directory","every path that selects a route carries the facts “better candidates looked up and absent”; lookups are identified by the map key term (host ++ path), so the order of statements and helper structure are irrelevant"),
"C02":("the statement's condition for dispatch and the 405 > 406 > 404 order","all paths of ServeHTTP with getRoute expanded","facts at each handler/middleware/error-handler call: method looked up in the selected route, content accepted, exact or fallback; status constant checked against those facts; no path returns without one"),
"C03":("outermost-first composition","the composing loop as an induction over its counter","handler value carried by the loop must be middleware[i] applied to the previous value, i going from last to first, entry value the selected handler; ServeHTTP on the result once with the own w, r"),
"C04":("path.Clean plus leading slash","ServeHTTP","the canonical form (leading '/', Clean, optional trailing '/') is recognised on terms; the store to r.URL.Path must precede every handler event; lookups must use the same term"),
"C05":("byte equality up to the first ';'","contentAllowed","acceptance paths need the facts “declared is *” or “cut request type equals declared or an element of Split(declared, ;)”; refusal paths need the negations, the loop over alternatives must be complete"),
"C06":("the list of illegal registrations","AddRoute, UseMiddleware","each store into the table (and its inner maps) is dominated by the negation of each illegal condition; entries are only created when absent; key normalisation of trailing slashes is the same in both functions"),
"C07":("Eraser-style lockset, but over all paths","all concurrent entry points: handlers, middleware, daemons, signal goroutine, exported cache/router/logger/metrics methods","locations are (object role, field) value numbers; goroutine-confined and never-written-after-publication state is exempt by proof; locks are identified by the object that holds them"),
"C08":("lock discipline","every entry point, all locks","typestate per lock term along each path, including deferred unlocks, panics excluded; lock order graph must be acyclic; effects under a lock may not include network or response-writer calls"),
"C09":("the statement","Authenticate's handler with all helpers","each call of the protected handler needs on its path: custom check true with the decoded user/password and the request, or known user ∧ name equal ∧ password equal, where “decoded” is the term before/after the first ':' of the base64-decoded rest of the Authorization header"),
"C10":("RFC 7617 challenge and 401","Authenticate's handler","ordered events: header set before error handler; code 401; default handler's switch covers 401 and writes that status"),
"C11":("closed list of operations that may touch a secret","every function of the module; those that take or return secrets are expanded into their callers until no new one is found","secrets are terms containing the Authorization header (read by constant or unknown key, or the whole header), BasicAuth(), passwords of user tables; sinks are all other calls, stores that outlive the path, map entries, dynamic calls; whole values (request, header, configuration, user table) given to printing or encoding functions count by type. Comparison rule: a branch or result that mixes submitted and configured secrets must do so inside ConstantTimeCompare/hmac.Equal of digests"),
"C12":("listed/unlisted verdict","both firewall middlewares","on each path to next/refuse the facts either contain “entry equals address or *” for a rule looked up at a parent of the path, or the walk is proved exhausted (loop exits at '/' and the '/' rule was consulted or excluded by subpath mode)"),
"C13":("what identity may depend on","firewall and limiter","the identity term may contain only RemoteAddr (port stripped) and, unless FilterOnIP, the User-Agent"),
"C14":("typestate lock → find → create/store → token → pass","LimitHTTP with the cache opaque but typed","key term identical for Get/Set, bucket created with configured rate/60 and burst, stored within the same critical section, Allow() true on every pass path, 429 otherwise; keys of different clients must differ (separator argument on concatenations)"),
"C15":("exactly once","every middleware, ServeHTTP","counting calls of next and error handler on each path, loops included (a call inside a loop must leave it)"),
"C16":("registration contract","addRoutesFromConfig and helpers","for each AddRoute event a matching UseMiddleware of a limiter and, if the facts say the firewall is enabled, a firewall before it, same host/path terms, built from fields of the same configuration term"),
"C17":("own configuration or main configuration","all handlers and error handlers","each configuration read is rooted in s.Cfg or s.Vhosts[host of the request]; the choice is justified by facts (VirtualHosting, membership of that host)"),
"C18":("the statement's header list","all handlers that produce responses","must-set analysis on the header map before the committing event; HSTS when the fact TLS.Enabled holds"),
"C19":("open → committed","all handlers, middleware, error handlers","no header write after WriteHeader/Write/ServeFile/Execute(w) etc.; no second explicit status"),
"C20":("status = error code","error handlers and handlers","WriteHeader's argument is the parameter (or http.Error with it) on each path; codes passed on are constants of the documented set; default handlers answer every code they can be called with"),
"C21":("file-name grammar","request functions","every file operation's name decomposes to ServeDir ++ path [++ index], ServeDir, or a configured page; Validate refuses a blank ServeDir when files are served"),
"C22":("escaped or constant","pages: everything written to w or a page buffer","decomposition of text terms; template.HTML(x) conversions treated as writes; HTMLEscapeString and html/template data fields are clean"),
"C23":("no raw decoded text in a log record","log calls in request functions","decoded URL parts must be quoted/escaped; header, method, raw request target cannot contain line breaks (net/http rejects them)"),
"C24":("rule ++ '/'…","the proxy handler; scan of all outgoing calls","the URL term is lookup(Proxy.Rules, host) ++ text known (by facts) to start with '/'"),
"C25":("statement","the proxy handler","each field of the upstream request and each step of the answer"),
"C26":("allowed constants","TLS configurations; scan for InsecureSkipVerify","values last stored before the listening call"),
"C27":("TLS on ⇒ no plain listener","Serve and helpers","facts at each ListenAndServe / ListenAndServeTLS / Serve"),
"C28":("configured address, timeouts × time.Second","server construction at every listening call; NewConfig defaults","value-flow"),
"C29":("signal protocol","Serve: signal goroutine and listener side","buffered registration before serving, both signals, Shutdown with a bounded context, the listener side waits for the end of the shutdown when it gets ErrServerClosed"),
"C30":("the refusal list of the statement","Validate, server constructors","for each forbidden condition every accepting path has a fact excluding it; stored configurations flow from a completed load and validation"),
"C31":("sum of increments per critical section","metrics methods","per hold of the lock: total +1 and exactly one counter +1 (or set to 1 when absent); maps written are non-nil"),
"C32":("write-sync-close-rename, each checked","flushMetrics; scan of all functions that name the saved file","typestate; periodic loop with bounded sleep and final save on stop"),
"C33":("newest-first coverage of the ring","cache Get, Find, Set with helpers","see rules_cache.go: a *frontier* (the position proved examined) is carried per path and as loop invariant; hit/miss/append are judged against it; positions are compared modulo ring size"),
"C34":("0 ≤ index < length","cache package","inequality proofs; cursor invariant re-established at every store"),
"C35":("one record, one count","handlers, error handlers","counting LogNetwork/HandleError-like events with their status values"),
"C36":("level table","Logger.Log, NewLogger, everything that sets up a server","all pairs of constants propagated; anything else must be silent; the constructor's file name and the arguments servers give it are compared as terms with the configuration of that server"),
"C37":("no failing operation without its precondition","every function a request can run","per operation on each path: pointer/func/interface non-nil, map exists, index and slice bounds, divisor, assertion. Decided in the function alone, then with nil-giving callees, string-returning callees, everything expanded, finally in all its callers. No os.Exit/log.Fatal/panic call. Cached values' types are a module invariant (inv_cache.go)"),
"C38":("a ranking per loop, no unbounded wait","every function a request can run","range loops; linear ranking functions; path.Dir walks from rooted paths; no call cycles; blocking channel operations must give back what they take or have a timer/Done case"),
"C39":("open → close","everything that opens","typestate through helpers that take/return files; one transport per server"),
"C40":("the extension table","getMIMEType and its callers","constant facts about filepath.Ext(path) vs. the value; custom types by path"),
"C41":("len(args) checked","main","facts at each os.Args/flag.Arg use; usage path returns without server"),
"C45":("registration completeness","addRoutesFromConfig","coverage of each table by its loop, and the term of each AddRoute argument"),
"C47":("requested file","file and download handlers","name sent or reported absent vs name determined by path and index setting, per path facts"),
"C48":("index completeness","download index","induction over the loops' back edges; the walk callback from every state it is called in"),
"C49":("counter completeness","metrics page","induction over the nested loops' back edges; key and amount in each text written"),
"C50":("own page","every error answer","lookup key, page data and built-in text vs the status parameter"),
"C51":("template set-up","template set-up and rendering","order of creation, parse and store; field references of the built-in templates vs the page data's type"),
"C52":("automatic certificates","every listening path","fields of the autocert manager and TLS configuration at the listen call"),
"C53":("host normalisation","StripHostPort","every returned value vs outcome of the split"),
"C54":("refused for cause","Validate and loading","each refusing path's facts imply a listed fault; stores into the configuration enumerated"),
"C55":("resume or nothing saved","every path that switches counting on, constructors and the daemon included","the value stored as total and counters is the decoded part of Metrics.Out with all errors known nil, or zero/empty with the file known missing; the record's fields, tags and methods decide that it survives JSON"),
"C56":("fresh defaults","constructors, the loop over the virtual hosts, LoadConfigFromFile","the record decoded over is allocated in the same iteration and holds the defaults; no store after decoding except by Validate"),
"C57":("headers of a page","all handlers and error handlers","last Content-Type before the first status/body event of a generated page; content headers set before the hand-over to the error handler"),
"C58":("allowed effects","everything reachable from handlers, middleware, error handlers","each write is classified by the object and field at the root of its location (parameters expanded into callers); calls by a list of library effects; go statements"),
"C59":("what is recorded","all handlers with LogNetwork and concat expanded","parts of the request in the record's text; stores below the metrics record must not depend on the rest of the request"),
"C60":("causes for refusal","Authenticate with all helpers; SimpleBasicAuth","facts of each refusing path; back edges of the loop over the users"),
"C61":("no shared state","every package variable of the module, with all that can be reached through it; every limiter that is made","stores outside initialisation, changes through references, references handed to objects; freshness of the client table on every path"),
"C62":("bounded waiting","both constructors with their helpers; every call that contacts a backend","fields of the transport and dialer at the end of each path; functions that store to a transport; origin of the receiver of each RoundTrip"),
"C63":("documented settings","the schema of Config and every use of its fields","hcl name, type and uniqueness of each field against the documented list; a use outside validation and defaults for each"),
"C46":("own handler","guards and router construction","field stored before registration, from the same server"),
}

for p in props:
    i = p["id"]
    o.append("### %s — %s\n" % (i, p["title"]))
    if i in na:
        o.append("**Not applicable:** %s\n" % na[i])
        continue
    oracle, scope, how = D[i]
    o.append("* **Decided by** %s.\n* **Specification (oracle):** %s.\n* **Analysed:** %s.\n* **How:** %s.\n" % (techs[i].strip().rstrip("."), oracle, scope, how))
tail = open(V + "/tools/design_tail.md").read()
R = {}
def ref(name, *edits): R[name] = 1
for f in sorted(glob.glob(V + "/tools/refactors/*.py")): exec(compile(open(f).read(), f, "exec"))
fixed = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.setdefault((m[2], m[3]), []).append(m[1])
ft = "| commit | properties | what failed |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (c, ", ".join(p), w) for (c, w), p in fixed.items())
st = """## 4. Planted bugs (`/verif/seeded`) and which checks catch them

Generated and confirmed by `tools/seeds.py` (each builds, passes the stable tests, and its demonstration passes on the
unchanged tree and fails with the change). The last column lists every check that reports the change (all checks were run on
each, `tools/caught.py`); no check reads this directory.

| change | property | needs | caught by |
|---|---|---|---|
"""
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, m["property"])))
o.append(tail.replace("@@SEEDS@@", st + "\n".join(rows)).replace("@@FIXED@@", ft).replace("@@NREF@@", str(len(R))))
open(V + "/DESIGN.md", "w").write("\n".join(o).replace("\n\n\n", "\n\n"))
