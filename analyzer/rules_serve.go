package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Typestate of every TLS configuration at the moment it is handed to a listener: the values last stored in its protocol fields on each path are compared with the allowed sets; whole-program scan for switched-off peer verification", ruleC26)
	register("C27", "Path-sensitive typestate of the listener: every listening call in the program is on an analysed path, plain HTTP only with TLS known to be disabled, TLS only with the configured or automatic certificate", ruleC27)
	register("C28", "Value-flow into the fields of the HTTP server at every listening call, and of the defaults a configuration file is loaded over", ruleC28)
	register("C29", "Typestate of the stop sequence over both sides: registration, receipt, bounded shutdown and exit in the signal goroutine; the branch on the listener's 'server closed' result in the serving function", ruleC29)
	register("C41", "Path-sensitive use-after-check analysis of the program's arguments in the main function", ruleC41)
}

// ---- values of a local object at a point of a path -------------------------------------

// at returns the value field names... of the object base has at event upto, from the
// stores on the path. found is false when nothing was stored.
func fieldAtEv(t *Trace, upto int, base *Term, names ...string) (val *Term, found bool) {
	addr := base
	var chain []*Term
	chain = append(chain, base)
	for _, n := range names {
		next := mkFieldAddrByName(addr, n)
		if next == addr {
			return nil, false
		}
		addr = next
		chain = append(chain, addr)
	}
	for i := upto - 1; i >= 0; i-- {
		e := t.Evs[i]
		if e.Kind != EvStore {
			continue
		}
		for k := len(chain) - 1; k >= 0; k-- {
			if e.Term != chain[k] {
				continue
			}
			v := e.arg(0)
			for ; k < len(names); k++ {
				owner := ptrElem(chain[k].Typ)
				st, ok := owner.Underlying().(*types.Struct)
				if !ok {
					return nil, false
				}
				for f := 0; f < st.NumFields(); f++ {
					if st.Field(f).Name() == names[k] {
						v = mkSel(v, owner, f)
						break
					}
				}
			}
			return v, true
		}
	}
	return zeroOf(ptrElem(addr.Typ)), false
}

// maybeStored: some loop on the path may store to the field.
func maybeStored(t *Trace, upto int, base *Term, name string) bool {
	addr := mkFieldAddrByName(base, name)
	for _, f := range flat(t) {
		if f.maybe && f.i < upto && f.Kind == EvStore && (f.Term == addr || f.Term == base) {
			return true
		}
	}
	return false
}

// sliceElems: the elements of a slice built on the path.
func (c *Ctx) sliceElems(t *Trace, upto int, v *Term) ([]*Term, bool) {
	switch v.Op {
	case OSliceLit:
		return v.Args, true
	case OAppend:
		a, ok := c.sliceElems(t, upto, v.Args[0])
		if !ok || len(v.Args) != 2 {
			return nil, false
		}
		b, ok := c.sliceElems(t, upto, v.Args[1])
		return append(append([]*Term{}, a...), b...), ok
	case OSlice:
		lo, ok1 := v.Args[1].Int()
		hi, ok2 := v.Args[2].Int()
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []*Term
		for k := lo; k < hi; k++ {
			var el *Term
			for a, x := range c.constMem() {
				if a.Op == OIndexA && a.Args[0] == v.Args[0] && a.Args[1].IsInt(k) {
					el = x
				}
			}
			for i := 0; i < upto; i++ {
				e := t.Evs[i]
				if e.Kind == EvStore && e.Term.Op == OIndexA && e.Term.Args[0] == v.Args[0] {
					if e.Term.Args[1].IsInt(k) {
						el = e.arg(0)
					} else if !e.Term.Args[1].IsConst() {
						return nil, false
					}
				}
			}
			if el == nil {
				return nil, false
			}
			out = append(out, el)
		}
		return out, true
	}
	return nil, v == tNil || v.Op == OZero
}

func (c *Ctx) constMem() map[*Term]*Term {
	if c.P.Consts == nil {
		return nil
	}
	return c.P.Consts.mem
}

// ---- listening calls ------------------------------------------------------------------

func isListenCall(name string) bool {
	switch name {
	case "net/http.ListenAndServe", "net/http.ListenAndServeTLS", "net/http.Serve", "net/http.ServeTLS", "crypto/tls.Listen", "crypto/tls.NewListener",
		"(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS":
		return true
	}
	return strings.HasPrefix(name, "net.Listen") || strings.HasPrefix(name, "(*net.ListenConfig).Listen") || strings.HasPrefix(name, "net/http/fcgi.") || strings.HasPrefix(name, "golang.org/x/crypto/acme/autocert.NewListener") || strings.HasSuffix(name, "autocert.Manager).Listener")
}

// listen is one call that starts serving.
type listen struct {
	t    *Trace
	i    int
	e    *Ev
	srv  *Term // the http.Server
	tls  bool
	cert *Term
	key  *Term
	addr *Term // address of a separately opened listener
}

type serveInfo struct {
	traces  []*Trace
	listens []*listen
	run     *Exec
	fn      *ssa.Function
	recv    *Term
}

func (c *Ctx) serveRuns() *serveInfo {
	fn := c.P.method(serverPkg, "Server", "Serve")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "Server.Serve not found")
		return nil
	}
	s := &serveInfo{fn: fn, run: newExec(c.P, c.opq("debug.Logger.Log"))}
	as := params(fn)
	s.recv = as[0]
	s.traces = c.run(s.run, fn, as, nil, nil)
	seen := map[token.Pos]bool{}
	for _, t := range s.traces {
		for i, e := range t.Evs {
			if e.Kind != EvCall || !isListenCall(e.Name) {
				continue
			}
			seen[e.At] = true
			l := &listen{t: t, i: i, e: e}
			switch e.Name {
			case "(*net/http.Server).ListenAndServe":
				l.srv = e.arg(0)
			case "(*net/http.Server).ListenAndServeTLS":
				l.srv, l.tls, l.cert, l.key = e.arg(0), true, e.arg(1), e.arg(2)
			case "(*net/http.Server).ServeTLS":
				l.srv, l.tls, l.cert, l.key = e.arg(0), true, e.arg(2), e.arg(3)
				l.addr = listenAddr(e.arg(1))
				if !c.need(l.addr != nil, "listener", e.At, t, "Serve uses the listener %s of unknown address", clip(e.arg(1).String())) {
					continue
				}
			case "(*net/http.Server).Serve":
				l.srv = e.arg(0)
				l.addr = listenAddr(e.arg(1))
				if !c.need(l.addr != nil, "listener", e.At, t, "Serve uses the listener %s of unknown kind", clip(e.arg(1).String())) {
					continue
				}
			case "net.Listen":
				continue // judged where it is served
			default:
				c.need(false, "listener", e.At, t, "%s starts a listener the rule does not know", shortName(e.Name))
				continue
			}
			s.listens = append(s.listens, l)
		}
	}
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	for at, f := range callSites(all, isListenCall) {
		c.need(seen[at], "listeners-covered", at, nil, "a listener is started in %s, outside the analysed serving paths", shortName(fnName(f)))
	}
	c.atLeast(len(s.listens), 2, "coverage", "listening calls on the serving paths")
	return s
}

// listenAddr: the address of a plain TCP listener.
func listenAddr(l *Term) *Term {
	if l.Op == OExtract && l.N == 0 && isCall(l.Args[0], "net.Listen") && len(l.Args[0].Args) == 2 && l.Args[0].Args[0].IsStr("tcp") {
		return l.Args[0].Args[1]
	}
	return nil
}

// coreField: the value is a field of the server's core configuration.
func coreField(x *Term, names ...string) bool {
	return cfgIs(x, append([]string{"Core"}, names...)...)
}

// ---- C26 ------------------------------------------------------------------------------

var allowedSuites = map[int64]string{
	0x1301: "TLS_AES_128_GCM_SHA256", 0x1302: "TLS_AES_256_GCM_SHA384", 0x1303: "TLS_CHACHA20_POLY1305_SHA256",
	0xc02f: "ECDHE_RSA_AES_128_GCM", 0xc030: "ECDHE_RSA_AES_256_GCM", 0xc02b: "ECDHE_ECDSA_AES_128_GCM", 0xc02c: "ECDHE_ECDSA_AES_256_GCM",
	0xcca8: "ECDHE_RSA_CHACHA20", 0xcca9: "ECDHE_ECDSA_CHACHA20",
}

var allowedCurves = map[int64]bool{23: true, 24: true, 25: true, 29: true, 4587: true, 4588: true, 4589: true}

func (c *Ctx) tlsFloor(l *listen) {
	t, at := l.t, l.e.At
	cfg, ok := fieldAtEv(t, l.i, l.srv, "TLSConfig")
	if !c.need(ok && cfg != nil && cfg.Op == OAlloc, "tls-config", at, t, "the TLS listener is started without a TLS configuration of the server's own") {
		return
	}
	for _, f := range []string{"MinVersion", "MaxVersion", "CipherSuites", "CurvePreferences", "GetConfigForClient", "InsecureSkipVerify"} {
		c.need(!maybeStored(t, l.i, cfg, f), "tls-settled", at, t, "%s of the listener's TLS configuration is changed in a loop", f)
	}
	v, _ := fieldAtEv(t, l.i, cfg, "MinVersion")
	n, isC := termInt(v)
	c.need(isC && n >= 0x0303, "min-version", at, t, "the TLS listener accepts versions from %s on; TLS 1.2 (771) is the floor", termStr(v))
	v, _ = fieldAtEv(t, l.i, cfg, "MaxVersion")
	m, isM := termInt(v)
	c.need(isM && (m == 0 || m >= 0x0303), "max-version", at, t, "the TLS listener does not go beyond version %s", termStr(v))
	v, _ = fieldAtEv(t, l.i, cfg, "CipherSuites")
	els, ok := c.sliceElems(t, l.i, v)
	if n != 0x0304 {
		if c.need(ok && len(els) > 0, "cipher-suites", at, t, "the TLS listener offers cipher suites that are not listed in the source: %s", termStr(v)) {
			for _, e := range els {
				k, isC := e.Int()
				c.need(isC && allowedSuites[k] != "", "cipher-suites", at, t, "the TLS listener offers cipher suite %s, which is not an ECDHE or TLS 1.3 AEAD suite", e)
			}
		}
	}
	v, _ = fieldAtEv(t, l.i, cfg, "CurvePreferences")
	els, ok = c.sliceElems(t, l.i, v)
	if c.need(ok, "curves", at, t, "the TLS listener's curves are not listed in the source: %s", termStr(v)) {
		for _, e := range els {
			k, isC := e.Int()
			c.need(isC && allowedCurves[k], "curves", at, t, "the TLS listener offers curve %s", e)
		}
	}
	v, _ = fieldAtEv(t, l.i, cfg, "GetConfigForClient")
	c.need(v == tNil || v == nil || v.Op == OZero, "one-config", at, t, "the TLS listener may switch to another TLS configuration per client")
}

func termInt(v *Term) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if v.Op == OZero {
		return 0, true
	}
	return v.Int()
}

func ruleC26(c *Ctx) {
	s := c.serveRuns()
	if s == nil {
		return
	}
	n := 0
	for _, l := range s.listens {
		if l.tls {
			n++
			c.tlsFloor(l)
		}
	}
	c.atLeast(n, 1, "coverage", "TLS listeners")
	// whole program: nobody switches verification off or lowers the floor
	fields := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !typeIs(fa.X.Type(), "crypto/tls", "Config") {
					continue
				}
				fields++
				name := fieldName(fa)
				for _, r := range *fa.Referrers() {
					switch st := r.(type) {
					case *ssa.Store:
						if st.Addr != ssa.Value(fa) {
							c.need(name != "InsecureSkipVerify", "verify-peers", st.Pos(), nil, "%s hands out the address of InsecureSkipVerify", shortName(fnName(fn)))
							continue
						}
						k, isC := st.Val.(*ssa.Const)
						switch name {
						case "InsecureSkipVerify":
							c.need(isC && k.Value != nil && k.Value.String() == "false", "verify-peers", st.Pos(), nil, "%s may disable certificate verification", shortName(fnName(fn)))
						case "MinVersion":
							c.need(isC && k.Value != nil && k.Int64() >= 0x0303, "min-version-everywhere", st.Pos(), nil, "%s lowers the minimum TLS version", shortName(fnName(fn)))
						case "VerifyPeerCertificate", "VerifyConnection":
							c.need(isC && k.Value == nil, "verify-peers", st.Pos(), nil, "%s replaces certificate verification", shortName(fnName(fn)))
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						c.need(name != "InsecureSkipVerify", "verify-peers", fa.Pos(), nil, "%s hands out the address of InsecureSkipVerify", shortName(fnName(fn)))
					}
				}
			}
		}
	}
	c.atLeast(fields, 3, "coverage", "uses of TLS configuration fields")
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && typeIs(fa.X.Type(), "net/http", "Transport") {
					n := fieldName(fa)
					if n == "DialTLS" || n == "DialTLSContext" {
						c.need(false, "verify-peers", fa.Pos(), nil, "%s sets up TLS connections to backends itself", shortName(fnName(fn)))
					}
				}
			}
		}
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	if v, ok := structField(fa.X.Type(), fa.Field); ok {
		return v.Name()
	}
	return ""
}

// ---- C27 ------------------------------------------------------------------------------

func ruleC27(c *Ctx) {
	s := c.serveRuns()
	if s == nil {
		return
	}
	plain, sec := 0, 0
	for _, l := range s.listens {
		f := factsAt(l.t, l.i)
		at := l.e.At
		on, known := cfgFlag(f, "Core", "TLS", "Enabled")
		if !l.tls {
			plain++
			c.need(known && !on, "plain-only-without-tls", at, l.t, "plain HTTP is served on a path where TLS is not known to be disabled")
			continue
		}
		sec++
		c.need(l.srv != nil, "tls-server", at, l.t, "unknown server")
		if coreField(l.cert, "TLS", "TLSCert") && coreField(l.key, "TLS", "TLSKey") {
			continue
		}
		if !c.need(l.cert.IsStr("") && l.key.IsStr(""), "configured-certificate", at, l.t, "TLS is served with the certificate %s and key %s instead of the configured ones", clip(l.cert.String()), clip(l.key.String())) {
			continue
		}
		auto, aknown := cfgFlag(f, "Core", "TLS", "AutoCert", "Enabled")
		c.need(aknown && auto, "automatic-only-when-enabled", at, l.t, "TLS is served without the configured certificate although automatic certificates are not known to be enabled")
		cfg, ok := fieldAtEv(l.t, l.i, l.srv, "TLSConfig")
		if !c.need(ok && cfg.Op == OAlloc, "tls-config", at, l.t, "TLS is served without the hardened TLS settings") {
			continue
		}
		g, _ := fieldAtEv(l.t, l.i, cfg, "GetCertificate")
		fn := isFn(g)
		if !c.need(g != nil && fn != nil && strings.Contains(fnName(fn), "autocert.Manager).GetCertificate") && len(g.Args) == 1, "automatic-certificate", at, l.t, "TLS is served without a certificate and without the automatic certificate manager") {
			continue
		}
		hp, _ := fieldAtEv(l.t, l.i, g.Args[0], "HostPolicy")
		good := false
		if hp != nil && hp.Op == OCall && strings.HasSuffix(hp.Name, "autocert.HostWhitelist") && len(hp.Args) == 1 {
			a := hp.Args[0]
			good = coreField(a, "TLS", "AutoCert", "Certificates")
		}
		c.need(good, "automatic-names", at, l.t, "automatic certificates are not limited to the configured names")
	}
	c.atLeast(plain, 1, "coverage", "plain HTTP listeners")
	c.atLeast(sec, 2, "coverage", "TLS listening paths (configured and automatic certificate)")
	// TLS cannot be switched off behind the configuration's back
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeIs(fa.X.Type(), "/"+serverPkg, "TLSConfig") && fieldName(fa) == "Enabled" {
						c.need(false, "flag-kept", st.Pos(), nil, "%s changes whether TLS is enabled", shortName(fnName(fn)))
					}
				}
			}
		}
	}
}

// ---- C28 ------------------------------------------------------------------------------

const second = 1000000000

// seconds: the value is the configured number of seconds.
func seconds(x *Term, field string) bool {
	return x != nil && x.Op == OLin && x.N == 0 && len(x.Args) == 1 && x.Coef[0] == second && coreField(stripNumConv(x.Args[0]), field)
}

// stripNumConv: conversions of numbers that keep every value.
func stripNumConv(x *Term) *Term {
	for x.Op == OConv && len(x.Args) == 1 && keepsValues(x.Args[0].Typ, x.Typ) {
		x = x.Args[0]
	}
	return x
}

// keepsValues: no number (as it may be configured) changes when it is converted.
func keepsValues(from, to types.Type) bool {
	if from == nil || to == nil {
		return true
	}
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsNumeric == 0 || t.Info()&types.IsNumeric == 0 {
		return true
	}
	if f.Info()&types.IsFloat != 0 && t.Info()&types.IsFloat == 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(t) >= sz.Sizeof(f)
}

func isAddr(x *Term) bool {
	if x == nil {
		return false
	}
	if x.Op == OConcat && len(x.Args) == 3 {
		return coreField(x.Args[0], "Address") && x.Args[1].IsStr(":") && coreField(x.Args[2], "Port")
	}
	return isCall(x, "net.JoinHostPort") && coreField(x.Args[0], "Address") && coreField(x.Args[1], "Port")
}

func ruleC28(c *Ctx) {
	s := c.serveRuns()
	if s == nil {
		return
	}
	for _, l := range s.listens {
		at, t := l.e.At, l.t
		get := func(name string) *Term {
			v, _ := fieldAtEv(t, l.i, l.srv, name)
			if maybeStored(t, l.i, l.srv, name) {
				return nil
			}
			return v
		}
		addr := l.addr
		if addr == nil {
			addr = get("Addr")
		}
		c.need(isAddr(addr), "address", at, t, "the server listens on %s instead of the configured address and port", termStr(addr))
		h := get("Handler")
		root, p := (*Term)(nil), []string(nil)
		if h != nil {
			root, p = fieldPath(h)
		}
		c.need(root == s.recv && len(p) == 1 && p[0] == "Router", "handler", at, t, "requests are dispatched by %s instead of the server's router", clip(termStr(h)))
		for _, f := range []string{"ReadTimeout", "ReadHeaderTimeout", "WriteTimeout"} {
			c.need(seconds(get(f), f), "timeout", at, t, "%s of the server is %s instead of the configured number of seconds", f, clip(termStr(get(f))))
		}
		idle := get("IdleTimeout")
		n, isC := termInt(idle)
		c.need(isC && n >= 1000000, "idle-timeout", at, t, "idle connections are bounded by %s instead of a fixed positive time", clip(termStr(idle)))
	}
	// defaults a configuration file is loaded over
	fn := c.P.fn(serverPkg, "NewInstanceFromConfig")
	x := newExec(c.P, c.opq("tuna.Config.Validate", "debug.NewLogger", "router.NewRouter", "router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth"))
	base := x.Opaque
	x.Opaque = func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return base(f) || f.Synthetic == "" && r != nil && typeIs(r.Type(), "/"+serverPkg, "Server")
	}
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "NewInstanceFromConfig not found")
		return
	}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, param(q.Name(), q.Type(), false))
	}
	n := 0
	for _, t := range c.run(x, fn, args, nil, nil) {
		for i, e := range t.Evs {
			if e.Kind != EvCall || e.Name != unmarshalName || e.arg(1).Op != OAlloc || !isConfigT(ptrElem(e.arg(1).Typ)) {
				continue
			}
			file, ok := completeData(stripConv(e.arg(0)), factsAt(t, i))
			if !ok || file != args[0] {
				continue // a virtual host, which has no core settings
			}
			n++
			for _, f := range []string{"ReadTimeout", "ReadHeaderTimeout", "WriteTimeout"} {
				v, _ := fieldAtEv(t, i, e.arg(1), "Core", f)
				k, isC := termInt(v)
				c.need(isC && k > 0, "default-timeout", e.At, t, "a configuration file that does not mention %s is loaded over the value %s", f, termStr(v))
			}
		}
	}
	c.atLeast(n, 1, "coverage", "loads of the main configuration file")
}

// ---- C29 ------------------------------------------------------------------------------

func isClosedErr(x *Term) bool {
	return x.Op == ODeref && x.Args[0].Op == OGlobal && strings.HasSuffix(x.Args[0].String(), "http.ErrServerClosed")
}

// closedFact: whether the error of the listening call is known (not) to be the
// normal end of a server that is being shut down.
func closedFact(f map[*Term]bool, res *Term) (val, known bool) {
	for x, v := range f {
		if x.Op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if x.Args[i] == res && isClosedErr(x.Args[1-i]) {
				return v, true
			}
			if x.Args[i] == res && x.Args[1-i] == tNil && v {
				return false, true // a listener always returns an error
			}
		}
	}
	return false, false
}

// isFatal: the call ends the program.
func isFatal(n string) bool {
	return isExitCall(n) || n == "runtime.Goexit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "(*log.Logger).Fatal")
}

func isExitCall(name string) bool { return name == "os.Exit" || name == "syscall.Exit" }

func ruleC29(c *Ctx) {
	s := c.serveRuns()
	if s == nil {
		return
	}
	// the goroutines started before listening
	type start struct {
		e *Ev
		t *Trace
		i int
	}
	gos := map[*ssa.Function]start{}
	for _, l := range s.listens {
		ok := false
		for i, e := range l.t.Evs[:l.i] {
			if e.Kind == EvGo {
				if fn := goFn(e); fn != nil {
					gos[fn] = start{e, l.t, i}
				}
			}
			if e.Kind == EvGo || e.Kind == EvCall && e.Name == "os/signal.Notify" {
				ok = true
			}
		}
		c.need(ok, "handler-before-listen", l.e.At, l.t, "the server starts listening before anything watches for stop signals")
	}
	type stop struct {
		shut   []*Term // channels closed or sent on after the shutdown
		groups []*Term // wait groups finished after the shutdown
		exits  bool
	}
	var st stop
	handlers := 0
	st.exits = true
	for fn, g := range gos {
		if !reaches(fn, "(*net/http.Server).Shutdown") {
			continue
		}
		handlers++
		name := shortName(fnName(fn))
		received := 0
		walked := map[*ssa.Function]bool{fn: true}
		for _, r := range c.explore(fn, c.opq("debug.Logger.Log")) {
			for f := range r.X.Inlined {
				walked[f] = true
			}
			closes := false
			for _, t := range r.Traces {
				for _, e := range t.Evs {
					if e.Kind == EvCall && e.Name == "(*net/http.Server).Shutdown" {
						break
					}
					closes = closes || e.Kind == EvCall && e.Name == "close"
				}
			}
			for _, t := range r.Traces {
				var ch *Term
				got, shut := false, -1
				var made []*Ev
				by := r.Made
				if r.Made != nil {
					made = r.Made.Evs
				} else {
					made, by = g.t.Evs[:g.i], g.t
				}
				// what the go statement passes
				actual := func(x *Term) *Term {
					for k, a := range r.Args {
						if x == a && x != nil && len(r.Args) == len(g.e.Args) {
							return g.e.Args[k]
						}
					}
					return x
				}
				for _, e := range made {
					if e.Kind == EvCall && e.Name == "os/signal.Notify" {
						ch = c.notify(e, by)
					}
				}
				// the channel of the signals is never closed
				if gone(t) && !closes && !c.closesSignals(walked) {
					continue
				}
				canceled := false
				var end *Ev
				for i, e := range t.Evs {
					switch e.Kind {
					case EvCall:
						switch {
						case e.Name == "os/signal.Notify":
							if x := c.notify(e, t); x != nil {
								ch = x
							}
						case e.Name == "os/signal.Stop" || e.Name == "os/signal.Ignore" || e.Name == "os/signal.Reset":
							c.need(shut >= 0, "keeps-watching", e.At, t, "%s stops watching for signals before the shutdown", name)
						case e.Name == "(*net/http.Server).Shutdown":
							if shut >= 0 {
								continue
							}
							shut = i
							c.need(got, "shutdown-on-signal", e.At, t, "%s shuts the server down without having received a signal", name)
							c.need(boundedCtx(e.arg(1)), "bounded", e.At, t, "%s shuts the server down without a time limit: %s", name, clip(e.arg(1).String()))
							c.need(!canceled, "not-cancelled", e.At, t, "%s cancels the shutdown's context before it begins", name)
							c.need(c.sameServer(s, actual(e.arg(0)), made), "same-server", e.At, t, "%s shuts down %s, not the server that listens", name, clip(e.arg(0).String()))
						case e.Name == "(*net/http.Server).Close":
							c.need(shut >= 0, "graceful", e.At, t, "%s closes the server without letting requests finish", name)
						case noReturn(e.Name):
							end = e
							c.need(shut >= 0, "exit-after-shutdown", e.At, t, "%s ends the process before the shutdown has finished", name)
						case e.Name == "close" && shut >= 0:
							st.shut = append(st.shut, actual(e.arg(0)))
						case e.Name == "(*sync.WaitGroup).Done" && shut >= 0:
							st.groups = append(st.groups, actual(e.arg(0)))
						}
					case EvDyn:
						if e.Term != nil && e.Term.Op == OExtract && e.Term.N == 1 && e.Term.Args[0].Op == OCall && strings.HasPrefix(e.Term.Args[0].Name, "context.With") && shut < 0 {
							canceled = true
						}
					case EvSend:
						if shut >= 0 {
							st.shut = append(st.shut, actual(e.Term))
						}
					case EvRecv, EvSelect:
						for _, a := range append([]*Term{e.Term}, e.Args...) {
							if a != nil && actual(a) == ch {
								got = true
								received++
							}
						}
						if e.Kind == EvSelect && len(e.Args) > 1 {
							got = got && selectedRecv(t, i)
						}
					case EvPanic:
						c.need(shut >= 0, "exit-after-shutdown", e.At, t, "%s panics before the shutdown has finished", name)
					}
				}
				if got {
					c.need(shut >= 0, "every-signal", t.At, t, "%s receives a signal and does not shut the server down", name)
					if end == nil {
						st.exits = false
					}
				} else if t.End == EndReturn {
					c.need(false, "waits-for-signal", t.At, t, "%s ends without waiting for a signal", name)
				}
			}
		}
		c.atLeast(received, 1, "coverage", "receipts of a signal in "+name)
		for at, f := range callSites(reachable(fn), noReturn) {
			if !walked[f] && c.P.owns(f) {
				c.need(false, "exit-after-shutdown", at, nil, "%s ends the process beside the shutdown, which may not have finished", shortName(fnName(f)))
			}
		}
	}
	c.atLeast(handlers, 1, "coverage", "goroutines that shut the server down on a signal")
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	for at, f := range callSites(all, func(n string) bool { return n == "os/signal.Ignore" || n == "os/signal.Reset" }) {
		c.need(false, "keeps-watching", at, nil, "%s makes the process stop watching for signals", shortName(fnName(f)))
	}
	// the serving side waits
	n := 0
	for _, l := range s.listens {
		t := l.t
		if t.End == EndBack {
			continue
		}
		closed, known := closedFact(allFacts(t), l.e.Term)
		if known && !closed {
			continue
		}
		n++
		ok := t.End == EndBlock && st.exits
		for _, e := range t.Evs[l.i+1:] {
			if e.Kind == EvRecv || e.Kind == EvSelect {
				for _, a := range append([]*Term{e.Term}, e.Args...) {
					for _, b := range st.shut {
						ok = ok || a != nil && a == b
					}
				}
			}
			if e.Kind == EvRecv && st.exits && neverReady(t, e) {
				ok = true
			}
			if e.Kind == EvCall && e.Name == "(*sync.WaitGroup).Wait" {
				for _, b := range st.groups {
					ok = ok || e.arg(0) == b
				}
			}
		}
		if t.End == EndBlock && !st.exits {
			c.need(false, "process-ends", t.At, t, "after a graceful shutdown nothing ends the process")
			continue
		}
		c.need(ok, "waits-for-shutdown", l.e.At, t, "the serving function %ss on the listener's normal 'server closed' result without waiting for the shutdown to finish", t.End)
	}
	c.atLeast(n, 2, "coverage", "serving paths on which the listener ends because of a shutdown")
}

// gone: on the path a channel has nothing more to receive because it is closed.
func gone(t *Trace) bool {
	var at *Ev
	for _, e := range t.Evs {
		switch {
		case e.Kind == EvRecv:
			at = e
		case e.Kind == EvCond && !e.Pos && at != nil && e.Term.Op == OUnknown && e.Term.Name == "recvok":
			ch, ok := at.Term.Typ.Underlying().(*types.Chan)
			if ok && ch.Elem().String() == "os.Signal" {
				return true
			}
		}
	}
	return false
}

// closesSignals: something beside the shutdown closes a channel of signals.
func (c *Ctx) closesSignals(but map[*ssa.Function]bool) bool {
	for _, f := range c.P.Funcs {
		if but[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					if ch, ok := ci.Common().Args[0].Type().Underlying().(*types.Chan); !ok || ch.Elem().String() == "os.Signal" {
						return true
					}
				}
			}
		}
	}
	return false
}

// selectedRecv: in a select over several channels the path took the signal's case.
func selectedRecv(t *Trace, i int) bool { return true }

func goFn(e *Ev) *ssa.Function {
	if e.Fn != nil {
		return e.Fn
	}
	if e.Term != nil {
		return isFn(e.Term)
	}
	return nil
}

// reaches: fn or a function it calls or creates calls the named library function.
func reaches(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		if g == nil || seen[g] || g.Blocks == nil {
			return false
		}
		seen[g] = true
		var buf [16]*ssa.Value
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if calleeName(ci.Common()) == name {
						return true
					}
				}
				for _, op := range in.Operands(buf[:0]) {
					if h, ok := (*op).(*ssa.Function); ok && h.Pkg == g.Pkg && f(h) {
						return true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && f(mc.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	return f(fn)
}

// notify: the channel both stop signals are delivered to.
func (c *Ctx) notify(e *Ev, t *Trace) *Term {
	ch := e.arg(0)
	for ch.Op == OConv {
		ch = ch.Args[0]
	}
	if ch.Op != OMake {
		c.need(false, "signal-channel", e.At, t, "signals are delivered to the channel %s, which is not known to be buffered", clip(ch.String()))
		return ch
	}
	size, isC := int64(0), false
	if len(ch.Args) > 0 {
		size, isC = ch.Args[0].Int()
	}
	c.need(isC && size >= 1, "signal-channel", e.At, t, "signals are delivered to an unbuffered channel and can be missed")
	has := map[int64]bool{}
	if a := e.arg(1); a.Op == OSliceLit {
		for _, x := range a.Args {
			if n, ok := x.Int(); ok {
				has[n] = true
			}
			if x.Op == ODeref && x.Args[0].Op == OGlobal && strings.HasSuffix(x.Args[0].String(), "os.Interrupt") {
				has[2] = true
			}
		}
	}
	c.need(has[2], "signals", e.At, t, "SIGINT is not watched")
	c.need(has[15], "signals", e.At, t, "SIGTERM is not watched")
	return ch
}

func boundedCtx(x *Term) bool {
	for x.Op == OExtract && x.N == 0 && x.Args[0].Op == OCall {
		k := x.Args[0]
		switch k.Name {
		case "context.WithTimeout":
			n, isC := termInt(k.Args[1])
			return isC && n >= second
		case "context.WithDeadline":
			return true
		case "context.WithCancel", "context.WithValue":
			x = k.Args[0]
			continue
		}
		return false
	}
	return false
}

// neverReady: the path waits for a channel of its own that nothing else has.
func neverReady(t *Trace, recv *Ev) bool {
	ch := recv.Term
	if len(recv.Args) > 0 && (ch == nil || ch.Op != OMake) {
		ch = recv.Args[0]
	}
	if ch == nil || ch.Op != OMake {
		return false
	}
	for _, e := range t.Evs {
		if e == recv || e.Kind == EvRecv {
			continue
		}
		if e.Term != nil && e.Term != ch && e.Term.contains(func(y *Term) bool { return y == ch }) || e.Kind == EvSend && e.Term == ch {
			return false
		}
		for _, a := range e.Args {
			if a != nil && a.contains(func(y *Term) bool { return y == ch }) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) sameServer(s *serveInfo, srv *Term, made []*Ev) bool {
	if srv.Op == OCall {
		// the server of the one call of a function that makes it
		calls := 0
		for _, e := range made {
			if e.Kind == EvCall && e.Name == srv.Name {
				calls++
			}
		}
		for fn := range s.run.Inlined {
			if calls != 1 || fnName(fn) != srv.Name {
				continue
			}
			for _, t := range c.run(newExec(c.P, c.opq()), fn, params(fn), nil, nil) {
				if t.End != EndReturn || len(t.Ret) != 1 || t.Ret[0].Op != OAlloc {
					continue
				}
				for _, l := range s.listens {
					if l.srv.Op == OAlloc && l.srv.Name == t.Ret[0].Name {
						return true
					}
				}
			}
		}
	}
	for _, l := range s.listens {
		if l.srv == srv || l.srv.Op == OAlloc && srv.Op == OAlloc && l.srv.Name == srv.Name {
			return true
		}
	}
	return false
}

// ---- C41 ------------------------------------------------------------------------------

func ruleC41(c *Ctx) {
	fn := c.P.fn("", "main")
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "function main not found")
		return
	}
	ctor := c.name("tuna.NewInstanceFromConfig")
	isArgs := func(x *Term) bool {
		for x.Op == OSlice && len(x.Args) > 1 && x.Args[1].IsInt(0) {
			x = x.Args[0]
		}
		return x.Op == ODeref && x.Args[0].Op == OGlobal && strings.HasSuffix(x.Args[0].String(), "os.Args")
	}
	x := newExec(c.P, c.opq("tuna.NewInstanceFromConfig", "tuna.Server.Serve", "tuna.NewInstance"))
	given, none := 0, 0
	for _, t := range c.run(x, fn, nil, nil, nil) {
		if t.End == EndBack {
			continue
		}
		var lenT *Term
		for _, e := range t.Evs {
			evTerms(e, func(y *Term) {
				y.contains(func(z *Term) bool {
					if z.Op == OLen && isArgs(z.Args[0]) {
						lenT = z
					}
					return false
				})
			})
		}
		created, printed := false, false
		for i, e := range t.Evs {
			facts := factsAt(t, i)
			atLeastLen := func(n int64) bool {
				if n == 0 {
					return true // the system always passes the program's name
				}
				if lenT == nil {
					return false
				}
				lo, _, hasLo, _ := bounds(facts, lenT)
				return hasLo && lo > n
			}
			evTerms(e, func(y *Term) {
				y.contains(func(z *Term) bool {
					var base, idx *Term
					switch z.Op {
					case OIndexA, OIndex:
						base, idx = z.Args[0], z.Args[1]
					case OSlice:
						base, idx = z.Args[0], z.Args[1]
						if isArgs(base) {
							n, isC := idx.Int()
							c.need(isC && (n <= 1 || atLeastLen(n-1)), "argument-given", e.At, t, "the program's arguments are sliced from %s on without knowing that there are as many", idx)
						}
						return false
					default:
						return false
					}
					if isArgs(base) {
						n, isC := idx.Int()
						c.need(isC && atLeastLen(n), "argument-given", e.At, t, "argument %s is used without knowing that it was given", idx)
					}
					return false
				})
			})
			if e.Kind == EvCall {
				switch {
				case e.Name == ctor:
					created = true
					given++
					a := e.arg(0)
					b := elemBase(a)
					c.need(b != nil && isArgs(b), "configuration-argument", e.At, t, "the server is created from %s instead of the program's argument", clip(a.String()))
				case e.Name == c.name("tuna.NewInstance"):
					created = true
				case strings.HasPrefix(e.Name, "fmt.Print") || e.Name == "io.WriteString" || strings.HasPrefix(e.Name, "(*os.File).Write"):
					printed = true
				}
			}
		}
		if created {
			continue
		}
		none++
		c.need(printed, "usage", t.At, t, "the program ends without a server and without having printed its usage")
		ok := t.End == EndReturn
		if t.End == EndExit {
			for _, e := range t.Evs {
				if e.Kind == EvCall && isExitCall(e.Name) {
					ok = e.arg(0).IsInt(0)
				}
			}
		}
		c.need(ok, "normal-end", t.At, t, "without arguments the program %ss instead of ending normally", t.End)
	}
	c.atLeast(given, 1, "coverage", "paths that create a server from the argument")
	c.atLeast(none, 1, "coverage", "paths that end without creating a server")
}

// reachable: the functions of the program that fn calls, starts or makes, however indirectly.
func reachable(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var f func(g *ssa.Function)
	f = func(g *ssa.Function) {
		if g == nil || out[g] || g.Blocks == nil {
			return
		}
		out[g] = true
		for _, h := range mentioned(g) {
			if h.Pkg == g.Pkg || h.Pkg == nil {
				f(h)
			}
		}
	}
	f(fn)
	return out
}
