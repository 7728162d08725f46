package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "Path-sensitive refusal analysis: every path on which validation accepts must have established the opposite of some part of each forbidden condition; value-flow of every configuration stored in a server back to a completed load and the validation that followed it", ruleC30)
}

// ---- validation of a configuration --------------------------------------------------

// validateRuns explores Config.Validate; a refusal ends the process.
func (c *Ctx) validateRuns() []*Trace {
	m := c.P.method(serverPkg, "Config", "Validate")
	if m == nil {
		c.need(false, "anchor", token.NoPos, nil, "Config.Validate not found")
		return nil
	}
	return c.run(newExec(c.P, c.opq()), m, params(m), nil, nil)
}

// ownField: a field of the configuration being validated.
func ownField(t *Term, names ...string) bool {
	root, p := fieldPath(t)
	if root.Op != OParam || len(p) != len(names) {
		return false
	}
	for i := range p {
		if p[i] != names[i] {
			return false
		}
	}
	return true
}

// truth of a statement about the configuration: 1 established, -1 refuted, 0 unknown.
type atom struct {
	text string
	eval func(f map[*Term]bool) int
}

func verdict(v, known bool) int {
	if !known {
		return 0
	}
	if v {
		return 1
	}
	return -1
}

func cfgFlagIs(names ...string) atom {
	return atom{strings.Join(names, "."), func(f map[*Term]bool) int {
		for x, v := range f {
			if ownField(x, names...) {
				return verdict(v, true)
			}
		}
		return 0
	}}
}

// vhostParam: the validated configuration is the one of a virtual host.
var vhostParam = atom{"virtual host", func(f map[*Term]bool) int {
	for x, v := range f {
		if x.Op == OParam && isBoolT(x.Typ) {
			return verdict(v, true)
		}
	}
	return 0
}}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func not(a atom) atom {
	return atom{"not " + a.text, func(f map[*Term]bool) int { return -a.eval(f) }}
}

// emptyFact: whether the value sel picks out is known to be empty.
func emptyFact(f map[*Term]bool, sel func(*Term) bool) int {
	// a trimmed text is empty or not only together with what remains of it
	same := func(x *Term) bool {
		for x.Op == OCall && (x.Name == "strings.TrimSpace" || x.Name == "strings.Trim") {
			x = x.Args[0]
		}
		return sel(x)
	}
	for x, v := range f {
		switch x.Op {
		case OEq:
			for i := 0; i < 2; i++ {
				a, b := x.Args[i], x.Args[1-i]
				if a.Op == OLen && sel(a.Args[0]) || sel(a) {
					if b == tNil && !v {
						continue // an empty table need not be nil
					}
					if b.IsStr("") || b.IsInt(0) || b == tNil {
						return verdict(v, true)
					}
					if v && b.IsConst() {
						return -1
					}
				}
				if (same(a) || a.Op == OLen && same(a.Args[0])) && (b.IsStr("") || b.IsInt(0)) && !v {
					return -1
				}
			}
		case OCall:
			if v && (x.Name == "strings.HasSuffix" || x.Name == "strings.HasPrefix") && len(x.Args) == 2 && sel(x.Args[0]) && !x.Args[1].IsStr("") && x.Args[1].IsConst() {
				return -1
			}
		}
	}
	return 0
}

func empty(names ...string) atom {
	return atom{strings.Join(names, ".") + " empty", func(f map[*Term]bool) int {
		return emptyFact(f, func(x *Term) bool { return ownField(x, names...) })
	}}
}

// is: the field equals a constant text.
func is(val string, names ...string) atom {
	return atom{strings.Join(names, ".") + " is " + val, func(f map[*Term]bool) int {
		for x, v := range f {
			if x.Op != OEq {
				continue
			}
			for i := 0; i < 2; i++ {
				if ownField(x.Args[i], names...) && x.Args[1-i].IsConst() {
					if x.Args[1-i].IsStr(val) {
						return verdict(v, true)
					}
					if v {
						return -1
					}
				}
			}
		}
		if val != "" && emptyFact(f, func(x *Term) bool { return ownField(x, names...) }) == 1 {
			return -1
		}
		return 0
	}}
}

func negative(names ...string) atom {
	return atom{strings.Join(names, ".") + " negative", func(f map[*Term]bool) int {
		for x := range f {
			hit := (*Term)(nil)
			x.contains(func(y *Term) bool {
				if ownField(y, names...) {
					hit = y
				}
				return hit != nil
			})
			if hit == nil {
				continue
			}
			if lo, hi, hasLo, hasHi := bounds(f, hit); hasLo && lo >= 0 {
				return -1
			} else if hasHi && hi < 0 {
				return 1
			}
		}
		return 0
	}}
}

type clause struct {
	rule string
	text string
	when []atom
}

var hostsOnly = atom{"only virtual hosts", func(f map[*Term]bool) int {
	a, b := vhostParam.eval(f), cfgFlagIs("Core", "VirtualHosting").eval(f)
	switch {
	case a == -1 && b == 1:
		return 1
	case a == 1 || b == -1:
		return -1
	}
	return 0
}}

var clauseServeDir = clause{"refuse-serve-dir", "a file-serving site without directory", []atom{not(hostsOnly), not(cfgFlagIs("Proxy", "Enabled")), not(empty("Serve", "Methods")), empty("Serve", "ServeDir")}}
var clauseDownloadDir = clause{"refuse-download", "a download site without directory", []atom{not(hostsOnly), not(cfgFlagIs("Proxy", "Enabled")), cfgFlagIs("Serve", "Download", "Enabled"), empty("Serve", "ServeDir")}}

var configClauses = []clause{
	{"refuse-port", "no port", []atom{not(vhostParam), empty("Core", "Port")}},
	{"refuse-log-output", "no log output", []atom{not(vhostParam), empty("Core", "LogOut")}},
	{"refuse-log-level", "a negative log level", []atom{not(vhostParam), negative("Core", "LogLevel")}},
	{"refuse-file-dir", "a blank FileDir", []atom{not(vhostParam), empty("Core", "FileDir")}},
	{"refuse-file-dir", "the FileDir '/'", []atom{not(vhostParam), is("/", "Core", "FileDir")}},
	{"refuse-tls", "TLS without a certificate", []atom{not(vhostParam), cfgFlagIs("Core", "TLS", "Enabled"), not(cfgFlagIs("Core", "TLS", "AutoCert", "Enabled")), empty("Core", "TLS", "TLSCert")}},
	{"refuse-tls", "TLS without a key", []atom{not(vhostParam), cfgFlagIs("Core", "TLS", "Enabled"), not(cfgFlagIs("Core", "TLS", "AutoCert", "Enabled")), empty("Core", "TLS", "TLSKey")}},
	{"refuse-autocert", "automatic certificates without names", []atom{not(vhostParam), cfgFlagIs("Core", "TLS", "Enabled"), cfgFlagIs("Core", "TLS", "AutoCert", "Enabled"), empty("Core", "TLS", "AutoCert", "Certificates")}},
	{"refuse-autocert", "automatic certificates on a port other than 443", []atom{not(vhostParam), cfgFlagIs("Core", "TLS", "Enabled"), cfgFlagIs("Core", "TLS", "AutoCert", "Enabled"), not(is("443", "Core", "Port"))}},
	{"refuse-hosts", "virtual hosting without hosts", []atom{hostsOnly, empty("Core", "VirtualHosts")}},
	{"refuse-nested-hosts", "virtual hosting inside a virtual host", []atom{vhostParam, cfgFlagIs("Core", "VirtualHosting")}},
	clauseDownloadDir,
	{"refuse-download", "a download site without index", []atom{not(hostsOnly), not(cfgFlagIs("Proxy", "Enabled")), cfgFlagIs("Serve", "Download", "Enabled"), empty("Serve", "ServeIndex")}},
	clauseServeDir,
	{"refuse-proxy", "a proxy without rules", []atom{not(hostsOnly), cfgFlagIs("Proxy", "Enabled"), empty("Proxy", "Rules")}},
}

// refuses: no path accepts a configuration that meets the whole forbidden condition.
func (c *Ctx) refuses(rule string, cl ...clause) []*Trace {
	runs := c.validateRuns()
	var acc []*Trace
	for _, t := range runs {
		if t.End == EndReturn {
			acc = append(acc, t)
		}
		if t.End == EndBack || t.End == EndExit || t.End == EndPanic {
			continue
		}
	}
	c.atLeast(len(acc), 1, "coverage", "accepting paths of the validation")
	for _, k := range cl {
		r := rule
		if r == "" {
			r = k.rule
		}
		for _, t := range acc {
			f := allFacts(t)
			out := false
			for _, a := range k.when {
				if a.eval(f) < 0 {
					out = true
				}
			}
			c.need(out, r, t.At, t, "validation accepts %s", k.text)
		}
	}
	return acc
}

func ruleC30(c *Ctx) {
	acc := c.refuses("", configClauses...)
	// no blank entry among the virtual hosts
	for _, t := range acc {
		f := allFacts(t)
		if hostsOnly.eval(f) < 0 {
			continue
		}
		ok := false
		for i, e := range t.Evs {
			if e.Kind != EvLoopHead || e.Loop == nil {
				continue
			}
			if c.everyEntry(t, i, e.Loop) {
				ok = true
			}
		}
		c.need(ok, "refuse-blank-host", t.At, t, "validation accepts virtual hosting without having looked at every host entry for a blank one")
	}
	c.validatedConfigs()
}

// everyEntry: the loop goes through all virtual hosts and only continues past an
// entry that is not blank.
func (c *Ctx) everyEntry(t *Trace, i int, l *LoopInfo) bool {
	out := false
	for _, e := range t.Evs[i:] {
		if e.Kind == EvLoopOut && e.Loop == l && e.Pos {
			out = true
		}
	}
	var m *Term
	for x, v := range allFacts(t) {
		if !v && x.Op == ORangeOk && ownField(x.Args[0], "Core", "VirtualHosts") {
			m = x.Args[0]
		}
	}
	if !out || m == nil || !l.ranges(m) || len(l.Backs) == 0 {
		return false
	}
	for _, b := range l.Backs {
		if b.Tr == nil || emptyFact(allFacts(b.Tr), func(x *Term) bool {
			return x.Op == OLookup && x.Args[0] == m && x.Args[1].Op == ORangeKey
		}) != -1 {
			return false
		}
	}
	return true
}

// ---- where the configurations of a server come from ----------------------------------

const unmarshalName = "github.com/hashicorp/hcl.Unmarshal"

// outOf: the content of an object after it was handed to the named function.
func outOf(v *Term, name string) (obj, call *Term, ok bool) {
	if v.Op == OLoopMem && v.Name == "out:"+name && len(v.Args) == 2 {
		return v.Args[0], v.Args[1], true
	}
	return nil, nil, false
}

// completeData: the text that was read is the whole content of the named file and
// reading it succeeded.
func completeData(d *Term, f map[*Term]bool) (file *Term, ok bool) {
	if d.Op != OExtract || d.N != 0 || d.Args[0].Op != OCall {
		return nil, false
	}
	call := d.Args[0]
	okErr := holdsNil(f, call, 1)
	switch call.Name {
	case "io/ioutil.ReadFile", "os.ReadFile":
		return call.Args[0], okErr
	case "io/ioutil.ReadAll", "io.ReadAll":
		o := stripConv(call.Args[0])
		if o.Op == OExtract && o.N == 0 && isCall(o.Args[0], "os.Open") {
			return o.Args[0].Args[0], okErr && holdsNil(f, o.Args[0], 1)
		}
	}
	return nil, false
}

// holdsNil: component i of the call's result is known to be nil.
func holdsNil(f map[*Term]bool, call *Term, i int64) bool {
	for x, v := range f {
		if v && x.Op == OEq {
			for k := 0; k < 2; k++ {
				y := x.Args[k]
				if x.Args[1-k] == tNil && y.Op == OExtract && y.N == i && y.Args[0] == call {
					return true
				}
			}
		}
	}
	return false
}

// validated: the configuration is what a completed load of file and a validation
// with the given flag left, and nothing was done in between.
func (c *Ctx) validated(t *Trace, upto int, v *Term, isVhost bool) (file *Term, why string) {
	vname := c.name("tuna.Config.Validate")
	obj, call, ok := outOf(v, vname)
	if !ok {
		return nil, "is not the result of a validation"
	}
	if call.Op != OCall || len(call.Args) != 3 || call.Args[0] != obj {
		return nil, "was validated in an unknown way"
	}
	if want := map[bool]*Term{true: tTrue, false: tFalse}[isVhost]; call.Args[2] != want {
		return nil, "was validated as the wrong kind of configuration"
	}
	facts := factsAt(t, upto)
	var loaded *Term
	for i := 0; i < upto && i < len(t.Evs); i++ {
		e := t.Evs[i]
		if e.Kind != EvCall {
			continue
		}
		if e.Name == unmarshalName && e.arg(1) == obj {
			if loaded != nil {
				return nil, "is loaded more than once"
			}
			loaded = e.Term
			d := stripConv(e.arg(0))
			ff, ok := completeData(d, facts)
			if !ok {
				return nil, "is not loaded from a completely read file"
			}
			file = ff
		}
		if e.Term == call && loaded == nil {
			return nil, "is validated before it is loaded"
		}
	}
	if loaded == nil {
		return nil, "is not loaded from a file"
	}
	if !holds(facts, mkEq(loaded, tNil)) {
		return nil, "is used although parsing it may have failed"
	}
	return file, ""
}

// unvalidated: the value depends on a loaded configuration that is not validated.
func unvalidated(x *Term) bool {
	return x != nil && x.contains(func(y *Term) bool {
		_, _, ok := outOf(y, unmarshalName)
		return ok
	})
}

func (c *Ctx) validatedConfigs() {
	vname := c.name("tuna.Config.Validate")
	sites := map[token.Pos]bool{}
	for _, ctor := range []struct {
		name     string
		fromFile bool
	}{{"NewInstanceFromConfig", true}, {"NewInstance", false}} {
		fn := c.P.fn(serverPkg, ctor.name)
		if fn == nil {
			c.need(false, "anchor", token.NoPos, nil, "%s not found", ctor.name)
			continue
		}
		x := newExec(c.P, c.opq("tuna.Config.Validate", "debug.NewLogger", "router.NewRouter", "router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth"))
		x.OpaqueWrites = isConfigT
		x.Opaque = func(base func(*ssa.Function) bool) func(*ssa.Function) bool {
			return func(f *ssa.Function) bool {
				if base(f) {
					return true
				}
				// methods of the server only see the finished server
				r := f.Signature.Recv()
				return f.Synthetic == "" && r != nil && typeIs(r.Type(), "/"+serverPkg, "Server")
			}
		}(x.Opaque)
		var args []*Term
		for _, q := range fn.Params {
			args = append(args, param(q.Name(), q.Type(), false))
		}
		n := 0
		for _, t := range c.run(x, fn, args, nil, nil) {
			ret := t.End == EndReturn
			for i, e := range t.Evs {
				switch e.Kind {
				case EvMapSet:
					if e.Name != "delete" && isConfigT(mapElem(e.Term.Typ)) {
						sites[e.At] = true
						file, why := c.validated(t, i, e.arg(1), true)
						if !c.need(why == "", "vhost-validated", e.At, t, "the virtual host configuration stored here %s", why) {
							continue
						}
						k := e.arg(0)
						c.need(k.Op == ORangeKey && cfgTail(k.Args[0], "VirtualHosts") && isElem(file, k.Args[0], k), "vhost-own-file", e.At, t, "the configuration of virtual host %s is loaded from %s, not from the file configured for it", clip(k.String()), clip(file.String()))
					}
				case EvCall, EvStore, EvCond, EvGo, EvDyn:
					bad := false
					for _, a := range append([]*Term{}, e.Args...) {
						if unvalidated(a) && !(e.Kind == EvCall && e.Name == vname) {
							bad = true
						}
					}
					if e.Kind == EvCond && unvalidated(e.Term) {
						bad = true
					}
					c.need(!bad, "no-use-before-validation", e.At, t, "a loaded configuration is used here before it was validated")
				}
			}
			if !ret || len(t.Ret) != 1 {
				continue
			}
			n++
			if ctor.fromFile {
				fa := mkFieldAddrByName(t.Ret[0], "Cfg")
				cfg := x.load(t.St, fa, ptrElem(fa.Typ))
				file, why := c.validated(t, len(t.Evs), cfg, false)
				if c.need(why == "", "server-config-validated", t.At, t, "the configuration of the returned server %s", why) {
					c.need(file == args[0], "server-config-file", t.At, t, "the configuration is loaded from %s, not from the named file", clip(file.String()))
				}
			}
			// every virtual host is loaded
			f := allFacts(t)
			on, known := false, false
			for y, v := range f {
				if cfgTail(y, "VirtualHosting") {
					on, known = v, true
				}
			}
			if c.need(known, "vhosts-decided", t.At, t, "a server is created without asking whether virtual hosting is enabled"); known && on {
				ok := false
				for i, e := range t.Evs {
					if e.Kind == EvLoopHead && e.Loop != nil && allHostsLoaded(t, i, e.Loop) {
						ok = true
					}
				}
				c.need(ok, "every-vhost-loaded", t.At, t, "a server with virtual hosting is created without loading the configuration of every host")
			}
		}
		c.atLeast(n, 1, "coverage", "paths of "+ctor.name+" that create a server")
	}
	// no other place adds a virtual host configuration
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isConfigT(mapElem(mu.Map.Type())) {
					c.need(sites[mu.Pos()], "vhost-sites-covered", mu.Pos(), nil, "a virtual host configuration is stored in %s outside the constructors", shortName(fnName(fn)))
				}
				if st, ok := in.(*ssa.Store); ok && fn.Name() != "NewInstance" && fn.Name() != "NewInstanceFromConfig" {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeIs(fa.X.Type(), "/"+serverPkg, "Server") && isConfigT(st.Val.Type()) && c.P.relOf(fn) != "debug" {
						_, fresh := fa.X.(*ssa.Alloc)
						c.need(fresh, "config-replaced", st.Pos(), nil, "%s replaces the configuration of a server", shortName(fnName(fn)))
					}
				}
			}
		}
	}
}

func allHostsLoaded(t *Trace, i int, l *LoopInfo) bool {
	out := false
	for _, e := range t.Evs[i:] {
		if e.Kind == EvLoopOut && e.Loop == l && e.Pos {
			out = true
		}
	}
	if !out || len(l.Backs) == 0 {
		return false
	}
	for _, b := range l.Backs {
		set := false
		for _, e := range bodyEvs(l, b) {
			if e.Kind == EvMapSet && e.Name != "delete" && isConfigT(mapElem(e.Term.Typ)) && e.arg(0).Op == ORangeKey && cfgTail(e.arg(0).Args[0], "VirtualHosts") {
				set = true
			}
		}
		if !set {
			return false
		}
	}
	return true
}

// cfgTail: the value is the named part of some configuration.
func cfgTail(t *Term, names ...string) bool { return fieldIs(t, names...) }

func mkFieldAddrByName(base *Term, name string) *Term {
	et := ptrElem(base.Typ)
	if et == nil {
		return base
	}
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		return base
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(base, et, i)
		}
	}
	return base
}
