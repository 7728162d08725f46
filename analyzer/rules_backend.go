package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C62", "Value-flow into the transport of every new server on every path of its constructors (limits of dialing, TLS handshake, response headers and idle connections), who else stores to it, and which transport every upstream call uses", ruleC62)
	register("C63", "Schema check of the configuration types against the documented settings (name a file may use, type, no other field of that name), and use analysis of every setting outside validation", ruleC63)
}

// ---- C62 -------------------------------------------------------------------------------

func isTransport(t types.Type) bool { return t != nil && typeIs(t, "net/http", "Transport") }

// makesTransport: functions that set up a transport.
func makesTransport(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if isTransport(ptrElem(fa.X.Type())) || typeIs(ptrElem(fa.X.Type()), "net", "Dialer") {
					return true
				}
				if typeIs(ptrElem(fa.X.Type()), "/"+serverPkg, "Server") && fieldName(fa) == "Transport" {
					for _, r := range refsOf(fa) {
						if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func upstreamCall(n string) bool {
	switch n {
	case "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip", "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm",
		"net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm", "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "crypto/tls.Dial", "crypto/tls.DialWithDialer":
		return true
	}
	return false
}

func ruleC62(c *Ctx) {
	makes := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if makesTransport(fn) {
			makes[fn] = true
		}
	}
	up := callersOf(c.P, makes)
	seen := map[*ssa.Function]bool{}
	made := 0
	for _, name := range []string{"NewInstance", "NewInstanceFromConfig"} {
		fn := c.P.fn(serverPkg, name)
		if fn == nil {
			c.need(false, "anchor", token.NoPos, nil, "%s not found", name)
			continue
		}
		x := newExec(c.P, c.opq("tuna.Config.Validate", "debug.NewLogger", "router.NewRouter", "router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth"))
		base := x.Opaque
		x.Opaque = func(f *ssa.Function) bool {
			r := f.Signature.Recv()
			return base(f) || f.Synthetic == "" && r != nil && typeIs(r.Type(), "/"+serverPkg, "Server") && !up[f]
		}
		var args []*Term
		for _, q := range fn.Params {
			args = append(args, param(q.Name(), q.Type(), false))
		}
		for _, t := range c.run(x, fn, args, nil, nil) {
			if t.End != EndReturn || len(t.Ret) == 0 {
				continue
			}
			n := len(t.Evs)
			srv := t.Ret[0]
			if srv == tNil {
				continue
			}
			v, _ := fieldAtEv(t, n, srv, "Transport")
			var tr *Term
			if v != nil {
				tr = stripConv(v)
			}
			if !c.need(tr != nil && tr.Op == OAlloc && isTransport(ptrElem(tr.Typ)) && !maybeStored(t, n, srv, "Transport"), "own-transport", fn.Pos(), t, "the transport of a new server is %s, not one made for it", clipT(v)) {
				continue
			}
			made++
			get := func(o *Term, f string) *Term {
				w, _ := fieldAtEv(t, n, o, f)
				if maybeStored(t, n, o, f) {
					return nil
				}
				return w
			}
			positive := func(o *Term) bool {
				k, isC := termInt(o)
				return isC && k > 0
			}
			at := fn.Pos()
			for _, e := range t.Evs {
				if e.Kind == EvStore && e.Term.Op == OField && e.Term.Args[0] == tr {
					at = e.At
				}
			}
			h := get(tr, "ResponseHeaderTimeout")
			c.need(secondsOf(h, "ReadHeaderTimeout"), "header-wait", at, t, "the wait for the headers of a backend is limited by %s instead of the configured number of seconds", clipT(h))
			c.need(positive(get(tr, "TLSHandshakeTimeout")), "handshake", at, t, "the TLS handshake with a backend is limited by %s instead of a fixed positive time", clipT(get(tr, "TLSHandshakeTimeout")))
			if idle := get(tr, "IdleConnTimeout"); !positive(idle) {
				c.need(get(tr, "DisableKeepAlives") == tTrue, "idle", at, t, "idle connections to backends are kept for %s instead of a fixed positive time", clipT(idle))
			} else {
				c.need(true, "idle", at, t, "")
			}
			d := get(tr, "DialContext")
			if d == nil || d == tNil || d.Op == OZero {
				d = get(tr, "Dial")
			}
			c.need(c.dials(t, d, positive), "dial", at, t, "connecting to a backend (%s) isn't limited to a fixed positive time", clipT(d))
		}
		for f := range x.Inlined {
			seen[f] = true
		}
		seen[fn] = true
	}
	c.atLeast(made, 2, "coverage", "transports of new servers")
	// nothing else replaces the transport or its limits
	for fn := range makes {
		c.need(seen[fn] || seen[fn.Parent()], "kept", fn.Pos(), nil, "%s changes how backends are reached, outside the construction of a server", shortName(fnName(fn)))
	}
	// every call of a backend uses that transport
	n := 0
	for at, f := range callSites(c.P.requestFuncs(), upstreamCall) {
		n++
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, is := in.(ssa.CallInstruction)
				if !is || in.Pos() != at || !ci.Common().IsInvoke() {
					continue
				}
				ok = c.P.serverTransport(ci.Common().Value, 0)
			}
		}
		c.need(ok, "used", at, nil, "%s contacts a backend over something else than the server's transport", shortName(fnName(f)))
	}
	c.atLeast(n, 1, "coverage", "calls of backends")
}

// serverTransport: the value is what the Transport field of the server holds.
func (p *Program) serverTransport(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return typeIs(ptrElem(a.X.Type()), "/"+serverPkg, "Server") && fieldName(a) == "Transport"
		case *ssa.Alloc:
			n := 0
			for _, r := range refsOf(a) {
				if s, ok := r.(*ssa.Store); ok {
					n++
					if s.Addr != a || !p.serverTransport(s.Val, depth+1) {
						return false
					}
				}
			}
			return n > 0
		case *ssa.FreeVar:
			fn := a.Parent()
			k := -1
			for i, fv := range fn.FreeVars {
				if fv == a {
					k = i
				}
			}
			n := 0
			for _, r := range refsOf(fn) {
				mc, ok := r.(*ssa.MakeClosure)
				if !ok {
					return false
				}
				al, ok := mc.Bindings[k].(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, q := range refsOf(al) {
					if s, ok := q.(*ssa.Store); ok {
						n++
						if s.Addr != al || !p.serverTransport(s.Val, depth+1) {
							return false
						}
					}
				}
			}
			return n > 0
		}
	case *ssa.Field:
		return typeIs(x.X.Type(), "/"+serverPkg, "Server") && x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == "Transport"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.serverTransport(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(ret.Results) != 1 || !p.serverTransport(ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		fn, n := x.Parent(), 0
		for k, q := range fn.Params {
			if q != x {
				continue
			}
			for _, g := range p.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
							n++
							if !p.serverTransport(ci.Common().Args[k], depth+1) {
								return false
							}
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// secondsOf: the setting of that name, as a number of seconds.
func secondsOf(x *Term, field string) bool {
	if x == nil || x.Op != OLin || x.N != 0 || len(x.Args) != 1 || x.Coef[0] != second {
		return false
	}
	v := stripNumConv(x.Args[0])
	return v.Op == OSel && v.Name == field || v.Op == ODeref && v.Args[0].Op == OField && v.Args[0].Name == field
}

// dials: the function gives up connecting after a fixed positive time.
func (c *Ctx) dials(t *Trace, d *Term, positive func(*Term) bool) bool {
	if d == nil {
		return false
	}
	d = stripConv(d)
	f := isFn(d)
	if f == nil {
		return false
	}
	limited := func(tr *Trace, upto int, dialer *Term) bool {
		for _, x := range []*Trace{tr, t} {
			if x == nil || dialer.Op != OAlloc {
				continue
			}
			k := len(x.Evs)
			if x == tr {
				k = upto
			}
			if v, ok := fieldAtEv(x, k, dialer, "Timeout"); ok {
				return positive(v) && !maybeStored(x, k, dialer, "Timeout")
			}
		}
		return false
	}
	if n := fnName(f); strings.HasPrefix(n, "(*net.Dialer).Dial") && len(d.Args) == 1 {
		return limited(nil, 0, d.Args[0])
	}
	if !c.P.owns(f) {
		return false
	}
	st := onlyConds(t.St)
	var as []*Term
	for _, q := range f.Params {
		as = append(as, param(q.Name(), q.Type(), false))
	}
	n := 0
	for _, u := range c.runTerm(newExec(c.P, c.opq()), d, as, st) {
		for i, e := range u.Evs {
			if e.Kind != EvCall {
				continue
			}
			switch {
			case strings.HasPrefix(e.Name, "(*net.Dialer).Dial"):
				n++
				if !limited(u, i, e.arg(0)) {
					return false
				}
			case e.Name == "net.DialTimeout":
				n++
				if !positive(e.arg(2)) {
					return false
				}
			case strings.HasPrefix(e.Name, "net.Dial"), strings.HasPrefix(e.Name, "crypto/tls.Dial"):
				return false
			}
		}
	}
	return n > 0
}

// callersOf: the functions from which one of the functions can be reached.
func callersOf(p *Program, set map[*ssa.Function]bool) map[*ssa.Function]bool {
	up := map[*ssa.Function]bool{}
	for f := range set {
		up[f] = true
	}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			for _, g := range mentioned(fn) {
				if up[g] && !up[fn] {
					up[fn], again = true, true
				}
			}
		}
	}
	return up
}

// ---- C63 -------------------------------------------------------------------------------

// settings: what a configuration file can say (path, type).
var settings = []struct{ path, typ string }{
	{"Core.Address", "string"}, {"Core.Port", "string"}, {"Core.FileDir", "string"}, {"Core.LogLevel", "number"}, {"Core.LogOut", "string"},
	{"Core.ReadTimeout", "number"}, {"Core.ReadHeaderTimeout", "number"}, {"Core.WriteTimeout", "number"},
	{"Core.WebDAV", "bool"}, {"Core.VirtualHosting", "bool"}, {"Core.VirtualHosts", "map of string"},
	{"Core.TLS.Enabled", "bool"}, {"Core.TLS.TLSCert", "string"}, {"Core.TLS.TLSKey", "string"}, {"Core.TLS.PrivateCA", "list of string"},
	{"Core.TLS.AutoCert.Enabled", "bool"}, {"Core.TLS.AutoCert.Certificates", "list of string"},
	{"Core.TLS.HSTS.MaxAge", "number"}, {"Core.TLS.HSTS.Preload", "bool"}, {"Core.TLS.HSTS.IncludeSubdomains", "bool"},
	{"Core.Metrics.Enabled", "bool"}, {"Core.Metrics.Path", "string"}, {"Core.Metrics.Out", "string"}, {"Core.Metrics.Users", "map of string"},
	{"Serve.ServeDir", "string"}, {"Serve.ServeIndex", "string"}, {"Serve.Headers", "map of string"}, {"Serve.Methods", "map of string"},
	{"Serve.MIMETypes.ResponseTypes", "map of string"}, {"Serve.MIMETypes.RequestTypes", "map of string"},
	{"Serve.Download.Enabled", "bool"}, {"Serve.Download.Exts", "list of string"},
	{"Errors", "map of string"},
	{"Proxy.Enabled", "bool"}, {"Proxy.Rules", "map of string"}, {"Proxy.Methods", "list of string"}, {"Proxy.Headers", "map of string"},
	{"Guard.Rate", "number"}, {"Guard.RateBurst", "number"}, {"Guard.FilterOnIP", "bool"},
	{"Guard.Firewall.Enabled", "bool"}, {"Guard.Firewall.Blacklisting", "bool"}, {"Guard.Firewall.Subpath", "bool"}, {"Guard.Firewall.Rules", "map of list of string"},
}

func settingType(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsNumeric != 0:
			return "number"
		}
	case *types.Slice:
		return "list of " + settingType(u.Elem())
	case *types.Map:
		if settingType(u.Key()) == "string" {
			return "map of " + settingType(u.Elem())
		}
	case *types.Pointer:
		return settingType(u.Elem())
	}
	return t.String()
}

// keyOf: the name a file uses for the field.
func keyOf(st *types.Struct, i int) (name string, squash, lost bool) {
	f := st.Field(i)
	tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("hcl"), ",")
	name = f.Name()
	if tag[0] != "" {
		name = tag[0]
	}
	for _, o := range tag[1:] {
		switch o {
		case "squash":
			squash = true
		case "key", "unusedKeys", "decodedFields":
			lost = true
		}
	}
	return name, squash || f.Anonymous(), lost || !f.Exported()
}

type setting struct {
	field *types.Var
	in    *types.Named
	idx   int
}

func schemaOf(t types.Type, prefix string, out map[string][]setting, depth int) {
	if depth > 8 {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	n, _ := t.(*types.Named)
	for i := 0; i < st.NumFields(); i++ {
		name, squash, lost := keyOf(st, i)
		if lost {
			continue
		}
		if squash {
			schemaOf(st.Field(i).Type(), prefix, out, depth+1)
			continue
		}
		k := strings.ToLower(prefix + name)
		out[k] = append(out[k], setting{st.Field(i), n, i})
		schemaOf(st.Field(i).Type(), prefix+name+".", out, depth+1)
	}
}

func ruleC63(c *Ctx) {
	ct := c.P.named(serverPkg, "Config")
	if ct == nil {
		c.need(false, "anchor", token.NoPos, nil, "the configuration type was not found")
		return
	}
	schema := map[string][]setting{}
	schemaOf(ct, "", schema, 0)
	// fields that are read outside validation and loading
	read := map[*types.Var]bool{}
	live := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if fn.Parent() == nil && (fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" || token.IsExported(fn.Name()) && c.P.relOf(fn) == serverPkg && !typeIs(recvType(fn), "/"+serverPkg, "Config")) {
			live[fn] = true
		}
	}
	valid := c.P.method(serverPkg, "Config", "Validate")
	for again := true; again; {
		again = false
		for f := range live {
			for _, g := range mentioned(f) {
				if !live[g] && g != valid {
					live[g], again = true, true
				}
			}
		}
	}
	for fn := range live {
		if fn == valid {
			continue
		}
		c.Funcs[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					for _, r := range refsOf(x) {
						if s, ok := r.(*ssa.Store); ok && s.Addr == x {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						if v, ok := structField(x.X.Type(), x.Field); ok {
							read[v] = true
						}
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
						read[st.Field(x.Field)] = true
					}
				}
			}
		}
	}
	for _, s := range settings {
		fs := schema[strings.ToLower(s.path)]
		if !c.need(len(fs) > 0, "readable", ct.(*types.Named).Obj().Pos(), nil, "a configuration file can't set %s", s.path) {
			continue
		}
		c.need(len(fs) == 1, "one-field", fs[0].field.Pos(), nil, "%s is the name of %d settings", s.path, len(fs))
		got := settingType(fs[0].field.Type())
		c.need(got == s.typ, "type", fs[0].field.Pos(), nil, "%s is a %s instead of a %s", s.path, got, s.typ)
		c.need(read[fs[0].field], "consulted", fs[0].field.Pos(), nil, "nothing consults %s", s.path)
	}
	for k, fs := range schema {
		for _, f := range fs {
			if len(fs) > 1 {
				c.need(false, "one-field", f.field.Pos(), nil, "%s is the name of %d settings", k, len(fs))
			}
		}
	}
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}
