package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "Open/close typestate of every file, connection and backend response on every path of the function that opens it, looking into helpers that take or return such values; every open call of the program must be on an analysed path", ruleC39)
}

// opens: the library call hands out something that has to be closed.
func opens(name string) bool {
	switch name {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "os.OpenInRoot", "os.OpenRoot", "os.NewFile", "io/ioutil.TempFile",
		"(net/http.FileSystem).Open", "(net/http.Dir).Open", "(io/fs.FS).Open", "(*mime/multipart.FileHeader).Open", "(*net/http.Request).FormFile",
		"net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm",
		"(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm",
		"net/http.ReadResponse", "compress/gzip.NewReader", "log/syslog.New", "log/syslog.Dial", "os.Pipe":
		return true
	}
	return strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net.Dialer).Dial") || strings.HasPrefix(name, "crypto/tls.Dial") ||
		strings.HasPrefix(name, "(*os.Root).Open") || strings.HasPrefix(name, "(*os.Root).Create") ||
		strings.HasPrefix(name, "net.Listen") && name != "net.ListenConfig" || isRoundTrip(name)
}

// closable: a type of values that have to be closed.
func closable(t types.Type) bool {
	if t == nil {
		return false
	}
	if typeIs(t, "net/http", "Response") {
		return true
	}
	if typeIs(t, "net/http", "Server") || typeIs(t, "net/http", "Request") || typeIs(t, "net/http", "ResponseWriter") {
		return false
	}
	for _, x := range []types.Type{t} {
		o, _, _ := types.LookupFieldOrMethod(x, true, nil, "Close")
		if f, ok := o.(*types.Func); ok {
			s := f.Type().(*types.Signature)
			if s.Params().Len() == 0 && s.Results().Len() == 1 && isErrorT(s.Results().At(0).Type()) {
				return true
			}
		}
	}
	return false
}

func handlesIn(s *types.Signature) (params, results bool) {
	for i := 0; i < s.Params().Len(); i++ {
		params = params || closable(s.Params().At(i).Type())
	}
	for i := 0; i < s.Results().Len(); i++ {
		results = results || closable(s.Results().At(i).Type())
	}
	return
}

func ruleC39(c *Ctx) {
	called := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	into := func(f *ssa.Function) bool {
		if f.Synthetic != "" || f.Parent() != nil {
			return true
		}
		p, r := handlesIn(f.Signature)
		return p || r
	}
	// functions that open something themselves or through helpers handing it out
	src := map[*ssa.Function]bool{}
	for {
		n := len(src)
		for _, fn := range c.P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := ci.Common().StaticCallee()
					if opens(calleeName(ci.Common())) || g != nil && src[g] && into(g) {
						src[fn] = true
					}
				}
			}
		}
		if len(src) == n {
			break
		}
	}
	req := c.P.requestFuncs()
	seen := map[token.Pos]bool{}
	sites := 0
	for _, fn := range c.P.Funcs {
		if !src[fn] || fn.Synthetic != "" {
			continue
		}
		if _, r := handlesIn(fn.Signature); r && called[fn] {
			continue // its callers are looked at
		}
		self := fn
		for _, r := range c.explore(fn, func(f *ssa.Function) bool { return f != self && !into(f) }) {
			for _, t := range r.Traces {
				for i, e := range t.Evs {
					if e.Kind == EvCall && opens(e.Name) {
						if !seen[e.At] {
							sites++
						}
						seen[e.At] = true
						c.closedLater(t, i, e, fn, req[fn])
					}
				}
			}
		}
	}
	// a transport of its own for each request keeps its idle connections open
	for fn := range req {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					c.need(!typeIs(ptrElem(al.Type()), "net/http", "Transport"), "connections", in.Pos(), nil, "%s makes a transport, and with it a pool of connections, while a request is handled", shortName(fnName(fn)))
				}
			}
		}
	}
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	for at, f := range callSites(all, opens) {
		c.need(seen[at], "covered", at, nil, "something is opened in %s on no path the analysis followed", shortName(fnName(f)))
	}
	c.atLeast(sites, 6, "coverage", "places where something is opened")
}

// closedLater: what the event opens is closed before the path ends, or wasn't opened.
func (c *Ctx) closedLater(t *Trace, i int, e *Ev, fn *ssa.Function, req bool) {
	where := shortName(fnName(fn))
	if t.End == EndExit {
		return
	}
	if t.End == EndBack {
		// only what this iteration opened
		for j := i + 1; j < len(t.Evs); j++ {
			if t.Evs[j].Kind == EvLoopHead && t.Evs[j].Loop == t.Loop {
				return
			}
		}
	}
	res := func(n int64) *Term {
		var out *Term
		look := func(x *Term) bool {
			if x.Op == OExtract && x.N == n && x.Args[0] == e.Term {
				out = x
			}
			return false
		}
		for _, o := range t.Evs[i:] {
			if o.Term != nil {
				o.Term.contains(look)
			}
			for _, a := range o.Args {
				if a != nil {
					a.contains(look)
				}
			}
		}
		for _, a := range t.Ret {
			if a != nil {
				a.contains(look)
			}
		}
		return out
	}
	facts := allFacts(t)
	if err := res(1); err != nil && isErrorT(err.Typ) && refuted(facts, mkEq(err, tNil)) {
		c.need(true, "closed", e.At, t, "")
		return
	}
	h := res(0)
	if h == nil && e.Term != nil && e.Term.Typ != nil && closable(e.Term.Typ) {
		h = e.Term
	}
	if h == nil {
		c.need(false, "closed", e.At, t, "%s opens something in %s and drops it", shortName(e.Name), where)
		return
	}
	if holds(facts, mkEq(h, tNil)) {
		c.need(true, "closed", e.At, t, "")
		return
	}
	isH := func(x *Term) bool {
		x = stripConv(x)
		if x == h {
			return true
		}
		if x.Op == ODeref && x.Args[0].Op == OField && x.Args[0].Name == "Body" && stripConv(x.Args[0].Args[0]) == h {
			return true
		}
		return false
	}
	for _, o := range t.Evs[i+1:] {
		switch o.Kind {
		case EvCall, EvDyn:
			n := o.Name
			if strings.HasSuffix(n, ").Close") && isH(o.arg(0)) {
				c.need(true, "closed", e.At, t, "")
				return
			}
			if (n == "log.New" || n == "(*log.Logger).SetOutput" || n == "log.SetOutput") && len(o.Args) > 0 {
				for _, a := range o.Args {
					if isH(a) {
						c.need(!req, "log-sink", e.At, t, "a log file is opened in %s while a request is handled", where)
						return
					}
				}
			}
			if isServe(n) {
				for _, a := range o.Args {
					if isH(a) {
						return // Serve closes its listener
					}
				}
			}
		}
	}
	for _, x := range t.Ret {
		if x != nil && isH(x) && c.P.callback(fn) {
			c.need(true, "closed", e.At, t, "")
			return // the library that calls it closes what it gets
		}
	}
	c.need(false, "closed", e.At, t, "what %s opens in %s is not closed when the path ends (%s)", shortName(e.Name), where, t.End)
}

func isServe(n string) bool {
	return n == "net/http.Serve" || n == "net/http.ServeTLS" || n == "(*net/http.Server).Serve" || n == "(*net/http.Server).ServeTLS"
}

// callback: the function is only handed to libraries.
func (p *Program) callback(fn *ssa.Function) bool {
	n := 0
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				for _, o := range in.Operands(nil) {
					if o != nil && *o == ssa.Value(fn) {
						v = *o
					}
				}
				if v == nil {
					continue
				}
				uses := []ssa.Instruction{in}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					v, uses = mc, refsOf(mc)
				}
				for _, r := range uses {
					n++
					if s, ok := r.(*ssa.Store); ok && s.Val == v {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							if nt, ok := ptrElem(fa.X.Type()).(*types.Named); ok && !p.ownType(nt) {
								continue
							}
						}
					}
					return false
				}
			}
		}
	}
	return n > 0
}

func (p *Program) ownType(t *types.Named) bool {
	for _, pkg := range p.Pkgs {
		if pkg.Pkg == t.Obj().Pkg() {
			return true
		}
	}
	return false
}
