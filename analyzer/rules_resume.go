package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C55", "Value-flow into the metrics record on every path that switches counting on: from the decoded content of the saved file, or from nothing where that file is known to be missing; the schema of the record decides that it survives encoding", ruleC55)
	register("C56", "Value-flow into the record every configuration file is decoded over (per iteration of the loop over the virtual hosts): its allocation, the defaults stored before and the stores after decoding", ruleC56)
}

// ---- C55 -------------------------------------------------------------------------------

// isMissing: the facts say that there is no file with that name, or that it can't be found.
func isMissing(facts map[*Term]bool, want func(*Term) bool) bool {
	if found, missing := statFacts(facts, want); missing && !found {
		return true
	}
	for x, v := range facts {
		if !v || x.Op != OCall || x.Name != "os.IsNotExist" && x.Name != "errors.Is" || len(x.Args) == 0 {
			continue
		}
		if e := x.Args[0]; e.Op == OExtract && e.N == 1 && len(e.Args[0].Args) > 0 && want(e.Args[0].Args[0]) {
			switch e.Args[0].Name {
			case "os.Stat", "os.Lstat", "os.Open", "os.ReadFile", "io/ioutil.ReadFile":
				if x.Name == "os.IsNotExist" || strings.HasSuffix(x.Args[1].String(), "ErrNotExist") {
					return true
				}
			}
		}
	}
	return false
}

// decodedFrom: the call decodes JSON; the file it was read from and whether reading
// and decoding succeeded.
func decodedFrom(call *Term, facts map[*Term]bool) (file *Term, ok bool) {
	good := holds(facts, mkEq(call, tNil))
	switch call.Name {
	case "(*encoding/json.Decoder).Decode":
		d := stripConv(call.Args[0])
		if !isCall(d, "encoding/json.NewDecoder") {
			return nil, false
		}
		o := stripConv(d.Args[0])
		for isCall(o, "bufio.NewReader") {
			o = stripConv(o.Args[0])
		}
		if isCall(o, "bytes.NewReader") || isCall(o, "bytes.NewBuffer") {
			f, k := completeData(stripConv(o.Args[0]), facts)
			return f, good && k
		}
		if o.Op == OExtract && o.N == 0 && isCall(o.Args[0], "os.Open") {
			return o.Args[0].Args[0], good && holdsNil(facts, o.Args[0], 1)
		}
	case "encoding/json.Unmarshal":
		f, k := completeData(stripConv(call.Args[0]), facts)
		return f, good && k
	}
	return nil, false
}

// outCall: the value is (part of) what a decoding call left in a record.
func outCall(x *Term) (part string, call *Term) {
	for {
		if x.Op == OSel {
			part = x.Name
			x = x.Args[0]
			continue
		}
		if x.Op == ODeref && x.Args[0].Op == OField {
			part = x.Args[0].Name
			x = x.Args[0].Args[0]
			continue
		}
		break
	}
	if x.Op == OLoopMem && strings.HasPrefix(x.Name, "out:") && len(x.Args) == 2 {
		return part, x.Args[1]
	}
	return "", nil
}

func ruleC55(c *Ctx) {
	met := c.metricsSchema()
	if met == nil {
		c.need(false, "anchor", token.NoPos, nil, "the metrics record (TotalRequests, Paths) was not found")
		return
	}
	// the record survives encoding
	st := met.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != "TotalRequests" && f.Name() != "Paths" {
			continue
		}
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		bad := !f.Exported() || tag[0] == "-" && len(tag) == 1
		for _, o := range tag[1:] {
			bad = bad || o == "string" && f.Name() == "Paths"
		}
		for j := 0; j < st.NumFields(); j++ {
			if o := strings.Split(reflect.StructTag(st.Tag(j)).Get("json"), ",")[0]; j != i && st.Field(j).Exported() {
				mine := tag[0]
				if mine == "" {
					mine = f.Name()
				}
				if o == "" {
					o = st.Field(j).Name()
				}
				bad = bad || strings.EqualFold(mine, o)
			}
		}
		c.need(!bad, "saved-schema", f.Pos(), nil, "%s is not part of the saved metrics under a name of its own", f.Name())
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(met.T), true, met.T.Obj().Pkg(), m); o != nil {
			c.need(false, "undecided", o.Pos(), nil, "the metrics record encodes itself")
		}
	}
	// every place that switches counting on
	sets := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		for k := range c.P.touches(fn).w {
			for b := range met.bools {
				if strings.HasSuffix(k, "."+met.T.Obj().Name()+"."+b) {
					sets[fn] = true
				}
			}
		}
	}
	up := map[*ssa.Function]bool{}
	for f := range sets {
		up[f] = true
	}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			for _, g := range mentioned(fn) {
				if up[g] && !up[fn] {
					up[fn], again = true, true
				}
			}
		}
	}
	io := c.P.reachesAny(func(n string) bool {
		return n == "os.Open" || n == "os.Stat" || strings.HasSuffix(n, ".ReadFile") || strings.HasSuffix(n, ".ReadAll") || strings.HasPrefix(n, "encoding/json.") || strings.HasPrefix(n, "(*encoding/json.")
	})
	ends := c.P.reachesAny(isFatal)
	skip := c.opq("debug.NewLogger", "debug.Logger.Log", "router.NewRouter", "router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth", "tuna.LoadConfigFromFile", "tuna.Config.Validate")
	ts, _, _ := c.P.goTargets()
	fresh, loaded := 0, 0
	seen := map[token.Pos]bool{}
	for _, fn := range c.entryPoints() {
		if !up[fn] {
			continue
		}
		self := fn
		touchesCounters := func(f *ssa.Function) bool {
			for k := range c.P.touches(f).w {
				if strings.Contains(k, "."+met.T.Obj().Name()+".") {
					return true
				}
			}
			return false
		}
		opaque := func(f *ssa.Function) bool {
			if f == self || f.Synthetic != "" {
				return false
			}
			if skip(f) || f != self && ts[f] && !up[self] {
				return true
			}
			return !up[f] && !touchesCounters(f) && !io[f] && !ends[f]
		}
		for _, r := range c.explore(fn, opaque) {
			for _, t := range r.Traces {
				c.savedAsTheyAre(met, t)
				for i, e := range t.Evs {
					if e.Kind != EvStore || !met.bools[met.field(e.Term)] || e.arg(0) == tFalse || e.arg(0).Op == OZero {
						continue
					}
					rec := e.Term.Args[0]
					if rec.Op == OAlloc {
						continue
					}
					seen[e.At] = true
					if t.End == EndExit || t.End == EndPanic {
						continue
					}
					// the counters the server counts on with: the last ones stored before the
					// lock is released
					var total, paths *Term
					end := len(t.Evs)
					for j, g := range t.Evs {
						if g.Kind == EvCall && j > i {
							if op, ok := lockOp(g.Name); ok && strings.HasSuffix(op, "Unlock") {
								end = j
								break
							}
						}
					}
					var direct *Term
					for _, g := range t.Evs[:end] {
						if g.Kind == EvStore && g.Term.Op == OField && g.Term.Args[0] == rec {
							switch met.field(g.Term) {
							case "TotalRequests":
								total = g.arg(0)
							case "Paths":
								paths = g.arg(0)
							}
						}
						if g.Kind == EvCall && (g.Name == "(*encoding/json.Decoder).Decode" || g.Name == "encoding/json.Unmarshal") && stripConv(g.arg(1)) == rec {
							direct = g.Term
						}
					}
					facts := allFacts(t)
					src := direct
					if src == nil {
						for _, v := range []*Term{total, paths} {
							if v == nil {
								continue
							}
							if _, call := outCall(v); call != nil {
								src = call
							}
						}
					}
					if src == nil {
						fresh++
						c.need(isMissing(facts, isMetricsOut), "resumed", e.At, t, "counting is switched on with empty counters although there may be saved metrics")
						c.need(total == nil || total.IsInt(0), "resumed", e.At, t, "counting starts with a total of %s", clipT(total))
						continue
					}
					loaded++
					file, ok := decodedFrom(src, facts)
					if !c.need(file != nil && isMetricsOut(file), "saved-file", e.At, t, "counting resumes from %s, not from the file the metrics are saved in", clipT(file)) {
						continue
					}
					c.need(ok, "resumed", e.At, t, "counting is switched on although the saved metrics may not have been read completely")
					c.need(types.Identical(ptrElem(stripConv(src.Args[len(src.Args)-1]).Typ), met.T), "saved-schema", e.At, t, "the saved metrics are decoded into something else than the metrics record")
					if direct != nil {
						continue
					}
					part, call := "", (*Term)(nil)
					if total != nil {
						part, call = outCall(total)
					}
					c.need(call == src && part == "TotalRequests", "resumed", e.At, t, "counting resumes with a total of %s instead of the saved one", clipT(total))
					good := false
					if paths != nil {
						part, call = outCall(paths)
						good = call == src && part == "Paths"
						if paths.Op == OMake {
							for x, v := range facts {
								if x.Op == OEq && v {
									for k := 0; k < 2; k++ {
										if p, cl := outCall(x.Args[k]); cl == src && p == "Paths" && x.Args[1-k] == tNil {
											good = true
										}
									}
								}
							}
						}
					}
					c.need(good, "resumed", e.At, t, "counting resumes with the counters %s instead of the saved ones", clipT(paths))
				}
			}
		}
	}
	for fn := range sets {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || ptrElem(fa.X.Type()) == nil || !types.Identical(ptrElem(fa.X.Type()), met.T) || !met.bools[met.T.Underlying().(*types.Struct).Field(fa.Field).Name()] {
					continue
				}
				if k, isC := s.Val.(*ssa.Const); isC && k.Value != nil && k.Value.String() == "false" {
					continue
				}
				if _, priv := fa.X.(*ssa.Alloc); priv {
					continue
				}
				c.need(seen[s.Pos()], "covered", s.Pos(), nil, "counting is switched on in %s on no path the analysis followed", shortName(fnName(fn)))
			}
		}
	}
	c.atLeast(fresh, 1, "coverage", "paths that start counting from nothing")
	c.atLeast(loaded, 1, "coverage", "paths that resume counting")
}

// mentions: the function has a metrics record of its own or as parameter.
func (m *metricsSchema) mentions(fn *ssa.Function) bool {
	is := func(t types.Type) bool {
		for {
			p := ptrElem(t)
			if p == nil {
				break
			}
			t = p
		}
		return types.Identical(t, m.T)
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if is(fn.Signature.Results().At(i).Type()) {
			return true
		}
	}
	for _, p := range fn.Params {
		if is(p.Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.Alloc); ok && is(v.Type()) {
				return true
			}
		}
	}
	return false
}

// ---- C56 -------------------------------------------------------------------------------

// ctorRuns: the paths of the functions that make a server, with the methods of the
// server left out.
func (c *Ctx) ctorRuns(name string) (*ssa.Function, []*Term, []*Trace) {
	fn := c.P.fn(serverPkg, name)
	if fn == nil {
		c.need(false, "anchor", token.NoPos, nil, "%s not found", name)
		return nil, nil, nil
	}
	x := newExec(c.P, c.opq("tuna.Config.Validate", "debug.NewLogger", "router.NewRouter", "router.SRouter.AddRoute", "router.SRouter.UseMiddleware", "guard.NewLimiter", "guard.SimpleBasicAuth"))
	base := x.Opaque
	x.Opaque = func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return base(f) || f.Synthetic == "" && r != nil && typeIs(r.Type(), "/"+serverPkg, "Server")
	}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, param(q.Name(), q.Type(), false))
	}
	return fn, args, c.run(x, fn, args, nil, nil)
}

// openLoop: the innermost loop the event is in.
func openLoop(t *Trace, i int) (int, *LoopInfo) {
	var open []int
	for j := 0; j < i; j++ {
		e := t.Evs[j]
		if e.Kind == EvLoopHead && e.Loop != nil {
			open = append(open, j)
		}
		if e.Kind == EvLoopOut {
			for k := len(open) - 1; k >= 0; k-- {
				if t.Evs[open[k]].Loop == e.Loop {
					open = open[:k]
					break
				}
			}
		}
	}
	if len(open) == 0 {
		return -1, nil
	}
	k := open[len(open)-1]
	return k, t.Evs[k].Loop
}

// newIn: the object is created anew in every iteration of the loop.
func newIn(a *Term, l *LoopInfo, t *Trace, head, upto int) bool {
	al, ok := a.Ref.(*ssa.Alloc)
	if !ok {
		return false
	}
	if al.Parent() != l.In {
		for _, e := range t.Evs[head:upto] {
			if e.Kind == EvEnter && e.Name == fnName(al.Parent()) {
				return true
			}
		}
		return false
	}
	if !al.Heap {
		return false
	}
	b := al.Block()
	if b != l.Header && !l.Header.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == l.Header {
				return true
			}
			if !seen[s] && l.Header.Dominates(s) {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	return reach(b)
}

// defaults a configuration needs to work when its file does not mention the setting.
var mainDefaults = [][]string{{"Core", "Port"}, {"Core", "FileDir"}, {"Core", "ReadTimeout"}, {"Core", "ReadHeaderTimeout"}, {"Core", "WriteTimeout"}, {"Core", "TLS", "HSTS", "MaxAge"}, {"Guard", "Rate"}, {"Guard", "RateBurst"}}
var siteDefaults = [][]string{{"Guard", "Rate"}, {"Guard", "RateBurst"}}

func workingDefault(v *Term) bool {
	if v == nil {
		return false
	}
	if s, ok := v.Str(); ok {
		return s != "" && s != "/"
	}
	if n, ok := v.Int(); ok {
		return n > 0
	}
	return v.Op == OConst && strings.HasPrefix(v.Name, "f:") && v.Name != "f:0" && !strings.HasPrefix(v.Name, "f:-")
}

func ruleC56(c *Ctx) {
	mains, sites, given := 0, 0, 0
	for _, name := range []string{"NewInstanceFromConfig", "NewInstance"} {
		fn, args, ts := c.ctorRuns(name)
		if fn == nil {
			continue
		}
		for _, t := range ts {
			for i, e := range t.Evs {
				if e.Kind != EvCall || e.Name != unmarshalName {
					continue
				}
				obj := stripConv(e.arg(1))
				if !c.need(obj.Op == OAlloc && isConfigT(ptrElem(obj.Typ)), "fresh", e.At, t, "a configuration file is loaded into %s", clip(obj.String())) {
					continue
				}
				head, l := openLoop(t, i)
				start := 0
				if l != nil {
					start = head
				}
				// the record is its own: no other configuration was loaded into it
				whole := -1
				for j := start; j < i; j++ {
					if g := t.Evs[j]; g.Kind == EvStore && g.Term == obj {
						whole = j
					}
				}
				c.need(l == nil || whole >= 0 || newIn(obj, l, t, head, i), "fresh", e.At, t, "%s loads the configuration of a virtual host over the one of another", name)
				from := start
				if whole > from {
					from = whole
				}
				for _, g := range t.Evs[from:i] {
					if g.Kind == EvCall && g.Name == unmarshalName && stripConv(g.arg(1)) == obj {
						c.need(false, "fresh", e.At, t, "%s loads a configuration over another one", name)
					}
				}
				if whole >= 0 {
					v := t.Evs[whole].arg(0)
					c.need(!v.contains(func(y *Term) bool {
						_, _, o := outOf(y, unmarshalName)
						return o || y.Op == OParam && isConfigT(y.Typ)
					}), "fresh", e.At, t, "%s loads a configuration over another one", name)
				}
				want, kind := siteDefaults, "virtual host"
				file, _ := completeData(stripConv(e.arg(0)), factsAt(t, i))
				if len(args) > 0 && file == args[0] {
					want, kind = mainDefaults, "server"
					mains++
				} else {
					sites++
				}
				part := &Trace{Evs: t.Evs[start:i]}
				for _, p := range want {
					v, _ := fieldAtEv(part, len(part.Evs), obj, p...)
					c.need(workingDefault(v), "default", e.At, t, "the configuration of a %s whose file leaves out %s gets %s", kind, strings.Join(p, "."), termStr(v))
				}
				// and what the file says is kept (validation aside)
				for _, g := range t.Evs[i+1:] {
					if g.Kind == EvLoopHead && g.Loop == l {
						break
					}
					if g.Kind == EvStore && root(g.Term) == obj {
						c.need(false, "kept", g.At, t, "%s changes the configuration of a %s after loading it", name, kind)
					}
				}
			}
			if name != "NewInstance" || t.End != EndReturn {
				continue
			}
			// a server that is given its core settings
			fa := mkFieldAddrByName(t.Ret[0], "Cfg")
			i := len(t.Evs)
			v, _ := fieldAtEv(t, i, t.Ret[0], "Cfg")
			if v != nil && v.Op != OZero {
				given++
				for _, p := range siteDefaults {
					d := selPath(v, ptrElem(fa.Typ), p)
					c.need(workingDefault(d), "default", t.At, t, "a server made from core settings gets %s for %s", termStr(d), strings.Join(p, "."))
				}
			}
		}
	}
	c.atLeast(mains, 1, "coverage", "loads of the main configuration file")
	c.atLeast(sites, 1, "coverage", "loads of the configuration of a virtual host")
	c.atLeast(given, 1, "coverage", "servers made from core settings")
}

// selPath: the named part of a struct value.
func selPath(v *Term, t types.Type, names []string) *Term {
	for _, n := range names {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		hit := false
		for f := 0; f < st.NumFields(); f++ {
			if st.Field(f).Name() == n {
				v, t, hit = mkSel(v, t, f), st.Field(f).Type(), true
				break
			}
		}
		if !hit {
			return nil
		}
	}
	return v
}

// savedAsTheyAre: nothing is taken from or added to the saved counters before counting resumes.
func (c *Ctx) savedAsTheyAre(met *metricsSchema, t *Trace) {
	for i, e := range t.Evs {
		if e.Kind == EvStore && met.bools[met.field(e.Term)] {
			return
		}
		if e.Kind != EvMapSet {
			continue
		}
		m := e.Term
		for m.Op == OLookup {
			m = m.Args[0]
		}
		part, call := outCall(m)
		if call == nil || part != "Paths" || !strings.Contains(call.Name, "json.") {
			continue
		}
		ok := false
		if e.Name != "delete" && e.arg(1) != nil && e.arg(1).Op == OMake {
			// a table for a status that has none
			for x, v := range factsAt(t, i) {
				for k := 0; v && x.Op == OEq && k < 2; k++ {
					if o := x.Args[k]; x.Args[1-k] == tNil && o.Op == OLookup && o.Args[0] == e.Term && o.Args[1] == e.arg(0) {
						ok = true
					}
				}
			}
		}
		c.need(ok, "resumed", e.At, t, "the saved counters are changed before counting resumes with them")
	}
}
