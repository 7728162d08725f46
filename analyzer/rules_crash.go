package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "Crash freedom by path-sensitive nilness and bounds analysis: every operation that can fail (dereference, call of a function or method value, map write, index, slice, division, type assertion) in every function that can run during a request, on every path of it, has its precondition among the branch facts of the path (in the function, with its callees inlined, or in all its callers); no such function contains a call that ends the process or a panic", ruleC37)
}

// crashSite: one operation that can fail, in one function.
type crashSite struct {
	fn   *ssa.Function
	at   token.Pos
	what string
}

type crashVerdict struct {
	ok  bool
	why string
	tr  *Trace
}

func ruleC37(c *Ctx) {
	req := c.P.requestFuncs()
	c.atLeast(len(req), 20, "anchor", "functions that can run during a request")
	k := &crash{c: c, req: req, runs: map[string]map[crashSite]*crashVerdict{}}
	k.findGuards()
	ops := 0
	for _, fn := range c.P.Funcs {
		if !req[fn] {
			continue
		}
		c.Funcs[fnName(fn)] = true
		c.exits(fn)
		if c.P.relOf(fn) == "cache" {
			continue // the ring and its shards: C34
		}
		ops += k.judge(fn)
	}
	c.atLeast(ops, 100, "anchor", "operations that can fail")
}

// exits: calls that end the process, and panics.
func (c *Ctx) exits(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Panic:
				if i.Pos().IsValid() || fn.Synthetic == "" {
					c.need(false, "panics", i.Pos(), nil, "%s panics, and runs while a request is handled", shortName(fnName(fn)))
				}
			case ssa.CallInstruction:
				g := i.Common().StaticCallee()
				if g == nil || c.P.owns(g) {
					continue
				}
				name := fnName(g)
				c.need(!noReturn(name), "exits", i.Pos(), nil, "%s calls %s, and runs while a request is handled: the server stops", shortName(fnName(fn)), name)
				switch name {
				case "regexp.MustCompile", "regexp.MustCompilePOSIX", "html/template.Must", "text/template.Must", "net/netip.MustParseAddr", "net/netip.MustParsePrefix":
					for _, a := range i.Common().Args {
						if _, k := a.(*ssa.Const); !k {
							c.need(false, "panics", i.Pos(), nil, "%s calls %s on what is not a constant, and runs while a request is handled", shortName(fnName(fn)), name)
						}
					}
				}
			}
		}
	}
}

type sf struct{ owner, name string }

type crash struct {
	c          *Ctx
	req        map[*ssa.Function]bool
	runs       map[string]map[crashSite]*crashVerdict
	guards     map[string][]string // map field -> boolean fields that are only set once the map exists
	boolStores map[sf][]*ssa.Function
	nilled     map[string]bool // fields that can be nil: compared with nil, or stored nil
}

// judge decides every operation of fn that can fail.
func (k *crash) judge(fn *ssa.Function) int {
	sites := k.level(fn, 0, nil)
	bad := map[crashSite]*crashVerdict{}
	n := 0
	for s, v := range sites {
		if s.fn != fn {
			continue
		}
		n++
		if v.ok {
			k.c.need(true, s.what, s.at, nil, "")
		} else {
			bad[s] = v
		}
	}
	if len(bad) == 0 {
		return n
	}
	for lv := 1; lv <= 3 && len(bad) > 0; lv++ {
		full := k.level(fn, lv, nil)
		for s := range bad {
			if v := full[s]; v != nil {
				if v.ok {
					k.c.need(true, s.what, s.at, nil, "")
					delete(bad, s)
				} else {
					bad[s] = v
				}
			} else if full != nil { // not on any path once the callees are known
				delete(bad, s)
			}
		}
	}
	for s, v := range bad {
		if w := k.inCallers(fn, s, 0, map[*ssa.Function]bool{fn: true}); w != nil {
			if w.why == "" {
				w = v
			}
			k.c.need(false, s.what, s.at, w.tr, "%s: %s", shortName(fnName(fn)), w.why)
		} else {
			k.c.need(true, s.what, s.at, nil, "")
		}
	}
	return n
}

// inCallers: nil when the operation is safe in every caller of root.
func (k *crash) inCallers(root *ssa.Function, s crashSite, depth int, seen map[*ssa.Function]bool) *crashVerdict {
	var callers []*ssa.Function
	calls, value := k.c.P.callersOf(root)
	for _, g := range calls {
		if k.req[g] {
			callers = append(callers, g)
		}
	}
	if root.Parent() != nil && len(callers) == 0 && k.req[root.Parent()] && !walks(root) {
		callers, value = append(callers, root.Parent()), false
	}
	if value || len(callers) == 0 || depth >= 5 {
		return &crashVerdict{}
	}
	for _, g := range callers {
		if seen[g] {
			continue
		}
		seen[g] = true
		var vs map[crashSite]*crashVerdict
		for lv := 1; lv <= 3 && (vs == nil || vs[s] != nil && !vs[s].ok); lv++ {
			vs = k.level(g, lv, s.fn)
		}
		if vs == nil {
			return &crashVerdict{}
		}
		v := vs[s]
		if v == nil && g == root.Parent() && len(calls) == 0 {
			return &crashVerdict{} // never seen to run
		}
		if v == nil || v.ok {
			continue
		}
		if w := k.inCallers(g, s, depth+1, seen); w != nil {
			if w.why == "" {
				return v
			}
			return w
		}
	}
	return nil
}

// level: the operations of root and whether each is safe on every path. Looks into
// (0) nothing that root calls, (1) what can give root a nil, (2) what gives it a string,
// (3) everything; with a target also into all that leads there.
func (k *crash) level(root *ssa.Function, lv int, target *ssa.Function) map[crashSite]*crashVerdict {
	key := fnName(root) + "/" + n64(int64(lv))
	var reach map[*ssa.Function]bool
	if target != nil && lv < 3 {
		key += "/" + fnName(target)
		reach = k.c.P.callReach(target)
	}
	if v, ok := k.runs[key]; ok {
		return v
	}
	opaque := func(f *ssa.Function) bool {
		if f.Synthetic != "" || f == root || f.Parent() == root || f == target {
			return false
		}
		if k.c.P.relOf(f) == "cache" && k.c.P.relOf(root) != "cache" {
			return true
		}
		return lv == 0 || lv == 1 && !reach[f] && !givesNil(f) || lv == 2 && !reach[f] && !returnsString(f)
	}
	c := k.c
	sub := newCtx(c.P, c.ID)
	sub.partials = true
	out := map[crashSite]*crashVerdict{}
	for _, r := range sub.explore(root, opaque) {
		if r.X.Err != nil {
			out = nil
			break
		}
		for _, t := range r.Traces {
			for i, e := range t.Evs {
				s := crashSite{e.In, e.At, e.Name}
				why := ""
				switch e.Kind {
				case EvPartial:
					j := &nilness{k: k, root: root, t: t, i: i, facts: factsAt(t, i)}
					why = j.safe(e)
				case EvStore:
					if a := e.Term; a.Op == OField && a.Name == "Path" && a.Owner == "net/url.URL" && reqURL(a) {
						s.what = "path"
						p := newProver(factsAt(t, i), loopsIn(t, i), nil)
						d := toLin(mkLen(e.Args[0]))
						d.k--
						if !p.prove(d) && !rooted(e.Args[0], factsAt(t, i)) {
							why = "the path of the request may become empty: handlers look at its last byte"
						}
					} else {
						continue
					}
				case EvPanic:
					if e.Name != "type assertion" {
						continue
					}
					j := &nilness{k: k, root: root, t: t, i: i, facts: factsAt(t, i)}
					if !j.nilCheck(e) {
						why = "the type assertion of " + clip(e.Term.String()) + " may fail"
					}
				default:
					continue
				}
				v := out[s]
				if v == nil {
					v = &crashVerdict{ok: true}
					out[s] = v
				}
				if why != "" && v.ok {
					v.ok, v.why, v.tr = false, why, t
				}
			}
		}
	}
	c.Traces += sub.Traces
	k.runs[key] = out
	return out
}

// givesNil: a result of the function can be nil or contain nil.
func givesNil(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		switch r.At(i).Type().Underlying().(type) {
		case *types.Basic:
		default:
			if !isErrorT(r.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func reqURL(a *Term) bool {
	root, _ := fieldPath(mk(ODeref, "", nil, nil, 0, a))
	return root.Op == OParam && root.Typ != nil && isReq(root.Typ)
}

type nilness struct {
	k     *crash
	root  *ssa.Function
	t     *Trace
	i     int
	facts map[*Term]bool
}

// safe: "" when the operation can't fail here.
func (j *nilness) safe(e *Ev) string {
	a := e.Args[0]
	switch e.Name {
	case "deref":
		if !j.nonNil(a, 0) {
			return "the pointer " + clip(a.String()) + " may be nil"
		}
	case "invoke":
		if !j.nonNil(a, 0) {
			if e.Args[1].IsStr("dyn") {
				return "the function " + clip(a.String()) + " may be nil"
			}
			return clip(a.String()) + " may be nil when its method is called"
		}
	case "recv":
		if n, _ := e.Args[1].Str(); strings.HasPrefix(n, "(*os.File).") {
			return ""
		}
		if !j.nonNil(a, 0) {
			return clip(a.String()) + " may be nil when its method is called"
		}
	case "mapset":
		if !j.nonNil(a, 0) && !j.guarded(a) {
			return "the map " + clip(a.String()) + " may be nil when it is written"
		}
	case "index":
		if sortIndex(e.In, e.Args[1]) {
			return ""
		}
		p := newProver(j.facts, loopsIn(j.t, j.i), j.path)
		if !p.nonneg(e.Args[1]) {
			return "the index " + clip(e.Args[1].String()) + " is not shown to be at least 0"
		}
		if !p.le(e.Args[1], e.Args[2], -1) {
			return "the index " + clip(e.Args[1].String()) + " is not shown to be below " + clip(e.Args[2].String())
		}
	case "slice":
		p := newProver(j.facts, loopsIn(j.t, j.i), j.path)
		lo, hi, n := e.Args[1], e.Args[2], e.Args[3]
		if !p.nonneg(lo) || !p.le(lo, hi, 0) || !p.le(hi, n, 0) {
			return "the slice bounds " + clip(lo.String()) + ":" + clip(hi.String()) + " are not shown to be within " + clip(n.String())
		}
	case "div":
		p := newProver(j.facts, loopsIn(j.t, j.i), j.path)
		d := toLin(a)
		d.k--
		if !p.prove(d) && !refuted(j.facts, mkEq(a, mkInt(0))) {
			return "the divisor " + clip(a.String()) + " may be zero"
		}
	case "makelen":
		p := newProver(j.facts, loopsIn(j.t, j.i), j.path)
		if !p.nonneg(a) {
			return "the length " + clip(a.String()) + " is not shown to be at least 0"
		}
	}
	return ""
}

// path: the router hands requests over with a path that begins with a slash (C04).
func (j *nilness) path(a *Term) []lin {
	if a.Op != OLen || j.k.c.P.relOf(j.root) == "router" {
		return nil
	}
	x := a.Args[0]
	root, p := fieldPath(x)
	if root.Op == OParam && root.Typ != nil && isReq(root.Typ) && len(p) == 2 && p[0] == "URL" && p[1] == "Path" {
		return []lin{lin{c: map[*Term]int64{a: 1}, k: -1}}
	}
	return nil
}

// sortIndex: the index sort hands to the function that compares two elements.
func sortIndex(fn *ssa.Function, idx *Term) bool {
	if idx.Op != OParam || fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil || !strings.HasPrefix(fnName(ci.Common().StaticCallee()), "sort.") {
				continue
			}
			for _, a := range ci.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					for _, q := range fn.Params {
						if q.Name() == idx.Name {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// walks: the function has the shape of the callbacks of filepath.Walk and WalkDir.
func walks(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Params().Len() != 3 || s.Results().Len() != 1 {
		return false
	}
	n := types.TypeString(s.Params().At(1).Type(), nil)
	return isString(s.Params().At(0).Type()) && (n == "io/fs.FileInfo" || n == "io/fs.DirEntry" || n == "os.FileInfo" || n == "os.DirEntry") && isErrorT(s.Params().At(2).Type())
}

// nilCheck: the assertion only fails for nil, and the value isn't.
func (j *nilness) nilCheck(e *Ev) bool {
	v := e.Term
	// the fact that the assertion failed is the last one
	for _, in := range instrsAt(e.In, e.At) {
		if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk && types.Identical(ta.AssertedType, ta.X.Type()) {
			return j.nonNil(v, 0)
		}
	}
	return false
}

func instrsAt(fn *ssa.Function, at token.Pos) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in.Pos() == at {
				out = append(out, in)
			}
		}
	}
	return out
}

// nilable results and fields of the standard library.
var nilResults = map[string]bool{"(*html/template.Template).Lookup": true, "(*text/template.Template).Lookup": true, "encoding/pem.Decode": true, "flag.Lookup": true, "recover": true, "errors.Unwrap": true, "errors.Join": true, "(*container/list.List).Front": true, "(*container/list.List).Back": true, "(*container/list.Element).Next": true, "(*container/list.Element).Prev": true, "(*sync.Pool).Get": true, "(context.Context).Value": true, "(*net/http.Server).Shutdown": true, "runtime.FuncForPC": true, "(*sync/atomic.Value).Load": true}
var nilFields = map[string]bool{"TLS": true, "MultipartForm": true, "Response": true, "User": true, "Form": false, "GetBody": true, "Cancel": true}

func (j *nilness) nonNil(x *Term, depth int) bool {
	if x == nil || depth > 8 {
		return false
	}
	if v, ok := j.facts[mkEq(x, tNil)]; ok {
		return !v
	}
	switch x.Op {
	case OConst:
		return x != tNil
	case OAlloc, OGlobal, OField, OIndexA, OFunc, OClosure, OMake, OStruct, OSliceLit, OIndex, ORangeKey, ORecv, OFmt, OConcat:
		return true
	case OZero:
		return false
	case OConv:
		return j.nonNil(x.Args[0], depth+1)
	case OParam:
		return j.param(x)
	case OAssert:
		return holds(j.facts, mk(OAssertOk, x.Name, types.Typ[types.Bool], nil, 0, x.Args[0])) || j.assertedByType(x)
	case OPhi:
		return j.phi(x, depth)
	case ODeref:
		a := x.Args[0]
		switch a.Op {
		case OField:
			if !j.k.inModule(a.Owner) {
				return !nilFields[a.Name]
			}
			if x.Typ != nil {
				if _, m := x.Typ.Underlying().(*types.Map); m {
					return false // only what was stored on the path, or shown, counts
				}
			}
			return !j.k.nilled[a.Owner+"."+a.Name]
		case OGlobal:
			return !isErrorT(x.Typ) || true
		case OIndexA:
			return true
		}
		return false
	case OSel:
		if src := valueSource(x.Args[0]); src != nil && (src.Op == OLoopMem || !j.present(src)) {
			return false // what a decoder filled in may lack any field
		}
		return true
	case OLookup:
		return j.present(x)
	case OExtract, OCall:
		return j.result(x)
	}
	for f, v := range j.facts { // what an interface value was shown to be
		if v && f.Op == OAssertOk && f.Args[0] == x {
			return true
		}
	}
	return false
}

// assertedByType: the assertion was decided by what the cache holds.
func (j *nilness) assertedByType(x *Term) bool {
	v := x.Args[0]
	if v.Op != OExtract || v.N != 1 || v.Args[0].Op != OCall {
		return false
	}
	return holds(j.facts, mk(OExtract, "", types.Typ[types.Bool], nil, 0, v.Args[0])) && strings.Contains(v.Args[0].Name, "/cache.SpearCache)")
}

// valueSource: the lookup or call a struct value comes from.
func valueSource(x *Term) *Term {
	for {
		switch x.Op {
		case OSel:
			x = x.Args[0]
		case OLookup, OExtract, OCall:
			return x
		case OLoopMem:
			if strings.HasPrefix(x.Name, "out:") {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

// present: the key is in the map, or the call succeeded.
func (j *nilness) present(x *Term) bool {
	if x.Op != OLookup {
		return j.result(x)
	}
	for f, v := range j.facts {
		if v && f.Op == OLookOk && f.Args[0] == x.Args[0] && f.Args[1] == x.Args[1] && f.N == x.N {
			return true
		}
	}
	return false
}

func (k *crash) inModule(name string) bool {
	for _, q := range k.c.P.Pkgs {
		if strings.HasPrefix(name, q.Pkg.Path()+".") || strings.HasPrefix(name, "("+q.Pkg.Path()+".") || strings.HasPrefix(name, "(*"+q.Pkg.Path()+".") {
			return true
		}
	}
	return false
}

func (j *nilness) result(x *Term) bool {
	call, n := x, int64(-1)
	if x.Op == OExtract {
		call, n = x.Args[0], x.N
	}
	if call.Op != OCall {
		return false
	}
	if call.Name == "errors.New" || call.Name == "fmt.Errorf" {
		return true
	}
	if isErrorT(x.Typ) {
		return false
	}
	if n < 0 {
		if call.Name == "dyn" {
			return true
		}
		return !nilResults[call.Name] && !(j.k.inModule(call.Name) && j.k.hasBody(call.Name))
	}
	if nilResults[call.Name] && n == 0 {
		return false
	}
	tup, _ := call.Typ.(*types.Tuple)
	if tup == nil {
		return false
	}
	for i := 0; i < tup.Len(); i++ {
		if int64(i) == n {
			continue
		}
		o := mk(OExtract, "", tup.At(i).Type(), nil, int64(i), call)
		switch {
		case isErrorT(tup.At(i).Type()):
			return holds(j.facts, mkEq(o, tNil)) && !(j.k.inModule(call.Name) && j.k.hasBody(call.Name))
		case isBoolT(tup.At(i).Type()):
			return holds(j.facts, o)
		}
	}
	return !j.k.inModule(call.Name)
}

// hasBody: a function of the module, so that the analysis can look into it.
func (k *crash) hasBody(name string) bool {
	for _, f := range k.c.P.Funcs {
		if fnName(f) == name {
			return true
		}
	}
	return false
}

func (j *nilness) param(x *Term) bool {
	if x.Typ == nil {
		return false
	}
	if isRW(x.Typ) || isReq(x.Typ) {
		return true
	}
	var own *ssa.Parameter
	idx := 0
	for i, q := range j.root.Params {
		if q.Name() == x.Name && types.Identical(q.Type(), x.Typ) {
			own, idx = q, i
		}
	}
	if own == nil {
		return true // what the creator of the closure was given
	}
	if walks(j.root) {
		err := param(j.root.Params[len(j.root.Params)-1].Name(), j.root.Params[len(j.root.Params)-1].Type(), false)
		if isErrorT(x.Typ) {
			return false
		}
		return holds(j.facts, mkEq(err, tNil))
	}
	if j.root.Signature.Recv() != nil && idx == 0 {
		return true
	}
	calls, _ := j.k.c.P.callersOf(j.root)
	for _, g := range calls {
		if j.k.req[g] {
			return false // decided in its callers
		}
	}
	return !isErrorT(x.Typ)
}

func (j *nilness) phi(x *Term, depth int) bool {
	for _, l := range loopsIn(j.t, j.i) {
		init, ok := l.Init[x]
		if !ok {
			continue
		}
		if !j.nonNil(init, depth+1) {
			return false
		}
		for _, b := range l.Backs {
			n := b.Next[x]
			if n == x {
				continue
			}
			o := &nilness{k: j.k, root: j.root, t: b.Tr, i: len(b.Tr.Evs), facts: allFacts(b.Tr)}
			if _, known := o.facts[mkEq(x, tNil)]; !known {
				o.facts[mkEq(x, tNil)] = false // by induction
			}
			if n == nil || !o.nonNil(n, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// guarded: the map exists once a boolean field of the same object is set, and it is.
func (j *nilness) guarded(m *Term) bool {
	if m.Op != ODeref || m.Args[0].Op != OField {
		return false
	}
	f := m.Args[0]
	for _, g := range j.k.guardsOf(f.Owner, f.Name) {
		for t, v := range j.facts {
			if v && t.Op == ODeref && t.Args[0].Op == OField && t.Args[0].Args[0] == f.Args[0] && t.Args[0].Owner+"."+t.Args[0].Name == g {
				return true
			}
		}
	}
	// a key was found in it
	for t, v := range j.facts {
		if v && t.Op == OLookOk && t.Args[0] == m {
			return true
		}
		if !v && t.Op == OEq && t.Args[1] == tNil && t.Args[0].Op == OLookup && t.Args[0].Args[0] == m {
			return true
		}
	}
	return false
}

// findGuards finds the fields that can be nil, and for every map field of a struct the
// boolean fields that are true only when the map is there.
func (k *crash) findGuards() {
	k.guards, k.nilled = map[string][]string{}, map[string]bool{}
	p := k.c.P
	k.boolStores = map[sf][]*ssa.Function{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					fv, _ := structField(fa.X.Type(), fa.Field)
					q := sf{typeOwner(fa.X.Type()), fv.Name()}
					cv, isK := i.Val.(*ssa.Const)
					if isBoolT(fv.Type()) && !(isK && cv.Value != nil && !constant.BoolVal(cv.Value)) {
						k.boolStores[q] = append(k.boolStores[q], fn)
					}
					if _, ok := fv.Type().Underlying().(*types.Map); ok {
						k.nilled[q.owner+"."+q.name] = true
					}
					if isK && cv.IsNil() {
						k.nilled[q.owner+"."+q.name] = true
					}
				case *ssa.BinOp:
					for _, pair := range [][2]ssa.Value{{i.X, i.Y}, {i.Y, i.X}} {
						cv, ok := pair[1].(*ssa.Const)
						if !ok || !cv.IsNil() {
							continue
						}
						if u, ok := pair[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								fv, _ := structField(fa.X.Type(), fa.Field)
								k.nilled[typeOwner(fa.X.Type())+"."+fv.Name()] = true
							}
						}
					}
				}
			}
		}
	}
}

// guardsOf: the boolean fields that are true only when the map in this field is there.
func (k *crash) guardsOf(owner, name string) []string {
	key := owner + "." + name
	if g, ok := k.guards[key]; ok {
		return g
	}
	var out []string
	for g, fns := range k.boolStores {
		if g.owner != owner {
			continue
		}
		ok := true
		done := map[*ssa.Function]bool{}
		for _, fn := range fns {
			if !done[fn] {
				done[fn] = true
				ok = ok && k.setsBoth(fn, owner, name, g.name, 0)
			}
		}
		if ok {
			out = append(out, g.owner+"."+g.name)
		}
	}
	k.guards[key] = out
	return out
}

// setsBoth: every path of fn that sets the boolean leaves a map in the other field.
func (k *crash) setsBoth(fn *ssa.Function, owner, m, g string, depth int) bool {
	sub := newCtx(k.c.P, k.c.ID)
	good := true
	for _, r := range sub.explore(fn, nil) {
		if r.X.Err != nil {
			return false
		}
		for _, t := range r.Traces {
			last := map[*Term]*Ev{}
			at := map[*Term]int{}
			set := map[*Term]bool{}
			for i, e := range t.Evs {
				if e.Kind != EvStore || e.Term.Op != OField || e.Term.Owner != owner {
					continue
				}
				b := e.Term.Args[0]
				switch e.Term.Name {
				case m:
					last[b], at[b] = e, i
				case g:
					set[b] = e.Args[0] != tFalse
				}
			}
			for b, on := range set {
				if !on {
					continue
				}
				ok := false
				if e := last[b]; e != nil {
					j := &nilness{k: k, root: fn, t: t, i: at[b], facts: allFacts(t)}
					ok = j.nonNil(e.Args[0], 0)
				} else {
					for f, v := range allFacts(t) {
						if !v && f.Op == OEq && f.Args[1] == tNil && f.Args[0].Op == ODeref && f.Args[0].Args[0].Op == OField && f.Args[0].Args[0].Owner == owner && f.Args[0].Args[0].Name == m && f.Args[0].Args[0].Args[0] == b {
							ok = true
						}
					}
				}
				good = good && ok
			}
		}
	}
	if good || depth >= 3 {
		return good
	}
	calls, value := k.c.P.callersOf(fn)
	if value || len(calls) == 0 {
		return false
	}
	for _, c := range calls {
		if !k.setsBoth(c, owner, m, g, depth+1) {
			return false
		}
	}
	return true
}
