package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Taint by value provenance: the value numbers of everything that leaves the module's functions (arguments of calls into the standard library, stores to memory that outlives the request, map entries) are followed back to the basic-auth secrets, with the functions that take or return them inlined; only a closed list of operations may touch one, and every branch that depends on both a submitted and a configured secret goes through a constant-time comparison of fixed-length digests", ruleC11)
}

// secrets: where basic-auth secrets enter a value.
type secrets struct {
	c     *Ctx
	t     *Trace
	local map[*Term]bool // objects made on this path that hold a secret
	conf  map[*Term]bool // values stored as the password of a user
	memo  map[*Term]uint8
	loops []*LoopInfo

	byName map[string]*ssa.Function
	loop   map[*LoopInfo]bool
}

const (
	sSub  = 1 // submitted by the client
	sConf = 2 // configured
)

func (s *secrets) of(x *Term) uint8 {
	if x == nil {
		return 0
	}
	if v, ok := s.memo[x]; ok {
		return v
	}
	s.memo[x] = 0
	v := s.find(x)
	s.memo[x] = v
	return v
}

func requestHeader(x *Term) bool {
	if !fieldIs(x, "Header") {
		return false
	}
	r, p := fieldPath(x)
	return len(p) == 1 && r.Op == OParam && r.Typ != nil && isReq(r.Typ)
}

func secretHeader(k *Term) bool {
	s, ok := k.Str()
	if !ok {
		return true
	}
	switch canonHeader(s) {
	case "Authorization", "Proxy-Authorization":
		return true
	}
	return false
}

func isAuthUser(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "AuthUser" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/guard")
}

func userTable(x *Term) bool {
	if !fieldIs(x, "Users") || x.Typ == nil {
		return false
	}
	m, ok := x.Typ.Underlying().(*types.Map)
	return ok && (isString(m.Elem()) || isAuthUser(m.Elem()))
}

func (s *secrets) find(x *Term) uint8 {
	if s.local[x] {
		return sSub
	}
	if s.conf[x] {
		return sConf
	}
	if x.Typ != nil {
		switch b := x.Typ.Underlying().(type) {
		case *types.Basic:
			if b.Info()&types.IsBoolean != 0 || b.Info()&types.IsNumeric != 0 && b.Kind() != types.Uint8 && b.Kind() != types.Int32 {
				return 0
			}
		case *types.Signature:
			return 0
		}
	}
	if requestHeader(x) {
		return sSub
	}
	switch x.Op {
	case OParam, OConst, OGlobal, OFunc, OZero, ORangeOk, OLen, OCap, OClosure, OAlloc:
		return 0
	case ODeref, OSel:
		if name := lastField(x); name == "Password" || name == "User" {
			a := x.Args[0]
			if x.Op == ODeref {
				a = a.Args[0]
			}
			own := x.Owner
			if x.Op == ODeref {
				own = x.Args[0].Owner
			}
			if strings.HasSuffix(own, "/guard.AuthUser") || x.Op == OSel && a.Typ != nil && isAuthUser(a.Typ) {
				if name == "Password" {
					return sConf
				}
				return 0
			}
		}
		if x.Op == ODeref {
			switch x.Args[0].Op {
			case OField: // a field is not all of its object
				if r := x.Args[0].Args[0]; s.local[r] {
					return sSub
				}
				return 0
			}
		}
		if userTable(x) {
			return 0
		}
		return s.of(x.Args[0])
	case OLookup:
		if userTable(x.Args[0]) {
			return sConf
		}
		if requestHeader(x.Args[0]) {
			if secretHeader(x.Args[1]) {
				return sSub
			}
			return 0
		}
		return s.of(x.Args[0])
	case OCall:
		return s.call(x)
	case OExtract:
		if isErrorT(x.Typ) && x.Args[0].Op == OCall && !tellsInput(x.Args[0].Name) {
			return 0
		}
		return s.of(x.Args[0])
	case OPhi:
		var v uint8
		for _, l := range s.loops {
			if in := l.Init[x]; in != nil {
				v |= s.of(in)
				for _, b := range l.Backs {
					v |= s.of(b.Next[x])
				}
			}
		}
		return v
	case OEq, OLt, OLt0, ONot, OLookOk, OAssertOk:
		return 0
	}
	var v uint8
	for _, a := range x.Args {
		v |= s.of(a)
	}
	return v
}

func lastField(x *Term) string {
	if x.Op == OSel {
		return x.Name
	}
	if x.Op == ODeref && x.Args[0].Op == OField {
		return x.Args[0].Name
	}
	return ""
}

// tellsInput: functions whose errors repeat what they were given.
func tellsInput(name string) bool {
	for _, p := range []string{"strconv.", "net/url.", "time.", "fmt.", "errors.", "net.", "net/http.NewRequest", "encoding/json."} {
		if strings.HasPrefix(name, p) || strings.HasPrefix(name, "(*"+p) {
			return true
		}
	}
	return false
}

func (s *secrets) call(x *Term) uint8 {
	switch x.Name {
	case "(net/http.Header).Get", "(net/http.Header).Values":
		if requestHeader(x.Args[0]) {
			if secretHeader(x.Args[1]) {
				return sSub
			}
			return 0
		}
		if !secretHeader(x.Args[1]) {
			return 0
		}
	case "(*net/http.Request).BasicAuth", "net/http/httputil.DumpRequest", "net/http/httputil.DumpRequestOut", "(*net/url.Userinfo).Password":
		return sSub
	case "dyn":
		return 0
	case "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip", "(*net/http.Client).Do":
		return 0 // what the backend answers is its own
	case "crypto/subtle.ConstantTimeCompare", "crypto/hmac.Equal":
		return 0
	}
	var v uint8
	for _, a := range x.Args {
		v |= s.of(a)
	}
	return v
}

// pure: functions that only compute with what they are given.
func pureStd(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "encoding/base64.", "(*encoding/base64.Encoding).Decode", "(*encoding/base64.Encoding).Encode", "crypto/sha256.", "crypto/sha512.", "crypto/subtle.", "crypto/hmac.Equal", "unicode/utf8.", "unicode.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.New", "net.SplitHostPort", "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone", "(*net/http.Request).BasicAuth", "builtin", "append", "copy", "html.EscapeString", "html/template.HTMLEscapeString", "sort.", "path.", "hash."} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "bytes.NewBuffer") && !strings.HasPrefix(name, "strings.NewReader") && !strings.HasPrefix(name, "bytes.NewReader")
		}
	}
	return false
}

// prints: the functions that show all there is in a value.
func prints(name string) (shows, follow bool) {
	n := strings.TrimLeft(name, "(*")
	switch {
	case strings.Contains(name, "Decode") || strings.Contains(name, "Unmarshal"):
		return false, false
	case strings.HasPrefix(n, "fmt."), strings.HasPrefix(n, "log."):
		return true, false
	case strings.HasPrefix(n, "encoding/json."), strings.HasPrefix(n, "encoding/xml."), strings.HasPrefix(n, "encoding/gob."), strings.HasPrefix(n, "html/template.Template"), strings.HasPrefix(n, "text/template.Template"):
		return true, true
	}
	return false, false
}

// holdsSecret: values of this type contain a basic-auth secret.
func holdsSecret(t types.Type, follow bool) bool {
	seen := map[types.Type]bool{}
	var in func(t types.Type, top bool) bool
	in = func(t types.Type, top bool) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "net/http.Request", "net/http.Header":
				return true
			}
			if isAuthUser(t) {
				return true
			}
			if !strings.Contains(n.Obj().Pkg().Path(), ".") {
				return false // std
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return (top || follow) && in(u.Elem(), false)
		case *types.Slice:
			return in(u.Elem(), false)
		case *types.Array:
			return in(u.Elem(), false)
		case *types.Map:
			return in(u.Elem(), false)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if m, ok := f.Type().Underlying().(*types.Map); ok && f.Name() == "Users" && isString(m.Elem()) {
					return true
				}
				if in(f.Type(), false) {
					return true
				}
			}
		}
		return false
	}
	return in(t, true)
}

// shown: the values a printing function is given, with the types they have there.
func shown(a *Term) []*Term {
	switch a.Op {
	case OSliceLit:
		var out []*Term
		for _, x := range a.Args {
			out = append(out, shown(x)...)
		}
		return out
	case OConv, OFmt:
		return shown(a.Args[0])
	case OConcat:
		var out []*Term
		for _, x := range a.Args {
			out = append(out, shown(x)...)
		}
		return out
	case OCall:
		if strings.HasPrefix(a.Name, "fmt.") || strings.HasPrefix(a.Name, "errors.") {
			var out []*Term
			for _, x := range a.Args {
				out = append(out, shown(x)...)
			}
			return out
		}
	}
	return []*Term{a}
}

func newSecrets(c *Ctx, t *Trace, byName map[string]*ssa.Function) *secrets {
	s := &secrets{c: c, byName: byName, loop: map[*LoopInfo]bool{}, t: t, local: map[*Term]bool{}, conf: map[*Term]bool{}, memo: map[*Term]uint8{}, loops: loopsIn(t, len(t.Evs))}
	// what is stored as the password of a user is one
	mark := func(x *Term) {
		if st, ok := structOf(x); ok && x.Op == OStruct && x.Typ != nil && isAuthUser(x.Typ) {
			for i := 0; i < st.NumFields() && i < len(x.Args); i++ {
				if st.Field(i).Name() == "Password" && !x.Args[i].IsConst() {
					s.conf[x.Args[i]] = true
				}
			}
		}
	}
	for _, e := range t.Evs {
		if e.Kind == EvStore && e.Term.Op == OField && e.Term.Name == "Password" && strings.HasSuffix(e.Term.Owner, "/guard.AuthUser") && !e.Args[0].IsConst() {
			s.conf[e.Args[0]] = true
		}
		for _, a := range e.Args {
			if a != nil {
				a.contains(func(y *Term) bool { mark(y); return false })
			}
		}
	}
	return s
}

// ownObject: an object that was made on this path.
func ownObject(x *Term) *Term {
	for {
		switch x.Op {
		case OField, OIndexA, OSlice:
			x = x.Args[0]
		case ODeref:
			// the header of a new request belongs to it
			if x.Args[0].Op == OField && x.Args[0].Name == "Header" {
				x = x.Args[0].Args[0]
				continue
			}
			return nil
		case OAlloc, OMake:
			return x
		case OExtract:
			if x.Args[0].Op == OCall && strings.HasPrefix(x.Args[0].Name, "net/http.NewRequest") {
				return x
			}
			return nil
		case OCall:
			if x.Name == "(net/http.Header).Clone" || x.Name == "(*net/http.Request).Clone" {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

func ruleC11(c *Ctx) {
	inline := map[*ssa.Function]bool{} // functions that take or return secrets
	byName := map[string]*ssa.Function{}
	for _, f := range c.P.Funcs {
		byName[fnName(f)] = f
	}
	runs := map[*ssa.Function][]*entryRun{}
	final := map[*ssa.Function]bool{}
	uses := map[*ssa.Function]map[*ssa.Function]bool{}
	for round := 0; round < 12; round++ {
		grew := false
		for _, fn := range c.P.Funcs {
			if fn.Synthetic != "" || final[fn] {
				continue
			}
			used := map[*ssa.Function]bool{}
			sub := newCtx(c.P, c.ID)
			rs := sub.explore(fn, func(f *ssa.Function) bool {
				used[f] = true
				return !(f.Synthetic != "" || f.Parent() != nil || inline[f])
			})
			c.Traces += sub.Traces
			runs[fn], uses[fn], final[fn] = rs, used, true
			for _, r := range rs {
				if r.X.Err != nil {
					c.need(false, "undecided", fn.Pos(), nil, "analysis of %s is incomplete: %v", fnName(fn), r.X.Err)
					continue
				}
				for _, t := range r.Traces {
					s := newSecrets(c, t, byName)
					for i := range t.Evs {
						e := t.Evs[i]
						s.flow(e)
						if e.Kind != EvCall {
							continue
						}
						f := byName[e.Name]
						if f == nil || inline[f] || f.Blocks == nil {
							continue
						}
						for _, a := range e.Args {
							if s.of(a) != 0 || userTable(a) || a.Op == OMake && s.local[a] {
								inline[f] = true
								grew = true
							}
						}
					}
					for _, v := range t.Ret {
						if !inline[fn] && s.of(v) != 0 && fn.Parent() == nil {
							inline[fn] = true
							grew = true
						}
					}
				}
			}
		}
		if !grew {
			break
		}
		for fn := range final {
			for f := range uses[fn] {
				if inline[f] {
					delete(final, fn)
				}
			}
		}
	}
	for f := range inline {
		c.Funcs[fnName(f)] = true
	}

	sources, compared := 0, 0
	for _, fn := range c.P.Funcs {
		for _, r := range runs[fn] {
			c.Funcs[fnName(fn)] = true
			for _, t := range r.Traces {
				s := newSecrets(c, t, byName)
				for i := range t.Evs {
					e := t.Evs[i]
					s.flow(e)
					sources += s.leaks(fn, e)
					if e.Kind == EvCond {
						compared += s.compares(fn, e.Term, e.At)
					}
				}
				for _, v := range t.Ret {
					compared += s.compares(fn, v, fn.Pos())
				}
			}
		}
	}
	c.atLeast(sources, 3, "coverage", "operations on basic-auth secrets")
	c.atLeast(compared, 1, "coverage", "comparisons of submitted with configured secrets")
}

// flow: remember the objects of this path that now hold a secret.
func (s *secrets) flow(e *Ev) {
	put := func(base, v *Term) {
		if s.of(v) == 0 {
			return
		}
		if o := ownObject(base); o != nil && !s.local[o] {
			s.local[o] = true
			s.memo = map[*Term]uint8{}
		}
	}
	switch e.Kind {
	case EvLoopHead, EvLoopOut: // what earlier iterations did
		if e.Loop != nil && !s.loop[e.Loop] {
			s.loop[e.Loop] = true
			for _, b := range e.Loop.Backs {
				for _, x := range b.Tr.Evs {
					s.flow(x)
				}
			}
		}
	case EvStore:
		if len(e.Args) > 0 && e.Term.Op != OAlloc {
			put(e.Term, e.Args[0])
		}
	case EvMapSet:
		for _, a := range e.Args {
			put(e.Term, a)
		}
	case EvCall:
		switch e.Name {
		case "(net/http.Header).Set", "(net/http.Header).Add":
			put(e.arg(0), e.arg(2))
		case "copy":
			put(e.arg(0), e.arg(1))
		}
	}
}

// leaks judges one operation; 1 when it touches a secret.
func (s *secrets) leaks(fn *ssa.Function, e *Ev) int {
	c := s.c
	touched := func(xs []*Term) *Term {
		for _, a := range xs {
			if a != nil && s.of(a) != 0 {
				return a
			}
		}
		return nil
	}
	in := shortName(fnName(fn))
	switch e.Kind {
	case EvCall:
		if g := s.byName[e.Name]; g != nil && c.P.owns(g) && len(g.Blocks) > 0 {
			return 0 // inlined elsewhere, or not given a secret
		}
		if shows, follow := prints(e.Name); shows {
			for _, a := range e.Args {
				for _, x := range shown(a) {
					if x.Typ != nil && !isErrorT(x.Typ) && holdsSecret(x.Typ, follow) {
						c.need(false, "leak", e.At, s.t, "%s: %s is given all of %s, which contains basic-auth secrets", in, e.Name, clip(x.String()))
					}
				}
			}
		}
		a := touched(e.Args)
		if a == nil {
			return 0
		}
		switch {
		case pureStd(e.Name):
			c.need(true, "leak", e.At, nil, "")
		case e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add" || e.Name == "(net/http.Header).Del":
			c.need(touched(e.Args[1:]) == nil || ownObject(e.arg(0)) != nil, "leak", e.At, s.t, "%s: a header is set to %s, which contains a basic-auth secret", in, clip(e.arg(2).String()))
		case strings.HasSuffix(e.Name, ").RoundTrip") || e.Name == "(*net/http.Client).Do":
			// where it goes is decided by C24
		default:
			c.need(false, "leak", e.At, s.t, "%s: %s is given %s, which contains a basic-auth secret", in, e.Name, clip(a.String()))
		}
		return 1
	case EvDyn:
		a := touched(e.Args)
		if a == nil {
			return 0
		}
		c.need(fieldIs(e.Term, "AuthFunc"), "leak", e.At, s.t, "%s: the function %s is given %s, which contains a basic-auth secret", in, clip(e.Term.String()), clip(a.String()))
		return 1
	case EvGo, EvSend:
		if a := touched(e.Args); a != nil {
			c.need(false, "leak", e.At, s.t, "%s: %s, which contains a basic-auth secret, is handed to another goroutine", in, clip(a.String()))
			return 1
		}
	case EvStore:
		if len(e.Args) == 0 || s.of(e.Args[0]) == 0 || e.Term.Op == OAlloc || s.onPath(e.Term) {
			return 0
		}
		ok := e.Term.Op == OField && strings.HasSuffix(e.Term.Owner, "/guard.AuthUser") || e.Args[0].Op == ODeref && e.Args[0].Args[0] == e.Term
		c.need(ok, "leak", e.At, s.t, "%s: %s, which contains a basic-auth secret, is kept in %s", in, clip(e.Args[0].String()), clip(e.Term.String()))
		return 1
	case EvMapSet:
		a := touched(e.Args)
		if a == nil || s.onPath(e.Term) {
			return 0
		}
		ok := userTable(e.Term)
		c.need(ok, "leak", e.At, s.t, "%s: %s, which contains a basic-auth secret, is kept in the map %s", in, clip(a.String()), clip(e.Term.String()))
		return 1
	case EvPanic:
		if e.Term != nil && s.of(e.Term) != 0 {
			c.need(false, "leak", e.At, s.t, "%s: a panic carries %s, which contains a basic-auth secret", in, clip(e.Term.String()))
		}
	}
	return 0
}

func (s *secrets) onPath(x *Term) bool { return ownObject(x) != nil }

// compares: a branch or result that depends on both a submitted and a configured secret must
// go through a constant-time comparison of digests.
func (s *secrets) compares(fn *ssa.Function, cond *Term, at token.Pos) int {
	seen := map[*Term]bool{}
	n := 0
	var mix func(x *Term) uint8
	leaf := func(x *Term) uint8 { return s.of(x) }
	mix = func(x *Term) uint8 {
		if x == nil || seen[x] {
			return 0
		}
		switch {
		case isCall(x, "crypto/subtle.ConstantTimeCompare"), isCall(x, "crypto/hmac.Equal"):
			seen[x] = true
			a, b := s.of(x.Args[0]), s.of(x.Args[1])
			if a|b == sSub|sConf {
				n++
			}
			if a|b != 0 {
				s.c.need(digestOf(x.Args[0]) != nil && digestOf(x.Args[1]) != nil, "compare", at, s.t, "%s: secrets are compared without making them digests of one length first: the time it takes tells their lengths", shortName(fnName(fn)))
			}
			return 0
		case x.Op == OCall && x.Name == "dyn":
			return 0
		case x.Op == OLookOk && userTable(x.Args[0]):
			return 0
		case x.Op == OBin && x.Name == "^":
			if digestByte(x.Args[0]) && digestByte(x.Args[1]) {
				n++
				return 0
			}
		}
		if v := leaf(x); v != 0 {
			return v
		}
		seen[x] = true
		if x.Op == OPhi {
			var v uint8
			for _, l := range s.loops {
				if in := l.Init[x]; in != nil {
					v |= mix(in)
					for _, b := range l.Backs {
						v |= mix(b.Next[x])
					}
				}
			}
			return v
		}
		var v uint8
		for _, a := range x.Args {
			v |= mix(a)
		}
		return v
	}
	if b := cond.Typ; b != nil && !isBoolT(b) {
		return 0
	}
	if mix(cond) == sSub|sConf {
		s.c.need(false, "compare", at, s.t, "%s: %s compares a submitted with a configured secret, and not in constant time on digests", shortName(fnName(fn)), clip(cond.String()))
	} else if n > 0 {
		s.c.need(true, "compare", at, nil, "")
	}
	return n
}

func digestByte(x *Term) bool {
	for x.Op == OConv {
		x = x.Args[0]
	}
	return x.Op == OIndex && digestOf(x.Args[0]) != nil
}
