package main

// Terms: hash-consed canonical value numbers. Two program expressions that are
// built from the same inputs by the same operations get the same *Term, however
// the source spells them. No term is ever handed to a solver: all reasoning is
// by normalisation and by lookup of branch facts.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst    Op = iota // Name = literal ("s:..." string, "i:..." int, "b:true", "nil", "f:..")
	OParam              // symbolic input
	OAlloc              // address of a local/heap object
	OGlobal             // address of a package variable
	OField              // address: field Name (Owner.Type) of Args[0]
	OIndexA             // address: element Args[1] of Args[0]
	ODeref              // contents of address Args[0] (N = version)
	OSel                // field Name of struct value Args[0]
	OIndex              // element Args[1] of array/string value Args[0]
	OLookup             // map element
	OLookOk             // map membership
	OCall               // result of an opaque call, Name = callee
	OExtract            // component N of a tuple
	OBin                // other binary operator, Name = op
	ONot                // boolean negation
	OLin                // integer linear combination
	OConcat             // string concatenation (flattened)
	OFmt                // formatted piece: Name = verb, Args[0]
	OEq                 // equality atom
	OLt                 // a < b atom
	OLt0                // linear < 0 atom
	OFunc               // function constant (Ref *ssa.Function)
	OClosure            // closure (Ref *ssa.Function, Args = bindings)
	OConv               // conversion to type Name
	OPhi                // value of a loop variable in a generic iteration
	OLoopMem            // contents of an address at a generic iteration / after havoc
	OSlice              // slice expression
	OSliceLit           // slice with known elements
	OZero               // zero value of a composite type
	OStruct             // struct value, Args in field order
	ORangeKey           // key of a map/string range in a generic iteration
	ORangeOk            // "there is another element"
	OAssert             // type assertion value
	OAssertOk           // type assertion success
	OLen
	OCap
	OMake   // make(map/slice/chan)
	OAppend // append(a, b)
	ORecv
	OTuple
	OBuiltin
	OUnknown
)

type Term struct {
	Op    Op
	Name  string
	Owner string // struct type of a field
	Args  []*Term
	N     int64   // version, extract index, constant of OLin
	Coef  []int64 // OLin
	Typ   types.Type
	Ref   interface{}
	ID    int
	str   string
}

var internTab = map[string]*Term{}
var nextTermID int
var refIDs = map[interface{}]int{}

// resetTerms forgets every term but the constants made when the analyzer starts: terms of one program hold its types.
func resetTerms() {
	if initialTerms == nil {
		return
	}
	internTab, refIDs = map[string]*Term{}, map[interface{}]int{}
	for k, t := range initialTerms {
		internTab[k] = t
	}
	for r, id := range initialRefs {
		refIDs[r] = id
	}
}

// keepTerms remembers the constants.
func keepTerms() {
	initialTerms, initialRefs = map[string]*Term{}, map[interface{}]int{}
	for k, t := range internTab {
		initialTerms[k] = t
	}
	for r, id := range refIDs {
		initialRefs[r] = id
	}
}

var initialTerms map[string]*Term
var initialRefs map[interface{}]int

func refID(r interface{}) int {
	if r == nil {
		return 0
	}
	if id, ok := refIDs[r]; ok {
		return id
	}
	id := len(refIDs) + 1
	refIDs[r] = id
	return id
}

func mk(op Op, name string, typ types.Type, ref interface{}, n int64, args ...*Term) *Term {
	return intern(&Term{Op: op, Name: name, Typ: typ, Ref: ref, N: n, Args: args})
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.Op))
	b.WriteString(strconv.Itoa(len(t.Name)))
	b.WriteByte(':')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(t.Owner)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(refID(t.Ref)))
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.N, 10))
	for i, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.Coef[i], 10))
		}
	}
	switch t.Op {
	case OZero, OStruct, OAlloc, OMake, OParam:
		if t.Typ != nil {
			b.WriteByte('#')
			b.WriteString(t.Typ.String())
		}
	}
	k := b.String()
	if x, ok := internTab[k]; ok {
		return x
	}
	nextTermID++
	t.ID = nextTermID
	internTab[k] = t
	return t
}

var (
	tNil   = mk(OConst, "nil", nil, nil, 0)
	tTrue  = mk(OConst, "b:true", types.Typ[types.Bool], nil, 0)
	tFalse = mk(OConst, "b:false", types.Typ[types.Bool], nil, 0)
)

func mkStr(s string) *Term { return mk(OConst, "s:"+s, types.Typ[types.String], nil, 0) }
func mkInt(i int64) *Term {
	return mk(OConst, "i:"+strconv.FormatInt(i, 10), types.Typ[types.Int], nil, 0)
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) Str() (string, bool) {
	if t.Op == OConst && strings.HasPrefix(t.Name, "s:") {
		return t.Name[2:], true
	}
	return "", false
}
func (t *Term) Int() (int64, bool) {
	if t.Op == OConst && strings.HasPrefix(t.Name, "i:") {
		v, err := strconv.ParseInt(t.Name[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}
func (t *Term) IsStr(s string) bool { x, ok := t.Str(); return ok && x == s }
func (t *Term) IsInt(i int64) bool  { x, ok := t.Int(); return ok && x == i }

// ---- linear integers -------------------------------------------------------

type lin struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	l := lin{c: map[*Term]int64{}}
	if v, ok := t.Int(); ok {
		l.k = v
		return l
	}
	if t.Op == OLin {
		l.k = t.N
		for i, a := range t.Args {
			l.c[a] = t.Coef[i]
		}
		return l
	}
	l.c[t] = 1
	return l
}

func (l lin) add(m lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k + f*m.k}
	for a, c := range l.c {
		r.c[a] = c
	}
	for a, c := range m.c {
		r.c[a] += f * c
		if r.c[a] == 0 {
			delete(r.c, a)
		}
	}
	return r
}

func (l lin) term(typ types.Type) *Term {
	if len(l.c) == 0 {
		return mkInt(l.k)
	}
	var as []*Term
	for a := range l.c {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.c[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	var cs []int64
	for _, a := range as {
		cs = append(cs, l.c[a])
	}
	return intern(&Term{Op: OLin, Args: as, Coef: cs, N: l.k, Typ: typ})
}

func mkAdd(a, b *Term, f int64, typ types.Type) *Term { return toLin(a).add(toLin(b), f).term(typ) }

func isSignedInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- boolean atoms -----------------------------------------------------------

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == ONot:
		return t.Args[0]
	}
	return mk(ONot, "", types.Typ[types.Bool], nil, 0, t)
}

// nonNil: the term can never be nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OField, OIndexA, OFunc, OClosure, OMake, OStruct, OSliceLit:
		return true
	case OConst:
		return t != tNil
	case OParam:
		return t.N == 1
	case OCall:
		switch t.Name {
		case "fmt.Errorf", "errors.New", "bytes.NewBuffer", "bytes.NewBufferString", "golang.org/x/time/rate.NewLimiter", "log.New", "crypto/x509.NewCertPool", "bytes.NewReader", "strings.NewReader", "encoding/json.NewDecoder":
			return true
		}
	}
	return false
}

func mkLen(x *Term) *Term {
	if s, ok := x.Str(); ok {
		return mkInt(int64(len(s)))
	}
	switch x.Op {
	case OSliceLit:
		return mkInt(int64(len(x.Args)))
	case OConst:
		if x == tNil {
			return mkInt(0)
		}
	case OConv:
		if isBytesString(x) {
			return mkLen(x.Args[0])
		}
	case OMake:
		if len(x.Args) > 0 {
			if _, ok := x.Typ.Underlying().(*types.Slice); ok {
				return x.Args[0]
			}
		}
	case OAppend:
		if l := mkLen(x.Args[1]); l.IsConst() {
			return mkAdd(mkLen(x.Args[0]), l, 1, types.Typ[types.Int])
		}
	}
	if x.Typ != nil {
		if a, ok := x.Typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
		if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
	}
	return mk(OLen, "", types.Typ[types.Int], nil, 0, x)
}

func isBytesString(x *Term) bool {
	return x.Op == OConv && (x.Name == "string" || x.Name == "[]byte")
}

func mkEq(a, b *Term) *Term {
	if a == b {
		// NaN does not occur in this code base's comparisons
		return tTrue
	}
	if a.IsConst() && b.IsConst() {
		return tFalse
	}
	if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
		a, b = b, a
	}
	// b constant from here on, or neither is
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if b == tNil && nonNil(a) {
		return tFalse
	}
	if b == tNil && a.Op == OZero {
		return tTrue
	}
	if b.IsStr("") {
		return mkEq(mkLen(a), mkInt(0))
	}
	if _, ok := b.Int(); ok || a.Op == OLin || b.Op == OLin {
		d := toLin(a).add(toLin(b), -1)
		if len(d.c) == 0 {
			return mkBool(d.k == 0)
		}
		// first/last byte tests become prefix/suffix tests
		if a.Op == OIndex && isString(a.Args[0].Typ) {
			if v, ok := b.Int(); ok && v > 0 && v < utf8.RuneSelf {
				if a.Args[1].IsInt(0) {
					return mkCallP("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], mkStr(string(rune(v))))
				}
				if a.Args[1] == mkAdd(mkLen(a.Args[0]), mkInt(1), -1, types.Typ[types.Int]) {
					return mkCallP("strings.HasSuffix", types.Typ[types.Bool], a.Args[0], mkStr(string(rune(v))))
				}
			}
		}
		if r := indexTest(a, b, "=="); r != nil {
			return r
		}
		if a.Op == OLen && b.IsInt(0) && a.Args[0].Op == OConcat {
			for _, x := range a.Args[0].Args {
				if v, ok := x.Str(); ok && v != "" {
					return tFalse
				}
			}
		}
		if a.Op == OLen && isSplit2(a.Args[0]) {
			c := mkContains(stripConv(a.Args[0].Args[0]), sepTerm(a.Args[0].Args[1]))
			if b.IsInt(2) {
				return c
			}
			if b.IsInt(1) {
				return mkNot(c)
			}
			return tFalse
		}
		// canonical sign
		k := d.k
		d.k = 0
		base := d.term(types.Typ[types.Int])
		if base.Op == OLin && base.Coef[0] < 0 {
			m := lin{c: map[*Term]int64{}}
			for x, c := range d.c {
				m.c[x] = -c
			}
			base = m.term(types.Typ[types.Int])
			k = -k
		}
		return mk(OEq, "", types.Typ[types.Bool], nil, 0, base, mkInt(-k))
	}
	return mk(OEq, "", types.Typ[types.Bool], nil, 0, a, b)
}

// indexTest turns comparisons of strings.Index*(x, c) with -1/0 into Contains.
func indexTest(a, b *Term, op string) *Term {
	if a.Op != OCall {
		return nil
	}
	if a.Name != "strings.Index" {
		return nil
	}
	sub := a.Args[1]
	c := mkContains(stripConv(a.Args[0]), sub)
	switch op {
	case "==":
		if b.IsInt(-1) {
			return mkNot(c)
		}
		if b.IsInt(0) {
			return mkCallP("strings.HasPrefix", types.Typ[types.Bool], a.Args[0], sub)
		}
	case "<0":
		return mkNot(c)
	}
	return nil
}

// mkLt: a < b
func mkLt(a, b *Term, typ types.Type) *Term {
	if isSignedInt(typ) {
		return mkLt0(toLin(a).add(toLin(b), -1))
	}
	if x, ok := a.Int(); ok {
		if y, ok := b.Int(); ok {
			return mkBool(x < y)
		}
		// unsigned 0 < x
		if x == 0 && typ != nil {
			if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
				return mkNot(mkEq(b, mkInt(0)))
			}
		}
	}
	if y, ok := b.Int(); ok && typ != nil {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			if y == 0 {
				return tFalse
			}
			if y == 1 {
				return mkEq(a, mkInt(0))
			}
		}
	}
	if a == b {
		return tFalse
	}
	return mk(OLt, "", types.Typ[types.Bool], nil, 0, a, b)
}

func mkLt0(l lin) *Term {
	if len(l.c) == 0 {
		return mkBool(l.k < 0)
	}
	neg := false
	k := l.k
	l.k = 0
	base := l.term(types.Typ[types.Int])
	if base.Op == OLin && base.Coef[0] < 0 {
		// L+k<0  <=>  !( -L-k-1 < 0 )
		m := lin{c: map[*Term]int64{}}
		for x, c := range l.c {
			m.c[x] = -c
		}
		base = m.term(types.Typ[types.Int])
		k = -k - 1
		neg = true
	}
	var t *Term
	if base.Op == OLen && isSplit2(base.Args[0]) && k >= -3 {
		c := mkContains(stripConv(base.Args[0].Args[0]), sepTerm(base.Args[0].Args[1]))
		switch {
		case k == -3: // len < 3
			t = tTrue
		case k == -2:
			t = mkNot(c)
		default:
			t = tFalse
		}
	}
	if t == nil && base.Op == OLen {
		// lengths are not negative: len+k<0
		switch {
		case k >= 0:
			t = tFalse
		case k == -1:
			t = mkEq(base, mkInt(0))
		}
	}
	if t == nil && base.Op == OCall && k == 0 {
		t = indexTest(base, nil, "<0")
	}
	if t == nil {
		t = mk(OLt0, "", types.Typ[types.Bool], nil, k, base)
	}
	if neg {
		return mkNot(t)
	}
	return t
}

// ---- strings ---------------------------------------------------------------

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.Op == OConcat {
			out = append(out, p.Args...)
		} else {
			out = append(out, p)
		}
	}
	var m []*Term
	for _, p := range out {
		s, ok := p.Str()
		if ok && s == "" {
			continue
		}
		if ok && len(m) > 0 {
			if q, ok2 := m[len(m)-1].Str(); ok2 {
				m[len(m)-1] = mkStr(q + s)
				continue
			}
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return mkStr("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mk(OConcat, "", types.Typ[types.String], nil, 0, m...)
}

func mkFmt(verb string, x *Term) *Term {
	if verb == "%s" || verb == "%v" {
		if isString(x.Typ) && x.Op != OConst {
			return x
		}
		if _, ok := x.Str(); ok {
			return x
		}
	}
	if verb == "%d" || verb == "%v" {
		if v, ok := x.Int(); ok {
			return mkStr(strconv.FormatInt(v, 10))
		}
	}
	return mk(OFmt, verb, types.Typ[types.String], nil, 0, x)
}

// mkSprintf expands a constant format string.
func mkSprintf(format string, args []*Term) (*Term, bool) {
	var parts []*Term
	ai, reordered := 0, false
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, mkStr(format[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, mkStr(format[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		flags := format[i:k]
		if k < len(format) && format[k] == '[' {
			end := strings.IndexByte(format[k:], ']')
			n, err := 0, error(nil)
			if end > 0 {
				n, err = strconv.Atoi(format[k+1 : k+end])
			}
			if end < 0 || err != nil || n < 1 || n > len(args) {
				return nil, false
			}
			ai, reordered = n-1, true
			k += end + 1
		}
		if k >= len(format) {
			return nil, false
		}
		verb := flags + format[k:k+1]
		i = k + 1
		if verb == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		parts = append(parts, mkFmt(verb, args[ai]))
		ai++
	}
	if ai != len(args) && !reordered {
		return nil, false
	}
	return mkConcat(parts...), true
}

func mkCallP(name string, typ types.Type, args ...*Term) *Term {
	return mk(OCall, name, typ, nil, 0, args...)
}

// ---- printing ----------------------------------------------------------------

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	if t.str == "" {
		t.str = t.render(0)
	}
	return t.str
}

func joinTerms(ts []*Term, sep string, d int) string {
	var s []string
	for _, a := range ts {
		s = append(s, a.render(d+1))
	}
	return strings.Join(s, sep)
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		return pre + s[i+1:]
	}
	return s
}

func ver(n int64) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("@%d", n)
}

func (t *Term) render(d int) string {
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].render(d + 1) }
	switch t.Op {
	case OConst:
		if s, ok := t.Str(); ok {
			return strconv.Quote(s)
		}
		if i := strings.IndexByte(t.Name, ':'); i > 0 {
			return t.Name[i+1:]
		}
		return t.Name
	case OParam:
		return t.Name
	case OAlloc:
		return "&" + t.Name
	case OGlobal:
		return "&" + shortName(t.Name)
	case OField:
		return a(0) + "." + t.Name
	case OIndexA:
		return a(0) + "[" + a(1) + "]"
	case ODeref:
		if t.Args[0].Op == OField || t.Args[0].Op == OIndexA {
			return a(0) + ver(t.N)
		}
		return "*" + a(0) + ver(t.N)
	case OSel:
		return a(0) + "." + t.Name
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OLookup:
		return a(0) + "[" + a(1) + "]" + ver(t.N)
	case OLookOk:
		return "(" + a(1) + " in " + a(0) + ver(t.N) + ")"
	case OCall:
		return shortName(t.Name) + "(" + joinTerms(t.Args, ", ", d) + ")" + ver(t.N)
	case OExtract:
		return a(0) + "#" + strconv.FormatInt(t.N, 10)
	case OBin:
		return "(" + a(0) + " " + t.Name + " " + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case OLin:
		s := ""
		for i := range t.Args {
			c := t.Coef[i]
			if c == 1 {
				s += "+" + a(i)
			} else if c == -1 {
				s += "-" + a(i)
			} else {
				s += fmt.Sprintf("%+d*%s", c, a(i))
			}
		}
		if t.N != 0 {
			s += fmt.Sprintf("%+d", t.N)
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	case OConcat:
		return "(" + joinTerms(t.Args, " ++ ", d) + ")"
	case OFmt:
		return t.Name + "<" + a(0) + ">"
	case OEq:
		return "(" + a(0) + " == " + a(1) + ")"
	case OLt:
		return "(" + a(0) + " < " + a(1) + ")"
	case OLt0:
		return fmt.Sprintf("(%s < %d)", a(0), -t.N)
	case OFunc:
		return shortName(t.Name)
	case OClosure:
		return "closure " + shortName(t.Name) + "{" + joinTerms(t.Args, ", ", d) + "}"
	case OConv:
		return t.Name + "(" + a(0) + ")"
	case OPhi:
		return t.Name + "~" + strconv.FormatInt(t.N, 10)
	case OLoopMem:
		return "~" + t.Name + "(" + joinTerms(t.Args, ", ", d) + ")" + ver(t.N)
	case OSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OSliceLit:
		return "[]{" + joinTerms(t.Args, ", ", d) + "}"
	case OZero:
		return "zero"
	case OStruct:
		return "{" + joinTerms(t.Args, ", ", d) + "}"
	case ORangeKey:
		return "eachkey(" + a(0) + ")" + ver(t.N)
	case ORangeOk:
		return "more(" + a(0) + ")" + ver(t.N)
	case OAssert:
		return a(0) + ".(" + t.Name + ")"
	case OAssertOk:
		return a(0) + " is " + t.Name
	case OLen:
		return "len(" + a(0) + ")"
	case OCap:
		return "cap(" + a(0) + ")"
	case OMake:
		return "make@" + t.Name
	case OAppend:
		return "append(" + a(0) + ", " + a(1) + ")"
	case OTuple:
		return "(" + joinTerms(t.Args, ", ", d) + ")"
	}
	return fmt.Sprintf("?%d:%s(%s)%s", t.Op, t.Name, joinTerms(t.Args, ", ", d), ver(t.N))
}

// contains reports whether sub occurs in t.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (t *Term) has(sub *Term) bool { return t.contains(func(x *Term) bool { return x == sub }) }

func isFn(t *Term) *ssa.Function {
	if t.Op == OFunc || t.Op == OClosure {
		return t.Ref.(*ssa.Function)
	}
	return nil
}
