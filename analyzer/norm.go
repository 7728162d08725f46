package main

// Normalisation of library calls, and package variables that never change.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var canonName = map[string]string{
	"io/ioutil.ReadFile":             "os.ReadFile",
	"io/ioutil.ReadAll":              "io.ReadAll",
	"io/ioutil.WriteFile":            "os.WriteFile",
	"io/ioutil.ReadDir":              "os.ReadDir",
	"io/ioutil.TempFile":             "os.CreateTemp",
	"html.EscapeString":              "html/template.HTMLEscapeString",
	"text/template.HTMLEscapeString": "html/template.HTMLEscapeString",
}

func mkContains(a, sep *Term) *Term {
	return mkCallP("strings.Contains", types.Typ[types.Bool], a, sep)
}

func sepTerm(t *Term) *Term {
	if t.Op == OConv && len(t.Args) == 1 {
		if _, ok := t.Args[0].Str(); ok {
			return t.Args[0]
		}
	}
	if t.Op == OSliceLit && len(t.Args) == 1 {
		if v, ok := t.Args[0].Int(); ok && v > 0 && v < 128 {
			return mkStr(string(rune(v)))
		}
	}
	if v, ok := t.Int(); ok && v > 0 && v < 128 {
		return mkStr(string(rune(v)))
	}
	return t
}

func mkPart(which string, a, sep *Term) *Term {
	sep = sepTerm(sep)
	if a.Op == OConv && a.Name == "string" {
		return mk(OConv, "string", types.Typ[types.String], nil, 0, mkPart(which, a.Args[0], sep))
	}
	return mk(OCall, which, a.Typ, nil, 0, a, sep)
}

// stripConv removes string/[]byte conversions.
func stripConv(t *Term) *Term {
	for t.Op == OConv && (t.Name == "string" || t.Name == "[]byte") {
		t = t.Args[0]
	}
	return t
}

// normLoad gives the elements of splits their canonical names.
func normLoad(a *Term) *Term {
	if a.Op != OIndexA || a.Args[0].Op != OCall {
		return nil
	}
	c := a.Args[0]
	switch c.Name {
	case "strings.Split", "bytes.Split", "strings.SplitN", "bytes.SplitN":
	default:
		return nil
	}
	n := strings.HasSuffix(c.Name, "N")
	if n {
		if k, ok := c.Args[2].Int(); !ok || k < 2 && k >= 0 {
			return nil
		}
	}
	if a.Args[1].IsInt(0) {
		return mkPart("before", c.Args[0], c.Args[1])
	}
	if a.Args[1].IsInt(1) && n && c.Args[2].IsInt(2) {
		return mkPart("after", c.Args[0], c.Args[1])
	}
	return nil
}

func isSplit2(t *Term) bool {
	return t.Op == OCall && (t.Name == "strings.SplitN" || t.Name == "bytes.SplitN") && t.Args[2].IsInt(2)
}

func (x *Exec) normCall(s *State, name string, a []*Term, rt types.Type) *Term {
	lit := func(i int) ([]*Term, bool) {
		if i < len(a) {
			if a[i].Op == OSliceLit {
				return a[i].Args, true
			}
			if a[i] == tNil {
				return nil, true
			}
		}
		return nil, false
	}
	switch name {
	case "fmt.Sprintf", "fmt.Errorf":
		if f, ok := a[0].Str(); ok {
			if args, ok := lit(1); ok {
				if r, ok := mkSprintf(f, args); ok {
					if name == "fmt.Errorf" {
						return mk(OCall, "fmt.Errorf", rt, nil, 0, r)
					}
					return r
				}
			}
		}
	case "fmt.Sprint", "fmt.Sprintln":
		if args, ok := lit(0); ok {
			var ps []*Term
			for i, e := range args {
				if i > 0 && name == "fmt.Sprintln" {
					ps = append(ps, mkStr(" "))
				}
				ps = append(ps, mkFmt("%v", e))
			}
			if name == "fmt.Sprintln" {
				ps = append(ps, mkStr("\n"))
			}
			return mkConcat(ps...)
		}
	case "strconv.Itoa":
		return mkFmt("%d", a[0])
	case "github.com/cespare/xxhash.Sum64String":
		return mk(OCall, "github.com/cespare/xxhash.Sum64", rt, nil, 0, mk(OConv, "[]byte", types.NewSlice(types.Typ[types.Byte]), nil, 0, a[0]))
	case "strconv.FormatInt":
		if a[1].IsInt(10) {
			return mkFmt("%d", a[0])
		}
	case "strings.Join":
		if el, ok := lit(0); ok {
			var ps []*Term
			for i, e := range el {
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, e)
			}
			return mkConcat(ps...)
		}
	case "strings.ContainsRune", "strings.ContainsAny":
		sep := sepTerm(a[1])
		if st, ok := sep.Str(); ok && len(st) == 1 {
			return mkContains(a[0], sep)
		}
	case "bytes.Contains":
		return mkContains(a[0], sepTerm(a[1]))
	case "bytes.IndexByte", "bytes.Index":
		return mk(OCall, "strings.Index", rt, nil, 0, a[0], sepTerm(a[1]))
	case "strings.IndexByte", "strings.IndexRune":
		return mk(OCall, "strings.Index", rt, nil, 0, a[0], sepTerm(a[1]))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if p, ok := a[0].Str(); ok {
			if q, ok := a[1].Str(); ok {
				switch name {
				case "strings.HasPrefix":
					return mkBool(strings.HasPrefix(p, q))
				case "strings.HasSuffix":
					return mkBool(strings.HasSuffix(p, q))
				}
				return mkBool(strings.Contains(p, q))
			}
		}
		if name == "strings.HasPrefix" && a[0].Op == OConcat {
			if p, ok := a[0].Args[0].Str(); ok {
				if q, ok := a[1].Str(); ok && len(p) >= len(q) {
					return mkBool(strings.HasPrefix(p, q))
				}
			}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if c, ok := a[1].Str(); ok && c != "" {
			test := "strings.HasPrefix"
			if name == "strings.TrimSuffix" {
				test = "strings.HasSuffix"
			}
			if v, known := s.known(mkCallP(test, types.Typ[types.Bool], a[0], a[1])); known {
				switch {
				case !v:
					return a[0]
				case test == "strings.HasPrefix":
					return mk(OSlice, "", a[0].Typ, nil, 0, a[0], mkInt(int64(len(c))), mkLen(a[0]))
				default:
					return mk(OSlice, "", a[0].Typ, nil, 0, a[0], mkInt(0), mkAdd(mkLen(a[0]), mkInt(int64(len(c))), -1, types.Typ[types.Int]))
				}
			}
		}
	case "strings.Cut", "bytes.Cut":
		return mk(OTuple, "", nil, nil, 0, mkPart("before", a[0], a[1]), mkPart("after", a[0], a[1]), mkContains(stripConv(a[0]), sepTerm(a[1])))
	case "errors.Is":
		return mkEq(a[0], a[1])
	case "(*net/http.Request).UserAgent":
		if o := ptrElem(a[0].Typ); o != nil {
			if st, ok := o.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Header" {
						h := x.load(s, mkFieldAddr(a[0], a[0].Typ, i), st.Field(i).Type())
						return mkCallP("(net/http.Header).Get", types.Typ[types.String], h, mkStr("User-Agent"))
					}
				}
			}
		}
	case "(net/http.Header).Get":
		if k, ok := a[1].Str(); ok {
			return mkCallP("(net/http.Header).Get", types.Typ[types.String], a[0], mkStr(canonHeader(k)))
		}
	}
	return nil
}

func canonHeader(k string) string {
	up := true
	b := []byte(k)
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			b[i] = c - 32
		} else if !up && 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

// ---- package variables that are only assigned at initialisation -----------------

type constGlobals struct {
	mem  map[*Term]*Term
	maps []mapUpd
	is   map[*ssa.Global]bool
	all  map[*ssa.Global]bool
}

func (p *Program) findConstGlobals() *constGlobals {
	cg := &constGlobals{mem: map[*Term]*Term{}, is: map[*ssa.Global]bool{}, all: map[*ssa.Global]bool{}}
	bad := map[*ssa.Global]bool{}
	var buf [16]*ssa.Value
	for _, fn := range p.Funcs {
		isInit := fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !p.inMod[g.Pkg] {
						continue
					}
					cg.all[g] = true
					if !globalUseOK(in, g, isInit) {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		init := pk.Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		x := newExec(p, func(f *ssa.Function) bool { return f != init && f.Name() == "init" })
		x.NoGlobal = true
		x.MaxPath = 2000
		trs := x.Run(init, nil, nil, nil)
		if x.Err != nil {
			continue
		}
		var best *Trace
		n := 0
		for _, t := range trs {
			if t.End == EndReturn && len(t.Evs) > 3 {
				if best == nil || len(t.Evs) > len(best.Evs) {
					best = t
				}
				n++
			}
		}
		if best == nil || n > 3 {
			continue
		}
		// arrays behind slices of these variables
		arr := map[*Term]bool{}
		for again := true; again; {
			again = false
			for k, v := range best.St.mem {
				r := root(k)
				if r.Op == OGlobal {
					if g := r.Ref.(*ssa.Global); bad[g] || !p.inMod[g.Pkg] {
						continue
					}
				} else if !arr[r] {
					continue
				}
				v.contains(func(y *Term) bool {
					if y.Op == OSlice && y.Args[0].Op == OAlloc && !arr[y.Args[0]] {
						arr[y.Args[0]] = true
						again = true
					}
					return false
				})
			}
			for _, u := range best.St.maps {
				u.v.contains(func(y *Term) bool {
					if y.Op == OSlice && y.Args[0].Op == OAlloc && !arr[y.Args[0]] {
						arr[y.Args[0]] = true
						again = true
					}
					return false
				})
			}
		}
		for k, v := range best.St.mem {
			r := root(k)
			if r.Op == OAlloc && !arr[r] {
				continue
			}
			if r.Op == OGlobal {
				g := r.Ref.(*ssa.Global)
				if bad[g] || !p.inMod[g.Pkg] {
					continue
				}
				cg.is[g] = true
			}
			cg.mem[k] = v
		}
		cg.maps = append(cg.maps, best.St.maps...)
	}
	return cg
}

// globalUseOK: the instruction only reads the variable (or initialises it).
func globalUseOK(in ssa.Instruction, g *ssa.Global, isInit bool) bool {
	switch i := in.(type) {
	case *ssa.UnOp:
		return isInit || readOnly(i, map[ssa.Value]bool{})
	case *ssa.Store:
		return isInit && i.Addr == ssa.Value(g)
	case *ssa.IndexAddr:
		return isInit || readOnly(i, map[ssa.Value]bool{})
	case *ssa.FieldAddr:
		return isInit || readOnly(i, map[ssa.Value]bool{})
	case *ssa.DebugRef:
		return true
	}
	return false
}

func readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	// values without reachable mutable contents may go anywhere
	if _, isAddr := v.(*ssa.UnOp); isAddr {
		switch v.Type().Underlying().(type) {
		case *types.Basic, *types.Signature, *types.Interface, *types.Pointer:
			return true
		}
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Range:
		case *ssa.UnOp:
			if !readOnly(i, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnly(i, seen) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnly(i, seen) {
				return false
			}
		case *ssa.Call:
			b, ok := i.Call.Value.(*ssa.Builtin)
			if ok && (b.Name() == "append" || b.Name() == "copy") && len(i.Call.Args) == 2 && i.Call.Args[1] == v && i.Call.Args[0] != v {
				continue
			}
			n := calleeName(&i.Call)
			if !ok && (strings.HasPrefix(n, "strings.") || n == "slices.Contains" || n == "slices.Index") {
				continue
			}
			if !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		case *ssa.Store:
			// handed to the standard library in one of its configuration records
			fa, ok := i.Addr.(*ssa.FieldAddr)
			if !ok || i.Val != v || !typeIs(fa.X.Type(), "crypto/tls", "Config") {
				return false
			}
		case *ssa.Field, *ssa.Index, *ssa.Extract:
		default:
			return false
		}
	}
	return true
}

func hasMethod(t types.Type, pkg *types.Package, name string) bool {
	return types.NewMethodSet(t).Lookup(pkg, name) != nil
}
