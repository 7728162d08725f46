package main

// What a cache field of an object holds: the dynamic type of every value any
// function of the program stores through that field. A value that a lookup
// through the field found has this type.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type cacheTypes struct {
	of  map[string]types.Type // field -> type of what is stored, nil: several or unknown
	bad map[string]bool
	all bool // stored to through something that is no field
}

func isCacheMethod(f *ssa.Function, names ...string) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	ok := false
	for _, n := range names {
		ok = ok || f.Name() == n
	}
	return ok && typeIsT(f.Signature.Recv().Type(), "cache", "SpearCache")
}

// typeIsT: (a pointer to) the named type of a package with this last path element.
func typeIsT(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

// cacheField: the field the cache was loaded from.
func cacheField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	fv, _ := structField(fa.X.Type(), fa.Field)
	if fv.Exported() {
		return ""
	}
	return typeOwner(fa.X.Type()) + "." + fv.Name()
}

func (p *Program) cacheTypes() *cacheTypes {
	if p.cacheT != nil {
		return p.cacheT
	}
	ct := &cacheTypes{of: map[string]types.Type{}, bad: map[string]bool{}}
	p.cacheT = ct
	var dyn func(v ssa.Value, key string, seen map[ssa.Value]bool) (types.Type, bool) // nil, true: nothing new
	dyn = func(v ssa.Value, key string, seen map[ssa.Value]bool) (types.Type, bool) {
		if seen[v] {
			return nil, true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type(), true
		case *ssa.ChangeInterface:
			return dyn(x.X, key, seen)
		case *ssa.Phi:
			var t types.Type
			for _, e := range x.Edges {
				et, ok := dyn(e, key, seen)
				if !ok || et != nil && t != nil && !types.Identical(et, t) {
					return nil, false
				}
				if et != nil {
					t = et
				}
			}
			return t, true
		case *ssa.Extract:
			// found in the same cache (nil when it wasn't: reported as a nil value where it is stored)
			if call, ok := x.Tuple.(*ssa.Call); ok && isCacheMethod(call.Call.StaticCallee(), "Get", "Find") && x.Index == 1 && cacheField(call.Call.Args[0]) == key {
				return nil, true
			}
		}
		return nil, false
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if k := cacheField(u); k != "" && typeIsT(u.Type(), "cache", "SpearCache") {
						for _, r := range *u.Referrers() {
							ci, ok := r.(ssa.CallInstruction)
							if !ok || !isCacheMethod(ci.Common().StaticCallee(), "Get", "Set", "Find") || ci.Common().Args[0] != ssa.Value(u) {
								if _, dbg := r.(*ssa.DebugRef); !dbg {
									ct.bad[k] = true
								}
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isCacheMethod(ci.Common().StaticCallee(), "Set") {
					continue
				}
				k := cacheField(ci.Common().Args[0])
				if k == "" {
					ct.all = true
					continue
				}
				t, ok := dyn(ci.Common().Args[2], k, map[ssa.Value]bool{})
				switch {
				case !ok:
					ct.bad[k] = true
				case t == nil:
				case ct.of[k] == nil:
					ct.of[k] = t
				case !types.Identical(ct.of[k], t):
					ct.bad[k] = true
				}
			}
		}
	}
	return ct
}

// foundType: the dynamic type of a value that a cache lookup found, nil if that is not known.
func (x *Exec) foundType(s *State, v *Term) types.Type {
	if v.Op != OExtract || v.N != 1 || v.Args[0].Op != OCall || len(v.Args[0].Args) == 0 {
		return nil
	}
	call := v.Args[0]
	get, find := x.P.method("cache", "SpearCache", "Get"), x.P.method("cache", "SpearCache", "Find")
	if !(get != nil && call.Name == fnName(get)) && !(find != nil && call.Name == fnName(find)) {
		return nil
	}
	r := call.Args[0]
	if r.Op != ODeref || r.Args[0].Op != OField {
		return nil
	}
	if ok, known := s.known(mk(OExtract, "", types.Typ[types.Bool], nil, 0, call)); !known || !ok {
		return nil
	}
	ct, k := x.P.cacheTypes(), r.Args[0].Owner+"."+r.Args[0].Name
	if ct.all || ct.bad[k] {
		return nil
	}
	return ct.of[k]
}
