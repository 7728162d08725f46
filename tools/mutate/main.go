// mutate writes single-change variants of the module's non-test source files, for measuring what the
// checks react to. usage: mutate REPO OUT ; OUT/NNNN/{file,desc,src}
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

var n int
var out, repo string

func main() {
	repo, out = os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo, Dir: repo}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		for i, f := range p.Syntax {
			mutateFile(p, f, p.CompiledGoFiles[i])
		}
	}
	fmt.Println(n, "variants")
}

func mutateFile(p *packages.Package, f *ast.File, name string) {
	fset := p.Fset
	rel, _ := filepath.Rel(repo, name)
	emit := func(pos token.Pos, desc string) {
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return
		}
		d := filepath.Join(out, fmt.Sprintf("%04d", n))
		n++
		os.MkdirAll(d, 0755)
		os.WriteFile(d+"/file", []byte(rel), 0644)
		os.WriteFile(d+"/src", b.Bytes(), 0644)
		os.WriteFile(d+"/desc", []byte(fmt.Sprintf("%s:%d %s", rel, fset.Position(pos).Line, desc)), 0644)
	}
	show := func(x ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, x)
		s := strings.Join(strings.Fields(b.String()), " ")
		if len(s) > 90 {
			s = s[:90] + "…"
		}
		return s
	}
	var lists func(l *[]ast.Stmt)
	lists = func(l *[]ast.Stmt) {
		for i, s := range *l {
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.SendStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.ReturnStmt:
				del = true
			case *ast.IfStmt:
				del = true
			}
			if del {
				old := (*l)[i]
				(*l)[i] = &ast.EmptyStmt{Semicolon: old.Pos()}
				emit(old.Pos(), "delete: "+show(old))
				(*l)[i] = old
			}
			// swap with the next
			if i+1 < len(*l) {
				_, a := s.(*ast.ExprStmt)
				_, b := (*l)[i+1].(*ast.ExprStmt)
				_, a2 := s.(*ast.AssignStmt)
				_, b2 := (*l)[i+1].(*ast.AssignStmt)
				_, b3 := (*l)[i+1].(*ast.IfStmt)
				if (a || a2) && (b || b2 || b3) {
					(*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i]
					emit(s.Pos(), "swap with next: "+show(s))
					(*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i]
				}
			}
		}
	}
	cond := func(e *ast.Expr) {
		if *e == nil {
			return
		}
		old := *e
		*e = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: old}}
		emit(old.Pos(), "negate: "+show(old))
		*e = old
		if b, ok := old.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
			*e = b.X
			emit(old.Pos(), "keep left of: "+show(old))
			*e = b.Y
			emit(old.Pos(), "keep right of: "+show(old))
			*e = old
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			lists(&x.List)
		case *ast.CaseClause:
			lists(&x.Body)
			if len(x.List) > 1 {
				old := x.List
				x.List = old[1:]
				emit(x.Pos(), "drop case "+show(old[0]))
				x.List = old
			}
		case *ast.IfStmt:
			cond(&x.Cond)
		case *ast.ForStmt:
			if x.Cond != nil {
				old := x.Cond
				if b, ok := old.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
					x.Cond = b.X
					emit(old.Pos(), "loop: keep left of "+show(old))
					x.Cond = b.Y
					emit(old.Pos(), "loop: keep right of "+show(old))
					x.Cond = old
				}
			}
		case *ast.BinaryExpr:
			swap := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.LAND: token.LOR, token.LOR: token.LAND, token.ADD: token.SUB, token.SUB: token.ADD, token.MUL: token.QUO, token.QUO: token.MUL, token.REM: token.QUO, token.AND: token.OR, token.OR: token.AND}
			if t, ok := swap[x.Op]; ok {
				old := x.Op
				x.Op = t
				emit(x.Pos(), old.String()+" -> "+t.String()+": "+show(x))
				x.Op = old
			}
		case *ast.BasicLit:
			old := x.Value
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(old, 0, 64); err == nil {
					for _, d := range []int64{v + 1, v - 1} {
						if d < 0 {
							continue
						}
						x.Value = strconv.FormatInt(d, 10)
						emit(x.Pos(), old+" -> "+x.Value)
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(old); err == nil && s != "" {
					x.Value = strconv.Quote(s + "x")
					emit(x.Pos(), clip(old)+" -> +x")
					x.Value = `""`
					emit(x.Pos(), clip(old)+" -> empty")
				}
			}
			x.Value = old
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				old := x.Name
				x.Name = map[string]string{"true": "false", "false": "true"}[old]
				emit(x.Pos(), old+" -> "+x.Name)
				x.Name = old
				return true
			}
			// another variable of the same type that is in scope
			o, ok := p.TypesInfo.Uses[x].(*types.Var)
			if !ok || o.IsField() {
				return true
			}
			sc := p.Types.Scope().Innermost(x.Pos())
			seen := map[string]bool{x.Name: true}
			k := 0
			for ; sc != nil && sc != p.Types.Scope() && k < 2; sc = sc.Parent() {
				for _, nm := range sc.Names() {
					v, ok := sc.Lookup(nm).(*types.Var)
					if !ok || seen[nm] || nm == "_" || v.Pos() >= x.Pos() || !types.Identical(v.Type(), o.Type()) || k >= 2 {
						continue
					}
					seen[nm] = true
					k++
					old := x.Name
					x.Name = nm
					emit(x.Pos(), "variable "+old+" -> "+nm)
					x.Name = old
				}
			}
		case *ast.SelectorExpr:
			sel := p.TypesInfo.Selections[x]
			if sel == nil || sel.Kind() != types.FieldVal {
				return true
			}
			t := sel.Recv()
			if ptr, ok := t.Underlying().(*types.Pointer); ok {
				t = ptr.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return true
			}
			k := 0
			for i := 0; i < st.NumFields() && k < 2; i++ {
				g := st.Field(i)
				if g.Name() != x.Sel.Name && types.Identical(g.Type(), sel.Type()) && (g.Exported() || g.Pkg() == p.Types) {
					k++
					old := x.Sel.Name
					x.Sel.Name = g.Name()
					emit(x.Pos(), "field "+old+" -> "+g.Name()+" in "+show(x))
					x.Sel.Name = old
				}
			}
		}
		return true
	})
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}
