// Command refactor applies one behaviour-preserving rewrite everywhere in a
// copy of the repository; the checks have to stay quiet on the result.
//
//	refactor <repo copy> <rewrite> [one in N sites] [offset] [package substring]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type X struct {
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	n       int
	every   int
	off     int
	helpers []ast.Decl
	hn      *int
	imports map[string]string // path -> name
}

func (x *X) site() bool {
	x.n++
	return (x.n+x.off)%x.every == 0
}

func (x *X) fresh(p string) string { *x.hn++; return p + strconv.Itoa(*x.hn) }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func pureExpr(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pureExpr(e.X)
	}
	return false
}

func (x *X) assigned(n ast.Node, names map[string]bool) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if r := rootIdent(l); r != nil && names[r.Name] {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if r := rootIdent(s.X); r != nil && names[r.Name] {
				found = true
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				if r := rootIdent(s.X); r != nil && names[r.Name] {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch s := e.(type) {
		case *ast.Ident:
			return s
		case *ast.SelectorExpr:
			e = s.X
		case *ast.IndexExpr:
			e = s.X
		case *ast.StarExpr:
			e = s.X
		case *ast.ParenExpr:
			e = s.X
		default:
			return nil
		}
	}
}

func hasCall(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				f = true
			}
		}
		return true
	})
	return f
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt:
			if len(toks) == 0 {
				f = true
			}
		case *ast.BranchStmt:
			if len(toks) == 0 {
				f = true
			}
			for _, t := range toks {
				if s.Tok == t {
					f = true
				}
			}
		}
		return true
	})
	return f
}

func terminates(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	case *ast.BlockStmt:
		return len(s.List) > 0 && terminates(s.List[len(s.List)-1])
	case *ast.IfStmt:
		return s.Else != nil && terminates(s.Body) && terminates(s.Else)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func endsReturn(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return len(s.List) > 0 && endsReturn(s.List[len(s.List)-1])
	case *ast.IfStmt:
		return s.Else != nil && endsReturn(s.Body) && endsReturn(s.Else)
	}
	return false
}

func not(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	if b, ok := e.(*ast.BinaryExpr); ok {
		if b.Op == token.EQL {
			return &ast.BinaryExpr{X: b.X, Op: token.NEQ, Y: b.Y}
		}
		if b.Op == token.NEQ {
			return &ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func call(f string, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: id(f), Args: args} }

// stmts rewrites every statement list.
func (x *X) stmts(f func(list []ast.Stmt, fnBody bool) []ast.Stmt) {
	ast.Inspect(x.file, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncDecl:
			if s.Body != nil {
				s.Body.List = f(s.Body.List, true)
			}
		case *ast.FuncLit:
			s.Body.List = f(s.Body.List, true)
		case *ast.IfStmt:
			s.Body.List = f(s.Body.List, false)
			if b, ok := s.Else.(*ast.BlockStmt); ok {
				b.List = f(b.List, false)
			}
		case *ast.ForStmt:
			s.Body.List = f(s.Body.List, false)
		case *ast.RangeStmt:
			s.Body.List = f(s.Body.List, false)
		case *ast.CaseClause:
			s.Body = f(s.Body, false)
		}
		return true
	})
}

func (x *X) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.pkg {
			return ""
		}
		if n, has := x.imports[p.Path()]; has {
			return n
		}
		ok = false
		return p.Name()
	})
	if !ok || strings.Contains(s, "untyped") {
		return nil, false
	}
	e, err := parser.ParseExpr(s)
	return e, err == nil
}

// freeVars are the function-local variables n uses but does not declare.
func (x *X) freeVars(n ast.Node) ([]*types.Var, bool) {
	seen := map[*types.Var]bool{}
	def := map[types.Object]bool{}
	ok := true
	ast.Inspect(n, func(n ast.Node) bool {
		if i, is := n.(*ast.Ident); is {
			if o := x.info.Defs[i]; o != nil {
				def[o] = true
			}
		}
		return true
	})
	var out []*types.Var
	ast.Inspect(n, func(n ast.Node) bool {
		i, is := n.(*ast.Ident)
		if !is {
			return true
		}
		o := x.info.Uses[i]
		if o == nil {
			if x.info.Defs[i] == nil && i.Name != "_" && x.info.Types[i].Type == nil && !def[o] {
				// a name introduced by an earlier rewrite
			}
			return true
		}
		switch o := o.(type) {
		case *types.Var:
			if o.IsField() || def[o] || o.Parent() == nil || o.Parent() == x.pkg.Scope() || o.Parent() == types.Universe || o.Pkg() != x.pkg {
				return true
			}
			if !seen[o] {
				seen[o] = true
				out = append(out, o)
			}
		case *types.TypeName:
			if o.Parent() != nil && o.Parent() != x.pkg.Scope() && o.Pkg() == x.pkg {
				ok = false
			}
		case *types.Const:
			if o.Parent() != nil && o.Parent() != x.pkg.Scope() && o.Pkg() == x.pkg {
				ok = false
			}
		}
		return true
	})
	return out, ok
}

func (x *X) params(vs []*types.Var) (*ast.FieldList, []ast.Expr, bool) {
	fl := &ast.FieldList{}
	var args []ast.Expr
	for _, v := range vs {
		te, ok := x.typeExpr(v.Type())
		if !ok {
			return nil, nil, false
		}
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
		args = append(args, id(v.Name()))
	}
	return fl, args, true
}

var transforms = map[string]func(*X){
	"rangeidx": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			r, ok := c.Node().(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || r.Value == nil {
				return true
			}
			tv := x.info.Types[r.X].Type
			if tv == nil {
				return true
			}
			if _, ok := tv.Underlying().(*types.Slice); !ok {
				return true
			}
			v := r.Value.(*ast.Ident)
			if v.Name == "_" || !x.site() {
				return true
			}
			if root := rootIdent(r.X); root != nil && pureExpr(r.X) && x.assigned(r.Body, map[string]bool{root.Name: true}) {
				return true
			}
			k := r.Key.(*ast.Ident).Name
			if k == "_" {
				k = x.fresh("idx")
			}
			src := r.X
			var pre ast.Stmt
			if !pureExpr(src) {
				n := x.fresh("list")
				pre = &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{src}}
				src = id(n)
			}
			body := block(append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: src, Index: id(k)}}}}, r.Body.List...)...)
			loop := &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: call("len", src)}, Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: body}
			if pre != nil {
				c.Replace(block(pre, loop))
			} else {
				c.Replace(loop)
			}
			return true
		})
	},
	"maprange": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || r.Value == nil || !pureExpr(r.X) {
				return true
			}
			tv := x.info.Types[r.X].Type
			if tv == nil {
				return true
			}
			if _, ok := tv.Underlying().(*types.Map); !ok {
				return true
			}
			v := r.Value.(*ast.Ident)
			if v.Name == "_" || !x.site() {
				return true
			}
			k := r.Key.(*ast.Ident)
			if k.Name == "_" {
				k = id(x.fresh("key"))
			}
			r.Key, r.Value = k, nil
			r.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k.Name)}}}}, r.Body.List...)
			return true
		})
	},
	"keyrange": func(x *X) { // for _, v := range s  ->  for i := range s { v := s[i] }
		ast.Inspect(x.file, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || r.Value == nil || !pureExpr(r.X) {
				return true
			}
			tv := x.info.Types[r.X].Type
			if tv == nil {
				return true
			}
			if _, ok := tv.Underlying().(*types.Slice); !ok {
				return true
			}
			if x.assigned(r.Body, map[string]bool{rootIdent(r.X).Name: true}) {
				return true
			}
			v := r.Value.(*ast.Ident)
			if v.Name == "_" || !x.site() {
				return true
			}
			k := r.Key.(*ast.Ident)
			if k.Name == "_" {
				k = id(x.fresh("i"))
			}
			r.Key, r.Value = k, nil
			r.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k.Name)}}}}, r.Body.List...)
			return true
		})
	},
	"invert": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			if e, ok := s.Else.(*ast.BlockStmt); ok && x.site() {
				s.Cond = not(s.Cond)
				s.Body, s.Else = e, s.Body
			}
			return true
		})
	},
	"elsewrap": func(x *X) {
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			for i := 0; i < len(l)-1; i++ {
				s, ok := l[i].(*ast.IfStmt)
				if !ok || s.Else != nil || !endsReturn(s.Body) || !endsReturn(l[len(l)-1]) || !x.site() {
					continue
				}
				s.Else = block(append([]ast.Stmt(nil), l[i+1:]...)...)
				return l[:i+1]
			}
			return l
		})
	},
	"unelse": func(x *X) {
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				s, ok := st.(*ast.IfStmt)
				if ok && s.Else != nil && s.Init == nil && terminates(s.Body) && x.site() {
					e := s.Else
					s.Else = nil
					out = append(out, s)
					if b, ok := e.(*ast.BlockStmt); ok {
						out = append(out, b.List...)
					} else {
						out = append(out, e)
					}
					continue
				}
				out = append(out, st)
			}
			return out
		})
	},
	"switch2if": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || hasBranch(s.Body, token.BREAK, token.FALLTHROUGH) {
				return true
			}
			if s.Tag != nil && !pureExpr(s.Tag) || len(s.Body.List) == 0 {
				return true
			}
			if _, lab := c.Parent().(*ast.LabeledStmt); lab || !x.site() {
				return true
			}
			var def *ast.BlockStmt
			var ifs []*ast.IfStmt
			for _, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				if cc.List == nil {
					def = block(cc.Body...)
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					var t ast.Expr = e
					if s.Tag != nil {
						t = &ast.BinaryExpr{X: s.Tag, Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = t
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
					}
				}
				ifs = append(ifs, &ast.IfStmt{Cond: cond, Body: block(cc.Body...)})
			}
			if len(ifs) == 0 {
				return true
			}
			for i := 0; i+1 < len(ifs); i++ {
				ifs[i].Else = ifs[i+1]
			}
			if def != nil {
				ifs[len(ifs)-1].Else = def
			}
			c.Replace(ifs[0])
			return true
		})
	},
	"if2switch": func(x *X) {
		astutil.Apply(x.file, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil || hasBranch(s, token.BREAK) {
				return true
			}
			if p, ok := c.Parent().(*ast.IfStmt); ok && p.Else == s {
				return true
			}
			if !x.site() {
				return true
			}
			sw := &ast.SwitchStmt{Body: block()}
			var cur ast.Stmt = s
			for cur != nil {
				switch t := cur.(type) {
				case *ast.IfStmt:
					if t.Init != nil {
						return true
					}
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{t.Cond}, Body: t.Body.List})
					cur = t.Else
				case *ast.BlockStmt:
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: t.List})
					cur = nil
				}
				if cur == nil {
					break
				}
			}
			c.Replace(sw)
			return true
		}, nil)
	},
	"splitand": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && x.site() {
				s.Cond = b.X
				s.Body = block(&ast.IfStmt{Cond: b.Y, Body: s.Body})
			}
			return true
		})
	},
	"mergeand": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok || s.Else != nil || len(s.Body.List) != 1 {
				return true
			}
			t, ok := s.Body.List[0].(*ast.IfStmt)
			if !ok || t.Else != nil || t.Init != nil || !x.site() {
				return true
			}
			s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: t.Cond}}
			s.Body = t.Body
			return true
		})
	},
	"splitor": func(x *X) {
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				s, ok := st.(*ast.IfStmt)
				if ok && s.Else == nil && s.Init == nil && terminates(s.Body) {
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && x.site() {
						out = append(out, &ast.IfStmt{Cond: b.X, Body: s.Body}, &ast.IfStmt{Cond: b.Y, Body: s.Body})
						continue
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"condhelper": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			s, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			vs, ok := x.freeVars(b)
			if !ok || len(vs) == 0 {
				return true
			}
			fl, args, ok := x.params(vs)
			if !ok || !x.site() {
				return true
			}
			n2 := x.fresh("cond")
			x.helpers = append(x.helpers, &ast.FuncDecl{Name: id(n2), Type: &ast.FuncType{Params: fl, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}},
				Body: block(&ast.ReturnStmt{Results: []ast.Expr{b}})})
			s.Cond = call(n2, args...)
			return true
		})
	},
	"bodyhelper": func(x *X) {
		ext := func(b *ast.BlockStmt) {
			if len(b.List) == 0 || hasBranch(b) {
				return
			}
			vs, ok := x.freeVars(b)
			if !ok {
				return
			}
			names := map[string]bool{}
			for _, v := range vs {
				names[v.Name()] = true
			}
			// assignments to captured variables would be lost
			bad := false
			ast.Inspect(b, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						if i, ok := l.(*ast.Ident); ok && names[i.Name] {
							bad = true
						}
					}
				case *ast.IncDecStmt:
					if i, ok := s.X.(*ast.Ident); ok && names[i.Name] {
						bad = true
					}
				case *ast.UnaryExpr:
					if s.Op == token.AND {
						if i, ok := s.X.(*ast.Ident); ok && names[i.Name] {
							bad = true
						}
					}
				}
				return true
			})
			for _, v := range vs {
				if _, ok := v.Type().Underlying().(*types.Struct); ok && x.assigned(b, map[string]bool{v.Name(): true}) {
					bad = true
				}
			}
			if bad {
				return
			}
			fl, args, ok := x.params(vs)
			if !ok || !x.site() {
				return
			}
			n2 := x.fresh("body")
			x.helpers = append(x.helpers, &ast.FuncDecl{Name: id(n2), Type: &ast.FuncType{Params: fl}, Body: block(b.List...)})
			b.List = []ast.Stmt{&ast.ExprStmt{X: call(n2, args...)}}
		}
		ast.Inspect(x.file, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.IfStmt:
				ext(s.Body)
			case *ast.ForStmt:
				ext(s.Body)
			case *ast.RangeStmt:
				ext(s.Body)
			}
			return true
		})
	},
	"loophelper": func(x *X) { // a whole loop without returns into a helper
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			for i, st := range l {
				switch st.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
				default:
					continue
				}
				if hasBranch(st, token.GOTO) {
					continue
				}
				ret := false
				ast.Inspect(st, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
						ret = true
					}
					return true
				})
				if ret {
					continue
				}
				vs, ok := x.freeVars(st)
				if !ok {
					continue
				}
				// captured variables that are assigned come back as results
				var outs []*types.Var
				for _, v := range vs {
					nm := map[string]bool{v.Name(): true}
					direct := false
					ast.Inspect(st, func(n ast.Node) bool {
						switch s := n.(type) {
						case *ast.AssignStmt:
							for _, l := range s.Lhs {
								if i, ok := l.(*ast.Ident); ok && nm[i.Name] && x.info.Uses[i] == v {
									direct = true
								}
							}
						case *ast.IncDecStmt:
							if i, ok := s.X.(*ast.Ident); ok && nm[i.Name] {
								direct = true
							}
						case *ast.UnaryExpr:
							if s.Op == token.AND {
								if i, ok := s.X.(*ast.Ident); ok && nm[i.Name] {
									ret = true
								}
							}
						}
						return true
					})
					if _, isS := v.Type().Underlying().(*types.Struct); isS && x.assigned(st, nm) {
						direct = true
					}
					if direct {
						outs = append(outs, v)
					}
				}
				if ret || len(outs) > 2 {
					continue
				}
				fl, args, ok := x.params(vs)
				if !ok || !x.site() {
					continue
				}
				n2 := x.fresh("loop")
				ft := &ast.FuncType{Params: fl}
				body := []ast.Stmt{st}
				var repl ast.Stmt = &ast.ExprStmt{X: call(n2, args...)}
				if len(outs) > 0 {
					ft.Results = &ast.FieldList{}
					rs := &ast.ReturnStmt{}
					as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{call(n2, args...)}}
					good := true
					for _, o := range outs {
						te, ok := x.typeExpr(o.Type())
						good = good && ok
						ft.Results.List = append(ft.Results.List, &ast.Field{Type: te})
						rs.Results = append(rs.Results, id(o.Name()))
						as.Lhs = append(as.Lhs, id(o.Name()))
					}
					if !good {
						continue
					}
					body = append(body, rs)
					repl = as
				}
				x.helpers = append(x.helpers, &ast.FuncDecl{Name: id(n2), Type: ft, Body: block(body...)})
				l[i] = repl
			}
			return l
		})
	},
	"tailhelper": func(x *X) { // the rest of a function after its first statements into a helper
		for _, d := range x.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) < 3 || fd.Type.Results == nil || !endsReturn(fd.Body) {
				continue
			}
			named := false
			for _, f := range fd.Type.Results.List {
				if len(f.Names) > 0 {
					named = true
				}
			}
			k := len(fd.Body.List) / 2
			rest := block(fd.Body.List[k:]...)
			dfr := false
			for _, s := range fd.Body.List[:k] {
				ast.Inspect(s, func(n ast.Node) bool {
					if _, ok := n.(*ast.DeferStmt); ok {
						dfr = true
					}
					return true
				})
			}
			if named || dfr {
				continue
			}
			// escaping pointers to locals are fine; captured closures are not
			clos := false
			for _, s := range fd.Body.List[:k] {
				ast.Inspect(s, func(n ast.Node) bool {
					if _, ok := n.(*ast.FuncLit); ok {
						clos = true
					}
					return true
				})
			}
			if clos {
				continue
			}
			vs, ok := x.freeVars(rest)
			if !ok {
				continue
			}
			fl, args, ok := x.params(vs)
			if !ok || !x.site() {
				continue
			}
			n2 := x.fresh("tail")
			x.helpers = append(x.helpers, &ast.FuncDecl{Name: id(n2), Type: &ast.FuncType{Params: fl, Results: fd.Type.Results}, Body: rest})
			fd.Body.List = append(append([]ast.Stmt(nil), fd.Body.List[:k]...), &ast.ReturnStmt{Results: []ast.Expr{call(n2, args...)}})
		}
	},
	"impl": func(x *X) {
		for _, d := range x.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" {
				continue
			}
			var args []ast.Expr
			good := true
			variadic := false
			for _, p := range fd.Type.Params.List {
				if len(p.Names) == 0 {
					good = false
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						good = false
					}
					args = append(args, id(n.Name))
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					variadic = true
				}
			}
			if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 || !good || !x.site() {
				continue
			}
			n2 := fd.Name.Name + "Impl"
			if n2[0] >= 'A' && n2[0] <= 'Z' {
				n2 = strings.ToLower(n2[:1]) + n2[1:]
			}
			c := &ast.CallExpr{Fun: id(n2), Args: args}
			if variadic {
				c.Ellipsis = 1
			}
			if fd.Recv != nil {
				c.Fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(n2)}
			}
			x.helpers = append(x.helpers, &ast.FuncDecl{Name: id(n2), Recv: fd.Recv, Type: fd.Type, Body: fd.Body})
			var b ast.Stmt = &ast.ExprStmt{X: c}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				b = &ast.ReturnStmt{Results: []ast.Expr{c}}
			}
			fd.Body = block(b)
		}
	},
	"hoist": func(x *X) {
		single := func(e ast.Expr) bool {
			c, ok := e.(*ast.CallExpr)
			if !ok {
				return false
			}
			if tv := x.info.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
				return false
			}
			t := x.info.Types[e].Type
			if t == nil {
				return false
			}
			if tp, ok := t.(*types.Tuple); ok {
				return tp.Len() == 1
			}
			return true
		}
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				var exprs []ast.Expr
				var set []func(ast.Expr)
				collect := func(list []ast.Expr) {
					for i := range list {
						i := i
						exprs = append(exprs, list[i])
						set = append(set, func(e ast.Expr) { list[i] = e })
					}
				}
				switch s := st.(type) {
				case *ast.ReturnStmt:
					if len(s.Results) > 1 || len(s.Results) == 1 && single(s.Results[0]) {
						collect(s.Results)
					}
				case *ast.ExprStmt:
					if c, ok := s.X.(*ast.CallExpr); ok && pureExpr(c.Fun) {
						collect(c.Args)
					}
				case *ast.AssignStmt:
					if len(s.Rhs) == 1 {
						if c, ok := s.Rhs[0].(*ast.CallExpr); ok && pureExpr(c.Fun) {
							collect(c.Args)
						}
					}
				}
				for i, e := range exprs {
					if single(e) && x.site() {
						n := x.fresh("v")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
						set[i](id(n))
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"ifinit": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init == nil {
				return true
			}
			if _, ok := c.Parent().(*ast.IfStmt); ok {
				return true
			}
			if !x.site() {
				return true
			}
			in := s.Init
			s.Init = nil
			c.Replace(block(in, s))
			return true
		})
	},
	"intoinit": func(x *X) { // err := f(); if err != nil  ->  if err := f(); err != nil
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for i := 0; i < len(l); i++ {
				a, ok := l[i].(*ast.AssignStmt)
				if ok && i+1 < len(l) && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
					if s, ok := l[i+1].(*ast.IfStmt); ok && s.Init == nil {
						used := false
						o := x.info.Defs[a.Lhs[0].(*ast.Ident)]
						for _, r := range l[i+2:] {
							ast.Inspect(r, func(n ast.Node) bool {
								if d, ok := n.(*ast.Ident); ok && x.info.Uses[d] == o {
									used = true
								}
								return true
							})
						}
						if !used && o != nil && x.site() {
							s.Init = a
							out = append(out, s)
							i++
							continue
						}
					}
				}
				out = append(out, l[i])
			}
			return out
		})
	},
	"eqswap": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || hasCall(b.X) && hasCall(b.Y) {
				return true
			}
			var r ast.Expr
			lenOf := func(e ast.Expr) bool {
				c, ok := e.(*ast.CallExpr)
				return ok && rootIdent(c.Fun) != nil && rootIdent(c.Fun).Name == "len"
			}
			lit := func(e ast.Expr, v string) bool { l, ok := e.(*ast.BasicLit); return ok && l.Value == v }
			one := &ast.BasicLit{Kind: token.INT, Value: "1"}
			zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
			switch b.Op {
			case token.EQL, token.NEQ:
				tx := x.info.Types[b.X].Type
				switch {
				case lenOf(b.X) && lit(b.Y, "0") && b.Op == token.EQL:
					r = &ast.BinaryExpr{X: b.X, Op: token.LSS, Y: one}
				case lenOf(b.X) && lit(b.Y, "0"):
					r = &ast.BinaryExpr{X: b.X, Op: token.GTR, Y: zero}
				case lit(b.Y, `""`) && tx != nil && types.Identical(tx, types.Typ[types.String]):
					r = &ast.BinaryExpr{X: call("len", b.X), Op: b.Op, Y: zero}
				default:
					r = &ast.BinaryExpr{X: b.Y, Op: b.Op, Y: b.X}
				}
			case token.LSS:
				r = &ast.BinaryExpr{X: b.Y, Op: token.GTR, Y: b.X}
			case token.GTR:
				if lenOf(b.X) && lit(b.Y, "0") {
					r = &ast.BinaryExpr{X: b.X, Op: token.NEQ, Y: zero}
				} else {
					r = &ast.BinaryExpr{X: b.Y, Op: token.LSS, Y: b.X}
				}
			case token.LEQ:
				r = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: token.GTR, Y: b.Y}}}
			}
			if r != nil && x.site() {
				c.Replace(r)
			}
			return true
		})
	},
	"demorgan": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR || !x.site() {
				return true
			}
			op := token.LOR
			if b.Op == token.LOR {
				op = token.LAND
			}
			c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: not(b.X)}, Op: op, Y: &ast.ParenExpr{X: not(b.Y)}}}})
			return true
		})
	},
	"sprintf": func(x *X) {
		if x.imports["fmt"] == "" {
			return
		}
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD {
				return true
			}
			if _, ok := c.Parent().(*ast.BinaryExpr); ok {
				return true
			}
			tv := x.info.Types[b]
			if tv.Type == nil || tv.Value != nil || !types.Identical(tv.Type, types.Typ[types.String]) || !x.site() {
				return true
			}
			c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: id("fmt"), Sel: id("Sprintf")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"%s%s"`}, b.X, b.Y}})
			return true
		})
	},
	"unsprintf": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			e, ok := c.Node().(*ast.CallExpr)
			if !ok || len(e.Args) < 2 {
				return true
			}
			s, ok := e.Fun.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != "Sprintf" {
				return true
			}
			l, ok := e.Args[0].(*ast.BasicLit)
			if !ok {
				return true
			}
			f, _ := strconv.Unquote(l.Value)
			parts := strings.Split(f, "%s")
			if len(parts) != len(e.Args) || strings.Contains(strings.Join(parts, ""), "%") {
				return true
			}
			for _, a := range e.Args[1:] {
				if t := x.info.Types[a].Type; t == nil || !types.Identical(t, types.Typ[types.String]) {
					return true
				}
			}
			if !x.site() {
				return true
			}
			var r ast.Expr
			add := func(y ast.Expr) {
				if r == nil {
					r = y
				} else {
					r = &ast.BinaryExpr{X: r, Op: token.ADD, Y: y}
				}
			}
			for i, p := range parts {
				if p != "" || i == 0 {
					add(&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)})
				}
				if i+1 < len(e.Args) {
					add(e.Args[i+1])
				}
			}
			c.Replace(&ast.ParenExpr{X: r})
			return true
		})
	},
	"lit2assign": func(x *X) {
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				r, ok := st.(*ast.ReturnStmt)
				if ok {
					for i, e := range r.Results {
						lit, amp := e, false
						if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
							lit, amp = u.X, true
						}
						cl, ok := lit.(*ast.CompositeLit)
						if !ok || len(cl.Elts) == 0 || x.info.Types[cl].Type == nil {
							continue
						}
						if _, ok := x.info.Types[cl].Type.Underlying().(*types.Struct); !ok {
							continue
						}
						if _, ok := cl.Elts[0].(*ast.KeyValueExpr); !ok || !x.site() {
							continue
						}
						n := x.fresh("res")
						var v ast.Expr = &ast.CompositeLit{Type: cl.Type}
						if amp {
							v = &ast.UnaryExpr{Op: token.AND, X: v}
						}
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
						for _, el := range cl.Elts {
							kv := el.(*ast.KeyValueExpr)
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
						}
						r.Results[i] = id(n)
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"guard": func(x *X) { // if c { continue }; rest -> if !c { rest }
		do := func(b *ast.BlockStmt) {
			for i := 0; i < len(b.List)-1; i++ {
				s, ok := b.List[i].(*ast.IfStmt)
				if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) != 1 {
					continue
				}
				br, ok := s.Body.List[0].(*ast.BranchStmt)
				if !ok || br.Tok != token.CONTINUE || br.Label != nil || !x.site() {
					continue
				}
				rest := append([]ast.Stmt(nil), b.List[i+1:]...)
				b.List = append(b.List[:i:i], &ast.IfStmt{Cond: not(s.Cond), Body: block(rest...)})
				return
			}
		}
		ast.Inspect(x.file, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.ForStmt:
				do(s.Body)
			case *ast.RangeStmt:
				do(s.Body)
			}
			return true
		})
	},
	"toguard": func(x *X) { // loop body that is one if -> if !c { continue }
		do := func(b *ast.BlockStmt) {
			if len(b.List) == 0 {
				return
			}
			s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || !x.site() {
				return
			}
			b.List = append(append(b.List[:len(b.List)-1:len(b.List)-1], &ast.IfStmt{Cond: not(s.Cond), Body: block(&ast.BranchStmt{Tok: token.CONTINUE})}), s.Body.List...)
		}
		ast.Inspect(x.file, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.ForStmt:
				do(s.Body)
			case *ast.RangeStmt:
				do(s.Body)
			}
			return true
		})
	},
	"earlyret": func(x *X) { // last statement of a function without results is one if -> early return
		ast.Inspect(x.file, func(n ast.Node) bool {
			fd, ok := n.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results != nil || len(fd.Body.List) == 0 {
				return true
			}
			b := fd.Body
			s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || !x.site() {
				return true
			}
			b.List = append(append(b.List[:len(b.List)-1:len(b.List)-1], &ast.IfStmt{Cond: not(s.Cond), Body: block(&ast.ReturnStmt{})}), s.Body.List...)
			return true
		})
	},
	"noop": func(x *X) {
		for _, d := range x.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && x.site() {
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
			}
		}
	},
	"boolret": func(x *X) { // return a && b -> if !a { return false }; return b
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				r, ok := st.(*ast.ReturnStmt)
				if ok && len(r.Results) == 1 {
					if b, ok := r.Results[0].(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && x.site() {
						if b.Op == token.LAND {
							out = append(out, &ast.IfStmt{Cond: not(b.X), Body: block(&ast.ReturnStmt{Results: []ast.Expr{id("false")}})})
						} else {
							out = append(out, &ast.IfStmt{Cond: b.X, Body: block(&ast.ReturnStmt{Results: []ast.Expr{id("true")}})})
						}
						r.Results[0] = b.Y
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"retvar": func(x *X) { // return cond -> if cond { return true }; return false
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				r, ok := st.(*ast.ReturnStmt)
				if ok && len(r.Results) == 1 {
					t := x.info.Types[r.Results[0]]
					if t.Type != nil && t.Value == nil && types.Identical(t.Type.Underlying(), types.Typ[types.Bool]) && x.site() {
						out = append(out, &ast.IfStmt{Cond: r.Results[0], Body: block(&ast.ReturnStmt{Results: []ast.Expr{id("true")}})})
						r.Results[0] = id("false")
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"vardecl": func(x *X) { // a := e -> var a T; a = e
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				a, ok := st.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
					i := a.Lhs[0].(*ast.Ident)
					if o := x.info.Defs[i]; o != nil {
						if te, ok := x.typeExpr(o.Type()); ok && x.site() {
							out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(i.Name)}, Type: te}}}})
							a.Tok = token.ASSIGN
						}
					}
				}
				out = append(out, st)
			}
			return out
		})
	},
	"deferclosure": func(x *X) {
		ast.Inspect(x.file, func(n ast.Node) bool {
			d, ok := n.(*ast.DeferStmt)
			if !ok || len(d.Call.Args) > 0 {
				return true
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok || !x.site() {
				return true
			}
			d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: d.Call})}}
			return true
		})
	},
	"opassign": func(x *X) {
		astutil.Apply(x.file, nil, func(c *astutil.Cursor) bool {
			a, ok := c.Node().(*ast.AssignStmt)
			if ok && a.Tok == token.ADD_ASSIGN && pureExpr(a.Lhs[0]) && x.site() {
				c.Replace(&ast.AssignStmt{Lhs: a.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: a.Lhs[0], Op: token.ADD, Y: a.Rhs[0]}}})
			}
			return true
		})
	},
	"reorder": func(x *X) { // adjacent independent definitions without calls
		names := func(n ast.Node) map[string]bool {
			m := map[string]bool{}
			ast.Inspect(n, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					m[i.Name] = true
				}
				return true
			})
			return m
		}
		okStmt := func(s ast.Stmt) (map[string]bool, map[string]bool, bool) {
			switch a := s.(type) {
			case *ast.AssignStmt:
				if a.Tok != token.DEFINE {
					return nil, nil, false
				}
				for _, r := range a.Rhs {
					if hasCall(r) {
						c, ok := r.(*ast.CallExpr)
						if !ok || rootIdent(c.Fun) == nil || rootIdent(c.Fun).Name != "make" {
							return nil, nil, false
						}
					}
				}
				d, u := map[string]bool{}, map[string]bool{}
				for _, l := range a.Lhs {
					d[l.(*ast.Ident).Name] = true
				}
				for _, r := range a.Rhs {
					for k := range names(r) {
						u[k] = true
					}
				}
				return d, u, true
			case *ast.DeclStmt:
				if hasCall(a) {
					return nil, nil, false
				}
				m := names(a)
				return m, m, true
			}
			return nil, nil, false
		}
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				d1, u1, ok1 := okStmt(l[i])
				d2, u2, ok2 := okStmt(l[i+1])
				if !ok1 || !ok2 {
					continue
				}
				bad := false
				for k := range d1 {
					bad = bad || u2[k] || d2[k]
				}
				for k := range d2 {
					bad = bad || u1[k]
				}
				if !bad && x.site() {
					l[i], l[i+1] = l[i+1], l[i]
					i++
				}
			}
			return l
		})
	},
	"reterr": func(x *X) { // if err := f(); err != nil { return err }; return nil -> return f()
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			if len(l) < 2 {
				return l
			}
			s, ok := l[len(l)-2].(*ast.IfStmt)
			r, ok2 := l[len(l)-1].(*ast.ReturnStmt)
			if !ok || !ok2 || s.Init == nil || s.Else != nil || len(s.Body.List) != 1 || len(r.Results) != 1 {
				return l
			}
			if i, ok := r.Results[0].(*ast.Ident); !ok || i.Name != "nil" {
				return l
			}
			a, ok := s.Init.(*ast.AssignStmt)
			r2, ok2 := s.Body.List[0].(*ast.ReturnStmt)
			if !ok || !ok2 || len(a.Lhs) != 1 || len(r2.Results) != 1 {
				return l
			}
			e1, ok1 := a.Lhs[0].(*ast.Ident)
			e2, ok2 := r2.Results[0].(*ast.Ident)
			if !ok1 || !ok2 || e1.Name != e2.Name || !x.site() {
				return l
			}
			return append(l[:len(l)-2:len(l)-2], &ast.ReturnStmt{Results: a.Rhs})
		})
	},
	"unreterr": func(x *X) { // return f() -> if err := f(); err != nil { return err }; return nil
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			if len(l) == 0 {
				return l
			}
			r, ok := l[len(l)-1].(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 {
				return l
			}
			c, ok := r.Results[0].(*ast.CallExpr)
			if !ok {
				return l
			}
			t := x.info.Types[c].Type
			if t == nil || t.String() != "error" || !x.site() {
				return l
			}
			return append(l[:len(l)-1:len(l)-1], &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id("err")}, Tok: token.DEFINE, Rhs: []ast.Expr{c}},
				Cond: &ast.BinaryExpr{X: id("err"), Op: token.NEQ, Y: id("nil")}, Body: block(&ast.ReturnStmt{Results: []ast.Expr{id("err")}})},
				&ast.ReturnStmt{Results: []ast.Expr{id("nil")}})
		})
	},
	"iife": func(x *X) { // the right side of a definition becomes an immediately called closure
		x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
			for _, st := range l {
				a, ok := st.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
					continue
				}
				o := x.info.Defs[a.Lhs[0].(*ast.Ident)]
				if o == nil {
					continue
				}
				te, ok := x.typeExpr(o.Type())
				if !ok || !x.site() {
					continue
				}
				a.Rhs[0] = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: te}}}}, Body: block(&ast.ReturnStmt{Results: []ast.Expr{a.Rhs[0]}})}}
			}
			return l
		})
	},
	"litclosure": func(x *X) {}, // placeholder
}

func renameAll(pkgs []*packages.Package, every, off int, kinds string) int {
	ren := map[types.Object]string{}
	n := 0
	methods := map[string]bool{} // unexported method names that interfaces mention
	for _, p := range pkgs {
		for _, o := range p.TypesInfo.Defs {
			if t, ok := o.(*types.TypeName); ok {
				if it, ok := t.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						methods[it.Method(i).Name()] = true
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		var objs []types.Object
		for _, o := range p.TypesInfo.Defs {
			if o != nil && !o.Exported() && o.Name() != "_" && o.Name() != "main" && o.Name() != "init" {
				objs = append(objs, o)
			}
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
		for _, o := range objs {
			k := ""
			switch v := o.(type) {
			case *types.Var:
				if v.IsField() {
					if v.Embedded() {
						continue
					}
					k = "field"
				} else if v.Parent() == p.Types.Scope() {
					k = "var"
				} else {
					k = "local"
				}
			case *types.Func:
				if v.Type().(*types.Signature).Recv() != nil {
					if methods[v.Name()] {
						continue
					}
					k = "method"
				} else if v.Parent() == p.Types.Scope() {
					k = "func"
				}
			case *types.TypeName:
				if v.Parent() == p.Types.Scope() {
					k = "type"
				}
			case *types.Const:
				if v.Parent() == p.Types.Scope() {
					k = "const"
				}
			}
			if k == "" || !strings.Contains(kinds, k) {
				continue
			}
			n++
			if (n+off)%every != 0 {
				continue
			}
			ren[o] = o.Name() + "Renamed"
		}
	}
	for _, p := range pkgs {
		for i, o := range p.TypesInfo.Defs {
			if s, ok := ren[o]; ok {
				i.Name = s
			}
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				if nt := named(v.Type()); nt != nil {
					if s, ok := ren[nt.Obj()]; ok {
						i.Name = s
					}
				}
			}
		}
		for i, o := range p.TypesInfo.Uses {
			if s, ok := ren[o]; ok {
				i.Name = s
			}
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				if nt := named(v.Type()); nt != nil {
					if s, ok := ren[nt.Obj()]; ok {
						i.Name = s
					}
				}
			}
		}
	}
	return n
}

func named(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func main() {
	if len(os.Args) < 3 {
		var ks []string
		for k := range transforms {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "), "rename:field rename:var rename:func rename:method rename:type rename:const rename:local")
		return
	}
	dir, tr := os.Args[1], os.Args[2]
	every, off, only := 1, 0, ""
	if len(os.Args) > 3 {
		every, _ = strconv.Atoi(os.Args[3])
	}
	if len(os.Args) > 4 {
		off, _ = strconv.Atoi(os.Args[4])
	}
	if len(os.Args) > 5 {
		only = os.Args[5]
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir: dir, Fset: fset, ParseFile: func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, fn, src, 0)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	orig := map[string][]byte{}
	total := 0
	hn := 0
	write := func(p *packages.Package, f *ast.File, helpers []ast.Decl) {
		fn := fset.Position(f.Pos()).Filename
		var b bytes.Buffer
		// printing without positions gives canonical layout
		f.Decls = append(f.Decls, helpers...)
		if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
			fmt.Println("print", fn, err)
			return
		}
		src := b.Bytes()
		// re-parse to be sure, statements of rewritten nodes may share lines
		if _, err := parser.ParseFile(token.NewFileSet(), fn, src, 0); err != nil {
			var b2 bytes.Buffer
			printer.Fprint(&b2, fset, f)
			src = b2.Bytes()
			if _, err := parser.ParseFile(token.NewFileSet(), fn, src, 0); err != nil {
				fmt.Println("unprintable", fn, err)
				return
			}
		}
		old, _ := os.ReadFile(fn)
		orig[fn] = old
		os.WriteFile(fn, src, 0o644)
	}
	skip := func(p *packages.Package, fn string) bool {
		if strings.HasSuffix(fn, ".pb.go") || !strings.Contains(fn, "/internal/") || strings.Contains(p.PkgPath, "/testing") || strings.Contains(fn, "/internal/testing") || strings.Contains(fn, "gen-prototool") {
			return true
		}
		if only != "" && !strings.Contains(p.PkgPath, only) {
			return true
		}
		src, _ := os.ReadFile(fn)
		h := string(src)
		if i := strings.Index(h, "\npackage "); i > 0 {
			h = h[:i]
		}
		return strings.Contains(h, "+build") || strings.Contains(h, "go:build")
	}
	if strings.HasPrefix(tr, "rename:") {
		var ps []*packages.Package
		for _, p := range pkgs {
			if only == "" || strings.Contains(p.PkgPath, only) {
				ps = append(ps, p)
			}
		}
		total = renameAll(ps, every, off, strings.TrimPrefix(tr, "rename:"))
		for _, p := range ps {
			for _, f := range p.Syntax {
				if !strings.HasSuffix(fset.Position(f.Pos()).Filename, ".pb.go") && !skip(p, fset.Position(f.Pos()).Filename) {
					write(p, f, nil)
				}
			}
		}
	} else {
		t := transforms[tr]
		for _, p := range pkgs {
			for _, f := range p.Syntax {
				fn := fset.Position(f.Pos()).Filename
				if skip(p, fn) {
					continue
				}
				imports := map[string]string{}
				for _, im := range f.Imports {
					path, _ := strconv.Unquote(im.Path.Value)
					if im.Name != nil {
						imports[path] = im.Name.Name
					} else if ip := p.Imports[path]; ip != nil {
						imports[path] = ip.Name
					}
				}
				x := &X{info: p.TypesInfo, pkg: p.Types, file: f, every: every, off: off + total, hn: &hn, imports: imports}
				t(x)
				if x.n == 0 {
					continue
				}
				total += x.n
				write(p, f, x.helpers)
			}
		}
	}
	// files that do not compile are put back
	for try := 0; try < 12; try++ {
		c := exec.Command("go", "build", "./...")
		c.Dir = dir
		out, err := c.CombinedOutput()
		if err == nil {
			break
		}
		n := 0
		for _, l := range strings.Split(string(out), "\n") {
			i := strings.Index(l, ".go:")
			if i < 0 {
				continue
			}
			for fn, src := range orig {
				if strings.HasSuffix(fn, strings.TrimPrefix(l[:i+3], "./")) && src != nil {
					os.WriteFile(fn, src, 0o644)
					fmt.Println("put back", l)
					orig[fn] = nil
					n++
				}
			}
		}
		if n == 0 {
			fmt.Println("does not build:", string(out))
			os.Exit(1)
		}
	}
	kept := 0
	for _, s := range orig {
		if s != nil {
			kept++
		}
	}
	fmt.Println(tr, "sites", total, "files", kept)
}

func init() {
	guard := func(cond func(e ast.Expr) ast.Expr) func(x *X) {
		return func(x *X) {
			done := map[ast.Stmt]bool{}
			x.stmts(func(l []ast.Stmt, fb bool) []ast.Stmt {
				for i, st := range l {
					s, ok := st.(*ast.RangeStmt)
					if !ok || done[st] || !pureExpr(s.X) {
						continue
					}
					tv, ok := x.info.Types[s.X]
					if !ok {
						continue
					}
					switch tv.Type.Underlying().(type) {
					case *types.Slice, *types.Map:
					default:
						continue
					}
					if !x.site() {
						continue
					}
					done[st] = true
					l[i] = &ast.IfStmt{Cond: cond(s.X), Body: block(s)}
				}
				return l
			})
		}
	}
	transforms["lenguard"] = guard(func(e ast.Expr) ast.Expr {
		return &ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{e}}, Op: token.GTR, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}}
	})
	transforms["nilguard"] = guard(func(e ast.Expr) ast.Expr {
		return &ast.BinaryExpr{X: e, Op: token.NEQ, Y: ast.NewIdent("nil")}
	})
}
