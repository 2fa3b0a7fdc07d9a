// mutate lists small changes of behaviour: one JSON object per line with the
// file, the byte range, the replacement and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File, Op, New, Old string
	Line, From, To     int
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			if fi != nil && (fi.Name() == "testdata" || fi.Name() == "example" || fi.Name() == "gen" || strings.HasPrefix(fi.Name(), "gen-") || fi.Name() == ".git" || fi.Name() == "testing" || fi.Name() == "bazel") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(op string, from, to token.Pos, nw string) {
			a, b := off(from), off(to)
			enc.Encode(mut{rel, op, nw, string(src[a:b]), fset.Position(from).Line, a, b})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var quiet func(n ast.Node) bool // error and log texts
		quiet = func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return false
			}
			t := text(c.Fun)
			for _, s := range []string{"fmt.Errorf", "errors.New", "Failuref", "logger.", "zap.", "newExitErrorf", "NewLinter", "NewSuppressableLinter", "Debug", "Warn"} {
				if strings.Contains(t, s) {
					return true
				}
			}
			return false
		}
		for _, d := range f.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				if n != nil && quiet(n) {
					return false
				}
				switch x := n.(type) {
				case *ast.IfStmt:
					add("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				case *ast.BinaryExpr:
					m := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-"}
					if r, ok := m[x.Op]; ok && !strings.Contains(text(x), `"`) {
						add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						add("branch", x.Pos(), x.End(), "break")
					}
					if x.Label == nil && x.Tok == token.BREAK {
						add("branch", x.Pos(), x.End(), "continue")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt:
							if c, ok := y.X.(*ast.CallExpr); ok && !quiet(c) {
								add("drop", s.Pos(), s.End(), "")
							}
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								add("drop", s.Pos(), s.End(), "")
							}
						case *ast.IncDecStmt:
							add("drop", s.Pos(), s.End(), "")
						case *ast.DeferStmt:
							add("drop", s.Pos(), s.End(), "")
						case *ast.BranchStmt:
							add("drop", s.Pos(), s.End(), "")
						case *ast.IfStmt:
							if y.Init == nil {
								add("dropif", s.Pos(), s.End(), "")
							}
						case *ast.ReturnStmt:
							if len(x.List) > 0 && s == x.List[len(x.List)-1] && len(y.Results) > 0 {
								last := y.Results[len(y.Results)-1]
								if id, ok := last.(*ast.Ident); ok && (id.Name == "err" || id.Name == "retErr") {
									add("nilerr", last.Pos(), last.End(), "nil")
								}
							}
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						}
					}
					if x.Kind == token.STRING {
						add("string", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
					}
				case *ast.Ident:
					if x.Name == "true" {
						add("bool", x.Pos(), x.End(), "false")
					}
					if x.Name == "false" {
						add("bool", x.Pos(), x.End(), "true")
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						if text(x.Args[i]) != text(x.Args[i+1]) && !x.Ellipsis.IsValid() {
							add("swap", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add("unnot", x.Pos(), x.End(), text(x.X))
					}
				case *ast.KeyValueExpr:
					if _, ok := x.Key.(*ast.Ident); ok {
						add("dropkv", x.Pos(), x.End()+1, "")
					}
				case *ast.CompositeLit:
					if _, ok := x.Type.(*ast.ArrayType); ok {
						for _, e := range x.Elts {
							add("dropelt", e.Pos(), e.End()+1, "")
						}
					}
				case *ast.RangeStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						add("range1", x.X.Pos(), x.X.End(), id.Name+"[1:]")
					}
				}
				return true
			})
		}
		return nil
	})
}
