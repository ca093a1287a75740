// mutgen lists one-place mutations of a module as JSON lines: mutgen DIR.
package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File, Func, Op, New string
	From, To, Line      int
}

func main() {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: os.Args[1]}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range ps {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			rel, err := filepath.Rel(os.Args[1], name)
			if err != nil || strings.HasPrefix(rel, "..") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			tf := p.Fset.File(f.Pos())
			off := func(x token.Pos) int { return tf.Offset(x) }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					fn = text(t) + "." + fn
				}
				out := func(op string, from, to token.Pos, repl string) {
					enc.Encode(mut{rel, fn, op, repl, off(from), off(to), tf.Line(from)})
				}
				var fnRes *types.Signature
				if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					fnRes = o.Type().(*types.Signature)
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BinaryExpr:
						for _, alt := range map[token.Token][]string{
							token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
							token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SUB: {"+"},
						}[x.Op] {
							out("op "+x.Op.String(), x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), alt)
						}
						if x.Op == token.LAND || x.Op == token.LOR {
							out("left only", x.Pos(), x.End(), text(x.X))
							out("right only", x.Pos(), x.End(), text(x.Y))
						}
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							out("drop if", x.Pos(), x.End(), "")
							out("always", x.Cond.Pos(), x.Cond.End(), text(x.Cond)+" || true")
						}
						if x.Else != nil {
							out("drop else", x.Body.End(), x.Else.End(), "")
						}
					case *ast.BasicLit:
						if x.Kind == token.INT {
							if v, err := strconv.Atoi(x.Value); err == nil {
								out("int", x.Pos(), x.End(), strconv.Itoa(v+1))
								if v > 0 {
									out("int", x.Pos(), x.End(), strconv.Itoa(v-1))
								}
							}
						}
						if x.Kind == token.STRING {
							if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 {
								out("string", x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]))
							}
						}
					case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
						out("drop stmt", x.Pos(), x.End(), "")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							out("drop assign", x.Pos(), x.End(), "")
						}
					case *ast.BranchStmt:
						if x.Tok == token.BREAK && x.Label == nil {
							out("break", x.Pos(), x.End(), "continue")
						}
						if x.Tok == token.CONTINUE && x.Label == nil {
							out("continue", x.Pos(), x.End(), "break")
						}
					case *ast.ReturnStmt:
						if k := len(x.Results); k > 0 {
							last := x.Results[k-1]
							if t := p.TypesInfo.TypeOf(last); t != nil && text(last) != "nil" && fnRes != nil {
								if t.String() == "error" {
									out("nil error", last.Pos(), last.End(), "nil")
								}
								if text(last) == "true" {
									out("bool", last.Pos(), last.End(), "false")
								}
								if text(last) == "false" {
									out("bool", last.Pos(), last.End(), "true")
								}
							}
						}
					case *ast.CallExpr:
						for i := 0; i+1 < len(x.Args); i++ {
							a, b := p.TypesInfo.TypeOf(x.Args[i]), p.TypesInfo.TypeOf(x.Args[i+1])
							if a != nil && b != nil && types.Identical(a, b) && text(x.Args[i]) != text(x.Args[i+1]) {
								out("swap args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+string(src[off(x.Args[i].End()):off(x.Args[i+1].Pos())])+text(x.Args[i]))
							}
						}
					case *ast.CaseClause:
						if len(x.List) > 1 {
							out("drop case", x.List[len(x.List)-2].End(), x.List[len(x.List)-1].End(), "")
						}
					case *ast.SelectorExpr:
						sel := p.TypesInfo.Selections[x]
						if sel == nil {
							break
						}
						if sel.Kind() == types.FieldVal {
							t := sel.Recv()
							if q, ok := t.Underlying().(*types.Pointer); ok {
								t = q.Elem()
							}
							if s, ok := t.Underlying().(*types.Struct); ok {
								for i := 0; i < s.NumFields(); i++ {
									g := s.Field(i)
									if g.Name() != x.Sel.Name && g.Name() != "_" && types.Identical(g.Type(), sel.Type()) && (g.Exported() || g.Pkg() == p.Types) {
										out("field "+x.Sel.Name, x.Sel.Pos(), x.Sel.End(), g.Name())
									}
								}
							}
						}
					case *ast.Ident:
						v, ok := p.TypesInfo.Uses[x].(*types.Var)
						if !ok || v.IsField() || v.Parent() == nil || v.Parent() == p.Types.Scope() {
							break
						}
						// Another variable of the type in scope.
						seen := 0
						for sc := p.Types.Scope().Innermost(x.Pos()); sc != nil && sc != p.Types.Scope() && seen < 2; sc = sc.Parent() {
							for _, nm := range sc.Names() {
								w, ok := sc.Lookup(nm).(*types.Var)
								if ok && w != v && nm != "_" && w.Pos() < x.Pos() && types.Identical(w.Type(), v.Type()) && nm != v.Name() && seen < 2 {
									seen++
									out("var "+x.Name, x.Pos(), x.End(), nm)
								}
							}
						}
					}
					return true
				})
			}
		}
	}
}
