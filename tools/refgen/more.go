package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// imports wanted by the rewritten code of the file at hand
var wanted = map[string]bool{}

func pkgCall(c *ast.CallExpr, pkg string) string {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok || id.Name != pkg {
		return ""
	}
	if _, is := info.Uses[id].(*types.PkgName); !is {
		return ""
	}
	return s.Sel.Name
}

func sel(x, y string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(y)}
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// plain: no jumps out of the statements.
func plain(n ast.Node) bool {
	ok := true
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			ok = false
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return ok
}

func init() {
	for k, v := range map[string]func(c *astutil.Cursor) bool{
		"nest": func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			if b, is := s.Cond.(*ast.BinaryExpr); is && b.Op == token.LAND {
				s.Cond = b.X
				s.Body = block(&ast.IfStmt{Cond: b.Y, Body: s.Body})
			}
			return true
		},
		"join": func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil || len(s.Body.List) != 1 {
				return true
			}
			if i, is := s.Body.List[0].(*ast.IfStmt); is && i.Init == nil && i.Else == nil {
				s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: i.Cond}}
				s.Body = i.Body
			}
			return true
		},
		"boolcmp": func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.UnaryExpr); ok && s.Op == token.NOT {
				c.Replace(&ast.BinaryExpr{X: &ast.ParenExpr{X: s.X}, Op: token.EQL, Y: ast.NewIdent("false")})
			}
			return true
		},
		"fprint": func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.CallExpr); ok {
				switch n := pkgCall(s, "fmt"); n {
				case "Println", "Printf", "Print":
					s.Fun = sel("fmt", "F"+strings.ToLower(n))
					s.Args = append([]ast.Expr{sel("os", "Stdout")}, s.Args...)
					wanted["os"] = true
				}
			}
			return true
		},
		"errorf": func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.CallExpr); ok && pkgCall(s, "errors") == "New" {
				wanted["fmt"] = true
				if l, is := s.Args[0].(*ast.BasicLit); is && !strings.Contains(l.Value, "%") {
					s.Fun = sel("fmt", "Errorf")
				} else {
					s.Fun = sel("fmt", "Errorf")
					s.Args = append([]ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"%s"`}}, s.Args...)
				}
			}
			return true
		},
		"concat": func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.BinaryExpr)
			if !ok || s.Op != token.ADD {
				return true
			}
			tv := info.Types[s]
			if tv.Type == nil || tv.Type.String() != "string" || tv.Value != nil {
				return true
			}
			if _, is := c.Parent().(*ast.BinaryExpr); is {
				return true
			}
			var parts []ast.Expr
			var add func(e ast.Expr)
			add = func(e ast.Expr) {
				if b, is := e.(*ast.BinaryExpr); is && b.Op == token.ADD {
					add(b.X)
					add(b.Y)
					return
				}
				parts = append(parts, e)
			}
			add(s)
			wanted["strings"] = true
			c.Replace(&ast.CallExpr{Fun: sel("strings", "Join"), Args: []ast.Expr{
				&ast.CompositeLit{Type: &ast.ArrayType{Elt: ast.NewIdent("string")}, Elts: parts},
				&ast.BasicLit{Kind: token.STRING, Value: `""`}}})
			return true
		},
		"sprint": func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.BinaryExpr)
			if !ok || s.Op != token.ADD {
				return true
			}
			tv := info.Types[s]
			if tv.Type == nil || tv.Type.String() != "string" || tv.Value != nil {
				return true
			}
			if _, is := c.Parent().(*ast.BinaryExpr); is {
				return true
			}
			f := ""
			var parts []ast.Expr
			var add func(e ast.Expr)
			add = func(e ast.Expr) {
				if b, is := e.(*ast.BinaryExpr); is && b.Op == token.ADD {
					add(b.X)
					add(b.Y)
					return
				}
				f += "%s"
				parts = append(parts, e)
			}
			add(s)
			wanted["fmt"] = true
			c.Replace(&ast.CallExpr{Fun: sel("fmt", "Sprintf"), Args: append([]ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"` + f + `"`}}, parts...)})
			return true
		},
		"deferfn": func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.DeferStmt); ok && len(s.Call.Args) == 0 {
				if _, is := s.Call.Fun.(*ast.FuncLit); !is {
					call := s.Call
					s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: call})}}
				}
			}
			return true
		},
		"elsify": func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok {
				return true
			}
			for i, st := range b.List {
				s, is := st.(*ast.IfStmt)
				if is && s.Else == nil && terminates(s.Body) && i+1 < len(b.List) {
					s.Else = block(append([]ast.Stmt(nil), b.List[i+1:]...)...)
					b.List = b.List[:i+1]
					// go on inside
					astutil.Apply(s.Else, nil, transforms["elsify"])
					break
				}
			}
			return true
		},
		"literal": func(c *astutil.Cursor) bool {
			// x := T{A: 1} becomes var x T; x.A = 1
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 {
				return true
			}
			if _, is := c.Parent().(*ast.BlockStmt); !is {
				return true
			}
			l, is := s.Rhs[0].(*ast.CompositeLit)
			if !is || l.Type == nil || len(l.Elts) == 0 {
				return true
			}
			if _, is := info.TypeOf(l).Underlying().(*types.Struct); !is {
				return true
			}
			id := s.Lhs[0].(*ast.Ident)
			var post []ast.Stmt
			for _, e := range l.Elts {
				kv, is := e.(*ast.KeyValueExpr)
				if !is {
					return true
				}
				v := kv.Value
				post = append(post, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
			for i := len(post) - 1; i >= 0; i-- {
				c.InsertAfter(post[i])
			}
			c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Type: l.Type}}}})
			return true
		},
		"appends": func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.CallExpr)
			if !ok || s.Ellipsis.IsValid() || len(s.Args) < 2 {
				return true
			}
			if id, is := s.Fun.(*ast.Ident); !is || id.Name != "append" {
				return true
			}
			t, is := info.TypeOf(s.Args[0]).Underlying().(*types.Slice)
			if !is {
				return true
			}
			q := func(p *types.Package) string {
				if p == curPkg {
					return ""
				}
				return p.Name()
			}
			name := types.TypeString(t.Elem(), q)
			s.Args = []ast.Expr{s.Args[0], &ast.CompositeLit{Type: &ast.ArrayType{Elt: ast.NewIdent(name)}, Elts: s.Args[1:]}}
			s.Ellipsis = 1
			return true
		},
		"continueif": func(c *astutil.Cursor) bool {
			// the last if of a loop's body: continue unless
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			if b == nil || len(b.List) == 0 {
				return true
			}
			s, is := b.List[len(b.List)-1].(*ast.IfStmt)
			if !is || s.Else != nil {
				return true
			}
			if s.Init != nil {
				return true
			}
			b.List[len(b.List)-1] = &ast.IfStmt{Cond: not(s.Cond), Body: block(&ast.BranchStmt{Tok: token.CONTINUE})}
			b.List = append(b.List, s.Body.List...)
			return true
		},
		"loopfn": func(c *astutil.Cursor) bool {
			// the body of a loop becomes a function
			var b *ast.BlockStmt
			switch s := c.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			if b == nil || !plain(b) {
				return true
			}
			b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(b.List...)}}}}
			return true
		},
		"blockfn": func(c *astutil.Cursor) bool {
			// the body of an if becomes a function
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || !plain(s.Body) {
				return true
			}
			s.Body = block(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: s.Body}}})
			return true
		},
		"condfn": func(c *astutil.Cursor) bool {
			// a condition becomes a function
			s, ok := c.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			if t := info.TypeOf(s.Cond); t == nil || t.String() != "bool" && t.String() != "untyped bool" {
				return true
			}
			s.Cond = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}}, Body: block(&ast.ReturnStmt{Results: []ast.Expr{s.Cond}})}}
			return true
		},
	} {
		transforms[k] = v
	}
}
