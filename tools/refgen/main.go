// refgen applies one behaviour-preserving rewrite everywhere in a module:
// refgen DIR TRANSFORM [FUNC…] (only in the named functions, if any).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var info *types.Info
var fset *token.FileSet
var n int
var curPkg *types.Package

func fresh(s string) *ast.Ident { n++; return ast.NewIdent(fmt.Sprintf("%s%d_", s, n)) }

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func block(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// breaks: a break (or a label's) in s would change its meaning in a switch.
func breaks(s ast.Node) bool {
	found := false
	ast.Inspect(s, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BranchStmt:
			if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH {
				found = true
			}
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
			return x == s
		}
		return true
	})
	return found
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	}
	return false
}

func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr:
			if tv, is := info.Types[y.Fun]; !is || !tv.IsType() {
				ok = false
			}
		case *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && y.Op != token.ARROW
		}
		return ok
	})
	return ok
}

var transforms = map[string]func(c *astutil.Cursor) bool{
	"invert": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else == nil {
			return true
		}
		e, is := s.Else.(*ast.BlockStmt)
		if !is {
			e = block(s.Else)
		}
		s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
		return true
	},
	"yoda": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return true
		}
		m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if op, is := m[s.Op]; is {
			s.X, s.Y, s.Op = &ast.ParenExpr{X: s.Y}, &ast.ParenExpr{X: s.X}, op
		}
		return true
	},
	"splitinit": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init == nil {
			return true
		}
		in := s.Init
		s.Init = nil
		c.Replace(block(in, s))
		return true
	},
	"index": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE {
			return true
		}
		if _, is := c.Parent().(*ast.LabeledStmt); is {
			return true
		}
		if _, is := info.TypeOf(s.X).Underlying().(*types.Slice); !is {
			return true
		}
		i, _ := s.Key.(*ast.Ident)
		if i == nil || i.Name == "_" {
			i = fresh("i")
		}
		xs := fresh("xs")
		if v, is := s.Value.(*ast.Ident); is && v.Name != "_" {
			s.Body.List = append([]ast.Stmt{define(v, &ast.IndexExpr{X: xs, Index: i})}, s.Body.List...)
		}
		c.Replace(block(define(xs, s.X), &ast.ForStmt{
			Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
			Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{xs}}},
			Post: &ast.IncDecStmt{X: i, Tok: token.INC},
			Body: s.Body,
		}))
		return true
	},
	"toswitch": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil {
			return true
		}
		if p, is := c.Parent().(*ast.IfStmt); is && p.Else == s {
			return true
		}
		if breaks(s) {
			return true
		}
		var cs []ast.Stmt
		for x := s; ; {
			cond := x.Cond
			if t := info.TypeOf(cond); t != nil && t.String() != "bool" {
				cond = &ast.CallExpr{Fun: ast.NewIdent("bool"), Args: []ast.Expr{cond}}
			}
			cs = append(cs, &ast.CaseClause{List: []ast.Expr{cond}, Body: x.Body.List})
			if x.Else == nil {
				break
			}
			if e, is := x.Else.(*ast.IfStmt); is && e.Init == nil {
				x = e
				continue
			}
			if b, is := x.Else.(*ast.BlockStmt); is {
				cs = append(cs, &ast.CaseClause{Body: b.List})
			} else {
				cs = append(cs, &ast.CaseClause{Body: []ast.Stmt{x.Else}})
			}
			break
		}
		c.Replace(&ast.SwitchStmt{Body: block(cs...)})
		return true
	},
	"fromswitch": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || s.Init != nil {
			return true
		}
		if _, is := c.Parent().(*ast.LabeledStmt); is {
			return true
		}
		var def *ast.CaseClause
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			for _, y := range cc.Body {
				if breaks(y) {
					return true
				}
			}
			if cc.List == nil {
				def = cc
			}
		}
		var tag ast.Expr
		var pre []ast.Stmt
		if s.Tag != nil {
			id := fresh("tag")
			tag = id
			pre = append(pre, define(id, s.Tag))
		}
		var first *ast.IfStmt
		var last *ast.IfStmt
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			if cc.List == nil {
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				if tag != nil {
					e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				} else {
					e = &ast.ParenExpr{X: e}
				}
				if cond == nil {
					cond = e
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
				}
			}
			i := &ast.IfStmt{Cond: cond, Body: block(cc.Body...)}
			if first == nil {
				first = i
			} else {
				last.Else = i
			}
			last = i
		}
		if first == nil {
			return true
		}
		if def != nil {
			last.Else = block(def.Body...)
		}
		c.Replace(block(append(pre, first)...))
		return true
	},
	"condvar": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil {
			return true
		}
		id := fresh("cond")
		d := define(id, s.Cond)
		s.Cond = id
		c.Replace(block(d, s))
		return true
	},
	"demorgan": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return true
		}
		switch s.Op {
		case token.LAND:
			c.Replace(not(&ast.BinaryExpr{X: not(s.X), Op: token.LOR, Y: not(s.Y)}))
		case token.LOR:
			c.Replace(not(&ast.BinaryExpr{X: not(s.X), Op: token.LAND, Y: not(s.Y)}))
		}
		return true
	},
	"len": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return true
		}
		call, is := s.X.(*ast.CallExpr)
		if !is {
			return true
		}
		id, is := call.Fun.(*ast.Ident)
		if !is || id.Name != "len" {
			return true
		}
		if l, is := s.Y.(*ast.BasicLit); is && l.Value == "0" {
			switch s.Op {
			case token.EQL:
				s.Op, s.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
			case token.GTR:
				s.Op = token.NEQ
			case token.NEQ:
				s.Op, s.Y = token.GEQ, &ast.BasicLit{Kind: token.INT, Value: "1"}
			}
		}
		return true
	},
	"noelse": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else == nil || s.Init != nil || !terminates(s.Body) {
			return true
		}
		e := s.Else
		s.Else = nil
		c.Replace(block(s, e))
		return true
	},
	"forever": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ForStmt)
		if !ok || s.Cond == nil {
			return true
		}
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: block(&ast.BranchStmt{Tok: token.BREAK})}}, s.Body.List...)
		s.Cond = nil
		return true
	},
	"vars": func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return true
		}
		if _, is := c.Parent().(*ast.BlockStmt); !is {
			return true
		}
		if id := s.Lhs[0].(*ast.Ident); id.Name != "_" {
			c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Values: s.Rhs}}}})
		}
		return true
	},
	"errinit": func(c *astutil.Cursor) bool {
		// x := f(); if cond -> if x := f(); cond where x is used nowhere else:
		// approximated by bare blocks, so nothing to do
		return true
	},
	"args": func(c *astutil.Cursor) bool {
		// the arguments of a call standing alone or assigned are named first
		var call *ast.CallExpr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if s.Tok == token.ASSIGN && len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
				for _, l := range s.Lhs {
					if !pure(l) {
						return true
					}
				}
			}
		}
		if call == nil || call.Ellipsis.IsValid() {
			return true
		}
		if _, is := c.Parent().(*ast.BlockStmt); !is {
			return true
		}
		if tv := info.Types[call.Fun]; tv.IsType() || tv.IsBuiltin() || !pure(call.Fun) {
			return true
		}
		var pre []ast.Stmt
		for i, a := range call.Args {
			tv, ok := info.Types[a]
			if !ok || tv.Value != nil || tv.IsNil() || tv.Type == nil {
				continue
			}
			if _, is := a.(*ast.CallExpr); !is {
				continue
			}
			if _, is := tv.Type.(*types.Tuple); is {
				continue
			}
			id := fresh("arg")
			pre = append(pre, define(id, a))
			call.Args[i] = id
		}
		if pre == nil {
			return true
		}
		st := c.Node().(ast.Stmt)
		c.Replace(block(append(pre, st)...))
		return true
	},
	"swap": func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return true
		}
		simple := func(s ast.Stmt) *ast.AssignStmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(a.Rhs) != 1 || !pure(a.Rhs[0]) {
				return nil
			}
			if _, is := a.Lhs[0].(*ast.SelectorExpr); !is || !pure(a.Lhs[0]) {
				return nil
			}
			return a
		}
		for i := 0; i+1 < len(b.List); i++ {
			x, y := simple(b.List[i]), simple(b.List[i+1])
			if x == nil || y == nil {
				continue
			}
			lx, ly := text(x.Lhs[0]), text(y.Lhs[0])
			if strings.HasPrefix(lx, ly) || strings.HasPrefix(ly, lx) || strings.Contains(text(x.Rhs[0]), ly) || strings.Contains(text(y.Rhs[0]), lx) {
				continue
			}
			b.List[i], b.List[i+1] = y, x
			i++
		}
		return true
	},
}

func text(e ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, e)
	return b.String()
}

// named gives every parameter a name.
func named(fl *ast.FieldList) (args []ast.Expr, ell bool) {
	if fl == nil {
		return nil, false
	}
	for _, f := range fl.List {
		if len(f.Names) == 0 {
			f.Names = []*ast.Ident{fresh("p")}
		}
		for i, nm := range f.Names {
			if nm.Name == "_" {
				f.Names[i] = fresh("p")
			}
			args = append(args, ast.NewIdent(f.Names[i].Name))
		}
		if _, is := f.Type.(*ast.Ellipsis); is {
			ell = true
		}
	}
	return
}

func unnamed(fl *ast.FieldList) bool {
	return fl == nil || len(fl.List) == 0 || len(fl.List[0].Names) == 0
}

// whole-function rewrites
var funcs = map[string]func(d *ast.FuncDecl) []ast.Decl{
	"closure": func(d *ast.FuncDecl) []ast.Decl {
		if !unnamed(d.Type.Results) {
			return nil
		}
		call := &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: d.Type.Results}, Body: d.Body}}
		if d.Type.Results == nil || len(d.Type.Results.List) == 0 {
			d.Body = block(&ast.ExprStmt{X: call})
		} else {
			d.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
		}
		return nil
	},
	"impl": func(d *ast.FuncDecl) []ast.Decl {
		if !unnamed(d.Type.Results) || d.Name.Name == "init" || d.Name.Name == "main" {
			return nil
		}
		args, ell := named(d.Type.Params)
		impl := &ast.FuncDecl{Name: ast.NewIdent(strings.ToLower(d.Name.Name[:1]) + d.Name.Name[1:] + "Impl_"), Type: d.Type, Body: d.Body}
		var fun ast.Expr = impl.Name
		if d.Recv != nil {
			r, _ := named(d.Recv)
			impl.Recv = d.Recv
			fun = &ast.SelectorExpr{X: r[0], Sel: impl.Name}
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if ell {
			call.Ellipsis = 1
		}
		if d.Type.Results == nil || len(d.Type.Results.List) == 0 {
			d.Body = block(&ast.ExprStmt{X: call})
		} else {
			d.Body = block(&ast.ReturnStmt{Results: []ast.Expr{call}})
		}
		return []ast.Decl{impl}
	},
	"rets": func(d *ast.FuncDecl) []ast.Decl {
		if d.Type.Results == nil || !unnamed(d.Type.Results) {
			return nil
		}
		rs := d.Type.Results.List
		astutil.Apply(d.Body, func(c *astutil.Cursor) bool {
			switch x := c.Node().(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				if len(x.Results) != len(rs) {
					return true
				}
				var pre []ast.Stmt
				for i, e := range x.Results {
					id := fresh("ret")
					pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Type: rs[i].Type, Values: []ast.Expr{e}}}}})
					x.Results[i] = id
				}
				c.Replace(block(append(pre, x)...))
				return false
			}
			return true
		}, nil)
		return nil
	},
	"namedrets": func(d *ast.FuncDecl) []ast.Decl {
		if d.Type.Results == nil || len(d.Type.Results.List) == 0 || !unnamed(d.Type.Results) {
			return nil
		}
		var ids []ast.Expr
		for _, f := range d.Type.Results.List {
			id := fresh("out")
			f.Names = []*ast.Ident{id}
			ids = append(ids, id)
		}
		astutil.Apply(d.Body, func(c *astutil.Cursor) bool {
			switch x := c.Node().(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				c.Replace(block(&ast.AssignStmt{Lhs: ids, Tok: token.ASSIGN, Rhs: x.Results}, &ast.ReturnStmt{}))
				return false
			}
			return true
		}, nil)
		return nil
	},
}

func main() {
	dir, tr := os.Args[1], os.Args[2]
	only := map[string]bool{}
	for _, a := range os.Args[3:] {
		only[a] = true
	}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		info, fset, curPkg = p.TypesInfo, p.Fset, p.Types
		for _, f := range p.Syntax {
			f.Comments = nil
			wanted = map[string]bool{}
			var add []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || strings.HasPrefix(fd.Name.Name, "Test") {
					continue
				}
				fd.Doc = nil
				name := fd.Name.Name
				if fd.Recv != nil {
					name = strings.TrimPrefix(text(fd.Recv.List[0].Type), "*") + "." + name
				}
				if len(only) > 0 && !only[name] {
					continue
				}
				if t := transforms[tr]; t != nil {
					astutil.Apply(fd, nil, t)
				} else if t := funcs[tr]; t != nil {
					add = append(add, t(fd)...)
				} else {
					panic(tr)
				}
			}
			f.Decls = append(f.Decls, add...)
			for w := range wanted {
				astutil.AddImport(p.Fset, f, w)
			}
			for _, w := range []string{"errors"} {
				if !astutil.UsesImport(f, w) {
					astutil.DeleteImport(p.Fset, f, w)
				}
			}
			name := p.Fset.Position(f.Package).Filename
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), strip(f)); err != nil {
				panic(err)
			}
			os.WriteFile(name, b.Bytes(), 0644)
		}
	}
}

// strip drops comments, whose places no longer fit.
func strip(f *ast.File) *ast.File {
	f.Doc = nil
	ast.Inspect(f, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.GenDecl:
			y.Doc = nil
		case *ast.FuncDecl:
			y.Doc = nil
		case *ast.Field:
			y.Doc, y.Comment = nil, nil
		case *ast.ValueSpec:
			y.Doc, y.Comment = nil, nil
		case *ast.TypeSpec:
			y.Doc, y.Comment = nil, nil
		case *ast.ImportSpec:
			y.Doc, y.Comment = nil, nil
		}
		return true
	})
	return f
}
