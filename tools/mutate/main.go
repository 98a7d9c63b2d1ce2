// Command mutate lists the mutants of a Go file (development tool, no check uses it).
//
//	mutate FILE        prints "index line description" of every mutant
//	mutate FILE INDEX  prints the mutated source
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	add := func(p token.Pos, what string, apply func()) { ms = append(ms, mutant{p, what, apply}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		_ = format.Node(&b, fset, n)
		s := b.String()
		if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
			s = s[:i] + "..."
		}
		return s
	}
	isErr := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && (id.Name == "err" || len(id.Name) > 3 && (id.Name[len(id.Name)-3:] == "Err" || id.Name[:3] == "Err"))
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			i := i
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.IfStmt:
				del = true
			case *ast.ReturnStmt:
				del = len(x.Results) == 0
			}
			if del {
				add(s.Pos(), "delete "+text(s), func() { l[i] = &ast.EmptyStmt{} })
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				add(s.Pos(), "undefer "+text(s), func() { l[i] = &ast.ExprStmt{X: d.Call} })
			}
			if g, ok := s.(*ast.GoStmt); ok {
				add(s.Pos(), "ungo "+text(s), func() { l[i] = &ast.ExprStmt{X: g.Call} })
			}
			if i+1 < len(l) {
				ok := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.DeclStmt, *ast.ReturnStmt, *ast.BranchStmt:
						return false
					case *ast.AssignStmt:
						return true
					default:
						_ = x
						return true
					}
				}
				if ok(s) && ok(l[i+1]) {
					add(s.Pos(), "swap "+text(s)+" <> "+text(l[i+1]), func() { l[i], l[i+1] = l[i+1], l[i] })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.IfStmt:
			add(x.Pos(), "negate "+text(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			if x.Else != nil {
				add(x.Pos(), "no else of "+text(x.Cond), func() { x.Else = nil })
			}
		case *ast.BinaryExpr:
			swaps := map[token.Token][]token.Token{
				token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
				token.ADD: {token.SUB}, token.SUB: {token.ADD},
			}
			for _, t := range swaps[x.Op] {
				t := t
				add(x.Pos(), "op "+text(x)+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				v := "true"
				if x.Op == token.LOR {
					v = "false"
				}
				add(x.Pos(), "drop left of "+text(x), func() { x.X = ast.NewIdent(v) })
				add(x.Pos(), "drop right of "+text(x), func() { x.Y = ast.NewIdent(v) })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if isErr(r) {
					add(x.Pos(), "return nil for "+text(r), func() { x.Results[i] = ast.NewIdent("nil") })
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), "int "+x.Value+"+1", func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x.Pos(), "int "+x.Value+"-1", func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				o := map[string]string{"true": "false", "false": "true"}[x.Name]
				add(x.Pos(), x.Name+" -> "+o, func() { x.Name = o })
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), "continue -> break", func() { x.Tok = token.BREAK })
			}
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), "break -> continue", func() { x.Tok = token.CONTINUE })
			}
		case *ast.CallExpr:
			for i, a := range x.Args {
				i := i
				if isErr(a) {
					add(x.Pos(), "nil for "+text(a)+" in "+text(x), func() { x.Args[i] = ast.NewIdent("nil") })
				}
			}
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					i := i
					add(x.Pos(), "swap args of "+text(x), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
				}
			}
		case *ast.SliceExpr:
			if x.High != nil && x.Low == nil {
				add(x.Pos(), "slice "+text(x)+" open", func() { x.High = nil })
			}
		case *ast.SelectStmt:
			l := x.Body.List
			for i := range l {
				i := i
				add(l[i].Pos(), "drop select case "+text(l[i]), func() { x.Body.List = append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...) })
			}
		case *ast.SwitchStmt:
			l := x.Body.List
			for i := range l {
				i := i
				add(l[i].Pos(), "drop case "+text(l[i]), func() { x.Body.List = append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...) })
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	ms[i].apply()
	// comments would be misplaced
	f.Comments = nil
	f.Doc = nil
	var out bytes.Buffer
	for _, c := range bytes.Split(src, []byte("\n")) {
		if bytes.HasPrefix(c, []byte("//go:build")) {
			out.Write(c)
			out.WriteString("\n\n")
		}
		if bytes.HasPrefix(c, []byte("package")) {
			break
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	if err := format.Node(&out, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(out.Bytes())
}
