// Command mutgen lists small changes to a Go file, as JSON lines {off,end,new,line,what}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, End  int
	New, What string
	Line, Col int
	Func      string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	fn := ""
	out := json.NewEncoder(os.Stdout)
	add := func(a, b token.Pos, s, what string) {
		p := fs.Position(a)
		out.Encode(mut{p.Offset, fs.Position(b).Offset, s, what, p.Line, p.Column, fn})
	}
	text := func(a, b token.Pos) string { return string(src[fs.Position(a).Offset:fs.Position(b).Offset]) }
	ops := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
					return true
				}
				for _, o := range ops[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, fmt.Sprintf("%s to %s in %s", x.Op, o, text(x.Pos(), x.End())))
				}
			case *ast.IfStmt:
				c := text(x.Cond.Pos(), x.Cond.End())
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never: if "+c)
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always: if "+c)
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					add(x.Pos(), x.End(), "", "drop "+text(c.Pos(), c.End()))
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					add(x.Pos(), x.End(), "", "drop "+text(x.Pos(), x.End()))
				} else if x.Tok == token.ADD_ASSIGN {
					add(x.TokPos, x.TokPos+2, "-=", "minus: "+text(x.Pos(), x.End()))
				}
			case *ast.IncDecStmt:
				add(x.Pos(), x.End(), "", "drop "+text(x.Pos(), x.End()))
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					add(x.Pos(), x.End(), "continue", "break to continue")
				} else if x.Tok == token.CONTINUE && x.Label == nil {
					add(x.Pos(), x.End(), "break", "continue to break")
				}
			case *ast.DeferStmt:
				add(x.Pos(), x.End(), "", "drop "+text(x.Pos(), x.End()))
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						add(id.Pos(), id.End(), "nil", "lose error")
					} else if ok && id.Name == "true" {
						add(id.Pos(), id.End(), "false", "return false")
					} else if ok && id.Name == "false" {
						add(id.Pos(), id.End(), "true", "return true")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), "literal "+x.Value+"+1")
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1), "literal "+x.Value+"-1")
						}
					}
				}
			case *ast.SliceExpr, *ast.IndexExpr:
			}
			return true
		})
	}
}
