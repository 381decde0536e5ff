// automut lists small edits of Go files, one JSON object per line: automut FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, Desc string
	Line, From, To   int
	New              string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(n ast.Node, new, desc string) {
				_ = enc.Encode(mut{file, fn.Name.Name, desc, fset.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), new})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			del := func(l []ast.Stmt) {
				for _, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.BranchStmt, *ast.SendStmt, *ast.GoStmt:
						emit(s, "", "delete "+text(s))
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							emit(s, "", "delete "+text(s))
						}
					}
				}
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					del(x.List)
				case *ast.CaseClause:
					del(x.Body)
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				case *ast.ForStmt:
				case *ast.BinaryExpr:
					for _, o := range map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.AND: {"|"}, token.OR: {"&"}}[x.Op] {
						if x.Op == token.LAND || x.Op == token.LOR {
							// one side alone
							emit(x, text(x.X), "only "+text(x.X)+" of "+text(x))
							emit(x, text(x.Y), "only "+text(x.Y)+" of "+text(x))
						}
						emit(x, text(x.X)+" "+o+" "+text(x.Y), text(x)+" -> "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x, fmt.Sprint(v+1), text(x)+" -> +1")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.CONTINUE:
							emit(x, "break", "continue -> break")
						case token.BREAK:
							emit(x, "continue", "break -> continue")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(r, map[string]string{"true": "false", "false": "true"}[id.Name], "return "+id.Name+" inverted")
						}
					}
					if n := len(x.Results); n > 0 {
						if id, ok := x.Results[n-1].(*ast.Ident); ok && id.Name == "err" {
							emit(id, "nil", "return err -> nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil && x.High != nil {
						emit(x.Low, "0", "slice from 0")
					}
				}
				return true
			})
		}
	}
}
