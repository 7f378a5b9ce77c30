// Mutate lists small changes to Go source files as JSON lines: file, offset, length,
// replacement, line and the operator used.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Repl string `json:"repl"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(n0, n1 token.Pos, repl, op string) {
			p, q := fs.Position(n0), fs.Position(n1)
			enc.Encode(mut{f, p.Offset, q.Offset - p.Offset, repl, p.Line, op, fn})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		isLog := func(s string) bool { return len(s) > 4 && s[:4] == "log." }
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ExprStmt:
					if isLog(text(n)) {
						return false
					}
					emit(n.Pos(), n.End(), "", "del-call")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "del-defer")
				case *ast.GoStmt:
					emit(n.Pos(), n.End(), text(n.Call), "go-sync")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN {
						emit(n.Pos(), n.End(), "", "del-assign")
					}
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "del-inc")
				case *ast.BranchStmt:
					switch n.Tok {
					case token.BREAK:
						emit(n.Pos(), n.End(), "", "del-break")
					case token.CONTINUE:
						emit(n.Pos(), n.End(), "break", "continue-break")
						emit(n.Pos(), n.End(), "", "del-continue")
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 0 {
						emit(n.Pos(), n.End(), "", "del-return")
					}
				case *ast.IfStmt:
					c := text(n.Cond)
					emit(n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "if-false")
					emit(n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "if-true")
				case *ast.BinaryExpr:
					l, r := text(n.X), text(n.Y)
					sw := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}}[n.Op]
					for _, o := range sw {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "op "+n.Op.String()+" -> "+o)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), l, "left only")
						emit(n.Pos(), n.End(), r, "right only")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.Pos(), n.End(), text(n.X), "del-not")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.Atoi(n.Value); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					}
				case *ast.CaseClause:
					if n.List != nil && len(n.Body) > 0 {
						emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty-case")
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "true-false")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "false-true")
					}
				case *ast.CallExpr:
					if isLog(text(n)) {
						return false
					}
				}
				return true
			})
		}
	}
}
