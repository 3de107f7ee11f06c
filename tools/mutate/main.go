// mutate lists small edits of Go files: one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		name := ""
		emit := func(a, b token.Pos, repl string) {
			enc.Encode(mut{path, fset.Position(a).Line, name, off(a), off(b), repl, string(src[off(a):off(b)])})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
		}
		for _, decl := range file.Decls {
			fn, ok := decl.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			name = fn.Name.Name
			if low := strings.ToLower(name); strings.Contains(low, "debug") || strings.Contains(low, "string") {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
						if id, ok := sel.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "errors") {
							return false
						}
					}
				case *ast.BinaryExpr:
					for _, op := range swap[x.Op] {
						if lit, ok := x.Y.(*ast.BasicLit); ok && lit.Kind == token.STRING {
							continue
						}
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					if len(x.Body.List) == 1 {
						if e, ok := x.Body.List[0].(*ast.ExprStmt); ok {
							if c, ok := e.X.(*ast.CallExpr); ok {
								if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
									return false // assertions
								}
							}
						}
					}
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
							return false
						}
					}
					emit(x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "_ = 0")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "")
					}
				}
				return true
			})
		}
	}
}
