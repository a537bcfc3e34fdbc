// mutate FILE... lists small changes of Go source files, one JSON object
// per line: file, offsets, replacement, and what it does.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
}

var ops = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(a, b token.Pos, repl string) {
			old := string(src[off(a):off(b)])
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mutant{name, fset.Position(a).Line, off(a), off(b), repl, fmt.Sprintf("%s => %s", old, repl)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, o := range ops[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						add(x.Pos(), x.End(), "("+x.Value+"+1)")
						add(x.Pos(), x.End(), "("+x.Value+"-1)")
					case token.CHAR:
						add(x.Pos(), x.End(), "("+x.Value+"+1)")
					case token.STRING:
						add(x.Pos(), x.End(), `"x"+`+x.Value)
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						add(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.Pos()+1, "")
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				case *ast.CaseClause:
					for _, e := range x.List {
						add(e.Pos(), e.End(), text(e)+" && false")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(x.Pos(), x.End(), "")
						if x.Tok == token.ADD_ASSIGN {
							add(x.TokPos, x.TokPos+2, "=")
							add(x.TokPos, x.TokPos+2, "-=")
						}
					}
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					add(x.Pos(), x.End(), "")
					if x.Tok == token.CONTINUE {
						add(x.Pos(), x.End(), "break")
					}
					if x.Tok == token.BREAK {
						add(x.Pos(), x.End(), "continue")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						add(x.Low.Pos(), x.Low.End(), "")
						add(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
					}
					if x.High != nil {
						add(x.High.Pos(), x.High.End(), "")
						add(x.High.Pos(), x.High.End(), text(x.High)+"-1")
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						for _, r := range []string{"0", "nil", "1", "io.EOF", "''", `""`} {
							if text(e) != r && text(e) != "true" && text(e) != "false" {
								add(e.Pos(), e.End(), r)
							}
						}
					}
				case *ast.CompositeLit:
					// values of neighbours
					for i := 0; i+1 < len(x.Elts); i++ {
						a, ok1 := x.Elts[i].(*ast.KeyValueExpr)
						b, ok2 := x.Elts[i+1].(*ast.KeyValueExpr)
						if ok1 && ok2 && text(a.Value) != text(b.Value) {
							add(a.Value.Pos(), a.Value.End(), text(b.Value))
						}
						if ok1 && ok2 {
							add(a.Pos(), a.End()+1, "")
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if text(a) != text(b) {
							add(a.Pos(), b.End(), text(b)+", "+text(a))
						}
					}
					if len(x.Args) == 1 && len(text(x.Args[0])) < 20 {
						add(x.Pos(), x.End(), text(x.Args[0]))
					}
				case *ast.GenDecl:
					if x.Tok == token.CONST || x.Tok == token.TYPE {
						return x.Tok == token.CONST
					}
				}
				return true
			})
		}
	}
}
