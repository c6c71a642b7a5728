// Command mutate lists small syntactic changes of Go files: one JSON object
// per line with file, start, end, replacement text and a description.
// Development aid; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File  string
	Start int
	End   int
	Text  string
	What  string
	Line  int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, text, what string) {
			enc.Encode(mut{file, off(a), off(b), text, what, fs.Position(a).Line})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		inFn := 0
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT || n.Tok == token.TYPE {
					return false
				}
			case *ast.FuncDecl:
				inFn++
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}
				for _, a := range alt[n.Op] {
					end := n.OpPos + token.Pos(len(n.Op.String()))
					emit(n.OpPos, end, a, n.Op.String()+" -> "+a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), txt(n.X), "drop right operand")
					emit(n.Pos(), n.End(), txt(n.Y), "drop left operand")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, "--", "++ -> --")
				} else {
					emit(n.TokPos, n.TokPos+2, "++", "-- -> ++")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")", "negate condition")
				if n.Else == nil && n.Init == nil {
					emit(n.Pos(), n.End(), "_ = "+txt(n.Cond), "delete if")
				}
			case *ast.BlockStmt:
				for i, s := range n.List {
					switch s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit(s.Pos(), s.End(), "", "delete "+txt(s))
					case *ast.AssignStmt:
						if s.(*ast.AssignStmt).Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "delete "+txt(s))
						}
					case *ast.BranchStmt:
						if s.(*ast.BranchStmt).Tok == token.CONTINUE {
							emit(s.Pos(), s.End(), "break", "continue -> break")
						}
						if s.(*ast.BranchStmt).Tok == token.BREAK {
							emit(s.Pos(), s.End(), "continue", "break -> continue")
						}
					}
					if i+1 < len(n.List) {
						t := n.List[i+1]
						emit(s.Pos(), t.End(), txt(t)+"\n"+txt(s), "swap statements")
					}
				}
			case *ast.CallExpr:
				if len(n.Args) >= 2 {
					for i := 0; i+1 < len(n.Args); i++ {
						emit(n.Args[i].Pos(), n.Args[i+1].End(), txt(n.Args[i+1])+", "+txt(n.Args[i]), "swap args")
					}
				}
				for _, a := range n.Args {
					if id, ok := a.(*ast.Ident); ok && id.Name != "nil" {
						emit(a.Pos(), a.End(), "&"+id.Name, "addr")
						_ = id
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							emit(r.Pos(), r.End(), "false", "true -> false")
						case "false":
							emit(r.Pos(), r.End(), "true", "false -> true")
						case "err":
							emit(r.Pos(), r.End(), "nil", "err -> nil")
						}
					}
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
