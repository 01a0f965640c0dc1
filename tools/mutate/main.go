// Command mutate lists small changes (mutants) to Go files, one JSON line
// each: a byte range of a file and its replacement.  Used to find what the
// checks do not notice (see DESIGN.md); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Old   string `json:"old"`
}

var binops = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.AND: {token.OR}, token.OR: {token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.MUL: {token.ADD}, token.AND_NOT: {token.AND},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(op string, a, b token.Pos, repl string) {
			enc.Encode(mutant{name, fset.Position(a).Line, op, off(a), off(b), repl, string(src[off(a):off(b)])}) //nolint:errcheck
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.BranchStmt:
					if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
						emit("delete", s.Pos(), s.End(), "")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, t := range binops[n.Op] {
					emit("binop", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String())
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n.Pos(), n.End(), text(n.X))
					emit("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("unnot", n.OpPos, n.OpPos+1, "")
				}
				if n.Op == token.XOR {
					emit("uncompl", n.OpPos, n.OpPos+1, "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseUint(n.Value, 0, 64)
					if err != nil {
						break
					}
					emit("int+1", n.Pos(), n.End(), fmt.Sprintf("%d", v+1))
					if v > 0 {
						emit("int-1", n.Pos(), n.End(), fmt.Sprintf("%d", v-1))
					}
				case token.CHAR:
					emit("char", n.Pos(), n.End(), "'~'")
				case token.STRING:
					if len(n.Value) > 2 && n.Value[0] == '"' {
						emit("string", n.Pos(), n.End(), `""`)
					}
				}
			case *ast.IfStmt:
				emit("if-true", n.Cond.Pos(), n.Cond.End(), "true || "+"("+text(n.Cond)+")")
				emit("if-false", n.Cond.Pos(), n.Cond.End(), "false && "+"("+text(n.Cond)+")")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit("for-false", n.Cond.Pos(), n.Cond.End(), "false && "+"("+text(n.Cond)+")")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit("ret-nil", id.Pos(), id.End(), "nil")
						case "true":
							emit("ret-bool", id.Pos(), id.End(), "false")
						case "false":
							emit("ret-bool", id.Pos(), id.End(), "true")
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit("slice-low", n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1")
				}
				if n.High != nil {
					emit("slice-high", n.High.Pos(), n.High.End(), "("+text(n.High)+")-1")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i+1 < len(n.List) {
							emit("case", e.Pos(), n.List[i+1].Pos(), "")
						} else {
							emit("case", n.List[i-1].End(), e.End(), "")
						}
					}
				}
			}
			return true
		})
	}
}
