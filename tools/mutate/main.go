// mutate lists small changes of Go files: mutate FILE... prints one JSON object per change with the file, the byte
// offsets it replaces, the new text and a description. It is used to look for changes which the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File     string
	From, To int
	New      string
	What     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, what string) {
			enc.Encode(change{path, off(n.Pos()), off(n.End()), new, what + ": " + strings.ReplaceAll(text(n), "\n", " ⏎ "), fset.Position(n.Pos()).Line})
		}
		isErr := func(e ast.Expr) bool {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return false
			}
			id, ok := b.X.(*ast.Ident)
			return ok && id.Name == "err" && b.Op == token.NEQ
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.IfStmt:
				if isErr(t.Cond) {
					emit(t.Cond, "false && "+text(t.Cond), "ignore error")
					return true
				}
				emit(t.Cond, "!("+text(t.Cond)+")", "negate")
				emit(t.Cond, "true || "+text(t.Cond), "always")
				emit(t.Cond, "false && ("+text(t.Cond)+")", "never")
			case *ast.BinaryExpr:
				if isErr(t) {
					return true
				}
				ops := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
				if op, ok := ops[t.Op]; ok {
					if t.Op == token.ADD {
						if l, ok := t.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							return true
						}
						if l, ok := t.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							return true
						}
					}
					emit(t, text(t.X)+" "+op+" "+text(t.Y), "operator")
				}
				if t.Op == token.LAND || t.Op == token.LOR {
					emit(t, text(t.X), "left only")
					emit(t, text(t.Y), "right only")
				}
			case *ast.ExprStmt:
				emit(t, "", "delete")
			case *ast.IncDecStmt:
				emit(t, "", "delete")
			case *ast.DeferStmt:
				emit(t, "", "delete")
			case *ast.AssignStmt:
				if t.Tok != token.DEFINE {
					var keep []string
					for _, r := range t.Rhs {
						keep = append(keep, "_ = "+text(r))
					}
					emit(t, strings.Join(keep, "; "), "no assignment")
				}
			case *ast.BranchStmt:
				switch t.Tok {
				case token.CONTINUE:
					emit(t, "break", "branch")
					emit(t, "", "delete")
				case token.BREAK:
					emit(t, "continue", "branch")
				}
			case *ast.BasicLit:
				if t.Kind == token.INT {
					if v, err := strconv.Atoi(t.Value); err == nil {
						emit(t, fmt.Sprint(v+1), "number")
						if v > 0 {
							emit(t, fmt.Sprint(v-1), "number")
						}
					}
				}
			case *ast.Ident:
				if t.Name == "true" {
					emit(t, "false", "constant")
				} else if t.Name == "false" {
					emit(t, "true", "constant")
				}
			case *ast.ReturnStmt:
				for _, r := range t.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "err" && id.Name != "true" && id.Name != "false" {
						emit(r, "nil", "return nil")
					}
				}
			case *ast.CaseClause:
				if len(t.List) > 1 {
					for i, x := range t.List {
						if i > 0 {
							emit(x, text(t.List[0])+"", "case dropped")
						}
					}
				}
				if len(t.Body) > 0 && t.List != nil {
					b := t.Body[0].Pos()
					e := t.Body[len(t.Body)-1].End()
					enc.Encode(change{path, off(b), off(e), "", "empty case: " + strings.ReplaceAll(string(src[off(b):off(e)]), "\n", " ⏎ "), fset.Position(b).Line})
				}
			case *ast.UnaryExpr:
				if t.Op == token.NOT {
					emit(t, text(t.X), "not")
				}
			case *ast.SliceExpr:
				if t.Low != nil {
					emit(t.Low, "("+text(t.Low)+")+1", "slice")
				}
				if t.High != nil {
					emit(t.High, "("+text(t.High)+")-1", "slice")
				}
			case *ast.ForStmt:
			case *ast.RangeStmt:
				if len(t.Body.List) > 0 {
					at := off(t.Body.End()) - 1
					enc.Encode(change{path, at, at, "\nbreak\n", "only the first: " + strings.ReplaceAll(text(t), "\n", " ⏎ "), fset.Position(t.Pos()).Line})
				}
			}
			return true
		})
	}
}
