// Command mutate lists small changes of Go files, one per line as JSON: used to look for behaviour
// the checks do not see (tools/sweep.py applies them to scratch copies).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File, Func, What, New string
	Line, From, To        int
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(n ast.Node, repl, what string) {
				a, b := fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset
				if string(src[a:b]) == repl {
					return
				}
				enc.Encode(mutant{f, fd.Name.Name, what, repl, fs.Position(n.Pos()).Line, a, b})
			}
			text := func(n ast.Node) string {
				return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			}
			logging := func(s string) bool {
				return strings.HasPrefix(s, "sys.Print") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "sys.Free")
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if logging(text(x)) {
						return false
					}
					emit(x, "", "delete "+one(text(x)))
				case *ast.DeferStmt:
					emit(x, "", "delete "+one(text(x)))
					emit(x, text(x.Call), "not deferred "+one(text(x)))
				case *ast.IncDecStmt:
					emit(x, "", "delete "+one(text(x)))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x, blank(text(x), x, text), "delete "+one(text(x)))
					}
					if x.Tok == token.ADD_ASSIGN {
						emit(x, text(x.Lhs[0])+" = "+text(x.Rhs[0]), "+= becomes = in "+one(text(x)))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(x, "", "delete break")
					}
					if x.Tok == token.CONTINUE {
						emit(x, "", "delete continue")
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond, "!("+c+")", "negate "+one(c))
					emit(x.Cond, "("+c+") && false", "never "+one(c))
					if x.Else == nil {
						emit(x.Cond, "("+c+") || true", "always "+one(c))
					}
				case *ast.ForStmt:
					if x.Cond != nil && x.Init == nil && x.Post == nil {
						emit(x, "if "+text(x.Cond)+" "+text(x.Body), "for becomes if: "+one(text(x.Cond)))
					}
				case *ast.GoStmt:
					emit(x, text(x.Call), "not concurrent")
				case *ast.BinaryExpr:
					a, b := text(x.X), text(x.Y)
					for _, o := range map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
					}[x.Op] {
						emit(x, a+" "+o+" "+b, one(text(x))+" becomes "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						switch x.Value {
						case "0":
							emit(x, "1", "0 becomes 1")
						case "1":
							emit(x, "0", "1 becomes 0")
							emit(x, "2", "1 becomes 2")
						default:
							emit(x, "("+x.Value+"+1)", x.Value+" + 1")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "false", "true becomes false")
					} else if x.Name == "false" {
						emit(x, "true", "false becomes true")
					}
				case *ast.CallExpr:
					// Swap two arguments that are plain names.
					for i := 0; i+1 < len(x.Args); i++ {
						p, ok1 := x.Args[i].(*ast.Ident)
						q, ok2 := x.Args[i+1].(*ast.Ident)
						if ok1 && ok2 && p.Name != q.Name {
							s := text(x)
							off := fs.Position(x.Pos()).Offset
							pa, pb := fs.Position(p.Pos()).Offset-off, fs.Position(p.End()).Offset-off
							qa, qb := fs.Position(q.Pos()).Offset-off, fs.Position(q.End()).Offset-off
							emit(x, s[:pa]+q.Name+s[pb:qa]+p.Name+s[qb:], "swap arguments of "+one(s))
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "e") {
							emit(id, "nil", "return nil instead of "+id.Name)
						}
					}
				}
				return true
			})
		}
	}
}

// blank keeps the names used, so that the file still builds.
func blank(s string, x *ast.AssignStmt, text func(ast.Node) string) string {
	if x.Tok != token.ASSIGN {
		return "_ = " + text(x.Rhs[0])
	}
	var l, r []string
	for range x.Lhs {
		l = append(l, "_")
	}
	for _, e := range x.Rhs {
		r = append(r, text(e))
	}
	return strings.Join(l, ", ") + " = " + strings.Join(r, ", ")
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}

var _ = fmt.Sprint
