// Lists small changes (mutants) to the Go files given, as JSON lines: file, start and end offset, replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, n, kind string) {
			s, e := off(a), off(b)
			enc.Encode(mutant{fn, fset.Position(a).Line, s, e, n, string(src[s:e]), kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				if x.Else == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {}, token.SUB: {"+"},
				}[x.Op]
				for _, a := range alt {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
				if x.Op == token.ADD {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, _ := strconv.Atoi(x.Value)
					emit(x.Pos(), x.End(), strconv.Itoa(v+1), "int")
					if v > 0 {
						emit(x.Pos(), x.End(), strconv.Itoa(v-1), "int")
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					if x.Value[0] == '"' {
						emit(x.Pos(), x.End(), `""`, "string")
						if len(x.Value) < 14 {
							emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+`x"`, "string")
						}
					} else {
						// regular expressions: drop or change quantifiers and anchors
						v := x.Value
						for i := 1; i < len(v)-1; i++ {
							switch v[i] {
							case '+', '*', '?', '^', '$':
								if v[i-1] != '\\' && v[i-1] != '(' && v[i-1] != '[' {
									emit(x.Pos(), x.End(), v[:i]+v[i+1:], "regex")
								}
								if v[i] == '+' && v[i-1] != '\\' {
									emit(x.Pos(), x.End(), v[:i]+"*"+v[i+1:], "regex")
								}
							}
						}
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
						emit(x.Pos(), x.End(), "", "branch")
					} else if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
						emit(x.Pos(), x.End(), "", "branch")
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "dropcall")
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "dropcall")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					emit(x.Pos(), x.End(), "", "dropassign")
				}
				if x.Tok == token.ADD_ASSIGN {
					emit(x.Pos(), x.End(), "", "dropassign")
					emit(x.TokPos, x.TokPos+2, "=", "assign")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					switch t := text(r); t {
					case "true":
						emit(r.Pos(), r.End(), "false", "return")
					case "false":
						emit(r.Pos(), r.End(), "true", "return")
					}
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					pk := text(s.X)
					alt := map[string]string{"HasPrefix": "Contains", "HasSuffix": "Contains", "TrimPrefix": "TrimLeft", "TrimSuffix": "TrimRight", "LastIndex": "Index", "Index": "LastIndex", "SplitN": "", "Contains": "HasPrefix"}[s.Sel.Name]
					if pk == "strings" && alt != "" {
						emit(s.Sel.Pos(), s.Sel.End(), alt, "strfun")
					}
					if pk == "strings" && (s.Sel.Name == "ToLower" || s.Sel.Name == "TrimSpace") || pk == "filepath" && s.Sel.Name == "Clean" {
						emit(x.Pos(), x.End(), text(x.Args[0]), "unwrap")
					}
				}
			case *ast.RangeStmt:
				emit(x.X.Pos(), x.X.End(), text(x.X)+"[:min(len("+text(x.X)+"), 1)]", "first")
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						emit(kv.Pos(), kv.End()+1, "", "field")
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
