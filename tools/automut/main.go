// automut lists first-order mutants of the given Go files as JSON:
// [{name, file, start, end, new, what}].
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	Name, File, New, What string
	Start, End, Line      int
}

var out []mutant

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, repl, what string) {
			out = append(out, mutant{"", f, repl, what, off(from), off(to), fs.Position(from).Line})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
		}
		quiet := func(s string) bool {
			return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "panic(")
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				s := text(n.Fun)
				if quiet(s+"(") || strings.HasPrefix(s, "fmt.Errorf") || strings.HasPrefix(s, "errors.New") {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List, text, add, quiet)
			case *ast.CaseClause:
				stmts(n.Body, text, add, quiet)
			case *ast.CommClause:
				stmts(n.Body, text, add, quiet)
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never: "+text(n.Cond))
				if n.Init == nil {
					add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always: "+text(n.Cond))
				}
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					if b, ok := n.Y.(*ast.Ident); ok && b.Name == "nil" {
						continue // negations of nil checks are covered above
					}
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, text(n)+" with "+r)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.End(), "("+text(n.X)+")", "not: "+text(n))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprint(v, " -> ", v+1))
						if v > 0 {
							add(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprint(v, " -> ", v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					add(n.Pos(), n.End(), map[string]string{"true": "false", "false": "true"}[n.Name], n.Name+" inverted")
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.BREAK {
					add(n.Pos(), n.End(), "continue", "break -> continue")
				}
				if n.Label == nil && n.Tok == token.CONTINUE {
					add(n.Pos(), n.End(), "break", "continue -> break")
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					last := n.Results[len(n.Results)-1]
					if id, ok := last.(*ast.Ident); ok && strings.HasSuffix(strings.ToLower(id.Name), "err") {
						add(last.Pos(), last.End(), "nil", "error dropped: "+text(n))
					}
				}
			}
			return true
		})
	}
	for i := range out {
		out[i].Name = fmt.Sprintf("m%03d", i)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func stmts(list []ast.Stmt, text func(ast.Node) string, add func(a, b token.Pos, r, w string), quiet func(string) bool) {
	for _, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
			if !quiet(text(s)) {
				add(s.Pos(), s.End(), "_ = 0", "deleted: "+text(s))
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				r := ""
				for i := range x.Rhs {
					if i > 0 {
						r += "; "
					}
					if x.Tok == token.ASSIGN {
						r += strings.Repeat("_, ", len(x.Lhs)/len(x.Rhs)-1) + "_ = " + text(x.Rhs[i])
					} else {
						r += "_ = " + text(x.Rhs[i])
					}
				}
				add(s.Pos(), s.End(), r, "not assigned: "+text(s))
			}
		}
	}
}
