// Command mutate lists small changes of Go source files, one JSON object per
// line: file, offset, length, replacement and a description. It is used to
// find out what the checks don't notice; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	Len  int    `json:"len"`
	To   string `json:"to"`
	Old  string `json:"old"`
	Kind string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"},
}

func main() {
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, repl, kind string) {
			a, b := off(from), off(to)
			out.Encode(mutant{name, fset.Position(from).Line, a, b - a, repl, string(src[a:b]), kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST && len(gd.Specs) < 40 {
					ast.Inspect(gd, func(n ast.Node) bool {
						if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
							if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
								emit(l.Pos(), l.End(), fmt.Sprint(v+1), "const")
							}
						}
						return true
					})
				}
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "not")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "number")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "number")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						deletable(s, emit)
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						deletable(s, emit)
					}
				case *ast.CommClause:
					for _, s := range x.Body {
						deletable(s, emit)
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "inc")
					}
				}
				return true
			})
		}
	}
}

func deletable(s ast.Stmt, emit func(from, to token.Pos, repl, kind string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.BranchStmt:
		emit(s.Pos(), s.End(), "", "delete")
	case *ast.GoStmt:
		emit(s.Pos(), s.Pos()+2, "", "no go")
		emit(s.Pos(), s.End(), "", "delete")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete")
		}
	}
}
