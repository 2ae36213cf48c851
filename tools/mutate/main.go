// Command mutate prints single mutations of a Go file as JSON: offsets, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	From, To int
	New      string
	Line     int
	What     string
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(a, b token.Pos, s, what string) {
		ms = append(ms, mut{off(a), off(b), s, fset.Position(a).Line, what})
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS},
		token.LEQ: {token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.OR: {token.AND}, token.AND: {token.OR},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range swap[n.Op] {
				if n.Op == token.ADD {
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), "operator "+text(n))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
					}
				}
			}
		case *ast.IfStmt:
			if n.Else == nil {
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never: if "+text(n.Cond))
			}
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always: if "+text(n.Cond))
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					add(id.Pos(), id.End(), "nil", "error dropped")
				}
			}
		case *ast.BlockStmt:
			del(n.List, add, text)
		case *ast.CaseClause:
			del(n.Body, add, text)
		case *ast.CommClause:
			del(n.Body, add, text)
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break", "continue to break")
			} else if n.Tok == token.BREAK {
				add(n.Pos(), n.End(), "continue", "break to continue")
			}
		}
		return true
	})
	json.NewEncoder(os.Stdout).Encode(ms)
}

func del(l []ast.Stmt, add func(a, b token.Pos, s, what string), text func(ast.Node) string) {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
			add(s.Pos(), s.End(), "", "deleted "+text(s))
			if d, ok := s.(*ast.DeferStmt); ok {
				add(d.Pos(), d.End(), text(d.Call), "not deferred "+text(d.Call))
			}
		case *ast.AssignStmt:
			if s.Tok.String() != ":=" {
				add(s.Pos(), s.End(), "", "deleted "+text(s))
			}
		}
	}
}
