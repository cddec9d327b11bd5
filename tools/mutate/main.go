// Command mutate lists small changes of Go source files as JSON lines
// {file, line, what, off, end, new}; used to look for gaps in the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, new, what string) {
			enc.Encode(mut{f, fs.Position(a).Line, what, off(a), off(b), new})
		}
		isLog := func(s string) bool {
			return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "println") || strings.HasPrefix(s, "fmt.Print")
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"},
			token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				if isLog(text(x)) {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					if x.Op == token.ADD && (strings.Contains(text(x.X), `"`) || strings.Contains(text(x.Y), `"`)) {
						continue
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if always")
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s, emit, text, isLog)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, emit, text, isLog)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					del(s, emit, text, isLog)
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low +1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high -1")
				}
			case *ast.KeyValueExpr:
			}
			return true
		})
	}
}

func del(s ast.Stmt, emit func(a, b token.Pos, new, what string), text func(ast.Node) string, isLog func(string) bool) {
	t := text(s)
	if isLog(t) {
		return
	}
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
		emit(s.Pos(), s.End(), "", "delete "+t)
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			n := ""
			for _, r := range x.Rhs {
				n += "_ = " + text(r) + "; "
			}
			emit(s.Pos(), s.End(), "", "delete "+t)
			emit(s.Pos(), s.End(), n, "discard "+t)
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete return")
		}
	}
}
