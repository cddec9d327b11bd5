// Command mcgen makes instrumented copies of Go packages for the scheduler in
// package mc, and the overlay file that builds them in place of the originals.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const alias = "vmc__"

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	replace := map[string]string{}
	for _, dir := range flag.Args() {
		if err := instrumentDir(dir, *out, replace); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrumentDir(dir, out string, replace map[string]string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	type src struct {
		path string
		f    *ast.File
		head []string
	}
	var files []src
	globals := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, b, 0) // without comments
		if err != nil {
			return err
		}
		var head []string
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimRight(l, "\r")
			if strings.HasPrefix(l, "package ") {
				break
			}
			if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
				head = append(head, l)
			}
		}
		if bytes.Contains(b, []byte("import \"C\"")) {
			continue
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						globals[id.Name] = true
					}
				}
			}
		}
		files = append(files, src{p, f, head})
	}
	for _, s := range files {
		in := &inst{fset: fset, f: s.f, globals: globals, imports: map[string]string{}, captured: map[*ast.Object]bool{}}
		in.file()
		var buf bytes.Buffer
		for _, h := range s.head {
			buf.WriteString(h + "\n")
		}
		if len(s.head) > 0 {
			buf.WriteString("\n")
		}
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), s.f); err != nil {
			return err
		}
		name := strings.ReplaceAll(strings.Trim(s.path, "/"), "/", "__")
		dst := filepath.Join(out, name)
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			return err
		}
		replace[s.path] = dst
	}
	return nil
}

type inst struct {
	fset     *token.FileSet
	f        *ast.File
	globals  map[string]bool
	imports  map[string]string // local name -> path
	captured map[*ast.Object]bool
	used     bool
	tmp      int
}

func (in *inst) file() {
	for _, im := range in.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		in.imports[n] = p
	}
	// locals used by function literals: another goroutine may run them
	for _, d := range in.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && id.Obj != nil && id.Obj.Kind == ast.Var {
					p := id.Obj.Pos()
					if p.IsValid() && (p < fl.Pos() || p > fl.End()) && p >= fd.Pos() && p <= fd.End() {
						in.captured[id.Obj] = true
					}
				}
				return true
			})
			return true
		})
	}
	for _, d := range in.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				d.Body = in.block(d.Body)
			}
		case *ast.GenDecl:
			in.funcLits(d)
		}
	}
	in.syncTypes()
	in.fixImports()
}

// syncTypes replaces the locks of package sync.
func (in *inst) syncTypes() {
	ast.Inspect(in.f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if ok && id.Obj == nil && in.imports[id.Name] == "sync" {
			switch s.Sel.Name {
			case "Mutex", "RWMutex", "Once":
				s.X = ast.NewIdent(alias)
				in.used = true
			}
		}
		return true
	})
}

func (in *inst) fixImports() {
	usedSync := false
	ast.Inspect(in.f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && in.imports[id.Name] == "sync" {
				usedSync = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range in.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var specs []ast.Spec
			for _, s := range g.Specs {
				if s.(*ast.ImportSpec).Path.Value == `"sync"` && !usedSync {
					continue
				}
				specs = append(specs, s)
			}
			if len(specs) == 0 {
				continue
			}
			g.Specs = specs
			if len(specs) > 1 {
				g.Lparen, g.Rparen = 1, 2
			}
		}
		decls = append(decls, d)
	}
	if in.used {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifharness/mc"`}}}}
		decls = append([]ast.Decl{imp}, decls...)
	}
	in.f.Decls = decls
	in.f.Imports = nil
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(name)}, Args: args}
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (in *inst) point(label string) ast.Stmt {
	return &ast.ExprStmt{X: in.call("Point", str(label))}
}

func (in *inst) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = in.list(b.List)
	return b
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if lab := in.label(s); lab != "" {
			out = append(out, in.point(lab))
		}
		out = append(out, in.stmt(s))
		if d, ok := s.(*ast.DeferStmt); ok {
			// the deferred operation is a point too, when it runs
			if lab := in.label(&ast.ExprStmt{X: d.Call}); lab != "" {
				if _, lit := d.Call.Fun.(*ast.FuncLit); !lit {
					out = append(out, &ast.DeferStmt{Call: in.call("Point", str(lab))})
				}
			}
		}
	}
	return out
}

// stmt rewrites one statement (its point is already placed).
func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		return in.block(s)
	case *ast.IfStmt:
		in.simple(s.Init)
		in.funcLits(s.Cond)
		in.block(s.Body)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			in.block(e)
		case *ast.IfStmt:
			s.Else = &ast.BlockStmt{List: in.list([]ast.Stmt{e})}
		}
	case *ast.ForStmt:
		in.simple(s.Init)
		in.funcLits(s.Cond)
		in.simple(s.Post)
		in.block(s.Body)
	case *ast.RangeStmt:
		in.funcLits(s.X)
		in.block(s.Body)
	case *ast.SwitchStmt:
		in.simple(s.Init)
		in.funcLits(s.Tag)
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		in.simple(s.Init)
		in.clauses(s.Body)
	case *ast.SelectStmt:
		return in.selectStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = in.stmt(s.Stmt)
	case *ast.GoStmt:
		return in.goStmt(s)
	default:
		in.simple(s)
	}
	return s
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		if cc, ok := s.(*ast.CaseClause); ok {
			for _, e := range cc.List {
				in.funcLits(e)
			}
			cc.Body = in.list(cc.Body)
		}
	}
}

func (in *inst) simple(s ast.Stmt) {
	if s != nil {
		in.funcLits(s)
	}
}

// funcLits instruments the bodies of function literals inside n.
func (in *inst) funcLits(n ast.Node) {
	if n == nil {
		return
	}
	if e, ok := n.(ast.Expr); ok && e == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
}

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	in.funcLits(s.Call)
	c := s.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		// the literal may have results: call it inside another
		in.tmp++
		n := fmt.Sprintf("vmcArg%d", in.tmp)
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}},
			&ast.ExprStmt{X: in.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}}}}})}}}
	}
	var list []ast.Stmt
	inner := &ast.CallExpr{Fun: c.Fun, Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		if _, ok := a.(*ast.BasicLit); ok {
			inner.Args = append(inner.Args, a)
			continue
		}
		if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			inner.Args = append(inner.Args, a)
			continue
		}
		in.tmp++
		n := fmt.Sprintf("vmcArg%d", in.tmp)
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		inner.Args = append(inner.Args, ast.NewIdent(n))
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
		in.tmp++
		n := fmt.Sprintf("vmcArg%d", in.tmp)
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{sel}})
		inner.Fun = ast.NewIdent(n)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	list = append(list, &ast.ExprStmt{X: in.call("Go", lit)})
	return &ast.BlockStmt{List: list}
}

// selectStmt makes the choice between ready cases a decision of the scheduler:
// for every preference p, the cases are tried one by one starting with p before
// all are waited for.
func (in *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var comm []*ast.CommClause
	var def *ast.CommClause
	labels := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		for _, b := range cc.Body {
			ast.Inspect(b, func(n ast.Node) bool {
				if _, ok := n.(*ast.LabeledStmt); ok {
					labels = true
				}
				return true
			})
		}
		if cc.Comm != nil {
			in.simple(cc.Comm)
		}
		cc.Body = in.list(cc.Body)
		if cc.Comm == nil {
			def = cc
		} else {
			comm = append(comm, cc)
		}
	}
	k := len(comm)
	if k < 2 || k > 4 || labels {
		return s
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	in.tmp++
	v := fmt.Sprintf("vmcSel%d", in.tmp)
	sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Prefer", num(k))}}
	sw.Tag = ast.NewIdent(v)
	for p := 0; p < k; p++ {
		var inner ast.Stmt
		all := &ast.SelectStmt{Body: &ast.BlockStmt{}}
		for _, cc := range comm {
			all.Body.List = append(all.Body.List, cc)
		}
		if def != nil {
			all.Body.List = append(all.Body.List, def)
		}
		inner = all
		for q := k - 1; q >= 0; q-- {
			var body []ast.Stmt
			if q == 0 && p > 0 {
				body = append(body, &ast.ExprStmt{X: in.call("Miss", num(p))})
			}
			body = append(body, inner)
			inner = &ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{comm[(p+q)%k], &ast.CommClause{Body: body}}}}
		}
		cl := &ast.CaseClause{Body: []ast.Stmt{inner}}
		if p < k-1 {
			cl.List = []ast.Expr{num(p)}
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	return sw
}

// label describes what a statement itself does (not the blocks inside it).
func (in *inst) label(s ast.Stmt) string {
	a := &acc{in: in, set: map[string]bool{}}
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return ""
	case *ast.IfStmt:
		a.stmt(s.Init)
		a.expr(s.Cond)
	case *ast.ForStmt:
		a.stmt(s.Init)
		a.expr(s.Cond)
		a.stmt(s.Post)
	case *ast.RangeStmt:
		a.expr(s.X)
	case *ast.SwitchStmt:
		a.stmt(s.Init)
		a.expr(s.Tag)
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				a.expr(e)
			}
		}
	case *ast.TypeSwitchStmt:
		a.stmt(s.Init)
		a.stmt(s.Assign)
	case *ast.SelectStmt:
		a.set["select"] = true
		for _, c := range s.Body.List {
			a.stmt(c.(*ast.CommClause).Comm)
		}
	case *ast.LabeledStmt:
		return in.label(s.Stmt)
	case *ast.DeferStmt:
		for _, e := range s.Call.Args {
			a.expr(e)
		}
	case *ast.GoStmt:
		a.set["go"] = true
	default:
		a.stmt(s)
	}
	var l []string
	for k := range a.set {
		if strings.HasPrefix(k, "r:") && a.set["w:"+k[2:]] {
			continue
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type acc struct {
	in  *inst
	set map[string]bool
}

func (a *acc) stmt(s ast.Stmt) {
	if s == nil {
		return
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Lhs {
			a.write(e)
		}
		for _, e := range s.Rhs {
			a.expr(e)
		}
	case *ast.IncDecStmt:
		a.write(s.X)
	case *ast.SendStmt:
		a.set["chan"] = true
		a.expr(s.Chan)
		a.expr(s.Value)
	default:
		ast.Inspect(s, a.visit)
	}
}

func (a *acc) expr(e ast.Expr) {
	if e != nil {
		ast.Inspect(e, a.visit)
	}
}

// write notes the location an assignment changes.
func (a *acc) write(e ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		a.write(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && a.in.imports[id.Name] != "" {
			return
		}
		a.set["w:"+x.Sel.Name] = true
		a.expr(x.X)
	case *ast.IndexExpr:
		a.write(x.X)
		a.expr(x.Index)
	case *ast.SliceExpr:
		a.write(x.X)
	case *ast.StarExpr:
		a.expr(x.X)
	case *ast.Ident:
		if n := a.name(x); n != "" {
			a.set["w:"+n] = true
		}
	default:
		a.expr(e)
	}
}

func (a *acc) name(id *ast.Ident) string {
	if id.Obj != nil && a.in.captured[id.Obj] {
		return "local." + id.Name
	}
	if a.in.globals[id.Name] && (id.Obj == nil || id.Obj.Kind == ast.Var) {
		if id.Obj != nil {
			// declared at file level?
			if a.in.f.Scope == nil || a.in.f.Scope.Lookup(id.Name) != id.Obj {
				return ""
			}
		}
		return "global." + id.Name
	}
	return ""
}

func (a *acc) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.FuncLit:
		return false
	case *ast.BlockStmt:
		return false
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			a.set["chan"] = true
		}
		if x.Op == token.AND {
			if _, lit := x.X.(*ast.CompositeLit); !lit {
				a.write(x.X)
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
			switch id.Name {
			case "close":
				a.set["chan"] = true
			case "delete", "copy", "clear":
				a.write(x.Args[0])
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				switch a.in.imports[id.Name] {
				case "sync/atomic":
					a.set["atomic"] = true
				case "":
				default:
					for _, e := range x.Args {
						a.expr(e)
					}
					return false
				}
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && a.in.imports[id.Name] != "" {
			return false
		}
		a.set["r:"+x.Sel.Name] = true
		a.expr(x.X)
		return false
	case *ast.KeyValueExpr:
		a.expr(x.Value)
		if _, ok := x.Key.(*ast.Ident); !ok {
			a.expr(x.Key)
		}
		return false
	case *ast.Ident:
		if nm := a.name(x); nm != "" {
			a.set["r:"+nm] = true
		}
	}
	return true
}
