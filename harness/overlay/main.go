// Command overlay writes instrumented copies of the non-test sources of some
// packages and an overlay file for the go command: package sync is replaced by
// verif/vsync and every statement is preceded by vsched.Point().
//
// usage: overlay OUTDIR DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	out := os.Args[1]
	replace := map[string]string{}
	for di, dir := range os.Args[2:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", di, filepath.Base(f)))
			b := rewrite(f)
			if b == nil {
				continue
			}
			check(os.WriteFile(dst, b, 0o644))
			replace[f] = dst
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(1)
	}
}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("Point")}}}
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt:
		default:
			out = append(out, point())
		}
		out = append(out, split(s))
	}
	return out
}

// split parts a send into making the value and sending it.
func split(s ast.Stmt) ast.Stmt {
	send, ok := s.(*ast.SendStmt)
	if !ok {
		return s
	}
	v := send.Value
	if u, ok := v.(*ast.UnaryExpr); ok && u.Op == token.AND {
		v = u.X
	}
	switch v.(type) {
	case *ast.CompositeLit, *ast.CallExpr:
	default:
		return s
	}
	id := func() *ast.Ident { return ast.NewIdent("vsched__v") }
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id()}, Tok: token.DEFINE, Rhs: []ast.Expr{send.Value}},
		point(),
		&ast.SendStmt{Chan: send.Chan, Value: id()},
	}}
}

func rewrite(name string) []byte {
	fset := token.NewFileSet()
	src, err := os.ReadFile(name)
	check(err)
	f, err := parser.ParseFile(fset, name, src, 0) // comments are dropped
	check(err)
	if f.Name.Name == "main" {
		return nil
	}
	points := 0
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				isCases := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						isCases = true
					}
				}
				if !isCases {
					x.List = list(x.List)
					points += len(x.List)
				}
			case *ast.CaseClause:
				x.Body = list(x.Body)
				points += len(x.Body)
			case *ast.CommClause:
				x.Body = list(x.Body)
				points += len(x.Body)
			}
			return true
		})
	}
	hasSync := false
	for _, i := range f.Imports {
		if p, _ := strconv.Unquote(i.Path.Value); p == "sync" {
			i.Path.Value = strconv.Quote("verif/vsync")
			if i.Name == nil {
				i.Name = ast.NewIdent("sync")
			}
			hasSync = true
		}
	}
	if points == 0 && !hasSync {
		return nil
	}
	if points > 0 {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	// positions of the old source would confuse the printer's line breaking
	var sb strings.Builder
	check(format.Node(&sb, fset, f))
	return []byte(sb.String())
}
