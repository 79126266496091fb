// rewrite copies Go files of a directory which use package sync or start
// goroutines, so that they use package zzvsync of the overlay instead.
// It prints an overlay entry for each.
//
//	rewrite SRCDIR OUTDIR
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vsync = "github.com/soypat/sdf/zzvsync"

func main() {
	src, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		panic(err)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if err := rewrite(f, filepath.Join(out, filepath.Base(f))); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}

func rewrite(path, out string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return err
	}
	changed := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = strconv.Quote(vsync)
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			changed = true
		}
	}
	gos := 0
	replaceGo := func(list []ast.Stmt) {
		for i, st := range list {
			g, ok := st.(*ast.GoStmt)
			if !ok {
				continue
			}
			gos++
			call := g.Call
			sel := &ast.SelectorExpr{X: ast.NewIdent("zzvsync"), Sel: ast.NewIdent("Go")}
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				list[i] = &ast.ExprStmt{X: &ast.CallExpr{Fun: sel, Args: []ast.Expr{fl}}}
				continue
			}
			// The function value and the arguments are evaluated by the go statement.
			var lhs, rhs, args []ast.Expr
			fn := call.Fun
			if _, ok := fn.(*ast.FuncLit); !ok {
				lhs = append(lhs, ast.NewIdent("zzf"))
				rhs = append(rhs, fn)
				fn = ast.NewIdent("zzf")
			}
			for k, a := range call.Args {
				id := fmt.Sprintf("zza%d", k)
				lhs = append(lhs, ast.NewIdent(id))
				rhs = append(rhs, a)
				args = append(args, ast.NewIdent(id))
			}
			inner := &ast.CallExpr{Fun: fn, Args: args}
			if call.Ellipsis.IsValid() {
				inner.Ellipsis = 1
			}
			body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
			list[i] = &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
				&ast.ExprStmt{X: &ast.CallExpr{Fun: sel, Args: []ast.Expr{body}}},
			}}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			replaceGo(n.List)
		case *ast.CaseClause:
			replaceGo(n.Body)
		case *ast.CommClause:
			replaceGo(n.Body)
		}
		return true
	})
	if gos > 0 {
		changed = true
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzvsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsync)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if !changed {
		return nil
	}
	// Comments would be misplaced by the changed positions, directives aside none matters.
	f.Comments = nil
	w, err := os.Create(out)
	if err != nil {
		return err
	}
	if err := format.Node(w, fset, f); err != nil {
		return err
	}
	if err := w.Close(); err != nil {
		return err
	}
	fmt.Printf("%q:%q\n", path, out)
	return nil
}
