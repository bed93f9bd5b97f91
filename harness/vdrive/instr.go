package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() { drivers["instr"] = instrDriver }

const modPath = "github.com/lxdlam/vertex"

// instrDriver writes instrumented copies of packages of the module at -in, and an overlay for them.
// mode: "virtual:pkg/a,pkg/b" or "real:pkg/a,..."; virtual also replaces package sync.
// Before every statement a call is inserted that may let other goroutines run.
func instrDriver(*Sink) {
	parts := strings.SplitN(mode, ":", 2)
	virtual := parts[0] == "virtual"
	repo := fault
	replace := map[string]string{}
	put := func(target, text string) {
		f := filepath.Join(scratch, strconv.Itoa(len(replace))+".go")
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			fatal("%s", err)
		}
		replace[target] = f
	}
	here := filepath.Join(verifDir(), "harness", "overlay")
	read := func(p string) string {
		b, err := os.ReadFile(p)
		if err != nil {
			fatal("%s", err)
		}
		return string(b)
	}
	put(filepath.Join(repo, "pkg/zzvsched/vsched.go"), read(filepath.Join(here, "vsched/vsched.go")))
	put(filepath.Join(repo, "pkg/zzvsync/vsync.go"), read(filepath.Join(here, "vsync/vsync.go")))

	for _, pkg := range strings.Split(parts[1], ",") {
		dir := filepath.Join(repo, pkg)
		p, err := build.Default.ImportDir(dir, 0)
		if err != nil {
			fatal("%s: %s", pkg, err)
		}
		for _, name := range p.GoFiles {
			if strings.HasSuffix(name, ".pb.go") {
				continue
			}
			put(filepath.Join(dir, name), instrument(filepath.Join(dir, name), virtual))
		}
	}
	b, _ := json.Marshal(replace)
	if err := os.WriteFile(filepath.Join(scratch, "replace.json"), b, 0644); err != nil {
		fatal("%s", err)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func instrument(path string, virtual bool) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		fatal("parse %s: %s", path, err)
	}
	yield := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvsched"), Sel: ast.NewIdent("P")}}}
	}
	n := 0
	weave := func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			n++
			out = append(out, yield(), s)
		}
		return out
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.BlockStmt:
			// the block of a switch or select holds clauses
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			x.List = weave(x.List)
		case *ast.CaseClause:
			x.Body = weave(x.Body)
		case *ast.CommClause:
			x.Body = weave(x.Body)
		}
		return true
	})
	// a write to a file is not atomic for those who read it meanwhile, and the process may die in it
	ast.Inspect(f, func(node ast.Node) bool {
		if c, ok := node.(*ast.CallExpr); ok && !virtual {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) > 0 && strings.HasPrefix(sel.Sel.Name, "NewWriter") {
				if x, ok := sel.X.(*ast.Ident); ok && x.Name == "bufio" {
					c.Args[0] = &ast.CallExpr{
						Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzvsched"), Sel: ast.NewIdent("Slow")},
						Args: []ast.Expr{c.Args[0]},
					}
				}
			}
		}
		return true
	})
	for _, imp := range f.Imports {
		if virtual && imp.Path.Value == `"sync"` && imp.Name == nil {
			imp.Path.Value = strconv.Quote(modPath + "/pkg/zzvsync")
			imp.Name = ast.NewIdent("sync")
		}
	}
	if n > 0 {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/pkg/zzvsched")}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fset, f); err != nil {
		fatal("print %s: %s", path, err)
	}
	return buf.String()
}
