// instr <module dir> <out dir> <src dir>: writes an overlay in which the
// synchronisation operations of the program are decision points of a controlled
// scheduler (see src/vsched.go.src). What the program does stays the same.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vpkg = "verifsched"

func main() {
	mod, out, src := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	for _, f := range []string{"vsched.go", "race.go", "norace.go"} {
		repl[filepath.Join(mod, "pkg", vpkg, f)] = filepath.Join(src, f+".src")
	}
	err := filepath.Walk(filepath.Join(mod, "pkg"), func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		text, changed, err := rewrite(p)
		if err != nil {
			return err
		}
		if changed {
			o := filepath.Join(out, fmt.Sprintf("%d_%s", len(repl), filepath.Base(p)))
			repl[p] = o
			return os.WriteFile(o, text, 0644)
		}
		return nil
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(map[string]interface{}{"Replace": repl})
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func call(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(vpkg), Sel: ast.NewIdent(name)}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Yield")}} }

func rewrite(path string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	names := map[string]string{} // package -> local name
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		names[p] = n
	}
	changed := false
	is := func(e ast.Expr, pkg string, sels ...string) bool {
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		if !ok || names[pkg] == "" || x.Name != names[pkg] {
			return false
		}
		for _, n := range sels {
			if s.Sel.Name == n {
				return true
			}
		}
		return len(sels) == 0
	}
	// types and functions
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if ok && (is(s, "sync", "Mutex", "RWMutex", "Once") || is(s, "runtime", "Stack")) {
			s.X = ast.NewIdent(vpkg)
			changed = true
		}
		return true
	})
	// does the statement itself (not what is nested in blocks) synchronise
	syncs := func(st ast.Stmt) bool {
		found := false
		ast.Inspect(st, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return false
			case *ast.CommClause:
				return false
			case *ast.SendStmt, *ast.SelectStmt:
				found = true
			case *ast.UnaryExpr:
				found = found || n.Op == token.ARROW
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
					found = true
				}
				if is(n.Fun, "time", "Sleep") || is(n.Fun, "sync/atomic") {
					found = true
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && names["sync"] != "" {
					switch s.Sel.Name {
					case "Wait", "Done", "Signal", "Broadcast":
						found = found || len(n.Args) == 0
					}
				}
			}
			return true
		})
		return found
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, st := range l {
			inner := st
			if lb, ok := st.(*ast.LabeledStmt); ok {
				inner = lb.Stmt
			}
			if _, ok := inner.(*ast.DeferStmt); !ok && syncs(inner) {
				out = append(out, yield())
				changed = true
			}
			out = append(out, st)
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = list(n.List)
		case *ast.CaseClause:
			n.Body = list(n.Body)
		case *ast.CommClause:
			n.Body = list(n.Body)
		case *ast.GoStmt:
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
				fl.Body.List = append([]ast.Stmt{yield()}, fl.Body.List...)
				changed = true
			}
		}
		return true
	})
	if !changed {
		return nil, false, nil
	}
	// comments would land in odd places
	f.Comments = nil
	spec := &ast.ImportSpec{Name: ast.NewIdent(vpkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("github.com/innerr/ticat/pkg/" + vpkg)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	// imports which aren't used any more
	for p, n := range names {
		if p != "sync" && p != "runtime" {
			continue
		}
		used := false
		ast.Inspect(f, func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == n {
					used = true
				}
			}
			return true
		})
		if !used {
			for _, im := range f.Imports {
				if im.Path.Value == strconv.Quote(p) {
					im.Name = ast.NewIdent("_")
				}
			}
		}
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, false, err
	}
	return b.Bytes(), true, nil
}
