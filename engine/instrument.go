package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// instrument rewrites the repository's sources (into tmp) so that the clock and the atomic operations
// can be driven by a replay; it returns the overlay map.
func instrument(tmp, repo string) (map[string]string, error) {
	repl := map[string]string{}
	n := 0
	for _, d := range []string{"mqttp", "vlmonitoring", "vlauth", "vlpersistence", "vlsubscriber", "vltypes"} {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			timeName := ""
			changed := false
			for _, im := range af.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				switch p {
				case "time":
					timeName = "time"
					if im.Name != nil {
						timeName = im.Name.Name
					}
				case "sync/atomic":
					im.Path.Value = strconv.Quote("vlverif/harness/sym/atomicshim")
					if im.Name == nil {
						im.Name = ast.NewIdent("atomic")
					}
					changed = true
				}
			}
			if timeName != "" {
				hit := false
				ast.Inspect(af, func(x ast.Node) bool {
					s, ok := x.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					if id, ok := s.X.(*ast.Ident); ok && id.Name == timeName && (s.Sel.Name == "Now" || s.Sel.Name == "Since" || s.Sel.Name == "Until") {
						id.Name = "verifsym"
						hit = true
					}
					return true
				})
				if hit {
					changed = true
					af.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifsym"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("vlverif/harness/sym")}}}}}, af.Decls...)
				}
			}
			if !changed {
				continue
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, af); err != nil {
				return nil, err
			}
			if timeName != "" {
				fmt.Fprintf(&b, "\n\nvar _ %s.Duration\n", timeName)
			}
			n++
			out := filepath.Join(tmp, fmt.Sprintf("i%d_%s", n, filepath.Base(f)))
			if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
				return nil, err
			}
			repl[f] = out
		}
	}
	return repl, nil
}
