package main

// Yield points in the library: before every statement of a copy of its sources a call is put,
// at which another conversation may go on. The harness is then built with an overlay.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yieldPackage = `package verifyield

var Hook func()

func Y() {
	if Hook != nil {
		Hook()
	}
}
`

func instrument(repo, dir string) {
	overlay := map[string]string{}
	put := func(at string, text []byte) {
		to := filepath.Join(dir, fmt.Sprintf("f%d.go", len(overlay)))
		check(os.WriteFile(to, text, 0o644))
		overlay[at] = to
	}
	mod := ""
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "module" {
			mod = strings.Trim(f[1], `"`)
		}
	}
	put(filepath.Join(repo, "verifyield", "verifyield.go"), []byte(yieldPackage))
	check(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := fi.Name()
		if fi.IsDir() && p != repo && (strings.HasPrefix(n, ".") || n == "tests" || n == "vendor" || n == "verifyield") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil // the compiler will say so
		}
		at := map[int]bool{}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at[fset.PositionFor(s.Pos(), false).Offset] = true
				}
			}
		}
		// arithmetic of the curve: once per function
		coarse := strings.Contains(p, "edwards25519")
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if coarse && x.Body != nil && len(x.Body.List) > 0 {
					stmts(x.Body.List[:1])
				}
			case *ast.BlockStmt:
				if !coarse {
					stmts(x.List)
				}
			case *ast.CaseClause:
				if !coarse {
					stmts(x.Body)
				}
			case *ast.CommClause:
				if !coarse {
					stmts(x.Body)
				}
			}
			return true
		})
		// the clauses of a switch are statements of its block, too
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.CaseClause:
				delete(at, fset.PositionFor(x.Pos(), false).Offset)
			case *ast.CommClause:
				delete(at, fset.PositionFor(x.Pos(), false).Offset)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var sb strings.Builder
		last := fset.PositionFor(f.Name.End(), false).Offset
		sb.Write(src[:last])
		fmt.Fprintf(&sb, "; import verifyield %q", mod+"/verifyield")
		for _, o := range offs {
			sb.Write(src[last:o])
			sb.WriteString("verifyield.Y(); ")
			last = o
		}
		sb.Write(src[last:])
		put(p, []byte(sb.String()))
		return nil
	}))
	b, err = json.Marshal(map[string]interface{}{"Replace": overlay})
	check(err)
	check(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644))
}
