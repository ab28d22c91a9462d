package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
)

// assignedElsewhere lists the exported variables ("path.Name") that any
// non-test file of the module below dir assigns, or takes the address of,
// through a package selector. Only the packages a check needs are loaded; a
// variable set by another package must not count as constant.
func assignedElsewhere(dir string) map[string]bool {
	r := map[string]bool{}
	fset := token.NewFileSet()
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		imps := map[string]string{}
		for _, im := range f.Imports {
			path, err := strconv.Unquote(im.Path.Value)
			if err != nil || !strings.HasPrefix(path, modPath) {
				continue
			}
			n := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			imps[n] = path
		}
		if len(imps) == 0 {
			return nil
		}
		mark := func(e ast.Expr) {
			for {
				switch t := e.(type) {
				case *ast.ParenExpr:
					e = t.X
					continue
				case *ast.IndexExpr:
					e = t.X
					continue
				case *ast.SelectorExpr:
					if id, ok := t.X.(*ast.Ident); ok {
						if path := imps[id.Name]; path != "" {
							r[path+"."+t.Sel.Name] = true
						}
						return
					}
					e = t.X
					continue
				}
				return
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					mark(n.Key)
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			}
			return true
		})
		return nil
	})
	return r
}
