package main

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

// yieldFiles writes copies of Go files with a call zzyield.At(site) in front of every statement inside function bodies (for
// the bounded checks: it makes narrow interleavings reachable, and changes nothing but the schedule). pairs: src=dst,...
func yieldFiles(pairs, module string) error {
	for fi, pr := range strings.Split(pairs, ",") {
		src, dst, _ := strings.Cut(pr, "=")
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := goparser.ParseFile(fset, src, b, goparser.ParseComments)
		if err != nil {
			return err
		}
		site := fi << 9 // 512 delay points of each file can be told apart
		var at []int
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		sort.Ints(at)
		var o strings.Builder
		pk := fset.Position(f.Name.End()).Offset
		o.Write(b[:pk])
		fmt.Fprintf(&o, "; import zzyield %q", module+"/zzyield")
		last := pk
		for _, p := range at {
			o.Write(b[last:p])
			fmt.Fprintf(&o, "zzyield.At(%d); ", site)
			if site&511 < 511 {
				site++
			}
			last = p
		}
		o.Write(b[last:])
		if len(at) == 0 {
			o.WriteString("\nvar _ = zzyield.At\n")
		}
		if err := os.WriteFile(dst, []byte(o.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}
