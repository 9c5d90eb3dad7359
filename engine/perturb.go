package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// perturbFiles makes copies of the repository's files in which a call of vsym.Point precedes every statement, so that
// native replays meet schedules in which a goroutine is held up between any two statements. Gives source -> copy.
func perturbFiles(dir, tag string, harnesses map[string]string) map[string]string {
	out := map[string]string{}
	site := 0
	one := func(path, from string) {
		src, err := os.ReadFile(from)
		if err != nil {
			return
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil || f.Name.Name == "main" || f.Name.Name == "vsym" {
			return
		}
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Name.Name == "init" {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		if len(at) == 0 {
			return
		}
		sort.Ints(at)
		end := fset.Position(f.Name.End()).Offset
		var b strings.Builder
		b.Write(src[:end])
		b.WriteString(`; import zzvsymP "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"`)
		pos := end
		for _, o := range at {
			if o < pos {
				continue
			}
			b.Write(src[pos:o])
			site++
			fmt.Fprintf(&b, "zzvsymP.Point(%d); ", site)
			pos = o
		}
		b.Write(src[pos:])
		dst := filepath.Join(dir, fmt.Sprintf("%s_p%d_%s", tag, len(out), filepath.Base(path)))
		if os.WriteFile(dst, []byte(b.String()), 0o644) == nil {
			out[path] = dst
		}
	}
	for dst, src := range harnesses {
		one(dst, src)
	}
	filepath.Walk(repoDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); path != repoDir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "pkg") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		one(path, path)
		return nil
	})
	return out
}
