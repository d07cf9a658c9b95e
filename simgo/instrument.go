// Command instrument copies a Go module's non-test sources and inserts a yield point before every statement, so that the
// simulator decides where goroutines switch. It works on text offsets: nothing else in the files changes.
//
//	instrument SRC DST
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, del int
	text     string
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	mod := ""
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = f[1]
		}
	}
	check(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		check(err)
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" || fi.Name() == "install" || fi.Name() == "docs") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		if rel == "go.mod" || rel == "go.sum" {
			b, err := os.ReadFile(p)
			check(err)
			return os.WriteFile(filepath.Join(dst, rel), b, 0666)
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		file(p, filepath.Join(dst, rel), mod, filepath.Dir(rel) == ".")
		return nil
	}))
}

var site int // number of the next yield point

func file(src, dst, mod string, top bool) {
	b, err := os.ReadFile(src)
	check(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, b, parser.ParseComments)
	check(err)
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	n := 0
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), 0, fmt.Sprintf("zzsimhook.Y(%d); ", site)})
			site++
			n++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true // body of a switch or select
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.FuncDecl:
			if top && f.Name.Name == "main" && x.Recv == nil && x.Name.Name == "main" {
				edits = append(edits, edit{off(x.Name.Pos()), 4, "zzClaraMain"})
			}
		}
		return true
	})
	if n > 0 {
		edits = append(edits, edit{off(f.Name.End()), 0, fmt.Sprintf("; import zzsimhook %q", mod+"/zzsimhook")})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	at := 0
	for _, e := range edits {
		out = append(out, b[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.del
	}
	out = append(out, b[at:]...)
	check(os.WriteFile(dst, out, 0666))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
