package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A schedule found by the engine is looked for in the compiled code by running
// it many times with a chance of a pause before every statement. The compiled
// code is the repository's own; only calls of zzverif.Pause are put in.

// jittered returns the source with a Pause before every statement, nil when
// the file has no statements.
func jittered(src []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil
		}
	}
	at := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at[fs.Position(s.Pos()).Offset] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	name := fs.Position(f.Name.End()).Offset
	var out []byte
	out = append(out, src[:name]...)
	out = append(out, "; import zzjitter \""+modPath+"/adapter/zzverif\""...)
	last := name
	for _, o := range offs {
		out = append(out, src[last:o]...)
		out = append(out, "zzjitter.Pause();"...)
		last = o
	}
	return append(out, src[last:]...)
}

// jitterOverlay adds instrumented versions of the repository's files.
func jitterOverlay(repo, dir string, ov map[string]string) {
	n := 0
	filepath.Walk(filepath.Join(repo, "adapter"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			switch strings.TrimPrefix(p, repo) {
			case "/adapter/pkg", "/adapter/zzverif":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, ok := ov[p]; ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if out := jittered(src); out != nil {
			n++
			d := filepath.Join(dir, "jitter", strings.TrimPrefix(p, repo))
			os.MkdirAll(filepath.Dir(d), 0o755)
			if os.WriteFile(d, out, 0o644) == nil {
				ov[p] = d
			}
		}
		return nil
	})
}
