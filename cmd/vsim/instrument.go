package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes, under out, a copy of every non-test Go file of the
// repository with a possible preemption point (runtime.SimYield) before every
// statement, and with field read-modify-write statements split in two. Line
// numbers do not change. It returns the overlay entries and the table of sites.
func instrument(repo, out string, split bool) (map[string]string, []string, error) {
	over := map[string]string{}
	sites := []string{"-"}
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if strings.HasPrefix(b, ".") && p != repo || b == "testdata" || b == "vendor" || p == filepath.Join(repo, "x", "bench") || b == "build" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, nil, err
		}
		rel, _ := filepath.Rel(repo, p)
		res, err := instrumentFile(rel, src, split, &sites)
		if err != nil {
			return nil, nil, err
		}
		if res == nil {
			continue
		}
		dst := filepath.Join(out, "repo", rel)
		if err := writeIfChanged(dst, res); err != nil {
			return nil, nil, err
		}
		over[p] = dst
	}
	return over, sites, nil
}

type textEdit struct {
	from, to int
	text     string
}

func instrumentFile(rel string, src []byte, split bool, sites *[]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []textEdit
	site := func(p token.Pos) int {
		*sites = append(*sites, fmt.Sprintf("%s:%d", rel, fset.Position(p).Line))
		return len(*sites) - 1
	}
	yield := func(p token.Pos) string { return fmt.Sprintf("simrt__.SimYield(%d); ", site(p)) }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at := off(s.Pos())
			edits = append(edits, textEdit{at, at, yield(s.Pos())})
			if !split {
				continue
			}
			switch st := s.(type) {
			case *ast.IncDecStmt:
				if _, ok := st.X.(*ast.SelectorExpr); ok {
					x := string(src[off(st.X.Pos()):off(st.X.End())])
					op := "+"
					if st.Tok == token.DEC {
						op = "-"
					}
					edits = append(edits, textEdit{at, off(st.End()), fmt.Sprintf("{ simp__ := &%s; simv__ := *simp__; simrt__.SimYield(%d); *simp__ = simv__ %s 1 }", x, site(s.Pos()), op)})
				}
			case *ast.AssignStmt:
				if len(st.Lhs) != 1 || len(st.Rhs) != 1 {
					continue
				}
				if _, ok := st.Lhs[0].(*ast.SelectorExpr); !ok {
					continue
				}
				hasFn := false
				ast.Inspect(st.Rhs[0], func(n ast.Node) bool {
					if _, ok := n.(*ast.FuncLit); ok {
						hasFn = true
					}
					return !hasFn
				})
				if hasFn {
					continue
				}
				x := string(src[off(st.Lhs[0].Pos()):off(st.Lhs[0].End())])
				r := string(src[off(st.Rhs[0].Pos()):off(st.Rhs[0].End())])
				if strings.ContainsAny(r, "\n") || strings.ContainsAny(x, "\n") {
					continue
				}
				switch st.Tok {
				case token.ADD_ASSIGN, token.SUB_ASSIGN:
					op := "+"
					if st.Tok == token.SUB_ASSIGN {
						op = "-"
					}
					edits = append(edits, textEdit{at, off(st.End()), fmt.Sprintf("{ simp__ := &%s; simv__ := *simp__; simrt__.SimYield(%d); *simp__ = simv__ %s (%s) }", x, site(s.Pos()), op, r)})
				case token.ASSIGN:
					if c, ok := st.Rhs[0].(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name != "append" {
							continue // conversions and builtins: nothing read
						}
						edits = append(edits, textEdit{at, off(st.End()), fmt.Sprintf("{ simv__ := %s; simrt__.SimYield(%d); %s = simv__ }", r, site(s.Pos()), x)})
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				at := off(n.Body.Lbrace) + 1
				edits = append(edits, textEdit{at, at, yield(n.Body.Lbrace)})
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, nil
	}
	at := off(f.Name.End())
	edits = append(edits, textEdit{at, at, `; import simrt__ "runtime"`})
	// insertions before replacements at the same place
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].to < edits[j].to
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			return nil, fmt.Errorf("%s: overlapping edits at %d", rel, e.from)
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	return []byte(b.String()), nil
}
