package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const marker = "verifsched__"

// instrument writes, under dir, copies of the repository's Go sources with a
// schedule point before every statement and the locks of vsync, and an overlay
// file that puts them in place of the originals. It judges nothing: the copies
// compute what the originals compute.
func instrument(repo, dir string) (overlay string, err error) {
	repl := map[string]string{}
	n := 0
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, changed := instrumentFile(p, src)
		if !changed {
			return nil
		}
		n++
		dst := filepath.Join(dir, fmt.Sprintf("f%03d.go", n))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		repl[p] = dst
		return nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, os.WriteFile(overlay, b, 0o644)
}

type edit struct {
	at, end int
	text    string
}

func instrumentFile(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false // the build reports it
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var edits []edit
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if path == "C" {
			return nil, false
		}
		if path == "sync" {
			t := `"gearsverif/vsync"`
			if is.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, edit{off(is.Path.Pos()), off(is.Path.End()), t})
		}
	}
	points := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			if t := splitUpdate(s, src, off); t != "" {
				edits = append(edits, edit{off(s.Pos()), off(s.End()), t})
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), marker + ".P(); "})
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	if points > 0 {
		at := off(f.Name.End())
		edits = append(edits, edit{at, at, "; import " + marker + ` "gearsverif/vsync"`})
	}
	if len(edits) == 0 {
		return nil, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.at])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

// splitUpdate rewrites x.f++ and x.f += e into a read and a write with a
// schedule point in between, which is what they are to another goroutine.
func splitUpdate(s ast.Stmt, src []byte, off func(token.Pos) int) string {
	var lhs, rhs ast.Expr
	var op string
	switch s := s.(type) {
	case *ast.IncDecStmt:
		lhs = s.X
		op = map[token.Token]string{token.INC: "+", token.DEC: "-"}[s.Tok]
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return ""
		}
		op = map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-"}[s.Tok]
		lhs, rhs = s.Lhs[0], s.Rhs[0]
	}
	if op == "" || !plainSelector(lhs) {
		return ""
	}
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	r := "1"
	if rhs != nil {
		r = text(rhs)
		bad := false
		ast.Inspect(rhs, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				bad = true
			}
			return true
		})
		if bad || strings.Contains(r, "\n") {
			return ""
		}
	}
	l := text(lhs)
	t := marker + "t"
	return fmt.Sprintf("%s.P(); { %s := %s; %s.P(); %s = %s %s (%s) }", marker, t, l, marker, l, t, op, r)
}

func plainSelector(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	switch x := s.X.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainSelector(x)
	}
	return false
}
