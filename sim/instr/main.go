// instr rewrites Go source files for the simulated build: it inserts
// runtime.VSimPoint() before statements and splits read-modify-write statements
// so that the scheduler can interleave inside them. Text is inserted in place, so
// line numbers stay as they are. Usage: instr PLAN.json, where PLAN is a list of
// {"in":..., "out":..., "main":bool}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

type job struct {
	In   string `json:"in"`
	Out  string `json:"out"`
	Main bool   `json:"main"`
}

type edit struct {
	from, to int
	text     string
	seq      int
}

func main() {
	raw, err := os.ReadFile(os.Args[1])
	check(err)
	var jobs []job
	check(json.Unmarshal(raw, &jobs))
	points, splits, regs, mains := 0, 0, 0, 0
	for _, j := range jobs {
		p, s, r, m := do(j)
		points += p
		splits += s
		regs += r
		mains += m
	}
	fmt.Printf("{\"points\":%d,\"splits\":%d,\"registries\":%d,\"mains\":%d,\"files\":%d}\n", points, splits, regs, mains, len(jobs))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func do(j job) (points, splits, regs, mains int) {
	src, err := os.ReadFile(j.In)
	check(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, j.In, src, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	add := func(from, to int, t string) { edits = append(edits, edit{from, to, t, len(edits)}) }

	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if t := split(s, text); t != "" {
				add(off(s.Pos()), off(s.End()), "vsimrt.VSimPoint();"+t)
				splits++
			} else {
				add(off(s.Pos()), off(s.Pos()), "vsimrt.VSimPoint();")
			}
			points++
		}
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil && strings.Contains(x.Doc.Text(), "go:") {
				return false
			}
			if j.Main && x.Recv == nil && x.Name.Name == "main" {
				add(off(x.Name.Pos()), off(x.Name.End()), "vsimRealMain")
				mains++
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt:
			// the body's statements are clauses, not statements
			if x.Init != nil {
				ast.Inspect(x.Init, visit)
			}
			if x.Tag != nil {
				ast.Inspect(x.Tag, visit)
			}
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.CompositeLit:
			if j.Main {
				if at, ok := x.Type.(*ast.ArrayType); ok && at.Len == nil && len(x.Elts) > 0 {
					if se, ok := at.Elt.(*ast.SelectorExpr); ok && se.Sel.Name == "Rule" {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == "rule" {
							add(off(x.Pos()), off(x.Pos()), "vsimRegister(")
							add(off(x.End()), off(x.End()), ")")
							regs++
						}
					}
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	// statements replaced by split() contain no nested statements, so edits never overlap
	sort.SliceStable(edits, func(a, b int) bool {
		if edits[a].from != edits[b].from {
			return edits[a].from < edits[b].from
		}
		return edits[a].seq < edits[b].seq
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			continue
		}
		out.Write(src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(src[pos:])
	s := out.String()
	if points > 0 {
		// import right after the package clause, on the same line
		p := off(f.Name.End())
		s = s[:p] + "; import vsimrt \"runtime\"" + s[p:]
	}
	check(os.WriteFile(j.Out, []byte(s), 0o644))
	return
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	}
	return false
}

func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func split(s ast.Stmt, text func(ast.Node) string) string {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !simple(x.X) {
			return ""
		}
		v := text(x.X)
		return "{ vsimT := " + v + "; vsimrt.VSimPoint(); " + v + " = vsimT " + x.Tok.String()[:1] + " 1 }"
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !simple(x.Lhs[0]) {
			return ""
		}
		v := text(x.Lhs[0])
		if x.Tok == token.ASSIGN {
			c, ok := x.Rhs[0].(*ast.CallExpr)
			if !ok || len(c.Args) < 2 {
				return ""
			}
			id, ok := c.Fun.(*ast.Ident)
			if !ok || id.Name != "append" || text(c.Args[0]) != v {
				return ""
			}
			rest := make([]string, 0, len(c.Args))
			for _, a := range c.Args[1:] {
				if !pure(a) {
					return ""
				}
				rest = append(rest, text(a))
			}
			dots := ""
			if c.Ellipsis.IsValid() {
				dots = "..."
			}
			return "{ vsimT := " + v + "; vsimrt.VSimPoint(); " + v + " = append(vsimT, " + strings.Join(rest, ", ") + dots + ") }"
		}
		if x.Tok == token.DEFINE || !pure(x.Rhs[0]) {
			return ""
		}
		op := strings.TrimSuffix(x.Tok.String(), "=")
		return "{ vsimT := " + v + "; vsimrt.VSimPoint(); " + v + " = vsimT " + op + " (" + text(x.Rhs[0]) + ") }"
	}
	return ""
}
