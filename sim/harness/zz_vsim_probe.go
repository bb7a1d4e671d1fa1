package main

import (
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

// Probe rules: synthetic workload for the lint driver. They are ordinary rules;
// what they report is recorded by vsimWrapRule like any other rule's reports.

type vsimNodes struct {
	file  *ast.SourceFile
	enter map[*ast.Node]int
	exit  map[*ast.Node]int
	pattern map[*ast.Node]int
	stack   []*ast.Node
	nesting int
}

func vsimOpt(options any, key string, def float64) float64 {
	if m, ok := options.(map[string]any); ok {
		if v, ok := m[key].(float64); ok {
			return v
		}
	}
	return def
}

func vsimOptS(options any, key string) string {
	if m, ok := options.(map[string]any); ok {
		if v, ok := m[key].(string); ok {
			return v
		}
	}
	return ""
}

// vsim-probe-ident: one report per identifier, tagged with the file and the option
// values it ran with.
func vsimProbeIdent(name string) rule.Rule {
	return rule.Rule{Name: name, Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		file := ctx.SourceFile
		tag := vsimOptS(options, "tag")
		every := int(vsimOpt(options, "every", 1))
		pad := int(vsimOpt(options, "pad", 0))
		work := int64(vsimOpt(options, "work", 0))
		i := 0
		return rule.RuleListeners{ast.KindIdentifier: func(node *ast.Node) {
			i++
			if work > 0 {
				runtime.VSimAdvance(work)
			}
			if every > 1 && i%every != 0 {
				return
			}
			ctx.ReportNode(node, rule.RuleMessage{Id: "ident", Description: name + "|" + file.FileName() + "|" + tag + "|" + strconv.Itoa(node.Pos()) + strings.Repeat("x", pad)})
		}}
	}}
}

var vsimProbes = []rule.Rule{
	vsimProbeIdent("vsim-probe-ident"),
	vsimProbeIdent("vsim-probe-ident2"),
	// every reporting entry point, with fixes and suggestions
	{Name: "vsim-probe-fix", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		n := 0
		return rule.RuleListeners{ast.KindIdentifier: func(node *ast.Node) {
			if node.Pos() == node.End() {
				return // missing from the source
			}
			n++
			msg := rule.RuleMessage{Id: "fix" + strconv.Itoa(n%8), Description: "probe " + strconv.Itoa(node.Pos()), Help: "help " + strconv.Itoa(n)}
			pos := n
			fixes := func() []rule.RuleFix {
				return []rule.RuleFix{rule.RuleFixInsertBefore(ctx.SourceFile, node, "/*"+strconv.Itoa(pos)+"*/"), rule.RuleFixInsertAfter(node, "!")}
			}
			sugg := func() []rule.RuleSuggestion {
				return []rule.RuleSuggestion{
					{Message: rule.RuleMessage{Id: "s1", Description: "one"}, FixesArr: fixes()},
					{Message: rule.RuleMessage{Id: "s2", Description: "two " + strconv.Itoa(pos)}, FixesArr: []rule.RuleFix{rule.RuleFixRemove(ctx.SourceFile, node)}},
				}
			}
			rng := core.NewTextRange(node.End()-1, node.End())
			switch n % 8 {
			case 0:
				ctx.ReportDiagnostic(rule.RuleDiagnostic{Range: rng, Message: msg, LabeledRanges: []rule.RuleLabeledRange{{Label: "here", Range: rng}, {Label: "there", Range: core.NewTextRange(0, 1)}}})
			case 1:
				ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{Range: rng, Message: msg}, fixes)
			case 2:
				ctx.ReportDiagnosticWithSuggestions(rule.RuleDiagnostic{Range: rng, Message: msg}, sugg)
			case 3:
				ctx.ReportRange(rng, msg)
			case 4:
				ctx.ReportRangeWithSuggestions(rng, msg, sugg)
			case 5:
				ctx.ReportNode(node, msg)
			case 6:
				ctx.ReportNodeWithFixes(node, msg, fixes)
			case 7:
				ctx.ReportNodeWithSuggestions(node, msg, sugg)
			}
		}}
	}},
	// reports from Run itself (no listener), and returns no listeners
	{Name: "vsim-probe-run", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		ctx.ReportRange(core.NewTextRange(0, 0), rule.RuleMessage{Id: "run", Description: "run " + ctx.SourceFile.FileName()})
		return nil
	}},
	// asks the type checker about every identifier
	{Name: "vsim-probe-type", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		return rule.RuleListeners{ast.KindIdentifier: func(node *ast.Node) {
			t := ctx.TypeChecker.GetTypeAtLocation(node)
			if t == nil {
				return
			}
			ctx.ReportNode(node, rule.RuleMessage{Id: "type", Description: node.Text() + ": " + ctx.TypeChecker.TypeToString(t)})
		}}
	}},
	// counts node visits
	{Name: "vsim-probe-walk", Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
		p := &vsimNodes{file: ctx.SourceFile, enter: map[*ast.Node]int{}, exit: map[*ast.Node]int{}, pattern: map[*ast.Node]int{}}
		runtime.VSimHold()
		vs.nodeProbe[ctx.SourceFile.FileName()+"\t"+strconv.Itoa(len(vs.nodeProbe))] = p
		runtime.VSimRelease()
		ls := rule.RuleListeners{}
		for k := ast.Kind(1); k < 400; k++ {
			ls[k] = func(node *ast.Node) {
				p.enter[node]++
				if n := len(p.stack); n > 0 && node.Parent != p.stack[n-1] {
					p.nesting++
				}
				p.stack = append(p.stack, node)
			}
			ls[rule.ListenerOnExit(k)] = func(node *ast.Node) {
				p.exit[node]++
				if n := len(p.stack); n > 0 && p.stack[n-1] == node {
					p.stack = p.stack[:n-1]
				} else {
					p.nesting++
				}
			}
		}
		for _, k := range []ast.Kind{ast.KindArrayLiteralExpression, ast.KindObjectLiteralExpression} {
			for _, l := range []ast.Kind{rule.ListenerOnAllowPattern(k), rule.ListenerOnNotAllowPattern(k)} {
				unit := 1
				if l == rule.ListenerOnNotAllowPattern(k) {
					unit = 1000
				}
				ls[l] = func(node *ast.Node) { p.pattern[node] += unit }
				ls[rule.ListenerOnExit(l)] = func(node *ast.Node) { p.pattern[node] += 100 * unit }
			}
		}
		return ls
	}},
}

// vsimIsPattern tells whether a literal is the target of a destructuring assignment
// (1), is not (0), or is nested in a default inside such a target (-1).
func vsimIsPattern(n *ast.Node) int {
	p := n.Parent
	if p == nil {
		return 0
	}
	switch p.Kind {
	case ast.KindBinaryExpression:
		b := p.AsBinaryExpression()
		if b.OperatorToken.Kind != ast.KindEqualsToken || b.Left != n {
			return 0
		}
		if q := p.Parent; q != nil && (q.Kind == ast.KindArrayLiteralExpression || q.Kind == ast.KindPropertyAssignment || q.Kind == ast.KindSpreadElement || q.Kind == ast.KindSpreadAssignment) && vsimIsPattern(p) != 0 {
			return -1
		}
		return 1
	case ast.KindArrayLiteralExpression:
		return vsimIsPattern(p)
	case ast.KindSpreadElement, ast.KindSpreadAssignment:
		if p.Parent != nil && (p.Parent.Kind == ast.KindArrayLiteralExpression || p.Parent.Kind == ast.KindObjectLiteralExpression) {
			return vsimIsPattern(p.Parent)
		}
	case ast.KindPropertyAssignment:
		if p.Initializer() == n {
			return vsimIsPattern(p.Parent)
		}
	}
	return 0
}

// vsimNodeSummary compares the visits against a plain traversal of the tree: every
// node entered and left once, children between their parents, and every array and
// object literal announced as either a pattern or not a pattern.
func vsimNodeSummary() {
	keys := make([]string, 0, len(vs.nodeProbe))
	for k := range vs.nodeProbe {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		p := vs.nodeProbe[k]
		total, missed, multi, noexit := 0, 0, 0, p.nesting+len(p.stack)
		first := ""
		var walk func(n *ast.Node) bool
		walk = func(n *ast.Node) bool {
			total++
			e, x := p.enter[n], p.exit[n]
			if e == 0 {
				missed++
			}
			if e > 1 {
				multi++
			}
			if e != x {
				noexit++
			}
			if n.Kind == ast.KindArrayLiteralExpression || n.Kind == ast.KindObjectLiteralExpression {
				got, want := p.pattern[n], vsimIsPattern(n)
				if got != 101 && got != 101000 || want == 1 && got != 101 || want == 0 && got != 101000 {
					noexit++
				}
			}
			if first == "" && missed+multi+noexit > 0 {
				first = n.Kind.String() + "@" + strconv.Itoa(n.Pos())
			}
			n.ForEachChild(walk)
			return false
		}
		p.file.Node.ForEachChild(walk)
		vsimLog('N', k+"\t"+strconv.Itoa(total)+"\t"+strconv.Itoa(missed)+"\t"+strconv.Itoa(multi)+"\t"+strconv.Itoa(noexit)+"\t"+first)
	}
}
