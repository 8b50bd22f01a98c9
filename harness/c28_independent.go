// C28: separate texts, trees and sources never affect each other, one after
// another or at the same time.
package PKG

import (
	"fmt"
	"strconv"
	"strings"
)

var (
	iTexts = []string{
		"= a *b*\n- c #f(x, y: 1)[d]", "#{let (a, b) = (1, 2)\n(a)=>b}", "a #[b", "#((a) = (b))((c) => d)", "```typ a\n b\n```\"q\"",
		"#if a {b} else [c]\n/ t: d", "#import \"x.typ\": (a as b)", "1. x\n @r[s] <l> https://a.b", "(a: 1,)", "x not in -y.z",
		"#show x: it => [a]", "/*c*/ ~ \\u{41} --", "}", "\"s",
		"a */ b ]", "#f (x) #{<l>} #0x", "#let a, b = 1\n#for a, b in c {}", "`r", "#(1, a: 2, ..b, _)", "#if a {} ;#while b {} x",
		"a *c*", "a `c`", "#a(b)", "#a[b]", "#{ b}",
	}
	iUnits = []string{"a", "*", "_", "#", "let ", "(", ")", "[", "]", "$", "\n", "- ", "`", "*/", "\"", "if ", ",", "1x"}
	iVers = []string{"1.2.3", "1.2", "x"}
)

// An op is a letter and a number; its result is a text to compare and the
// trees it leaves behind.
type iRes struct {
	show string
	see  func() string // what the result shows now
}

func iDo(op string) iRes {
	k, _ := strconv.Atoi(op[1:])
	tree := func(n *SyntaxNode) iRes {
		see := func() string { return vfDump(n) }
		return iRes{see(), see}
	}
	switch op[0] {
	case 'P':
		return tree(Parse(iTexts[k]))
	case 'C':
		return tree(parse_code(iTexts[k]))
	case 'E', 'R': // edit in the middle, then at the end; or replace
		src := vfSource(iTexts[k])
		var log string
		if op[0] == 'E' {
			n := len(iTexts[k]) / 2
			log += fmt.Sprint(src.Edit(vfRng(n, n), "z"))
			log += fmt.Sprint(src.Edit(vfRng(len(src.Text()), len(src.Text())), "\n= y"))
		} else {
			log += fmt.Sprint(src.Replace(iTexts[(k+1)%len(iTexts)]))
		}
		see := func() string {
			s := log + src.Text() + vfDump(src.Root)
			for i := 0; i <= len(src.Text()); i += 3 {
				line, ok := src.Lines.ByteToLine(uint(i))
				s += fmt.Sprint(line, ok)
			}
			walk := NewLinkedNode(src.Root)
			for l, ok := walk.leftmost_leaf(); ok && len(s) < 1<<16; l, ok = l.next_leaf() {
				s += fmt.Sprint(l.Range(), l.get().span())
			}
			return s
		}
		return iRes{see(), see}
	case 'H':
		n := Parse(iTexts[k])
		see := func() string { return highlight_html(n) }
		return iRes{see(), see}
	case 'K':
		spec, err := ParsePackageSpec("@preview/a:" + iVers[k])
		see := func() string { return fmt.Sprint(spec, err) }
		return iRes{see(), see}
	case 'L':
		l := NewLines(iTexts[k])
		l.Edit(vfRng(1, 1), "\né")
		see := func() string {
			a, ok := l.ByteToColumn(uint(len(l.Text)))
			return l.Text + fmt.Sprint(l.LenLines(), l.LenUtf16(), a, ok)
		}
		return iRes{see(), see}
	case 'X': // errors and their spans
		n := Parse(iTexts[k])
		see := func() string {
			s := ""
			for _, e := range n.errors() {
				s += fmt.Sprint(e.Message, e.Hints)
			}
			return s
		}
		return iRes{see(), see}
	}
	panic("op " + op)
}

// iScribble overwrites everything a tree consists of, in place and by
// appending.
func iScribble(n *SyntaxNode) {
	switch x := n.Repr.(type) {
	case *LeafNode:
		x.Kind, x.Text, x.Span = SyntaxKindDots, "?", NewDetachedSpan()
	case *ErrorNode:
		iSpoil(x.Error)
		x.Text = "?"
	case *InnerNode:
		for _, c := range x.Children {
			iScribble(c)
		}
		x.Kind, x.Len, x.Descendants, x.Erroneous, x.Upper = SyntaxKindDots, 9, 9, !x.Erroneous, 9
		_ = append(x.Children, NewLeaf(SyntaxKindDots, "!"))
		for i := range x.Children {
			x.Children[i] = NewLeaf(SyntaxKindDots, "!")
		}
	}
}

func iSpoil(e *SyntaxError) {
	_ = append(e.Hints, "!")
	for i := range e.Hints {
		e.Hints[i] = "?"
	}
	e.Message, e.Hints = "?", append(e.Hints, "?")
	e.Span = NewDetachedSpan()
}

func iEach(n *SyntaxNode, f func(*SyntaxNode)) {
	f(n)
	for _, c := range n.children() {
		iEach(c, f)
	}
}

// iCopies checks that a copy and its original, and what errors() gives and the
// tree, are independent.
func iCopies(r *vfRun, text string, edited bool) error {
	made := func() *SyntaxNode {
		src := vfSource(text)
		if edited {
			src.Edit(vfRng(0, 0), "a\n")
		}
		return src.Root
	}
	whole := func(n *SyntaxNode) string {
		s := vfDump(n)
		iEach(n, func(n *SyntaxNode) { s += fmt.Sprint(n.span(), n.upper(), n.descendants(), n.erroneous(), n.len()) })
		return s
	}
	n := made()
	want := whole(n)
	for k := 0; k < 3; k++ {
		r.Transitions++
		n := made()
		c := n.clone()
		switch kept := n; k {
		case 0: // the copy is overwritten
			iScribble(c)
			if got := whole(kept); got != want {
				return fmt.Errorf("overwriting a copy of the tree of %q changed the tree from\n%s\nto\n%s", text, want, got)
			}
		case 1: // the original is overwritten
			iScribble(n)
			if got := whole(c); got != want {
				return fmt.Errorf("overwriting the tree of %q changed its copy from\n%s\nto\n%s", text, want, got)
			}
		case 2: // the errors are overwritten
			for _, e := range n.errors() {
				iSpoil(e)
			}
			if got := whole(kept); got != want {
				return fmt.Errorf("overwriting the errors of %q changed the tree from\n%s\nto\n%s", text, want, got)
			}
		}
	}
	// Every part on its own.
	var parts []*SyntaxNode
	iEach(n, func(x *SyntaxNode) { parts = append(parts, x.clone()) })
	for _, p := range parts {
		iScribble(p)
		r.Transitions++
	}
	if got := whole(n); got != want {
		return fmt.Errorf("overwriting copies of the nodes of %q changed the tree from\n%s\nto\n%s", text, want, got)
	}
	r.Validated++
	return nil
}

var iAlone = map[string]string{}

func iWant(op string) string {
	w, ok := iAlone[op]
	if !ok {
		w = iDo(op).show
		iAlone[op] = w
	}
	return w
}

func c28Check(r *vfRun, c string) error {
	vfSource("") // the file id exists before
	if text, ok := strings.CutPrefix(c, "\x01"); ok {
		return iCopies(r, text, false)
	}
	if text, ok := strings.CutPrefix(c, "\x02"); ok {
		return iCopies(r, text, true)
	}
	scenario, schedule, isSched := strings.Cut(c, "\x00")
	if !isSched {
		var rs []iRes
		ops := strings.Fields(scenario)
		for i, op := range ops {
			rs = append(rs, iDo(op))
			r.Transitions++
			for j := 0; j <= i; j++ {
				if got := rs[j].see(); got != iWant(ops[j]) {
					return fmt.Errorf("after %v the result of %s (number %d) is\n%s\nalone it is\n%s", ops[:i+1], ops[j], j, got, iWant(ops[j]))
				}
			}
		}
		r.Validated++
		return nil
	}
	parts := strings.Split(scenario, "|")
	r.Outcome(scenario)
	res := make([][]iRes, len(parts))
	var bodies []func()
	for t, p := range parts {
		for _, op := range strings.Fields(p) {
			iWant(op)
		}
		bodies = append(bodies, func() {
			for _, op := range strings.Fields(p) {
				res[t] = append(res[t], iDo(op))
			}
		})
	}
	if err := sRun(schedule, bodies); err != nil {
		return fmt.Errorf("goroutines %q: %v", scenario, err)
	}
	for t, p := range parts {
		for i, op := range strings.Fields(p) {
			for k, got := range []string{res[t][i].show, res[t][i].see()} {
				if got != iWant(op) {
					return fmt.Errorf("goroutines %q: the result of %s is\n%s\nalone it is\n%s\n(time %d) schedule %s", scenario, op, got, iWant(op), k, sShow(sTrace))
				}
			}
		}
	}
	r.Validated++
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c28Check, Gen: func(r *vfRun) {
		var ops []string
		for i := range iTexts {
			for _, o := range "PCERHX" {
				ops = append(ops, vfB("%c%d", o, i))
			}
		}
		for i := range iVers {
			ops = append(ops, vfB("K%d", i))
		}
		ops = append(ops, "L0", "L1", "L7")
		vfWords(ops, 1, 2, " ", r.Emit)
		few := []string{"P0", "P1", "C3", "E0", "E2", "R1", "H0", "X2", "K0", "P3", "C4", "L1"}
		n := 3
		if r.Thorough {
			n = 5
		}
		vfWords(few, 3, n, " ", r.Emit)
		r.Bound("histories", vfB("all pairs of %d operations and all sequences of up to %d of %d, every earlier result looked at again after each", len(ops), n, len(few)))
		copies, depth := 0, 3
		if r.Thorough {
			depth = 4
		}
		for _, mark := range []string{"\x01", "\x02"} {
			for _, t := range iTexts {
				r.Emit(mark + t)
			}
			vfWords(iUnits, 0, depth, "", func(w string) { copies++; r.Emit(mark + w) })
			vfWords(iUnits, 1, 2, "", func(w string) { copies++; r.Emit(mark + "#{" + w + "}") })
		}
		r.Bound("copies", vfB("%d trees, fresh and edited: the copy, the original, the reported errors and copies of every node overwritten", copies))
		// One preemption anywhere for pairs.
		var pairs []string
		both := few
		if r.Thorough {
			both = ops
		}
		for _, a := range both {
			for _, b := range both {
				pairs = append(pairs, a+"|"+b)
			}
		}
		for i := range iTexts {
			pairs = append(pairs, vfB("P%d|P%d", i, i), vfB("P%d|X%d", i, (i+1)%len(iTexts)), vfB("E%d|E%d", i, i))
		}
		for _, p := range pairs {
			if r.Mine() {
				sExploreHere(r, p, 1)
			}
		}
		r.Bound("schedules", vfB("%d pairs of operations in two goroutines, one preemption at every function entry and every access to a package variable", len(pairs)))
	}}
}
