// C31: an edit reparses around itself and leaves the rest of the tree alone.
package PKG

import (
	"fmt"
	"strings"
)

// Trees nested deeper may have used up the free span numbers of a place, so
// that neighbours have to be numbered anew.
const vfFreeDepth = 20

func vfProperty() vfProp {
	small := []string{"", "a", "\n", "#", "[", "]", "*", "`", "= "}
	units := []string{"a\n\n", "b c\n", "*b* ab ", "#f(x) ab ", "- a\n  b\n", "= h\n\nd\n\n", "`r` $x$ ", "#{a; [b]} \n"}
	// long puts a text between many copies of a unit.
	long := func(u, t string, k int, at string, e vfEdit) string {
		x := strings.Repeat(u, k)
		pre, post := x, "\n\n"+x
		switch at {
		case "start":
			pre = ""
		case "end":
			post = ""
		case "block":
			pre, post = "x #["+x, "\n\n"+x+"] y"
		}
		return vfEnc(pre+t+post, vfEdit{e.s + len(pre), e.e + len(pre), e.with})
	}
	return vfProp{
		Gen: func(r *vfRun) {
			n := 2
			if r.Thorough {
				n = 3
			}
			vfWords(vfMarkupTokens, 0, n, "", func(t string) {
				if r.Mine() {
					vfEdits(t, 2, vfInserts, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				}
			})
			if !r.Thorough {
				vfWords(vfMarkupTokens, 3, 3, "", func(t string) {
					if r.Mine() {
						vfEdits(t, 1, []string{"", "a", "\n", "]"}, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
					}
				})
			}
			r.Bound("words", vfB("all words over %d tokens up to length %d, every edit of at most 2 characters by %d inserts; of length 3, every edit of at most 1 character", len(vfMarkupTokens), n, len(vfInserts)))
			for _, t := range vfDocs {
				vfEdits(t, 99, vfInserts, func(e vfEdit) {
					if r.Mine() {
						r.Exec(vfEnc(t, e))
					}
				})
			}
			m := 10
			if r.Thorough {
				m = 18
			}
			for _, t := range vfDocs {
				if len(t) > m {
					continue
				}
				vfEdits(t, 1, small, func(e vfEdit) {
					if r.Mine() {
						vfEdits(vfApply(t, e), 1, small, func(e2 vfEdit) { r.Exec(vfEnc(t, e, e2)) })
					}
				})
			}
			r.Bound("documents", vfB("%d documents: every edit; every two edits of at most 1 character of those up to %d bytes", len(vfDocs), m))
			// the place of the edit in a long text
			k, max, ins := 30, 1, []string{"", "a", "\n", "\n\n", "#", "[", "]", "*", "`", "/*", "= ", "#[b]", "$", "\\"}
			us := units[:4]
			if r.Thorough {
				us, ins = units, vfInserts
			}
			for _, u := range us {
				for _, at := range []string{"middle", "start", "end", "block"} {
					vfWords(vfMarkupTokens, 0, 2, "", func(t string) {
						if r.Mine() {
							vfEdits(t, max, ins, func(e vfEdit) { r.Exec(long(u, t, k, at, e)) })
						}
					})
				}
			}
			for _, u := range units {
				for _, at := range []string{"middle", "start", "end", "block"} {
					for _, t := range vfDocs {
						if r.Mine() {
							vfEdits(t, 1, []string{"", "a", "\n", "#", "*"}, func(e vfEdit) { r.Exec(long(u, t, k, at, e)) })
						}
					}
				}
			}
			r.Bound("long texts", vfB("every word of up to 2 tokens in the middle, at the start, at the end and in a block of %d copies of %d units, every edit of at most 1 character by %d inserts; every document there with 5 inserts", k, len(us), len(ins)))
			vfSizeEdits(r, 7, 7, []string{"", "a", "\n"}, r.Exec)
		},
		Check: func(r *vfRun, c string) error {
			text, eds := vfDec(c)
			src := vfSource(text)
			for i, e := range eds {
				old := src.Root.clone()
				want := vfApply(text, e)
				got := src.Edit(vfRng(e.s, e.e), e.with)
				what := fmt.Sprintf("edit %d of %q (replace %d..%d by %q)", i, text, e.s, e.e, e.with)
				if err := vfLocal(r, old, src.Root, text, want, e, got.Start, got.End, what); err != nil {
					return err
				}
				text = want
			}
			r.Outcome(text)
			return nil
		},
	}
}

func vfDepth(ns []vfNode) int {
	var open []uint64
	m := 0
	for _, n := range ns {
		for len(open) > 0 && open[len(open)-1] <= n.start {
			open = open[:len(open)-1]
		}
		open = append(open, n.end)
		m = max(m, len(open))
	}
	return m
}

// vfLocal judges one edit: s..t is the range of the new text it reports.
func vfLocal(r *vfRun, oldRoot, nowRoot *SyntaxNode, text, want string, e vfEdit, s, t uint64, what string) error {
	if err := vfProportion(r, oldRoot, nowRoot, text, e, s, t, what); err != nil {
		return err
	}
	old, now := vfCollect(oldRoot), vfCollect(nowRoot)
	r.Transitions += uint64(len(now))
	if vfDepth(old) > vfFreeDepth || vfDepth(now) > vfFreeDepth {
		r.Count("deep", 1)
		return nil
	}
	shift := uint64(len(want)) - uint64(len(text))
	// a block that stays well-formed is all that is parsed
	for _, n := range old {
		if !n.kind.IsBlock() || !(n.start < uint64(e.s) && n.end > uint64(e.e)) {
			continue
		}
		w := want[n.start : n.end+shift]
		root := Parse("#" + w)
		ch := root.children()
		if root.erroneous() || len(ch) != 2 || ch[1].kind() != n.kind || ch[1].len() != uint(len(w)) {
			continue
		}
		if s < n.start || t > n.end+shift {
			return fmt.Errorf("%s: the edit leaves the block %q well-formed, and yet %d..%d was reparsed", what, w, s, t)
		}
		r.Validated++
	}
	// nodes outside the range are the ones there were
	pick := func(ns []vfNode, f func(n vfNode) bool) []vfNode {
		var out []vfNode
		for _, n := range ns {
			if n.end > n.start && f(n) {
				out = append(out, n)
			}
		}
		return out
	}
	same := func(a, b []vfNode, d uint64, where string) error {
		if len(a) != len(b) {
			return fmt.Errorf("%s: %d nodes %s the reparsed range %d..%d were %d nodes", what, len(b), where, s, t, len(a))
		}
		for i := range a {
			if a[i].kind != b[i].kind || a[i].span != b[i].span || a[i].start+d != b[i].start {
				return fmt.Errorf("%s: node %v at %d %s the reparsed range %d..%d has span %d, and was a %v with span %d", what, b[i].kind, b[i].start, where, s, t, b[i].span.Number(), a[i].kind, a[i].span.Number())
			}
		}
		r.Validated += uint64(len(a))
		return nil
	}
	ot := t - shift
	before := func(n vfNode) bool { return n.end <= s }
	if err := same(pick(old, before), pick(now, before), 0, "before"); err != nil {
		return err
	}
	if err := same(pick(old, func(n vfNode) bool { return n.start >= ot }), pick(now, func(n vfNode) bool { return n.start >= t }), shift, "behind"); err != nil {
		return err
	}
	return same(pick(old, func(n vfNode) bool { return n.start < s && n.end > ot }), pick(now, func(n vfNode) bool { return n.start < s && n.end > t }), 0, "around")
}

// vfProportion checks that the number of nodes reparsed is in proportion to
// the nodes that changed. Trivia, errors and separators, which are never parsed
// apart from their neighbours, do not count. Square brackets that are plain text or stray are
// left out: what they nest depends on everything behind them.
func vfProportion(r *vfRun, old, now *SyntaxNode, text string, e vfEdit, s, t uint64, what string) error {
	off := 0
	a, b := old.children(), now.children()
	// the wrapped long texts: x #[...] y
	if strings.HasPrefix(text, "x #[") && len(a) > 3 && len(b) > 3 {
		if !old.erroneous() && !now.erroneous() && e.s > 4 && e.e < 2+int(a[3].len()) { // strictly within the markup
			ca, cb := a[3].children(), b[3].children()
			if len(ca) == 3 && len(cb) == 3 && ca[1].kind() == SyntaxKindMarkup && cb[1].kind() == SyntaxKindMarkup {
				off, a, b = 4, ca[1].children(), cb[1].children()
			}
		}
	}
	for _, c := range append(append([]*SyntaxNode{}, a...), b...) {
		txt := c.text()
		if x, ok := c.Repr.(*ErrorNode); ok {
			txt = x.Text
		}
		if txt == "[" || txt == "]" {
			r.Count("bracket", 1)
			return nil
		}
	}
	size := func(ns []*SyntaxNode) int {
		n := 0
		for _, c := range ns {
			n += int(c.len())
		}
		return n
	}
	p, q := 0, 0
	at, end := off, off+size(a)
	for p < len(a) && p < len(b) && at+int(a[p].len()) <= e.s && a[p].spanless_eq(b[p]) {
		at += int(a[p].len())
		p++
	}
	for q < len(a)-p && q < len(b)-p && end-int(a[len(a)-1-q].len()) >= e.e && a[len(a)-1-q].spanless_eq(b[len(b)-1-q]) {
		end -= int(a[len(a)-1-q].len())
		q++
	}
	for _, c := range append(append([]*SyntaxNode{}, a[p:len(a)-q]...), b[p:len(b)-q]...) {
		if c.erroneous() && strings.ContainsAny(c.into_text(), "[](){}") {
			r.Count("bracket", 1)
			return nil
		}
	}
	d := max(len(a)-p-q, len(b)-p-q)
	n := 0
	pos := uint64(off)
	for _, c := range b {
		if pos >= s && pos < t && !c.kind().IsTrivia() && !c.kind().IsError() && c.kind() != SyntaxKindSemicolon && c.text() != "/" && c.text() != ":" {
			n++
		}
		pos += uint64(c.len())
	}
	r.Validated++
	if n > 3*d+12 {
		return fmt.Errorf("%s: the edit changes %d of %d expressions, and %d..%d with %d of them was reparsed", what, d, len(b), s, t, n)
	}
	return nil
}
