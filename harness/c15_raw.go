// C15: raw text: delimiters, language tag, lines, dedent and trimming.
package PKG

import (
	"fmt"
	"strings"
	"unicode"
)

type c15Part struct {
	kind SyntaxKind
	text string
}

func c15Newline(c rune) bool {
	return c == '\n' || c == '\v' || c == '\f' || c == '\r' || c == 0x85 || c == 0x2028 || c == 0x2029
}

// c15Raw splits the raw element at the start of s. rest is what follows it;
// ok is false if it is not closed.
func c15Raw(s []rune) (parts []c15Part, rest []rune, ok bool) {
	n := 0
	for n < len(s) && s[n] == '`' {
		n++
	}
	delim := strings.Repeat("`", n)
	if n == 2 {
		return []c15Part{{SyntaxKindRawDelim, "`"}, {SyntaxKindRawDelim, "`"}}, s[2:], true
	}
	end := -1
	for i := n; i+n <= len(s) && end < 0; i++ {
		if string(s[i:i+n]) == delim {
			end = i
		}
	}
	if end < 0 {
		return nil, nil, false
	}
	b, rest := s[n:end], s[end+n:]
	parts = append(parts, c15Part{SyntaxKindRawDelim, delim})
	type span struct{ a, b int } // line without its newline
	pos := 0
	if n >= 3 && len(b) > 0 && (b[0] == '_' || unicode.IsLetter(b[0])) {
		for pos < len(b) && (b[pos] == '_' || b[pos] == '-' || unicode.IsLetter(b[pos]) || unicode.IsDigit(b[pos])) {
			pos++
		}
		parts = append(parts, c15Part{SyntaxKindRawLang, string(b[:pos])})
	}
	var lines []span
	start := pos
	for i := pos; i < len(b); i++ {
		if !c15Newline(b[i]) {
			continue
		}
		lines = append(lines, span{start, i})
		if b[i] == '\r' && i+1 < len(b) && b[i+1] == '\n' {
			i++
		}
		start = i + 1
	}
	lines = append(lines, span{start, len(b)})
	blank := func(l span) bool { return strings.TrimSpace(string(b[l.a:l.b])) == "" }
	indent := func(l span) int {
		k := l.a
		for k < l.b && unicode.IsSpace(b[k]) {
			k++
		}
		return k - l.a
	}
	if n >= 3 {
		dedent := 1 << 30
		for i, l := range lines {
			if i == len(lines)-1 || i > 0 && !blank(l) {
				dedent = min(dedent, indent(l))
			}
		}
		var kept []span
		for i, l := range lines {
			last := i == len(lines)-1
			switch {
			case (i == 0 || last) && blank(l):
				continue
			case i == 0:
				if b[l.a] == ' ' {
					l.a++
				}
			default:
				l.a = min(l.b, l.a+dedent)
			}
			if last && strings.HasSuffix(strings.TrimSpace(string(b[l.a:l.b])), "`") && b[l.b-1] == ' ' {
				l.b--
			}
			kept = append(kept, l)
		}
		lines = kept
	}
	for _, l := range lines {
		if l.a > pos {
			parts = append(parts, c15Part{SyntaxKindRawTrimmed, string(b[pos:l.a])})
		}
		parts = append(parts, c15Part{SyntaxKindText, string(b[l.a:l.b])})
		pos = l.b
	}
	if pos < len(b) {
		parts = append(parts, c15Part{SyntaxKindRawTrimmed, string(b[pos:])})
	}
	return append(parts, c15Part{SyntaxKindRawDelim, delim}), rest, true
}

var c15Wraps = [][2]string{{"", ""}, {"x ", " y"}, {"#{", "}"}, {"- a\n  ", "\n"}, {"#f(", ")"}}

// Case: wrap digit + raw element (opening backticks and all that follows).
func c15Check(r *vfRun, c string) error {
	w := c15Wraps[c[0]-'0']
	el := c[1:]
	want, rest, ok := c15Raw([]rune(el))
	if ok && len(rest) > 0 {
		r.Count("closed early", 1)
		el = el[:len(el)-len(string(rest))]
	}
	text := w[0] + el + w[1]
	if !ok {
		// The wrapper's tail belongs to the text as well.
		text = w[0] + el
	}
	root := Parse(text)
	r.Transitions++
	// The node at the element's offset that starts with a backtick.
	var found *SyntaxNode
	var walk func(n *SyntaxNode, off int) int
	walk = func(n *SyntaxNode, off int) int {
		switch x := n.Repr.(type) {
		case *LeafNode:
			return off + len(x.Text)
		case *ErrorNode:
			if off == len(w[0]) && strings.HasPrefix(x.Text, "`") {
				found = n
			}
			return off + len(x.Text)
		case *InnerNode:
			if x.Kind == SyntaxKindRaw && off == len(w[0]) {
				found = n
			}
			for _, k := range x.Children {
				off = walk(k, off)
			}
		}
		return off
	}
	walk(root, 0)
	if found == nil {
		return fmt.Errorf("no raw element at %d in %q: %s", len(w[0]), text, vfKinds(root))
	}
	r.Validated++
	if e, bad := found.Repr.(*ErrorNode); bad || !ok {
		if bad == ok || e.Text != el {
			return fmt.Errorf("raw element %q in %q: closed is %v, parsed as %s", el, text, ok, vfDump(found))
		}
		if !strings.Contains(e.Error.Message, "unclosed") {
			return fmt.Errorf("unclosed raw element %q reports %q", el, e.Error.Message)
		}
		return nil
	}
	var got []c15Part
	for _, k := range found.Repr.(*InnerNode).Children {
		l, leaf := k.Repr.(*LeafNode)
		if !leaf {
			return fmt.Errorf("raw element %q contains %s", el, vfDump(k))
		}
		got = append(got, c15Part{l.Kind, l.Text})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
		return fmt.Errorf("raw element %q splits into %q, want %q", el, got, want)
	}
	r.Outcome(fmt.Sprint(got))
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c15Check, Gen: func(r *vfRun) {
		one := func(n int, body string) {
			d := strings.Repeat("`", n)
			for w := range c15Wraps {
				if w > 1 && len(body) > 4 && !r.Thorough {
					break
				}
				r.Emit(string(rune('0'+w)) + d + body + d)
				r.Emit(string(rune('0'+w)) + d + body)
			}
		}
		k := func(q, t int) int {
			if r.Thorough {
				return t
			}
			return q
		}
		full := []string{"a", "1", "-", "_", " ", "\t", "\n", "\r", "\u2028", "`", "é", "\u00a0", "\\", "#"}
		for _, n := range []int{1, 2, 3, 4} {
			vfWords(full, 0, k(4, 5), "", func(s string) { one(n, s) })
			r.Bound(vfB("contents, %d backticks", n), vfB("all strings over %d characters up to length %d, closed and unclosed, %d contexts", len(full), k(4, 5), len(c15Wraps)))
			small := []string{"a", " ", "\n", "`"}
			vfWords(small, 5, k(8, 10), "", func(s string) { one(n, s) })
			r.Bound(vfB("lines, %d backticks", n), vfB("all strings over 4 characters up to length %d", k(8, 10)))
		}
		for bit := 3; bit <= k(10, 12); bit++ {
			for n := 1<<bit - 1; n <= 1<<bit+1; n++ {
				for _, u := range []string{"a", " ", "\n", "a\n", " \n", "\r\n", "`a", " a\n", "é", "\u2028"} {
					body := strings.Repeat(u, n)
					one(1, body)
					one(3, body)
					one(3, "\n"+body)
					one(3, "\n"+strings.Repeat(" ", n)+u)
					one(3, "\n"+strings.Repeat(" ", n)+"a\n "+strings.Repeat(" ", n)+u)
				}
				one(n, "a")
				one(n, "py\n  b\n a\n")
				one(n, " a"+strings.Repeat("`", n-1)+" ")
			}
		}
		r.Bound("sizes", vfB("lines, indents, languages and delimiters of every length within one of the powers of two up to %d", 1<<k(10, 12)))
		lines := []string{"", " ", "  ", "a", " a", "  a ", "\ta", "   ", " `", " ` ", "é  b"}
		for _, head := range []string{"", "py", "py ", " ", " x", "  "} {
			vfWords(lines, 1, k(4, 5), "\n", func(s string) { one(3, head+"\n"+s) })
			vfWords(lines, 1, 3, "\r\n", func(s string) { one(4, head+"\r\n"+s) })
		}
		r.Bound("blocks", vfB("all blocks of up to %d of %d line forms behind 6 first lines", k(4, 5), len(lines)))
	}}
}
