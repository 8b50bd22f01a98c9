// C17: highlighting to HTML.
package PKG

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
)

// The classes of kinds whose highlighting does not depend on the context.
var c17Class = map[SyntaxKind]string{}

func init() {
	for cl, ks := range map[string][]SyntaxKind{
		"typ-comment": {SyntaxKindShebang, SyntaxKindLineComment, SyntaxKindBlockComment},
		"typ-punct": {SyntaxKindLeftBrace, SyntaxKindRightBrace, SyntaxKindLeftBracket, SyntaxKindRightBracket, SyntaxKindLeftParen,
			SyntaxKindRightParen, SyntaxKindComma, SyntaxKindSemicolon, SyntaxKindColon, SyntaxKindDot},
		"typ-escape":     {SyntaxKindEscape, SyntaxKindShorthand, SyntaxKindLinebreak, SyntaxKindMathShorthand},
		"typ-strong":     {SyntaxKindStrong},
		"typ-emph":       {SyntaxKindEmph},
		"typ-link":       {SyntaxKindLink},
		"typ-raw":        {SyntaxKindRaw},
		"typ-label":      {SyntaxKindLabel},
		"typ-ref":        {SyntaxKindRef},
		"typ-heading":    {SyntaxKindHeading},
		"typ-marker":     {SyntaxKindListMarker, SyntaxKindEnumMarker, SyntaxKindTermMarker},
		"typ-math-delim": {SyntaxKindDollar},
		"typ-math-op":    {SyntaxKindMathAlignPoint, SyntaxKindHat, SyntaxKindPrime, SyntaxKindRoot},
		"typ-key": {SyntaxKindNot, SyntaxKindAnd, SyntaxKindOr, SyntaxKindNone, SyntaxKindAuto, SyntaxKindBool, SyntaxKindLet, SyntaxKindSet,
			SyntaxKindShow, SyntaxKindContext, SyntaxKindIf, SyntaxKindElse, SyntaxKindFor, SyntaxKindIn, SyntaxKindWhile, SyntaxKindBreak,
			SyntaxKindContinue, SyntaxKindReturn, SyntaxKindImport, SyntaxKindInclude, SyntaxKindAs},
		"typ-op": {SyntaxKindPlus, SyntaxKindMinus, SyntaxKindEqEq, SyntaxKindExclEq, SyntaxKindLt, SyntaxKindLtEq, SyntaxKindGt, SyntaxKindGtEq,
			SyntaxKindPlusEq, SyntaxKindHyphEq, SyntaxKindStarEq, SyntaxKindSlashEq, SyntaxKindDots, SyntaxKindArrow},
		"typ-num": {SyntaxKindInt, SyntaxKindFloat, SyntaxKindNumeric},
		"typ-str": {SyntaxKindStr},
	} {
		for _, k := range ks {
			c17Class[k] = cl
		}
	}
}

// The kinds of expressions a hash can introduce.
var c17Hash = map[SyntaxKind]bool{SyntaxKindIdent: true, SyntaxKindNone: true, SyntaxKindAuto: true, SyntaxKindBool: true, SyntaxKindInt: true,
	SyntaxKindFloat: true, SyntaxKindNumeric: true, SyntaxKindStr: true, SyntaxKindCodeBlock: true, SyntaxKindContentBlock: true, SyntaxKindArray: true,
	SyntaxKindDict: true, SyntaxKindParenthesized: true, SyntaxKindFieldAccess: true, SyntaxKindFuncCall: true, SyntaxKindLetBinding: true,
	SyntaxKindSetRule: true, SyntaxKindShowRule: true, SyntaxKindContextual: true, SyntaxKindConditional: true, SyntaxKindWhileLoop: true,
	SyntaxKindForLoop: true, SyntaxKindModuleImport: true, SyntaxKindModuleInclude: true, SyntaxKindLoopBreak: true, SyntaxKindLoopContinue: true,
	SyntaxKindFuncReturn: true}

type c17Node struct {
	kind         SyntaxKind
	text         string
	parent       int
	start, end   int
	last         int // one past the subtree
	leaf, trivia bool
	kids         []int
}

type c17Tree []c17Node

func c17List(root *SyntaxNode) c17Tree {
	var out c17Tree
	var walk func(n *SyntaxNode, parent, off int) int
	walk = func(n *SyntaxNode, parent, off int) int {
		i := len(out)
		out = append(out, c17Node{parent: parent, start: off})
		end := off
		switch x := n.Repr.(type) {
		case *LeafNode:
			out[i].kind, out[i].text, out[i].leaf = x.Kind, x.Text, true
			end += len(x.Text)
		case *ErrorNode:
			out[i].kind, out[i].text = SyntaxKindError, x.Text
			end += len(x.Text)
		case *InnerNode:
			out[i].kind = x.Kind
			for _, c := range x.Children {
				out[i].kids = append(out[i].kids, len(out))
				end = walk(c, i, end)
			}
		}
		switch out[i].kind {
		case SyntaxKindShebang, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindSpace, SyntaxKindParbreak:
			out[i].trivia = true
		}
		out[i].end, out[i].last = end, len(out)
		return end
	}
	walk(root, -1, 0)
	return out
}

func (t c17Tree) pk(i int) SyntaxKind { // kind of the parent
	if p := t[i].parent; p >= 0 {
		return t[p].kind
	}
	return 0
}

func (t c17Tree) next(i int) int { // next sibling that is no trivia
	p := t[i].parent
	if p < 0 {
		return -1
	}
	for _, k := range t[p].kids {
		if k > i && !t[k].trivia {
			return k
		}
	}
	return -1
}

// significant: a leaf that is no trivia; trivia subtrees do not occur.
func (t c17Tree) leafAfter(i int) int {
	for j := t[i].last; j < len(t); j++ {
		if t[j].leaf && !t[j].trivia {
			return j
		}
	}
	return -1
}

func (t c17Tree) leafBefore(i int) int {
	for j := i - 1; j >= 0; j-- {
		if t[j].leaf && !t[j].trivia {
			return j
		}
	}
	return -1
}

func (t c17Tree) class(i int) string {
	n := t[i]
	pk := t.pk(i)
	switch n.kind {
	case SyntaxKindMarkup:
		if nx := t.next(i); pk == SyntaxKindTermItem && nx >= 0 && t[nx].kind == SyntaxKindColon {
			return "typ-term"
		}
		return ""
	case SyntaxKindStar:
		if pk == SyntaxKindStrong {
			return ""
		}
		return "typ-op"
	case SyntaxKindUnderscore:
		if pk == SyntaxKindMathAttach {
			return "typ-math-op"
		}
		return ""
	case SyntaxKindSlash:
		if pk == SyntaxKindMathFrac {
			return "typ-math-op"
		}
		return "typ-op"
	case SyntaxKindEq:
		if pk == SyntaxKindHeading {
			return ""
		}
		return "typ-op"
	case SyntaxKindHash:
		nx := t.next(i)
		if nx < 0 || !c17Hash[t[nx].kind] {
			return ""
		}
		for j := nx; j < t[nx].last; j++ {
			if t[j].leaf && !t[j].trivia {
				return t.class(j)
			}
		}
		return ""
	case SyntaxKindIdent, SyntaxKindMathIdent:
		return t.ident(i)
	}
	return c17Class[n.kind]
}

func (t c17Tree) ident(i int) string {
	after, before := t.leafAfter(i), t.leafBefore(i)
	if after >= 0 && t[after].start == t[i].end {
		k, pk := t[after].kind, t.pk(after)
		if k == SyntaxKindLeftParen && (pk == SyntaxKindArgs || pk == SyntaxKindParams) || k == SyntaxKindLeftBracket && pk == SyntaxKindContentBlock {
			return "typ-func"
		}
	}
	if t[i].kind == SyntaxKindMathIdent {
		return "typ-pol"
	}
	anc := i
	for t.pk(anc) == SyntaxKindFieldAccess {
		anc = t[anc].parent
	}
	if t.pk(anc) == SyntaxKindShowRule && (after >= 0 && t[after].kind == SyntaxKindColon || before >= 0 && t[before].kind == SyntaxKindColon) {
		return "typ-func"
	}
	if b := t.leafBefore(anc); b >= 0 && t[b].kind == SyntaxKindHash {
		return "typ-pol"
	}
	if before >= 0 && t[before].kind == SyntaxKindDot {
		if bb := t.leafBefore(before); bb >= 0 && (t[bb].kind == SyntaxKindIdent || t[bb].kind == SyntaxKindMathIdent) {
			return t.ident(bb)
		}
	}
	return ""
}

var c17Esc = strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;", "'", "&#39;", "\"", "&quot;")

func (t c17Tree) html(i int, sb *strings.Builder) {
	cl := t.class(i)
	if cl != "" {
		sb.WriteString("<span class=\"" + cl + "\">")
	}
	sb.WriteString(c17Esc.Replace(t[i].text))
	for _, k := range t[i].kids {
		t.html(k, sb)
	}
	if cl != "" {
		sb.WriteString("</span>")
	}
}

// c17Strip removes the tags and resolves the entities.
func c17Strip(h string) string {
	var sb strings.Builder
	for len(h) > 0 {
		if h[0] == '<' {
			h = h[strings.IndexByte(h, '>')+1:]
			continue
		}
		if h[0] == '&' {
			j := strings.IndexByte(h, ';')
			sb.WriteString(map[string]string{"&lt": "<", "&gt": ">", "&amp": "&", "&#39": "'", "&quot": "\""}[h[:j]])
			h = h[j+1:]
			continue
		}
		sb.WriteByte(h[0])
		h = h[1:]
	}
	return sb.String()
}

func c17Leaf(k SyntaxKind, text string) *SyntaxNode {
	if k == SyntaxKindError {
		return NewError(NewSyntaxError("e"), text)
	}
	return NewLeaf(k, text)
}

func c17Inner(k SyntaxKind, kids ...*SyntaxNode) *SyntaxNode { return NewInner(k, kids) }

// Items of hand-made sequences.
var c17Items = []func() *SyntaxNode{
	func() *SyntaxNode { return c17Leaf(SyntaxKindIdent, "x") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindDot, ".") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindHash, "#") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindColon, ":") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindSpace, " ") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindBlockComment, "/**/") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindLeftParen, "(") },
	func() *SyntaxNode {
		return c17Inner(SyntaxKindArgs, c17Leaf(SyntaxKindLeftParen, "("), c17Leaf(SyntaxKindRightParen, ")"))
	},
	func() *SyntaxNode { return c17Inner(SyntaxKindParams, c17Leaf(SyntaxKindLeftParen, "(")) },
	func() *SyntaxNode { return c17Inner(SyntaxKindArray, c17Leaf(SyntaxKindLeftParen, "(")) },
	func() *SyntaxNode {
		return c17Inner(SyntaxKindContentBlock, c17Leaf(SyntaxKindLeftBracket, "["), c17Inner(SyntaxKindMarkup))
	},
	func() *SyntaxNode { return c17Inner(SyntaxKindMarkup, c17Leaf(SyntaxKindLeftBracket, "[")) },
	func() *SyntaxNode {
		return c17Inner(SyntaxKindFieldAccess, c17Leaf(SyntaxKindIdent, "a"), c17Leaf(SyntaxKindDot, "."), c17Leaf(SyntaxKindIdent, "b"))
	},
	func() *SyntaxNode { return c17Leaf(SyntaxKindMathIdent, "pi") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindError, "!") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindLet, "let") },
}

var c17Parents = []SyntaxKind{SyntaxKindMarkup, SyntaxKindCode, SyntaxKindShowRule, SyntaxKindFieldAccess, SyntaxKindFuncCall, SyntaxKindArgs, SyntaxKindTermItem}

// Leaves standing next to an identifier inside some other node.
var c17Next = []func() *SyntaxNode{
	func() *SyntaxNode { return c17Leaf(SyntaxKindLeftParen, "(") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindLeftBracket, "[") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindColon, ":") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindHash, "#") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindDot, ".") },
	func() *SyntaxNode { return c17Leaf(SyntaxKindIdent, "q") },
}

// Cases: "t"text; "k"parent.kind.form.next; "s"outer.parent.items...;
// "n"parent.ident.gap.kind.leaf.side
func c17Check(r *vfRun, c string) error {
	var root *SyntaxNode
	what := c
	if c[0] == 't' {
		root = Parse(c[1:])
		what = fmt.Sprintf("%q", c[1:])
	} else {
		var n []int
		for _, f := range strings.Split(c[1:], ".") {
			v, _ := strconv.Atoi(f)
			n = append(n, v)
		}
		if c[0] == 'k' {
			pk, k := SyntaxKind(n[0]), SyntaxKind(n[1])
			var nd *SyntaxNode
			if n[2] == 0 {
				nd = c17Leaf(k, "<k>&\"'é")
			} else {
				nd = c17Inner(k, c17Leaf(SyntaxKindText, "t"), c17Leaf(SyntaxKindStar, "*"))
			}
			kids := []*SyntaxNode{nd}
			switch n[3] {
			case 1:
				kids = append(kids, c17Leaf(SyntaxKindSpace, " "), c17Leaf(SyntaxKindColon, ":"))
			case 2:
				kids = append([]*SyntaxNode{c17Leaf(SyntaxKindHash, "#")}, kids...)
			case 3:
				kids = append([]*SyntaxNode{c17Leaf(SyntaxKindHash, "#"), c17Inner(pk, nd)}, c17Leaf(SyntaxKindText, "z"))
			}
			root = c17Inner(SyntaxKindMarkup, c17Inner(pk, kids...))
		} else if c[0] == 'n' {
			kids := []*SyntaxNode{c17Leaf([]SyntaxKind{SyntaxKindIdent, SyntaxKindMathIdent}[n[1]], "id")}
			switch n[2] {
			case 1:
				kids = append(kids, c17Leaf(SyntaxKindSpace, " "))
			case 2:
				kids = append(kids, c17Leaf(SyntaxKindBlockComment, "/**/"))
			}
			kids = append(kids, c17Inner(SyntaxKind(n[3]), c17Next[n[4]](), c17Leaf(SyntaxKindText, "t")))
			if n[5] == 1 {
				kids[len(kids)-1] = c17Inner(SyntaxKind(n[3]), c17Leaf(SyntaxKindText, "t"), c17Next[n[4]]())
				slices.Reverse(kids)
			}
			root = c17Inner(SyntaxKindMarkup, c17Inner(c17Parents[n[0]], kids...))
		} else {
			var kids []*SyntaxNode
			for _, v := range n[2:] {
				kids = append(kids, c17Items[v]())
			}
			root = c17Inner(c17Parents[n[0]], c17Inner(c17Parents[n[1]], kids...), c17Leaf(SyntaxKindText, "z"))
		}
		what += " " + vfKinds(root)
	}
	t := c17List(root)
	var sb strings.Builder
	sb.WriteString("<code>")
	t.html(0, &sb)
	sb.WriteString("</code>")
	got := highlight_html(root)
	r.Transitions += uint64(len(t))
	if got != sb.String() {
		return fmt.Errorf("%s is highlighted as\n%s\nwant\n%s", what, got, sb.String())
	}
	if c[0] == 't' && c17Strip(got) != c[1:] {
		return fmt.Errorf("%s loses text when highlighted: %q", what, got)
	}
	r.Validated++
	r.Outcome(got)
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c17Check, Gen: func(r *vfRun) {
		level := 1
		if r.Thorough {
			level = 2
		}
		vfTexts(r, level, func(s string) { r.Emit("t" + s) })
		// Every kind below every kind.
		last := int(SyntaxKindDestructAssignment)
		for p := 3; p <= last; p++ {
			for k := 2; k <= last; k++ {
				for form := 0; form < 2; form++ {
					if k == 2 && form == 1 {
						continue
					}
					for next := 0; next < 4; next++ {
						r.Emit(vfB("k%d.%d.%d.%d", p, k, form, next))
					}
				}
			}
		}
		r.Bound("kinds", vfB("all %d kinds as leaf and as inner node below all kinds, alone, before a colon, behind a hash, below a hash's expression", last-1))
		for o := range c17Parents {
			for id := 0; id < 2; id++ {
				for gap := 0; gap < 3; gap++ {
					for k := 3; k <= last; k++ {
						switch SyntaxKind(k) {
						case SyntaxKindShebang, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindSpace, SyntaxKindParbreak:
							continue // always leaves
						}
						for l := range c17Next {
							r.Emit(vfB("n%d.%d.%d.%d.%d.0", o, id, gap, k, l))
							r.Emit(vfB("n%d.%d.%d.%d.%d.1", o, id, gap, k, l))
						}
					}
				}
			}
		}
		r.Bound("neighbours of identifiers", vfB("both kinds of identifiers before and behind nodes of all kinds that begin or end with each of %d tokens, with 3 gaps, below %d kinds", len(c17Next), len(c17Parents)))
		n := 3
		if r.Thorough {
			n = 4
		}
		alpha := make([]string, len(c17Items))
		for i := range alpha {
			alpha[i] = strconv.Itoa(i)
		}
		for o := range c17Parents {
			for p := range c17Parents {
				vfWords(alpha, 1, n, ".", func(s string) { r.Emit(vfB("s%d.%d.%s", o, p, s)) })
			}
		}
		r.Bound("identifier contexts", vfB("all sequences of up to %d of %d tokens and small nodes below all pairs of %d kinds", n, len(c17Items), len(c17Parents)))
		// Derivations of the code grammar.
		atoms, ctxs := gAtoms(), gContexts()
		for a := range atoms {
			for i := range ctxs {
				if !r.Mine() || !ctxs[i].ok(atoms[a]) {
					continue
				}
				for w := 0; w < gWraps; w++ {
					if doc, ok := gWrap(w, ctxs[i].fill(atoms[a])); ok {
						for s := 0; s < gStyles; s++ {
							r.Exec("t" + gPrint(doc.toks, s))
						}
					}
				}
			}
		}
		r.Bound("grammar", vfB("every atom of the code grammar in each of %d contexts, %d documents, %d trivia styles", len(ctxs), gWraps, gStyles))
		vfWords([]string{"show ", "x", "a.b", ": ", "y", ".c", "(1)", "[z]", " ", "//c\n", "if ", "set "}, 1, 5, "", func(s string) { r.Emit("t#show " + s) })
		r.Bound("show rules", "all words over 12 tokens up to length 5 behind `#show`")
	}}
}
