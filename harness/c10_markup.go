// C10: block and inline structure of markup.
package PKG

import (
	"fmt"
	"strings"
)

// What a newline means inside the innermost open element.
const (
	mAny    = iota // nothing
	mLine          // ends it
	mPar           // ends it when it is a paragraph break
	mColumn        // ends it when what follows is not indented deeper
)

type mTok struct {
	kind   SyntaxKind
	text   string
	trivia []string
	nl     bool
	par    bool
	col    int
}

// mParser is a reference parser of markup without embedded code.
type mParser struct {
	toks  []mTok
	i     int
	ended bool
	mode  int
	min   int
	fresh bool // the trivia of the current token is not placed yet
	out   *[]string
}

func mLeaf(k SyntaxKind, t string) string { return k.String() + "\"" + t + "\"" }

func mErr(msg, text, hints string) string {
	return "!" + msg + "\"" + text + "\"<" + hints + ">"
}

// mDump renders a tree with its trivia.
func mDump(n *SyntaxNode) string {
	var sb strings.Builder
	var w func(n *SyntaxNode)
	w = func(n *SyntaxNode) {
		switch x := n.Repr.(type) {
		case *LeafNode:
			sb.WriteString(x.Kind.String() + "\"" + string(x.Text) + "\"")
		case *ErrorNode:
			sb.WriteString(mErr(x.Error.Message, string(x.Text), strings.Join(x.Error.Hints, "|")))
		case *InnerNode:
			sb.WriteString("(" + x.Kind.String())
			for _, c := range x.Children {
				sb.WriteString(" ")
				w(c)
			}
			sb.WriteString(")")
		}
	}
	w(n)
	return sb.String()
}

type mScope struct{}

func mParse(text string) (shape string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(mScope); !is {
				panic(e)
			}
			ok = false
		}
	}()
	p := &mParser{}
	col := 0
	t := mTok{}
	for _, k := range rLex(text, SyntaxModeMarkup) {
		trivia := false
		switch k.kind {
		case SyntaxKindDollar, SyntaxKindError, SyntaxKindRaw, SyntaxKindShebang:
			return "", false
		case SyntaxKindSpace, SyntaxKindParbreak:
			t.nl = t.nl || strings.ContainsAny(k.text, "\n\r\v\f\u0085\u2028\u2029")
			t.par = t.par || k.kind == SyntaxKindParbreak
			trivia = true
		case SyntaxKindLineComment, SyntaxKindBlockComment:
			trivia = true
		}
		if trivia {
			t.trivia = append(t.trivia, mLeaf(k.kind, k.text))
		} else {
			t.kind, t.text, t.col = k.kind, k.text, col
			p.toks = append(p.toks, t)
			t = mTok{}
		}
		for _, c := range k.text {
			col++
			if rNewline(c) {
				col = 0
			}
		}
	}
	t.kind, t.col = SyntaxKindEnd, col
	p.toks = append(p.toks, t)
	p.fresh = true
	var top []string
	p.out = &top
	p.exprs(true, func(k SyntaxKind) bool { return false })
	p.place()
	return "(" + SyntaxKindMarkup.String() + pad(top) + ")", true
}

func pad(parts []string) string {
	s := ""
	for _, p := range parts {
		s += " " + p
	}
	return s
}

func (p *mParser) cur() SyntaxKind {
	if p.ended {
		return SyntaxKindEnd
	}
	return p.toks[p.i].kind
}

func (p *mParser) stops() bool {
	t := p.toks[p.i]
	if !t.nl {
		return false
	}
	switch p.mode {
	case mLine:
		return true
	case mPar:
		return t.par
	case mColumn:
		return t.col <= p.min
	}
	return false
}

// place puts the trivia before the current token into the open node.
func (p *mParser) place() {
	if p.fresh {
		*p.out = append(*p.out, p.toks[p.i].trivia...)
		p.fresh = false
	}
}

func (p *mParser) eatAs(s string) {
	p.place()
	*p.out = append(*p.out, s)
	p.i++
	p.fresh = true
	p.ended = p.stops()
}

func (p *mParser) eat() { p.eatAs(mLeaf(p.toks[p.i].kind, p.toks[p.i].text)) }

func (p *mParser) node(k SyntaxKind, f func()) {
	p.place()
	p.group(k, f)
}

func (p *mParser) group(k SyntaxKind, f func()) {
	up := p.out
	var in []string
	p.out = &in
	f()
	p.out = up
	*up = append(*up, "("+k.String()+pad(in)+")")
}

func (p *mParser) within(mode, min int, f func()) {
	om, oc := p.mode, p.min
	p.mode, p.min = mode, min
	f()
	p.mode, p.min = om, oc
	if p.toks[p.i].nl {
		p.ended = p.stops()
	}
}

func (p *mParser) exprs(start bool, stop func(SyntaxKind) bool) {
	depth := 0
	start = start || p.toks[p.i].nl
	for {
		k := p.cur()
		if (k == SyntaxKindEnd || stop(k)) && !(depth > 0 && k == SyntaxKindRightBracket) {
			return
		}
		p.element(start, &depth)
		start = p.toks[p.i].nl
	}
}

// tight: the surrounding spaces stay outside of the content.
func (p *mParser) markup(start, tight bool, stops ...SyntaxKind) {
	stop := func(k SyntaxKind) bool {
		for _, s := range stops {
			if s == k {
				return true
			}
		}
		return false
	}
	// Empty content stands before the spaces.
	if k := p.cur(); tight && k != SyntaxKindEnd && !stop(k) {
		p.place()
	}
	p.group(SyntaxKindMarkup, func() {
		p.exprs(start, stop)
		if !tight {
			p.place()
		}
	})
}

// closing eats a delimiter, or blames the opening one.
func (p *mParser) closing(k SyntaxKind) {
	if p.cur() == k {
		p.eat()
		return
	}
	open := (*p.out)[0]
	(*p.out)[0] = mErr("unclosed delimiter", strings.Split(open, "\"")[1], "")
}

func (p *mParser) element(start bool, depth *int) {
	t := p.toks[p.i]
	asText := mLeaf(SyntaxKindText, t.text)
	const rb = SyntaxKindRightBracket
	switch t.kind {
	case SyntaxKindLeftBracket:
		*depth++
		p.eatAs(asText)
	case rb:
		if *depth > 0 {
			*depth--
			p.eatAs(asText)
		} else {
			p.eatAs(mErr("unexpected closing bracket", "]", "try using a backslash escape: \\]"))
		}
	case SyntaxKindStar:
		p.within(mPar, 0, func() {
			p.node(SyntaxKindStrong, func() { p.eat(); p.markup(false, false, t.kind, rb); p.closing(t.kind) })
		})
	case SyntaxKindUnderscore:
		p.within(mPar, 0, func() {
			p.node(SyntaxKindEmph, func() { p.eat(); p.markup(false, false, t.kind, rb); p.closing(t.kind) })
		})
	case SyntaxKindHeadingMarker, SyntaxKindListMarker, SyntaxKindEnumMarker, SyntaxKindTermMarker:
		if !start {
			p.eatAs(asText)
			return
		}
		if t.kind == SyntaxKindHeadingMarker {
			p.within(mLine, 0, func() {
				p.node(SyntaxKindHeading, func() { p.eat(); p.markup(false, true, SyntaxKindLabel, rb) })
			})
			return
		}
		p.within(mColumn, t.col, func() {
			switch t.kind {
			case SyntaxKindListMarker:
				p.node(SyntaxKindListItem, func() { p.eat(); p.markup(true, true, rb) })
			case SyntaxKindEnumMarker:
				p.node(SyntaxKindEnumItem, func() { p.eat(); p.markup(true, true, rb) })
			default:
				p.node(SyntaxKindTermItem, func() {
					p.within(mLine, 0, func() { p.eat(); p.markup(false, true, SyntaxKindColon, rb) })
					if p.cur() == SyntaxKindColon {
						p.eat()
					} else {
						*p.out = append(*p.out, mErr("expected colon", "", ""))
					}
					p.markup(true, true, rb)
				})
			}
		})
	case SyntaxKindHash:
		// Only embedded content blocks that nothing directly follows.
		p.eat()
		if p.toks[p.i].kind != SyntaxKindLeftBracket || len(p.toks[p.i].trivia) > 0 {
			panic(mScope{})
		}
		p.node(SyntaxKindContentBlock, func() {
			p.within(mAny, 0, func() { p.eat(); p.markup(true, false, rb); p.closing(rb) })
		})
		if n := p.toks[p.i]; len(n.trivia) == 0 && n.text != "" && strings.Contains("[(.;", n.text[:1]) {
			panic(mScope{})
		}
	case SyntaxKindRefMarker:
		p.node(SyntaxKindRef, func() {
			p.eat()
			if p.cur() == SyntaxKindLeftBracket && len(p.toks[p.i].trivia) == 0 {
				p.node(SyntaxKindContentBlock, func() {
					p.within(mAny, 0, func() { p.eat(); p.markup(true, false, rb); p.closing(rb) })
				})
			}
		})
	case SyntaxKindColon:
		p.eatAs(asText)
	default:
		p.eat()
	}
}

func c10Check(r *vfRun, text string) error {
	want, ok := mParse(text)
	if !ok {
		r.Count("out-of-scope", 1)
		return nil
	}
	root := Parse(text)
	r.Transitions++
	if got := mDump(root); got != want {
		return fmt.Errorf("%q parses to\n%s\nexpected\n%s", text, got, want)
	}
	r.Validated++
	if r.Cases%32 == 0 {
		r.Outcome(vfKinds(root))
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c10Check, Gen: func(r *vfRun) {
		words := func(name string, alpha []string, lo, hi int) {
			vfWords(alpha, lo, hi, "", r.Emit)
			r.Bound(name, vfB("all words over %d tokens of length %d to %d", len(alpha), lo, hi))
		}
		n := 4
		if r.Thorough {
			n = 5
		}
		r.Emit("")
		words("tokens", []string{"a", " ", "\n", "\n\n", "  ", "= ", "- ", "+ ", "/ ", ":", "*", "_", "[", "]", "@r", "<l>", "//c\n", "/*\n*/", "1. ", "\\\n", "== ", "\t", "\r\n", "-", "\u2029"}, 1, n)
		words("blocks", []string{"a", "\n", " ", "- ", "/ ", ": ", "= ", "*", "[", "]", "@r["}, n+1, n+1)
		words("inline", []string{"a", "*", "_", "\n\n", "[", "]", " "}, n+1, n+3)
		words("newline characters", []string{"a", "- ", " ", "\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029"}, 1, n+1)
		// Documents by lines.
		var lines []string
		for _, ind := range []string{"", " ", "  ", "\t", "   "} {
			for _, c := range []string{"- a", "- - a", "+ a", "= a", "/ a: b", "a", "*a", "a_", "- @r[", "]", "/ a", ": b", "-", "//c", "- [", "1. a /*", "*/ - b", "- *a", "= <l> a", "/ - a: - b", "- = a", "+ / a: b", "]- a", "/*é😀*/- a", "é #[- a", "#[a"} {
				lines = append(lines, ind+c)
			}
		}
		lines = append(lines, "", " ")
		vfWords(lines, 2, 3, "\n", r.Emit)
		r.Bound("lines 3", vfB("all documents of 2 or 3 out of %d lines", len(lines)))
		words("embedded blocks", []string{"a", "\n", " ", "- ", "#[", "]", "*", "= ", "é"}, 3, n+2)
		vfSizes(r, 10, 10, func(t string) {
			if !strings.ContainsAny(t, "#$`\"'\\~h") {
				r.Emit(t)
			}
		})
		few := []string{"- a", "  - b", " c", "c", "", "/ a: b", "  + *d", "= h", "- @r[", "   ]", "*"}
		m := 4
		if r.Thorough {
			m = 6
		}
		vfWords(few, 4, m, "\n", r.Emit)
		r.Bound("lines more", vfB("all documents of 4 to %d out of %d lines", m, len(few)))
		vfWords(few[:6], m+1, m+1, "\r\n", r.Emit)
		if r.Thorough {
			words("blocks 7", []string{"a", "\n", "  ", "- ", "/ ", ":", "*", "@r[", "]"}, 7, 7)
		}
	}}
}
