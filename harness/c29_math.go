// C29: math has the structure the reference grammar gives it.
package PKG

import (
	"fmt"
	"strings"
	"unicode"
)

// A reference parser of equations. Like the one for code it never recovers.
type mNode struct {
	k    SyntaxKind
	t    string
	kids []*mNode
}

func (n *mNode) shape() string {
	if n.kids == nil {
		return gLeaf(n.k, n.t)
	}
	var sb strings.Builder
	sb.WriteString("(" + n.k.String())
	for _, c := range n.kids {
		sb.WriteString(" " + c.shape())
	}
	return sb.String() + ")"
}

func mIn(k SyntaxKind, parts ...[]*mNode) *mNode {
	n := &mNode{k: k, kids: []*mNode{}}
	for _, p := range parts {
		n.kids = append(n.kids, p...)
	}
	return n
}

type mInvalid struct{}
type mOutOfScope struct{ why string }

type mParser struct {
	lx         rLexer
	k          SyntaxKind
	start, end int
	direct     bool
}

func (p *mParser) next(from int) {
	p.direct = true
	for {
		p.start = from
		p.k, p.end = p.lx.next(from)
		switch p.k {
		case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment:
			p.direct = false
			from = p.end
			continue
		case SyntaxKindError:
			panic(mInvalid{})
		}
		return
	}
}

func (p *mParser) text() string { return string(p.lx.s[p.start:p.end]) }

func (p *mParser) eatAs(k SyntaxKind) *mNode {
	n := &mNode{k: k, t: p.text()}
	p.next(p.end)
	return n
}
func (p *mParser) eat() *mNode {
	if p.k == SyntaxKindFieldAccess {
		parts := strings.Split(p.text(), ".")
		n := &mNode{k: SyntaxKindMathIdent, t: parts[0]}
		for _, f := range parts[1:] {
			n = &mNode{k: SyntaxKindFieldAccess, kids: []*mNode{n, {k: SyntaxKindDot, t: "."}, {k: SyntaxKindIdent, t: f}}}
		}
		p.next(p.end)
		return n
	}
	return p.eatAs(p.k)
}

func (p *mParser) opening() bool {
	t := p.text()
	return t == "[|" || len([]rune(t)) == 1 && strings.Contains("([{⌈⌊⟨⟦⎰⟅", t)
}
func (p *mParser) closing() bool {
	t := p.text()
	return t == "|]" || len([]rune(t)) == 1 && strings.Contains(")]}⌉⌋⟩⟧⎱⟆", t)
}

func mStops(k SyntaxKind, args bool) bool {
	return k == SyntaxKindDollar || k == SyntaxKindEnd || args && (k == SyntaxKindComma || k == SyntaxKindSemicolon || k == SyntaxKindRightParen)
}

// exprs parses expressions; in arguments the separators end them.
func (p *mParser) exprs(args bool) (parts []*mNode, count int) {
	for !mStops(p.k, args) {
		parts = append(parts, p.expr()...)
		count++
	}
	return parts, count
}

// expr = operand { "/" operand }
func (p *mParser) expr() []*mNode {
	left := p.scripted(0, SyntaxKindEnd)
	for p.k == SyntaxKindSlash {
		mUnparen(left)
		op := p.eat()
		right := p.scripted(2, SyntaxKindEnd)
		mUnparen(right)
		left = []*mNode{mIn(SyntaxKindMathFrac, left, []*mNode{op}, right)}
	}
	return left
}

// mUnparen: parentheses around an operand only group.
func mUnparen(parts []*mNode) {
	if len(parts) > 0 && parts[0].k == SyntaxKindMathDelimited {
		n := parts[0]
		if n.kids[0].t == "(" && n.kids[len(n.kids)-1].t == ")" {
			n.k = SyntaxKindMath
			n.kids[0].k, n.kids[len(n.kids)-1].k = SyntaxKindLeftParen, SyntaxKindRightParen
		}
	}
}

func mAttach(parts []*mNode) []*mNode {
	if len(parts) == 1 {
		return parts
	}
	return []*mNode{mIn(SyntaxKindMathAttach, parts)}
}

// scripted = base { "!" | primes | script }. In a script (level 3), a base has
// no arguments and no delimiters. stop is the other script of the same base.
func (p *mParser) scripted(level int, stop SyntaxKind) []*mNode {
	cur := p.base(level)
	primed := false
	for p.k != stop {
		switch {
		case p.direct && p.k == SyntaxKindMathText && p.text() == "!":
			if primed {
				panic(mOutOfScope{"factorial of primes"})
			}
			cur = []*mNode{mIn(SyntaxKindMath, cur, []*mNode{p.eat()})}
			continue
		case p.direct && p.k == SyntaxKindPrime:
			cur = append(cur[:len(cur):len(cur)], p.primes())
			primed = true
			continue
		case p.k == SyntaxKindUnderscore || p.k == SyntaxKindHat:
			other := SyntaxKindHat
			if p.k == SyntaxKindHat {
				other = SyntaxKindUnderscore
			}
			op := p.eat()
			script := p.scripted(3, other)
			mUnparen(script)
			all := append(append(cur[:len(cur):len(cur)], op), script...)
			if p.k == SyntaxKindUnderscore || p.k == SyntaxKindHat {
				op := p.eat()
				script := p.scripted(3, SyntaxKindEnd)
				mUnparen(script)
				all = append(append(all, op), script...)
			}
			cur = []*mNode{mIn(SyntaxKindMathAttach, all)}
			primed = false
			continue
		}
		break
	}
	if primed {
		cur = mAttach(cur)
	}
	return cur
}

func (p *mParser) primes() *mNode {
	n := mIn(SyntaxKindMathPrimes, []*mNode{p.eat()})
	for p.direct && p.k == SyntaxKindPrime {
		n.kids = append(n.kids, p.eat())
	}
	return n
}

func (p *mParser) base(level int) (parts []*mNode) {
	continuable := false
	switch p.k {
	case SyntaxKindHash:
		return p.embedded()
	case SyntaxKindMathIdent, SyntaxKindFieldAccess:
		callee := p.eat()
		if level < 3 && p.direct && p.k == SyntaxKindMathText && p.text() == "(" {
			return []*mNode{mIn(SyntaxKindFuncCall, []*mNode{callee, p.args()})}
		}
		parts, continuable = []*mNode{callee}, true
	case SyntaxKindDot, SyntaxKindComma, SyntaxKindSemicolon, SyntaxKindRightParen:
		return []*mNode{p.eatAs(SyntaxKindMathText)}
	case SyntaxKindText, SyntaxKindMathText, SyntaxKindMathShorthand:
		if p.opening() {
			return []*mNode{p.delimited()}
		}
		continuable = true
		for _, c := range p.text() {
			continuable = continuable && rAlphabetic(c)
		}
		parts = []*mNode{p.eat()}
	case SyntaxKindLinebreak, SyntaxKindMathAlignPoint:
		return []*mNode{p.eat()}
	case SyntaxKindEscape, SyntaxKindStr:
		parts, continuable = []*mNode{p.eat()}, true
	case SyntaxKindRoot:
		if level >= 3 {
			panic(mOutOfScope{"root as script"})
		}
		op := p.eat()
		arg := p.scripted(2, SyntaxKindEnd)
		mUnparen(arg)
		return []*mNode{mIn(SyntaxKindMathRoot, []*mNode{op}, arg)}
	case SyntaxKindPrime:
		for p.k == SyntaxKindPrime {
			parts = append(parts, p.primes())
		}
		continuable = true
	default:
		panic(mInvalid{})
	}
	if continuable && level < 3 && p.direct && p.opening() {
		parts = []*mNode{mIn(SyntaxKindMath, parts, []*mNode{p.delimited()})}
	}
	return parts
}

func (p *mParser) delimited() *mNode {
	open := p.eat()
	var body []*mNode
	for p.k != SyntaxKindDollar && p.k != SyntaxKindEnd {
		if p.closing() {
			close := p.eatAs(SyntaxKindMathText)
			if close.t == "|]" {
				close.k = SyntaxKindMathShorthand
			}
			return &mNode{k: SyntaxKindMathDelimited, kids: []*mNode{open, mIn(SyntaxKindMath, body), close}}
		}
		body = append(body, p.expr()...)
	}
	// Delimiters need not match.
	return mIn(SyntaxKindMath, []*mNode{open}, body)
}

// embedded: only `#name` is in scope.
func (p *mParser) embedded() []*mNode {
	hash := &mNode{k: SyntaxKindHash, t: "#"}
	j := p.lx.while(p.end, func(c rune) bool { return c >= 'a' && c <= 'z' })
	name := string(p.lx.s[p.end:j])
	if name == "" {
		k, _ := p.lx.next(p.end)
		switch k {
		case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindDollar:
			panic(mInvalid{})
		}
		panic(mOutOfScope{"embedded code"})
	}
	if c := p.lx.at(j); c == '.' || c == '(' || c == '[' || c == '-' || c == '_' || unicode.IsLetter(c) || unicode.IsNumber(c) || unicode.Is(unicode.M, c) || len(name) > 1 {
		panic(mOutOfScope{"embedded code"})
	}
	parts := []*mNode{hash, {k: SyntaxKindIdent, t: name}}
	p.next(j)
	if p.direct && p.k == SyntaxKindSemicolon {
		parts = append(parts, p.eat())
	}
	return parts
}

// args = "(" arg { ("," | ";") arg } ")"; semicolons make rows.
func (p *mParser) args() *mNode {
	open := p.eatAs(SyntaxKindLeftParen)
	done := []*mNode{}
	row := []*mNode{}
	rows, positional := false, true
	seen := map[string]bool{}
	for p.k != SyntaxKindRightParen {
		if mStops(p.k, false) {
			panic(mInvalid{})
		}
		var arg []*mNode
		arg, positional = p.arg(seen)
		row = append(row, arg...)
		switch p.k {
		case SyntaxKindComma:
			row = append(row, p.eat())
			if !positional {
				done, row = append(done, row...), []*mNode{}
			}
		case SyntaxKindSemicolon:
			if !positional {
				done, row = append(done, row...), []*mNode{}
			}
			done = append(done, mIn(SyntaxKindArray, row), p.eat())
			row, rows = []*mNode{}, true
		case SyntaxKindRightParen:
		default:
			panic(mInvalid{})
		}
	}
	if rows && positional && len(row) > 0 {
		row = []*mNode{mIn(SyntaxKindArray, row)}
	}
	return mIn(SyntaxKindArgs, []*mNode{open}, done, row, []*mNode{p.eat()})
}

func (p *mParser) arg(seen map[string]bool) (parts []*mNode, positional bool) {
	s := &p.lx
	if s.has(p.start, "..") && s.at(p.start+2) != '.' && !s.spaceOrEnd(p.start+2) {
		dots := &mNode{k: SyntaxKindDots, t: ".."}
		p.next(p.start + 2)
		if mStops(p.k, true) {
			panic(mOutOfScope{"spread of a separator"})
		}
		return []*mNode{mIn(SyntaxKindSpread, []*mNode{dots}, p.expr())}, true
	}
	var head []*mNode
	if rIDStart(s.at(p.start)) {
		j := s.while(p.start, rIDCont)
		if s.at(j) == ':' && !s.has(j, ":=") && !s.has(j, "::=") {
			name := string(s.s[p.start:j])
			if name == "_" || seen[name] {
				panic(mInvalid{})
			}
			seen[name] = true
			p.next(j)
			head = []*mNode{{k: SyntaxKindIdent, t: name}, p.eatAs(SyntaxKindColon)}
		}
	}
	body, n := p.exprs(true)
	if head != nil && n == 0 {
		panic(mInvalid{})
	}
	if n != 1 {
		body = []*mNode{mIn(SyntaxKindMath, body)}
	}
	if head == nil {
		return body, true
	}
	return []*mNode{mIn(SyntaxKindNamed, head, body)}, false
}

// Other characters that join the cluster of what stands next to them.
var mJoins = map[rune]bool{0xE33: true, 0xEB3: true, 0xD4E: true, 0x111C2: true, 0x111C3: true, 0x1193F: true, 0x11941: true, 0x11A3A: true, 0x11A84: true, 0x11A85: true,
	0x11A86: true, 0x11A87: true, 0x11A88: true, 0x11A89: true, 0x11D46: true, 0x11F02: true}

// mParse parses the text of an equation (without dollars).
func mParse(body string) (shape string, valid bool, skip string) {
	p := &mParser{lx: rLexer{s: []rune("$" + body + "$"), mode: SyntaxModeMath}}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case mInvalid:
			shape, valid = "", false
		case mOutOfScope:
			skip = e.why
		default:
			panic(e)
		}
	}()
	p.next(1)
	parts, _ := p.exprs(false)
	if p.k == SyntaxKindEnd {
		return "", false, ""
	}
	if p.end != len(p.lx.s) {
		return "", false, "dollar inside"
	}
	return mIn(SyntaxKindMath, parts).shape(), true, ""
}

// c29Shape is gShape with attachments that attach nothing left out (the parser
// wraps the base once more after primes).
func c29Shape(n *SyntaxNode) string {
	switch x := n.Repr.(type) {
	case *InnerNode:
		var kids []string
		for _, c := range x.Children {
			switch c.SyntaxKind() {
			case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment:
				continue
			}
			kids = append(kids, c29Shape(c))
		}
		if x.Kind == SyntaxKindMathAttach && len(kids) == 1 {
			return kids[0]
		}
		return "(" + strings.Join(append([]string{x.Kind.String()}, kids...), " ") + ")"
	default:
		return gShape(n)
	}
}

// Cases: the text of an equation, or "\x01\x01" + text + "\x00" + message.
func c29Check(r *vfRun, c string) error {
	if rest, ok := strings.CutPrefix(c, "\x01\x01"); ok {
		text, msg, _ := strings.Cut(rest, "\x00")
		errs := Parse(text).errors()
		r.Transitions++
		if len(errs) != 1 || errs[0].Message != msg {
			return fmt.Errorf("%q has the errors %v, want %q", text, errs, msg)
		}
		r.Validated++
		return nil
	}
	want, valid, skip := mParse(c)
	if skip != "" {
		r.Count("out of scope: "+skip, 1)
		return nil
	}
	root := Parse("$" + c + "$")
	r.Transitions++
	if !valid {
		if !root.erroneous() {
			return fmt.Errorf("the equation %q is invalid, but parses to %s", "$"+c+"$", c29Shape(root))
		}
		r.Count("invalid", 1)
		r.Validated++
		return nil
	}
	if got := c29Shape(root); got != "("+SyntaxKindMarkup.String()+" ("+SyntaxKindEquation.String()+" "+gLeaf(SyntaxKindDollar, "$")+" "+want+" "+gLeaf(SyntaxKindDollar, "$")+"))" {
		return fmt.Errorf("the equation %q parses to\n  %s, want the body\n  %s", "$"+c+"$", got, want)
	}
	if ps := []rune(c); len(ps) > 0 && !strings.HasSuffix(strings.TrimRight(c, " \n/*c"), "'") && !strings.Contains(c, "//") {
		if got := c29Shape(parse_math(c)); got != want {
			return fmt.Errorf("the math %q parses to\n  %s, want\n  %s", c, got, want)
		}
	}
	r.Validated++
	if r.Cases%64 == 0 {
		r.Outcome(want)
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c29Check, Gen: func(r *vfRun) {
		all := strings.Split("a|xy|f|1|é| |\n|(|)|[|]|[\x00|\x00]|{|}|\x00|⌈|⟩|/|^|_|'|!|&|,|;|:|.|..|\\|\\(|√|∛|#x|\"s\"|->|f.g|e\u0301|(\u0301|+|/*c*/|=|k:|∑|1.5|½", "|")
		for i := range all {
			all[i] = strings.ReplaceAll(all[i], "\x00", "|")
		}
		n := 3
		if r.Thorough {
			n = 4
		}
		vfWords(all, 0, n, "", r.Emit)
		r.Bound("all tokens", vfB("all words over %d tokens up to length %d", len(all), n))
		for _, g := range []struct {
			name, pre, post, toks string
			n                     int
		}{
			{"scripts", "", "", "a|b|_|^|'|(|)", 6},
			{"scripts and roots", "", "", "a|_|^|/|√|!|'", 6},
			{"fractions", "", "", "a|(|)|/|xy| |[", 6},
			{"delimiters", "", "", "a|(|[|)|]|\x00|[\x00|\x00]", 6},
			{"juxtaposed", "", "", "a|1|f|xy|(|)|_| ", 6},
			{"calls", "", "", "xy(|f.g(|)|,|a|_|/", 6},
			{"arguments", "xy(", ")", "a|,|;| |b|k:", 6},
			{"arguments and rows", "mat(", ")", "a|;|,|k:|m:|..|)", 6},
			{"named arguments", "xy(", ")", "k:|a|-|k|:|=|,|_", 6},
			{"spread arguments", "xy(", ")", "..|.|a|,|(|;| ", 6},
			{"embedded", "", "", "#x|;|,|_|^|xy(|)|'", 6},
			{"trivia", "", "", "a|/*c*/|\n|_|/|(|'|!", 5},
			{"lines", "", "", "a|&|\\ |\\\n|\\|=|_|(", 5},
			{"embedded in markup", "", "", "a|[|]|*|=|- |<l>|@r|\"", 5},
		} {
			toks := strings.Split(g.toks, "|")
			for i := range toks {
				toks[i] = strings.ReplaceAll(toks[i], "\x00", "|")
			}
			m := g.n
			if r.Thorough {
				m += 2
			}
			vfWords(toks, 1, m, "", func(s string) { r.Emit(g.pre + s + g.post) })
			r.Bound(g.name, vfB("all words over %q up to length %d in %q", toks, m, g.pre+"…"+g.post))
		}
		vfSizes(r, 10, 10, func(t string) {
			if len(t) > 1 && t[0] == '$' && t[len(t)-1] == '$' && !strings.ContainsAny(t, "#\"") {
				r.Emit(t[1 : len(t)-1])
			}
		})
		// Every character of Unicode that can stand alone.
		for _, t := range []string{"◦(a)", "(a ◦ b)", "a◦", "xy(◦)"} {
			for c := rune(0); c <= unicode.MaxRune; c++ {
				if c == 0xD800 {
					c = 0xE000
				}
				if unicode.In(c, unicode.M, unicode.Cf, unicode.Other_Grapheme_Extend) || mJoins[c] || 0x1F3FB <= c && c <= 0x1F3FF {
					continue
				}
				r.Emit(strings.Replace(t, "◦", string(c), 1))
			}
		}
		r.Bound("Unicode", "every character that does not join a grapheme cluster in 4 places")
		// Nesting.
		holes := []string{"a_◦", "a^◦", "a_◦^b", "a^◦_b", "◦_a", "◦^a", "◦'", "◦!", "√◦", "◦/a", "a/◦", "(◦)", "[◦]", "xy(◦)", "xy(a,◦)", "xy(◦;a)", "xy(k:◦)", "xy(..◦)", "a◦", "◦ a", "◦(a)", "◦_(a)", "(◦)/a", "a_(◦)"}
		m := 3
		if r.Thorough {
			m = 4
		}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			for _, a := range []string{"x", "xy", "#x", "(x)", "1", "\"s\"", "x'", "√x", "x/y", "x_y"} {
				r.Emit(strings.ReplaceAll(s, "◦", a))
			}
			if n > 0 {
				for _, h := range holes {
					rec(strings.ReplaceAll(s, "◦", h), n-1)
				}
			}
		}
		rec("◦", m)
		r.Bound("nesting", vfB("%d one-hole contexts nested up to %d times around 10 operands", len(holes), m))
		for _, e := range []string{"$_a$\x00unexpected underscore", "$^a$\x00unexpected hat", "$/a$\x00unexpected slash", "$a_$\x00expected expression", "$a^$\x00expected expression",
			"$a/$\x00expected expression", "$√$\x00expected expression", "$a_b^$\x00expected expression", "$xy(k: )$\x00expected expression", "$xy(k:,a)$\x00expected expression", "$xy(k:1,k:2)$\x00duplicate argument: k",
			"$xy(_: 1)$\x00expected identifier, found underscore", "$\x00unclosed delimiter", "$a\x00unclosed delimiter", "$xy(a$\x00unclosed delimiter", "$xy($\x00unclosed delimiter", "$# x$\x00expected expression"} {
			r.Emit("\x01\x01" + e)
		}
		r.Bound("errors", "17 invalid equations with their messages")
	}}
}
