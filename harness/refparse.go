// A strict reference parser of code, written from the language reference: it
// accepts exactly the valid programs and builds their trees. It never
// recovers: the first deviation makes the whole program invalid.
package PKG

import (
	"strings"
)

type qTok struct {
	k      SyntaxKind
	t      string // text, or the whole shape of a content block
	direct bool
	nl     bool
}

type qFail struct{}

type qParser struct {
	toks  []qTok
	i     int
	ended bool
	cont  bool // newlines are free (else they end the statement)
}

// qTokens prepares the tokens of a code text. ok is false for texts outside
// the reference's scope (markup and math inside), bad is set for malformed
// tokens.
func qTokens(text string) (toks []qTok, bad, ok bool) {
	direct, nl := true, false
	ts := rLex(text, SyntaxModeCode)
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		switch t.kind {
		case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindShebang:
			direct = false
			if t.kind == SyntaxKindSpace || t.kind == SyntaxKindParbreak {
				nl = nl || strings.ContainsAny(t.text, "\n\r")
			}
			continue
		case SyntaxKindError:
			bad = true
		case SyntaxKindLeftBracket:
			if i+2 < len(ts) && ts[i+1].kind == SyntaxKindIdent && ts[i+2].kind == SyntaxKindRightBracket {
				c := "(" + SyntaxKindContentBlock.String() + " " + gLeaf(SyntaxKindLeftBracket, "[") + " (" + SyntaxKindMarkup.String() + " " +
					gLeaf(SyntaxKindText, ts[i+1].text) + ") " + gLeaf(SyntaxKindRightBracket, "]") + ")"
				toks = append(toks, qTok{SyntaxKindContentBlock, c, direct, nl})
				direct, nl = true, false
				i += 2
				continue
			}
			return nil, false, false
		case SyntaxKindDollar, SyntaxKindRaw, SyntaxKindRightBracket:
			return nil, false, false
		}
		toks = append(toks, qTok{t.kind, t.text, direct, nl})
		direct, nl = true, false
	}
	return toks, bad, true
}

// qParse parses a whole program; ok reports whether it is valid.
func qParse(text string) (shape string, valid, inScope bool) {
	toks, bad, ok := qTokens(text)
	if !ok {
		return "", false, false
	}
	if bad {
		return "", false, true
	}
	p := &qParser{toks: toks, cont: true}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(qFail); !ok {
				panic(e)
			}
			shape, valid, inScope = "", false, true
		}
	}()
	parts := p.statements(false)
	return qN(SyntaxKindCode, parts...), true, true
}

func qN(k SyntaxKind, parts ...string) string {
	s := "(" + k.String()
	for _, p := range parts {
		if p != "" {
			s += " " + p
		}
	}
	return s + ")"
}

func (p *qParser) fail() { panic(qFail{}) }

func (p *qParser) cur() SyntaxKind {
	if p.i >= len(p.toks) || p.ended {
		return SyntaxKindEnd
	}
	return p.toks[p.i].k
}

// stops: a newline before the current token ends a statement, unless the token
// continues it.
func (p *qParser) stops() bool {
	if p.cont || p.i >= len(p.toks) || !p.toks[p.i].nl {
		return false
	}
	k := p.toks[p.i].k
	return k != SyntaxKindElse && k != SyntaxKindDot
}

func (p *qParser) direct() bool { return p.i < len(p.toks) && p.toks[p.i].direct }

// eat returns the current token's shape.
func (p *qParser) eat() string {
	t := p.toks[p.i]
	p.i++
	p.ended = p.stops()
	if t.k == SyntaxKindContentBlock {
		return t.t
	}
	return gLeaf(t.k, t.t)
}

func (p *qParser) want(k SyntaxKind) string {
	if p.cur() != k {
		p.fail()
	}
	return p.eat()
}

func (p *qParser) within(cont bool, f func()) {
	old := p.cont
	p.cont = cont
	f()
	p.cont = old
	if old != cont {
		p.ended = p.stops()
	}
}

func qIn(k SyntaxKind, ks ...SyntaxKind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// qAtomStart: what can start an expression directly behind `#`.
func qAtomStart(k SyntaxKind) bool {
	return qIn(k, SyntaxKindIdent, SyntaxKindLeftBrace, SyntaxKindContentBlock, SyntaxKindLeftParen, SyntaxKindLet, SyntaxKindSet,
		SyntaxKindShow, SyntaxKindContext, SyntaxKindIf, SyntaxKindWhile, SyntaxKindFor, SyntaxKindImport, SyntaxKindInclude, SyntaxKindBreak,
		SyntaxKindContinue, SyntaxKindReturn, SyntaxKindNone, SyntaxKindAuto, SyntaxKindInt, SyntaxKindFloat, SyntaxKindBool, SyntaxKindNumeric,
		SyntaxKindStr, SyntaxKindLabel)
}

func qExprStart(k SyntaxKind) bool {
	return qAtomStart(k) || qIn(k, SyntaxKindUnderscore, SyntaxKindPlus, SyntaxKindMinus, SyntaxKindNot)
}

func qKeyword(k SyntaxKind) bool {
	return qIn(k, SyntaxKindNot, SyntaxKindAnd, SyntaxKindOr, SyntaxKindNone, SyntaxKindAuto, SyntaxKindLet, SyntaxKindSet, SyntaxKindShow,
		SyntaxKindContext, SyntaxKindIf, SyntaxKindElse, SyntaxKindFor, SyntaxKindIn, SyntaxKindWhile, SyntaxKindBreak, SyntaxKindContinue,
		SyntaxKindReturn, SyntaxKindImport, SyntaxKindInclude, SyntaxKindAs)
}

func (p *qParser) statements(block bool) []string {
	var out []string
	stop := func() bool {
		k := p.cur()
		return k == SyntaxKindEnd || block && k == SyntaxKindRightBrace
	}
	for !stop() {
		p.within(false, func() {
			if !qExprStart(p.cur()) {
				p.fail()
			}
			out = append(out, p.expr())
			if !stop() {
				out = append(out, p.want(SyntaxKindSemicolon))
			}
		})
	}
	return out
}

func (p *qParser) expr() string { return p.prec(false, 0) }

func qBinPrec(k SyntaxKind) int {
	switch k {
	case SyntaxKindStar, SyntaxKindSlash:
		return 6
	case SyntaxKindPlus, SyntaxKindMinus:
		return 5
	case SyntaxKindEqEq, SyntaxKindExclEq, SyntaxKindLt, SyntaxKindLtEq, SyntaxKindGt, SyntaxKindGtEq, SyntaxKindIn:
		return 4
	case SyntaxKindAnd:
		return 3
	case SyntaxKindOr:
		return 2
	case SyntaxKindEq, SyntaxKindPlusEq, SyntaxKindHyphEq, SyntaxKindStarEq, SyntaxKindSlashEq:
		return 1
	}
	return 0
}

func (p *qParser) prec(atomic bool, min int) string {
	var e string
	switch k := p.cur(); {
	case !atomic && (k == SyntaxKindPlus || k == SyntaxKindMinus):
		op := p.eat()
		e = qN(SyntaxKindUnary, op, p.prec(false, 7))
	case !atomic && k == SyntaxKindNot:
		op := p.eat()
		e = qN(SyntaxKindUnary, op, p.prec(false, 4))
	default:
		e = p.primary(atomic)
	}
	for {
		k := p.cur()
		if p.direct() && (k == SyntaxKindLeftParen || k == SyntaxKindContentBlock) {
			e = qN(SyntaxKindFuncCall, e, p.args())
			continue
		}
		if k == SyntaxKindDot {
			next := p.i+1 < len(p.toks) && p.toks[p.i+1].k == SyntaxKindIdent && p.toks[p.i+1].direct
			if atomic && !(p.direct() && next) {
				return e
			}
			dot := p.eat()
			e = qN(SyntaxKindFieldAccess, e, dot, p.want(SyntaxKindIdent))
			continue
		}
		if atomic {
			return e
		}
		if k == SyntaxKindNot && min <= 4 {
			a := p.eat()
			b := p.want(SyntaxKindIn)
			e = qN(SyntaxKindBinary, e, a, b, p.prec(false, 5))
			continue
		}
		pr := qBinPrec(k)
		if pr == 0 || pr < min {
			return e
		}
		op := p.eat()
		next := pr + 1
		if pr == 1 {
			next = 1
		}
		e = qN(SyntaxKindBinary, e, op, p.prec(false, next))
	}
}

func (p *qParser) primary(atomic bool) string {
	switch k := p.cur(); k {
	case SyntaxKindIdent:
		id := p.eat()
		if !atomic && p.cur() == SyntaxKindArrow {
			ar := p.eat()
			return qN(SyntaxKindClosure, qN(SyntaxKindParams, id), ar, p.expr())
		}
		return id
	case SyntaxKindUnderscore:
		if atomic {
			p.fail()
		}
		u := p.eat()
		switch p.cur() {
		case SyntaxKindArrow:
			ar := p.eat()
			return qN(SyntaxKindClosure, qN(SyntaxKindParams, u), ar, p.expr())
		case SyntaxKindEq:
			eq := p.eat()
			return qN(SyntaxKindDestructAssignment, u, eq, p.expr())
		}
		p.fail()
	case SyntaxKindLeftBrace, SyntaxKindContentBlock:
		return p.block()
	case SyntaxKindLeftParen:
		return p.paren(atomic)
	case SyntaxKindLet:
		return p.let()
	case SyntaxKindSet:
		parts := []string{p.eat()}
		target := p.want(SyntaxKindIdent)
		for p.cur() == SyntaxKindDot {
			dot := p.eat()
			target = qN(SyntaxKindFieldAccess, target, dot, p.want(SyntaxKindIdent))
		}
		if !p.direct() || p.cur() != SyntaxKindLeftParen && p.cur() != SyntaxKindContentBlock {
			p.fail()
		}
		parts = append(parts, target, p.args())
		if p.cur() == SyntaxKindIf {
			parts = append(parts, p.eat())
			parts = append(parts, p.expr())
		}
		return qN(SyntaxKindSetRule, parts...)
	case SyntaxKindShow:
		parts := []string{p.eat()}
		if p.cur() != SyntaxKindColon {
			parts = append(parts, p.expr())
		}
		parts = append(parts, p.want(SyntaxKindColon))
		parts = append(parts, p.expr())
		return qN(SyntaxKindShowRule, parts...)
	case SyntaxKindContext:
		c := p.eat()
		return qN(SyntaxKindContextual, c, p.prec(atomic, 0))
	case SyntaxKindIf:
		return p.conditional()
	case SyntaxKindWhile:
		w := p.eat()
		c := p.expr()
		return qN(SyntaxKindWhileLoop, w, c, p.block())
	case SyntaxKindFor:
		f := p.eat()
		pat := p.pattern(false, map[string]bool{})
		in := p.want(SyntaxKindIn)
		e := p.expr()
		return qN(SyntaxKindForLoop, f, pat, in, e, p.block())
	case SyntaxKindImport:
		return p.imports()
	case SyntaxKindInclude:
		i := p.eat()
		return qN(SyntaxKindModuleInclude, i, p.expr())
	case SyntaxKindBreak:
		return qN(SyntaxKindLoopBreak, p.eat())
	case SyntaxKindContinue:
		return qN(SyntaxKindLoopContinue, p.eat())
	case SyntaxKindReturn:
		parts := []string{p.eat()}
		if qExprStart(p.cur()) {
			parts = append(parts, p.expr())
		}
		return qN(SyntaxKindFuncReturn, parts...)
	case SyntaxKindNone, SyntaxKindAuto, SyntaxKindInt, SyntaxKindFloat, SyntaxKindBool, SyntaxKindNumeric, SyntaxKindStr, SyntaxKindLabel:
		return p.eat()
	}
	p.fail()
	return ""
}

func (p *qParser) block() string {
	switch p.cur() {
	case SyntaxKindContentBlock:
		return p.eat()
	case SyntaxKindLeftBrace:
		var out string
		p.within(true, func() {
			l := p.eat()
			parts := p.statements(true)
			out = qN(SyntaxKindCodeBlock, l, qN(SyntaxKindCode, parts...), p.want(SyntaxKindRightBrace))
		})
		return out
	}
	p.fail()
	return ""
}

func (p *qParser) conditional() string {
	parts := []string{p.eat()}
	parts = append(parts, p.expr())
	parts = append(parts, p.block())
	if p.cur() == SyntaxKindElse {
		parts = append(parts, p.eat())
		if p.cur() == SyntaxKindIf {
			parts = append(parts, p.conditional())
		} else {
			parts = append(parts, p.block())
		}
	}
	return qN(SyntaxKindConditional, parts...)
}

func (p *qParser) let() string {
	let := p.eat()
	if p.cur() == SyntaxKindIdent {
		id := p.eat()
		if p.cur() == SyntaxKindLeftParen && p.direct() {
			ps := p.params()
			eq := p.want(SyntaxKindEq)
			return qN(SyntaxKindLetBinding, let, qN(SyntaxKindClosure, id, ps, eq, p.expr()))
		}
		if p.cur() == SyntaxKindEq {
			eq := p.eat()
			return qN(SyntaxKindLetBinding, let, id, eq, p.expr())
		}
		return qN(SyntaxKindLetBinding, let, id)
	}
	pat := p.pattern(false, map[string]bool{})
	eq := p.want(SyntaxKindEq)
	return qN(SyntaxKindLetBinding, let, pat, eq, p.expr())
}

func (p *qParser) imports() string {
	parts := []string{p.eat()}
	parts = append(parts, p.expr())
	if p.cur() == SyntaxKindAs {
		parts = append(parts, p.eat())
		parts = append(parts, p.want(SyntaxKindIdent))
	}
	items := func() string {
		var its []string
		for !p.terminator() {
			path := []string{p.want(SyntaxKindIdent)}
			for p.cur() == SyntaxKindDot {
				path = append(path, p.eat())
				path = append(path, p.want(SyntaxKindIdent))
			}
			it := qN(SyntaxKindImportItemPath, path...)
			if p.cur() == SyntaxKindAs {
				as := p.eat()
				it = qN(SyntaxKindRenamedImportItem, it, as, p.want(SyntaxKindIdent))
			}
			its = append(its, it)
			if !p.terminator() {
				its = append(its, p.want(SyntaxKindComma))
			}
		}
		return qN(SyntaxKindImportItems, its...)
	}
	if p.cur() == SyntaxKindColon {
		parts = append(parts, p.eat())
		switch p.cur() {
		case SyntaxKindLeftParen:
			p.within(true, func() {
				parts = append(parts, p.eat())
				parts = append(parts, items())
				parts = append(parts, p.want(SyntaxKindRightParen))
			})
		case SyntaxKindStar:
			parts = append(parts, p.eat())
		default:
			parts = append(parts, items())
		}
	}
	return qN(SyntaxKindModuleImport, parts...)
}

func (p *qParser) terminator() bool {
	return qIn(p.cur(), SyntaxKindEnd, SyntaxKindSemicolon, SyntaxKindRightBrace, SyntaxKindRightParen, SyntaxKindRightBracket)
}

// try runs f; on failure the position is restored.
func (p *qParser) try(f func() string) (s string, ok bool) {
	save := *p
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(qFail); !is {
				panic(e)
			}
			*p = save
			s, ok = "", false
		}
	}()
	return f(), true
}

// paren: parameters when `=>` follows, a destructuring when `=` follows, else
// a group.
func (p *qParser) paren(atomic bool) string {
	if !atomic {
		save := *p
		if ps, ok := p.try(p.params); ok && p.cur() == SyntaxKindArrow {
			ar := p.eat()
			return qN(SyntaxKindClosure, ps, ar, p.expr())
		}
		*p = save
		if d, ok := p.try(func() string { return p.destructuring(true, map[string]bool{}) }); ok && p.cur() == SyntaxKindEq &&
			strings.HasPrefix(d, "("+SyntaxKindDestructuring.String()) {
			eq := p.eat()
			return qN(SyntaxKindDestructAssignment, d, eq, p.expr())
		}
		*p = save
	}
	g := p.group()
	if !atomic && p.cur() == SyntaxKindEq && !strings.HasPrefix(g, "("+SyntaxKindParenthesized.String()) {
		p.fail()
	}
	return g
}

func (p *qParser) group() string {
	var parts []string
	kind := SyntaxKindEnd
	single, count := true, 0
	p.within(true, func() {
		parts = append(parts, p.want(SyntaxKindLeftParen))
		if p.cur() == SyntaxKindColon {
			parts = append(parts, p.eat())
			kind = SyntaxKindDict
		}
		seen := map[string]bool{}
		for !p.terminator() {
			count++
			if p.cur() == SyntaxKindDots {
				d := p.eat()
				parts = append(parts, qN(SyntaxKindSpread, d, p.expr()))
				single = false
			} else {
				e := p.expr()
				if p.cur() == SyntaxKindColon {
					c := p.eat()
					k := SyntaxKindKeyed
					key, has := "", false
					if s := strings.TrimPrefix(e, SyntaxKindIdent.String()+"\""); s != e && e[0] != '(' {
						k, key, has = SyntaxKindNamed, s[:len(s)-1], true
					} else if s := strings.TrimPrefix(e, SyntaxKindStr.String()+"\""); s != e && e[0] != '(' {
						key, has = s[1:len(s)-2], true
					}
					if has && seen[key] {
						p.fail()
					}
					if has {
						seen[key] = true
					}
					parts = append(parts, qN(k, e, c, p.expr()))
					single = false
					if kind == SyntaxKindArray {
						p.fail()
					}
					kind = SyntaxKindDict
				} else {
					if kind == SyntaxKindDict {
						p.fail()
					}
					kind = SyntaxKindArray
					parts = append(parts, e)
				}
			}
			if !p.terminator() {
				parts = append(parts, p.want(SyntaxKindComma))
				single = false
			}
		}
		parts = append(parts, p.want(SyntaxKindRightParen))
	})
	switch {
	case single && count == 1:
		kind = SyntaxKindParenthesized
	case kind == SyntaxKindEnd:
		kind = SyntaxKindArray
	}
	return qN(kind, parts...)
}

func (p *qParser) args() string {
	var parts []string
	if p.cur() == SyntaxKindLeftParen {
		p.within(true, func() {
			parts = append(parts, p.eat())
			seen := map[string]bool{}
			for !p.terminator() {
				if p.cur() == SyntaxKindDots {
					d := p.eat()
					parts = append(parts, qN(SyntaxKindSpread, d, p.expr()))
				} else {
					e := p.expr()
					if p.cur() == SyntaxKindColon {
						if !strings.HasPrefix(e, SyntaxKindIdent.String()+"\"") || seen[e] {
							p.fail()
						}
						seen[e] = true
						c := p.eat()
						e = qN(SyntaxKindNamed, e, c, p.expr())
					}
					parts = append(parts, e)
				}
				if !p.terminator() {
					parts = append(parts, p.want(SyntaxKindComma))
				}
			}
			parts = append(parts, p.want(SyntaxKindRightParen))
		})
	}
	for p.cur() == SyntaxKindContentBlock && p.direct() {
		parts = append(parts, p.eat())
	}
	return qN(SyntaxKindArgs, parts...)
}

func (p *qParser) params() string {
	var parts []string
	p.within(true, func() {
		parts = append(parts, p.want(SyntaxKindLeftParen))
		seen := map[string]bool{}
		sink := false
		for !p.terminator() {
			if p.cur() == SyntaxKindDots {
				d := p.eat()
				leaf := ""
				if qAtomStart(p.cur()) {
					leaf = p.leaf(false, seen)
				}
				if sink {
					p.fail()
				}
				sink = true
				parts = append(parts, qN(SyntaxKindSpread, d, leaf))
			} else {
				e := p.pattern(false, seen)
				if p.cur() == SyntaxKindColon {
					if !strings.HasPrefix(e, SyntaxKindIdent.String()+"\"") {
						p.fail()
					}
					c := p.eat()
					e = qN(SyntaxKindNamed, e, c, p.expr())
				}
				parts = append(parts, e)
			}
			if !p.terminator() {
				parts = append(parts, p.want(SyntaxKindComma))
			}
		}
		parts = append(parts, p.want(SyntaxKindRightParen))
	})
	return qN(SyntaxKindParams, parts...)
}

func (p *qParser) pattern(reassign bool, seen map[string]bool) string {
	switch p.cur() {
	case SyntaxKindUnderscore:
		return p.eat()
	case SyntaxKindLeftParen:
		return p.destructuring(reassign, seen)
	}
	return p.leaf(reassign, seen)
}

func (p *qParser) leaf(reassign bool, seen map[string]bool) string {
	if qKeyword(p.cur()) || !qAtomStart(p.cur()) {
		p.fail()
	}
	e := p.prec(true, 0)
	if !reassign {
		if !strings.HasPrefix(e, SyntaxKindIdent.String()+"\"") || seen[e] {
			p.fail()
		}
		seen[e] = true
	}
	return e
}

func (p *qParser) destructuring(reassign bool, seen map[string]bool) string {
	var parts []string
	single, count, sink := true, 0, false
	p.within(true, func() {
		parts = append(parts, p.want(SyntaxKindLeftParen))
		for !p.terminator() {
			count++
			if p.cur() == SyntaxKindDots {
				d := p.eat()
				leaf := ""
				if qAtomStart(p.cur()) {
					leaf = p.leaf(reassign, seen)
				}
				if sink {
					p.fail()
				}
				sink = true
				parts = append(parts, qN(SyntaxKindSpread, d, leaf))
			} else if p.cur() == SyntaxKindIdent && p.i+1 < len(p.toks) && p.toks[p.i+1].k == SyntaxKindColon {
				n := p.eat()
				c := p.eat()
				parts = append(parts, qN(SyntaxKindNamed, n, c, p.pattern(reassign, seen)))
				single = false
			} else {
				parts = append(parts, p.pattern(reassign, seen))
			}
			if !p.terminator() {
				parts = append(parts, p.want(SyntaxKindComma))
				single = false
			}
		}
		parts = append(parts, p.want(SyntaxKindRightParen))
	})
	if single && count == 1 && !sink {
		return qN(SyntaxKindParenthesized, parts...)
	}
	return qN(SyntaxKindDestructuring, parts...)
}
