// A reference lexer, written from the language reference: for every mode, which
// kind of token starts at a position and how far it reaches.
package PKG

import (
	"strings"
	"unicode"
)

type rTok struct {
	kind SyntaxKind
	text string
}

func rNewline(c rune) bool {
	return c == '\n' || c == '\r' || c == '\v' || c == '\f' || c == 0x85 || c == 0x2028 || c == 0x2029
}

func rDigit(c rune) bool { return '0' <= c && c <= '9' }
func rAlnum(c rune) bool {
	return rDigit(c) || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}
// rAlphabetic and rNumeric: the Unicode properties Alphabetic and N.
func rAlphabetic(c rune) bool {
	return unicode.In(c, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nl, unicode.Other_Alphabetic)
}
func rNumeric(c rune) bool { return unicode.In(c, unicode.Nd, unicode.Nl, unicode.No) }

// What NFKC takes out of ID_Start and ID_Continue (UAX #31, 5.1).
var rNotXID = map[rune]bool{0x37A: true, 0x309B: true, 0x309C: true, 0xFC5E: true, 0xFC5F: true, 0xFC60: true, 0xFC61: true, 0xFC62: true, 0xFC63: true,
	0xFDFA: true, 0xFDFB: true, 0xFE70: true, 0xFE72: true, 0xFE74: true, 0xFE76: true, 0xFE78: true, 0xFE7A: true, 0xFE7C: true, 0xFE7E: true}
var rNotXIDStart = map[rune]bool{0xE33: true, 0xEB3: true, 0xFF9E: true, 0xFF9F: true}

func rXIDStart(c rune) bool {
	return unicode.In(c, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nl, unicode.Other_ID_Start) &&
		!unicode.In(c, unicode.Pattern_Syntax, unicode.Pattern_White_Space) && !rNotXID[c] && !rNotXIDStart[c]
}
func rXIDCont(c rune) bool {
	return rXIDStart(c) || (rNotXIDStart[c] || unicode.In(c, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue)) && !rNotXID[c]
}

func rIDStart(c rune) bool { return c == '_' || c >= 0 && rXIDStart(c) }
func rIDCont(c rune) bool  { return c == '_' || c == '-' || c >= 0 && rXIDCont(c) }
func rLabel(c rune) bool { return rIDCont(c) || c == ':' || c == '.' }
func rWordy(c rune) bool {
	return (rAlphabetic(c) || rNumeric(c)) && !unicode.In(c, unicode.Han, unicode.Hiragana, unicode.Katakana, unicode.Hangul)
}

var rKeywords = map[string]SyntaxKind{
	"none": SyntaxKindNone, "auto": SyntaxKindAuto, "true": SyntaxKindBool, "false": SyntaxKindBool, "not": SyntaxKindNot,
	"and": SyntaxKindAnd, "or": SyntaxKindOr, "let": SyntaxKindLet, "set": SyntaxKindSet, "show": SyntaxKindShow,
	"context": SyntaxKindContext, "if": SyntaxKindIf, "else": SyntaxKindElse, "for": SyntaxKindFor, "in": SyntaxKindIn,
	"while": SyntaxKindWhile, "break": SyntaxKindBreak, "continue": SyntaxKindContinue, "return": SyntaxKindReturn,
	"import": SyntaxKindImport, "include": SyntaxKindInclude, "as": SyntaxKindAs,
}

var rCodeOps = []struct {
	t string
	k SyntaxKind
}{
	{"==", SyntaxKindEqEq}, {"!=", SyntaxKindExclEq}, {"<=", SyntaxKindLtEq}, {">=", SyntaxKindGtEq}, {"+=", SyntaxKindPlusEq},
	{"-=", SyntaxKindHyphEq}, {"\u2212=", SyntaxKindHyphEq}, {"*=", SyntaxKindStarEq}, {"/=", SyntaxKindSlashEq}, {"..", SyntaxKindDots}, {"=>", SyntaxKindArrow},
	{"{", SyntaxKindLeftBrace}, {"}", SyntaxKindRightBrace}, {"[", SyntaxKindLeftBracket}, {"]", SyntaxKindRightBracket},
	{"(", SyntaxKindLeftParen}, {")", SyntaxKindRightParen}, {"$", SyntaxKindDollar}, {",", SyntaxKindComma}, {";", SyntaxKindSemicolon},
	{":", SyntaxKindColon}, {".", SyntaxKindDot}, {"+", SyntaxKindPlus}, {"-", SyntaxKindMinus}, {"\u2212", SyntaxKindMinus},
	{"*", SyntaxKindStar}, {"/", SyntaxKindSlash}, {"=", SyntaxKindEq}, {"<", SyntaxKindLt}, {">", SyntaxKindGt},
}

var rMathShort = []string{"->>", "->", "-->", ":=", "::=", "!=", "...", "[|", "<==>", "<-->", "<--", "<-<", "<->", "<<-", "<<<", "<=>", "<==", "<~~",
	"<=", "<<", "<-", "<~", ">->", ">>>", "==>", "=>", "=:", ">=", ">>", "|->", "|=>", "|]", "||", "~~>", "~>", "*", "-", "~"}

// rLexer works on runes.
type rLexer struct {
	s    []rune
	mode SyntaxMode
}

func (l *rLexer) at(i int) rune {
	if i < 0 || i >= len(l.s) {
		return -1
	}
	return l.s[i]
}

func (l *rLexer) has(i int, p string) bool {
	for _, c := range p {
		if l.at(i) != c {
			return false
		}
		i++
	}
	return true
}

func (l *rLexer) while(i int, f func(rune) bool) int {
	for i < len(l.s) && f(l.s[i]) {
		i++
	}
	return i
}

func (l *rLexer) spaceOrEnd(i int) bool {
	return i >= len(l.s) || unicode.IsSpace(l.s[i]) || l.has(i, "//") || l.has(i, "/*")
}

// next returns the kind of the token at i and where it ends.
func (l *rLexer) next(i int) (SyntaxKind, int) {
	c := l.at(i)
	space := func(c rune) bool {
		if l.mode == SyntaxModeMarkup {
			return c == ' ' || c == '\t' || rNewline(c)
		}
		return unicode.IsSpace(c)
	}
	notNL := func(c rune) bool { return !rNewline(c) }
	switch {
	case i >= len(l.s):
		return SyntaxKindEnd, i
	case space(c):
		j := l.while(i, space)
		if l.mode == SyntaxModeMarkup && l.newlines(i, j) >= 2 {
			return SyntaxKindParbreak, j
		}
		return SyntaxKindSpace, j
	case i == 0 && l.has(i, "#!"):
		return SyntaxKindShebang, l.while(i, notNL)
	case l.has(i, "//"):
		return SyntaxKindLineComment, l.while(i, notNL)
	case l.has(i, "/*"):
		depth, j := 1, i+2
		for j < len(l.s) && depth > 0 {
			switch {
			case l.has(j, "*/"):
				depth--
				j += 2
			case l.has(j, "/*"):
				depth++
				j += 2
			default:
				j++
			}
		}
		return SyntaxKindBlockComment, j
	case l.has(i, "*/"):
		return SyntaxKindError, i + 2
	case c == '`' && l.mode != SyntaxModeMath:
		n := l.while(i, func(c rune) bool { return c == '`' }) - i
		if n == 2 {
			return SyntaxKindRaw, i + 2
		}
		run := 0
		for j := i + n; j < len(l.s); j++ {
			if l.s[j] == '`' {
				run++
			} else {
				run = 0
			}
			if run == n {
				return SyntaxKindRaw, j + 1
			}
		}
		return SyntaxKindError, len(l.s)
	}
	switch l.mode {
	case SyntaxModeMarkup:
		return l.markup(i)
	case SyntaxModeCode:
		return l.code(i)
	}
	return l.math(i)
}

func (l *rLexer) newlines(i, j int) int {
	n := 0
	for k := i; k < j; k++ {
		if rNewline(l.s[k]) && !(l.s[k] == '\n' && k > i && l.s[k-1] == '\r') {
			n++
		}
	}
	return n
}

func (l *rLexer) backslash(i int) (SyntaxKind, int) {
	if l.has(i, "\\u{") {
		j := l.while(i+3, rAlnum)
		if l.at(j) != '}' {
			return SyntaxKindError, j
		}
		v, ok := 0, j > i+3
		for _, c := range l.s[i+3 : j] {
			d := strings.IndexRune("0123456789abcdef", unicode.ToLower(c))
			if d < 0 {
				ok = false
			}
			if v < 1<<24 {
				v = v*16 + d
			}
		}
		if !ok || v > 0x10FFFF || 0xD800 <= v && v <= 0xDFFF {
			return SyntaxKindError, j + 1
		}
		return SyntaxKindEscape, j + 1
	}
	if i+1 >= len(l.s) || unicode.IsSpace(l.s[i+1]) {
		return SyntaxKindLinebreak, i + 1
	}
	return SyntaxKindEscape, i + 2
}

func (l *rLexer) label(i int) (SyntaxKind, int) {
	j := l.while(i+1, rLabel)
	if l.at(j) != '>' {
		return SyntaxKindError, j
	}
	return SyntaxKindLabel, j + 1
}

func (l *rLexer) link(i int) (SyntaxKind, int) {
	j := i
	var open []rune
	for ; j < len(l.s); j++ {
		c := l.s[j]
		if rAlnum(c) || strings.ContainsRune("!#$%&*+,-./:;=?@_~'", c) {
			continue
		}
		if c == '[' || c == '(' {
			open = append(open, c)
			continue
		}
		if c != ']' && c != ')' {
			break
		}
		if len(open) == 0 {
			break
		}
		o := open[len(open)-1]
		open = open[:len(open)-1]
		if o == '[' != (c == ']') {
			break
		}
	}
	// The scheme is not part of the trimmed text.
	k := i + 7
	if l.at(i+4) == 's' {
		k = i + 8
	}
	for j > k && strings.ContainsRune("!,.:;?'", l.s[j-1]) {
		j--
	}
	if len(open) > 0 {
		return SyntaxKindError, j
	}
	return SyntaxKindLink, j
}

func (l *rLexer) isLink(i int) bool { return l.has(i, "http://") || l.has(i, "https://") }

func (l *rLexer) textFrom(i int) (SyntaxKind, int) {
	for i < len(l.s) {
		c, n := l.s[i], l.at(i+1)
		special := unicode.IsSpace(c) || strings.ContainsRune("\\/[]~-.'\"*_:h`$<>@#", c)
		if special {
			switch {
			case c == ' ' && n >= 0 && (rAlphabetic(n) || rNumeric(n)):
			case c == '/' && n != '/' && n != '*':
			case c == '-' && n != '-' && n != '?':
			case c == '.' && !l.has(i, "..."):
			case c == 'h' && !l.isLink(i):
			case c == '@' && !rLabel(n):
			default:
				return SyntaxKindText, i
			}
		}
		i++
	}
	return SyntaxKindText, i
}

func (l *rLexer) markup(i int) (SyntaxKind, int) {
	c, n := l.s[i], l.at(i+1)
	inWord := func() bool { return i > 0 && n >= 0 && rWordy(l.s[i-1]) && rWordy(n) }
	switch {
	case c == '\\':
		return l.backslash(i)
	case l.isLink(i):
		return l.link(i)
	case c == '<' && n >= 0 && rIDCont(n):
		return l.label(i)
	case c == '@' && n >= 0 && rIDCont(n):
		j := l.while(i+1, rLabel)
		for strings.ContainsRune(".:", l.s[j-1]) {
			j--
		}
		return SyntaxKindRefMarker, j
	case l.has(i, "..."), l.has(i, "---"):
		return SyntaxKindShorthand, i + 3
	case l.has(i, "--"), l.has(i, "-?"):
		return SyntaxKindShorthand, i + 2
	case c == '-' && n >= 0 && rNumeric(n), c == '~':
		return SyntaxKindShorthand, i + 1
	case c == '*' && !inWord():
		return SyntaxKindStar, i + 1
	case c == '_' && !inWord():
		return SyntaxKindUnderscore, i + 1
	case c == '#':
		return SyntaxKindHash, i + 1
	case c == '[':
		return SyntaxKindLeftBracket, i + 1
	case c == ']':
		return SyntaxKindRightBracket, i + 1
	case c == '\'' || c == '"':
		return SyntaxKindSmartQuote, i + 1
	case c == '$':
		return SyntaxKindDollar, i + 1
	case c == ':':
		return SyntaxKindColon, i + 1
	case c == '=':
		j := l.while(i, func(c rune) bool { return c == '=' })
		if l.spaceOrEnd(j) {
			return SyntaxKindHeadingMarker, j
		}
		return l.textFrom(j)
	case c == '-' && l.spaceOrEnd(i+1):
		return SyntaxKindListMarker, i + 1
	case c == '+' && l.spaceOrEnd(i+1):
		return SyntaxKindEnumMarker, i + 1
	case c == '/' && l.spaceOrEnd(i+1):
		return SyntaxKindTermMarker, i + 1
	case rDigit(c):
		j := l.while(i, rDigit)
		if l.at(j) == '.' {
			if l.spaceOrEnd(j+1) && rFitsU64(string(l.s[i:j])) {
				return SyntaxKindEnumMarker, j + 1
			}
			j++
		}
		return l.textFrom(j)
	}
	return l.textFrom(i + 1)
}

func rFitsU64(d string) bool {
	d = strings.TrimLeft(d, "0")
	return len(d) < 20 || len(d) == 20 && d <= "18446744073709551615"
}

func (l *rLexer) number(i int) (SyntaxKind, int) {
	bad := false
	j := i
	isFloat := false
	based := false
	if l.has(i, "0b") || l.has(i, "0o") || l.has(i, "0x") {
		based = true
		digits := "01"
		switch l.s[i+1] {
		case 'o':
			digits = "01234567"
		case 'x':
			digits = "0123456789abcdefABCDEF"
		}
		if l.s[i+1] == 'x' {
			j = l.while(i+2, rAlnum)
		} else {
			j = l.while(i+2, rDigit)
		}
		if j == i+2 {
			bad = true
		}
		for _, c := range l.s[i+2 : j] {
			if !strings.ContainsRune(digits, c) {
				bad = true
			}
		}
		// Fits 63 bits?
		v := uint64(0)
		for _, c := range l.s[i+2 : j] {
			d := uint64(strings.IndexRune("0123456789abcdef", unicode.ToLower(c)))
			b := map[rune]uint64{'b': 2, 'o': 8, 'x': 16}[l.s[i+1]]
			if d > 15 || v > (1<<63-1-d)/b {
				bad = true
				break
			}
			v = v*b + d
		}
	} else {
		j = l.while(i, rDigit)
		if l.at(i) == '.' {
			isFloat = true
			j = l.while(i+1, rDigit)
		} else if l.at(j) == '.' && l.at(j+1) != '.' && !(l.at(j+1) >= 0 && rIDStart(l.at(j+1))) {
			isFloat = true
			j = l.while(j+1, rDigit)
		}
		if (l.at(j) == 'e' || l.at(j) == 'E') && !l.has(j, "em") {
			isFloat = true
			j++
			if l.at(j) == '+' || l.at(j) == '-' {
				j++
			}
			k := l.while(j, rDigit)
			if k == j {
				bad = true
			}
			j = k
		}
	}
	k := l.while(j, func(c rune) bool { return rAlnum(c) || c == '%' })
	switch string(l.s[j:k]) {
	case "":
		if bad {
			return SyntaxKindError, k
		}
		if isFloat {
			return SyntaxKindFloat, k
		}
		return SyntaxKindInt, k
	case "pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%":
		if bad || based {
			return SyntaxKindError, k
		}
		return SyntaxKindNumeric, k
	}
	return SyntaxKindError, k
}

func (l *rLexer) str(i int) (SyntaxKind, int) {
	for j := i + 1; j < len(l.s); j++ {
		if l.s[j] == '\\' {
			j++
		} else if l.s[j] == '"' {
			return SyntaxKindStr, j + 1
		}
	}
	return SyntaxKindError, len(l.s)
}

func (l *rLexer) code(i int) (SyntaxKind, int) {
	c, n := l.s[i], l.at(i+1)
	switch {
	case c == '<' && n >= 0 && rIDCont(n):
		return l.label(i)
	case rDigit(c) || c == '.' && rDigit(n):
		return l.number(i)
	case c == '"':
		return l.str(i)
	}
	for _, o := range rCodeOps {
		if l.has(i, o.t) {
			return o.k, i + len([]rune(o.t))
		}
	}
	if !rIDStart(c) {
		return SyntaxKindError, i + 1
	}
	j := l.while(i, rIDCont)
	id := string(l.s[i:j])
	p := l.at(i - 1)
	field := p == '@' || p == '.' && l.at(i-2) != '.'
	if k, ok := rKeywords[id]; ok && !field {
		return k, j
	}
	if id == "_" {
		return SyntaxKindUnderscore, j
	}
	return SyntaxKindIdent, j
}

func (l *rLexer) math(i int) (SyntaxKind, int) {
	c, n := l.s[i], l.at(i+1)
	idStart := func(c rune) bool { return c >= 0 && rXIDStart(c) }
	idCont := func(c rune) bool { return c >= 0 && rXIDCont(c) && c != '_' }
	switch {
	case c == '\\':
		return l.backslash(i)
	case c == '"':
		return l.str(i)
	}
	best := 0
	for _, s := range rMathShort {
		if len(s) > best && l.has(i, s) {
			best = len(s)
		}
	}
	if best > 0 {
		return SyntaxKindMathShorthand, i + best
	}
	if k, ok := map[rune]SyntaxKind{'.': SyntaxKindDot, ',': SyntaxKindComma, ';': SyntaxKindSemicolon, ')': SyntaxKindRightParen, '#': SyntaxKindHash,
		'_': SyntaxKindUnderscore, '$': SyntaxKindDollar, '/': SyntaxKindSlash, '^': SyntaxKindHat, '\'': SyntaxKindPrime, '&': SyntaxKindMathAlignPoint, '√': SyntaxKindRoot, '∛': SyntaxKindRoot, '∜': SyntaxKindRoot}[c]; ok {
		return k, i + 1
	}
	if idStart(c) && idCont(n) {
		k, j := SyntaxKindMathIdent, l.while(i, idCont)
		for l.at(j) == '.' && idStart(l.at(j+1)) {
			k, j = SyntaxKindFieldAccess, l.while(j+1, idCont)
		}
		return k, j
	}
	if rNumeric(c) {
		j := l.while(i, rNumeric)
		if l.at(j) == '.' {
			if k := l.while(j+1, rNumeric); k > j+1 {
				j = k
			}
		}
		return SyntaxKindMathText, j
	}
	j := l.while(i+1, func(c rune) bool { return unicode.Is(unicode.Mn, c) })
	if j > i+1 {
		return SyntaxKindText, j
	}
	return SyntaxKindMathText, i + 1
}

// rLex splits a whole text.
func rLex(text string, mode SyntaxMode) []rTok {
	l := &rLexer{s: []rune(text), mode: mode}
	var toks []rTok
	for i := 0; i < len(l.s); {
		k, j := l.next(i)
		toks = append(toks, rTok{k, string(l.s[i:j])})
		i = j
	}
	return toks
}
