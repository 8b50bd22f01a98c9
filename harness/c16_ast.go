// C16: the typed view of a tree gives the parts of every construct.
package PKG

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// --- the view through the accessors --------------------------------------------

func vJoin[T any](xs []T, f func(T) string) string {
	var s []string
	for _, x := range xs {
		s = append(s, f(x))
	}
	return strings.Join(s, ", ")
}

func vIdents(ids []*Ident) string {
	return "<" + vJoin(ids, func(i *Ident) string { return i.get() }) + ">"
}

func vNum(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

// vShallow stops the view at the parts of the outermost node: in a tree with
// errors one child can be several parts, so that the full view may be
// exponential.
var vShallow bool
var vLevel int

func vExpr(e Expr) string {
	if vShallow && vLevel > 0 {
		e.to_untyped().kind()
		return ""
	}
	vLevel++
	defer func() { vLevel-- }()
	switch x := e.(type) {
	case *Text:
		return "text " + strconv.Quote(x.get())
	case *Space:
		return "space"
	case *Linebreak:
		return "linebreak"
	case *Parbreak:
		return "parbreak"
	case *Escape:
		return vfB("escape %d", x.get())
	case *Shorthand:
		return vfB("shorthand %d", x.get())
	case *SmartQuote:
		return vfB("quote %v", x.double())
	case *Strong:
		return "strong " + vMarkup(x.body())
	case *Emph:
		return "emph " + vMarkup(x.body())
	case *Raw:
		lang := ""
		if l, ok := x.lang().Get(); ok {
			lang = " lang " + strconv.Quote(l.get())
		}
		return vfB("raw %v%s {%s}", x.block(), lang, vJoin(x.lines(), func(t *Text) string { return strconv.Quote(t.get()) }))
	case *Link:
		return "link " + x.get()
	case *Label:
		return "label " + x.get()
	case *Ref:
		s := "ref " + x.target()
		if c, ok := x.supplement().Get(); ok {
			s += " " + vMarkup(c.body())
		}
		return s
	case *Heading:
		return vfB("heading %d %s", x.depth(), vMarkup(x.body()))
	case *ListItem:
		return "item " + vMarkup(x.body())
	case *EnumItem:
		if n, ok := x.number().Get(); ok {
			return vfB("enum %d %s", n, vMarkup(x.body()))
		}
		return "enum " + vMarkup(x.body())
	case *TermItem:
		return "term " + vMarkup(x.term()) + " is " + vMarkup(x.description())
	case *Equation:
		return vfB("equation %v %v {%s}", x.block(), x.body().was_deparenthesized(), vJoin(x.body().exprs(), vExpr))
	case *Ident:
		return "`" + x.get() + "`"
	case *None:
		return "none"
	case *Auto:
		return "auto"
	case *Bool:
		return vfB("bool %v", x.get())
	case *Int:
		return vfB("int %d", x.get())
	case *Float:
		return "float " + vNum(x.get())
	case *Numeric:
		v, u := x.get()
		return vfB("numeric %s %d", vNum(v), u)
	case *Str:
		return "str " + strconv.Quote(x.get())
	case *CodeBlock:
		return "code {" + vJoin(x.body().exprs(), vExpr) + "}"
	case *ContentBlock:
		return "content " + vMarkup(x.body())
	case *Parenthesized:
		return "paren (" + vExpr(x.expr()) + ")"
	case *Array:
		return "array (" + vJoin(x.items(), func(i ArrayItem) string {
			switch i := i.(type) {
			case *ArrayItem_Pos:
				return vExpr(i.expr)
			case *ArrayItem_Spread:
				return ".." + vExpr(i.spread.expr())
			}
			return "?"
		}) + ")"
	case *Dict:
		return "dict (" + vJoin(x.items(), func(i DictItem) string {
			switch i := i.(type) {
			case *DictItem_Named:
				return "named " + i.item.name().get() + ": " + vExpr(i.item.expr())
			case *DictItem_Keyed:
				return "keyed " + vExpr(i.item.key()) + ": " + vExpr(i.item.expr())
			case *DictItem_Spread:
				return ".." + vExpr(i.item.expr())
			}
			return "?"
		}) + ")"
	case *Unary:
		return "unary " + x.op().String() + " " + vExpr(x.expr())
	case *Binary:
		return "binary (" + vExpr(x.lhs()) + " " + x.op().String() + " " + vExpr(x.rhs()) + ")"
	case *FieldAccess:
		return "field " + vExpr(x.target()) + " . " + x.field().get()
	case *FuncCall:
		return "call " + vExpr(x.callee()) + " " + vArgs(x.args())
	case *Closure:
		s := "closure"
		if n, ok := x.name().Get(); ok {
			s += " " + n.get()
		}
		return s + " (" + vJoin(x.params().children(), func(p Param) string {
			switch p := p.(type) {
			case *Param_Pos:
				return vPattern(p.param)
			case *Param_Named:
				return "named " + p.param.name().get() + ": " + vExpr(p.param.expr())
			case *Param_Spread:
				return vSink(p.param)
			}
			return "?"
		}) + ") => " + vExpr(x.body())
	case *LetBinding:
		s := "let "
		switch k := x.kind().(type) {
		case *LetBindingKind_Normal:
			s += vPattern(k.pattern) + vIdents(k.bindings())
		case *LetBindingKind_Closure:
			s += "closure " + k.ident.get() + vIdents(k.bindings())
		}
		if i, ok := x.init().Get(); ok {
			s += " = " + vExpr(i)
		}
		return s
	case *DestructAssignment:
		return "assign " + vPattern(x.pattern()) + " = " + vExpr(x.value())
	case *SetRule:
		s := "set " + vExpr(x.target()) + " " + vArgs(x.args())
		if c, ok := x.condition().Get(); ok {
			s += " if " + vExpr(c)
		}
		return s
	case *ShowRule:
		s := "show "
		if c, ok := x.selector().Get(); ok {
			s += vExpr(c)
		}
		return s + ": " + vExpr(x.transform())
	case *Contextual:
		return "context " + vExpr(x.body())
	case *Conditional:
		s := "if " + vExpr(x.condition()) + " then " + vExpr(x.if_body())
		if c, ok := x.else_body().Get(); ok {
			s += " else " + vExpr(c)
		}
		return s
	case *WhileLoop:
		return "while " + vExpr(x.condition()) + " do " + vExpr(x.body())
	case *ForLoop:
		return "for " + vPattern(x.pattern()) + " in " + vExpr(x.iterable()) + " do " + vExpr(x.body())
	case *ModuleImport:
		s := "import " + vExpr(x.source())
		name, err := x.bare_name()
		switch err {
		case nil:
			s += " bare " + name
		case ErrBareImport_Dynamic:
			s += " dynamic"
		case ErrBareImport_PathInvalid:
			s += " badpath"
		case ErrBareImport_PackageInvalid:
			s += " badpackage"
		}
		if n, ok := x.new_name().Get(); ok {
			s += " as " + n.get()
		}
		if is, ok := x.imports().Get(); ok {
			switch is := is.(type) {
			case *Imports_Wildcard:
				s += ": *"
			case *Imports_Items:
				s += ": (" + vJoin(is.items.iter(), func(i ImportItem) string {
					t := vJoin(i.path().iter(), func(i *Ident) string { return i.get() })
					return t + " from " + i.original_name().get() + " to " + i.bound_name().get()
				}) + ")"
			}
		}
		return s
	case *ModuleInclude:
		return "include " + vExpr(x.source())
	case *LoopBreak:
		return "break"
	case *LoopContinue:
		return "continue"
	case *FuncReturn:
		if b, ok := x.body().Get(); ok {
			return "return " + vExpr(b)
		}
		return "return"
	case *Math:
		return vfB("math %v {", x.was_deparenthesized()) + vJoin(x.exprs(), vExpr) + "}"
	case *MathText:
		switch k := x.get().(type) {
		case *MathTextKind_Character:
			return "mathchar " + string(k.c)
		case *MathTextKind_Number:
			return "mathnum " + k.str
		}
		return "?"
	case *MathIdent:
		return "mathid " + x.get()
	case *MathShorthand:
		return vfB("mathshort %d", x.get())
	case *MathAlignPoint:
		return "align"
	case *MathDelimited:
		return "delim " + vExpr(x.open()) + " {" + vJoin(x.body().exprs(), vExpr) + "} " + vExpr(x.close())
	case *MathAttach:
		s := "attach " + vExpr(x.base())
		if p, ok := x.primes().Get(); ok {
			s += vfB(" primes %d", p.count())
		}
		if b, ok := x.bottom().Get(); ok {
			s += " _ " + vExpr(b)
		}
		if b, ok := x.top().Get(); ok {
			s += " ^ " + vExpr(b)
		}
		return s
	case *MathPrimes:
		return vfB("primes %d", x.count())
	case *MathFrac:
		return "frac " + vExpr(x.num()) + " / " + vExpr(x.denom())
	case *MathRoot:
		if i, ok := x.index().Get(); ok {
			return vfB("root %d %s", i, vExpr(x.radicand()))
		}
		return "root " + vExpr(x.radicand())
	}
	return fmt.Sprintf("? %T", e)
}

func vMarkup(m *Markup) string { return "[" + vJoin(m.exprs(), vExpr) + "]" }

func vArgs(a *Args) string {
	return vfB("%v (", a.trailing_comma()) + vJoin(a.items(), func(i Arg) string {
		switch i := i.(type) {
		case *Arg_Pos:
			return vExpr(i.arg)
		case *Arg_Named:
			return "named " + i.arg.name().get() + ": " + vExpr(i.arg.expr())
		case *Arg_Spread:
			return ".." + vExpr(i.arg.expr())
		}
		return "?"
	}) + ")"
}

func vSink(s *Spread) string {
	t := ".."
	if e, ok := s.sink_expr().Get(); ok {
		t += vExpr(e)
	}
	if i, ok := s.sink_ident().Get(); ok {
		t += "<" + i.get() + ">"
	}
	return t
}

func vPattern(p Pattern) string {
	switch x := p.(type) {
	case *Pattern_Normal:
		return "normal " + vExpr(x.expr)
	case *Pattern_Placeholder:
		return "_"
	case *Pattern_Parenthesized:
		return "(" + vPattern(x.pattern.pattern()) + ")"
	case *Pattern_Destructuring:
		return "destruct (" + vJoin(x.pattern.items(), func(i DestructuringItem) string {
			switch i := i.(type) {
			case *DestructuringItem_Pattern:
				return vPattern(i.pattern)
			case *DestructuringItem_Named:
				return "named " + i.named.name().get() + ": " + vPattern(i.named.pattern())
			case *DestructuringItem_Spread:
				return vSink(i.spread)
			}
			return "?"
		}) + ")" + vIdents(x.pattern.bindings())
	}
	return fmt.Sprintf("? %T", p)
}

// --- the reference view: positions in the grammar --------------------------------

type wNode struct {
	kind SyntaxKind
	text string
	all  []*wNode // all children
	kids []*wNode // children that are no trivia
}

func wTrivia(k SyntaxKind) bool {
	switch k {
	case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindShebang:
		return true
	}
	return false
}

func wTree(n *SyntaxNode) *wNode {
	w := &wNode{}
	switch x := n.Repr.(type) {
	case *LeafNode:
		w.kind, w.text = x.Kind, string(x.Text)
	case *InnerNode:
		w.kind = x.Kind
		for _, c := range x.Children {
			k := wTree(c)
			w.text += k.text
			w.all = append(w.all, k)
			if !wTrivia(k.kind) {
				w.kids = append(w.kids, k)
			}
		}
	case *ErrorNode:
		w.kind, w.text = SyntaxKindError, string(x.Text)
	}
	return w
}

// wUnsure is raised for a tree the reference grammar does not know.
type wUnsure struct{ why string }

func (w *wNode) at(i int) *wNode {
	if i < 0 {
		i += len(w.kids)
	}
	if i < 0 || i >= len(w.kids) {
		panic(wUnsure{"missing part of " + w.kind.String()})
	}
	return w.kids[i]
}

// without returns the children but those of the given kinds.
func (w *wNode) without(ks ...SyntaxKind) []*wNode {
	var r []*wNode
next:
	for _, k := range w.kids {
		for _, x := range ks {
			if k.kind == x {
				continue next
			}
		}
		r = append(r, k)
	}
	return r
}

func wRune(hex string) (rune, bool) {
	x, ok := new(big.Int).SetString(hex, 16)
	if !ok || len(hex) == 0 || x.Cmp(big.NewInt(0x10ffff)) > 0 {
		return 0, false
	}
	r := rune(x.Int64())
	return r, r < 0xd800 || r > 0xdfff
}

// wStr decodes the contents of a string literal.
func wStr(t string) string {
	t = t[1 : len(t)-1]
	var out strings.Builder
	for i := 0; i < len(t); {
		if t[i] != '\\' || i+1 >= len(t) {
			out.WriteByte(t[i])
			i++
			continue
		}
		if r, ok := map[byte]string{'\\': "\\", '"': "\"", 'n': "\n", 'r': "\r", 't': "\t"}[t[i+1]]; ok {
			out.WriteString(r)
			i += 2
			continue
		}
		if strings.HasPrefix(t[i:], "\\u{") {
			j := i + 3
			for j < len(t) && strings.IndexByte("0123456789abcdefABCDEF", t[j]) >= 0 {
				j++
			}
			r, ok := wRune(t[i+3 : j])
			if j < len(t) && t[j] == '}' {
				j++
			}
			if ok {
				out.WriteRune(r)
			} else {
				out.WriteString(t[i:j])
			}
			i = j
			continue
		}
		out.WriteByte(t[i])
		i++
	}
	return out.String()
}

// wFloat evaluates a decimal number exactly and rounds once.
func wFloat(t string) float64 {
	mant, exp := t, 0
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		mant = t[:i]
		x, ok := new(big.Int).SetString(strings.TrimPrefix(t[i+1:], "+"), 10)
		if !ok {
			panic(wUnsure{"exponent " + t})
		}
		switch {
		case x.Cmp(big.NewInt(5000)) > 0:
			exp = 5000
		case x.Cmp(big.NewInt(-5000)) < 0:
			exp = -5000
		default:
			exp = int(x.Int64())
		}
	}
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		exp -= len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	if mant == "" {
		panic(wUnsure{"no digits"})
	}
	m, ok := new(big.Int).SetString(mant, 10)
	if !ok {
		panic(wUnsure{"digits " + t})
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(exp, -exp))), nil)
	r := new(big.Rat).SetInt(m)
	if exp >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	f, _ := r.Float64()
	return f
}

var wUnits = []struct {
	s string
	u Unit
}{{"pt", Unit_Pt}, {"mm", Unit_Mm}, {"cm", Unit_Cm}, {"in", Unit_In}, {"rad", Unit_Rad}, {"deg", Unit_Deg}, {"em", Unit_Em}, {"fr", Unit_Fr}, {"%", Unit_Percent}}

var wShorthands = map[string]rune{"...": 0x2026, "~": 0xa0, "-": 0x2212, "--": 0x2013, "---": 0x2014, "-?": 0xad}

func wIdentOK(s string) bool {
	for i, c := range s {
		switch {
		case c == '_', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		case i > 0 && (c == '-' || c >= '0' && c <= '9'):
		case c >= 0x80:
			panic(wUnsure{"identifier beyond ASCII"})
		default:
			return false
		}
	}
	return s != ""
}

// wBare is the name a bare import of a string binds.
func wBare(s string) string {
	if strings.HasPrefix(s, "@") {
		p := strings.Split(s[1:], "/")
		if len(p) != 2 {
			return " badpackage"
		}
		q := strings.Split(p[1], ":")
		if len(q) != 2 || !wIdentOK(p[0]) || !wIdentOK(q[0]) {
			return " badpackage"
		}
		v := strings.Split(q[1], ".")
		if len(v) != 3 {
			return " badpackage"
		}
		for _, c := range v {
			if c == "" || len(c) > 5 || strings.Trim(c, "0123456789") != "" {
				return " badpackage"
			}
		}
		return " bare " + q[0]
	}
	for len(s) > 1 && strings.HasSuffix(s, "/") {
		s = s[:len(s)-1]
	}
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.LastIndexByte(s, '.'); i > 0 {
		s = s[:i]
	}
	if !wIdentOK(s) {
		return " badpath"
	}
	return " bare " + s
}

func wMarkup(w *wNode) string {
	if w.kind != SyntaxKindMarkup {
		panic(wUnsure{"no markup"})
	}
	var s []string
	stmt := false
	for _, k := range w.all {
		was := stmt
		stmt = false
		switch k.kind {
		case SyntaxKindLetBinding, SyntaxKindSetRule, SyntaxKindShowRule, SyntaxKindModuleImport, SyntaxKindModuleInclude:
			stmt = true
		}
		switch k.kind {
		case SyntaxKindSpace:
			if !was {
				s = append(s, "space")
			}
		case SyntaxKindParbreak:
			s = append(s, "parbreak")
		case SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindHash, SyntaxKindSemicolon, SyntaxKindShebang:
		default:
			s = append(s, wExpr(k))
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func wContent(w *wNode) string { return wMarkup(w.at(1)) }

func wArgs(w *wNode) string {
	if w.kind != SyntaxKindArgs {
		panic(wUnsure{"no arguments"})
	}
	items := w.without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma, SyntaxKindSemicolon, SyntaxKindHash)
	trailing := false
	if len(w.kids) > 1 && w.at(-1).kind == SyntaxKindRightParen {
		trailing = w.at(-2).kind == SyntaxKindComma
	}
	return vfB("%v (", trailing) + vJoin(items, func(i *wNode) string {
		switch i.kind {
		case SyntaxKindNamed:
			return "named " + i.at(0).text + ": " + wExpr(i.at(2))
		case SyntaxKindSpread:
			return ".." + wExpr(i.at(1))
		}
		return wExpr(i)
	}) + ")"
}

func wSink(w *wNode) string {
	if len(w.kids) < 2 {
		return ".."
	}
	s := ".." + wExpr(w.at(1))
	if w.at(1).kind == SyntaxKindIdent {
		s += "<" + w.at(1).text + ">"
	}
	return s
}

func wPattern(w *wNode) string {
	switch w.kind {
	case SyntaxKindUnderscore:
		return "_"
	case SyntaxKindParenthesized:
		return "(" + wPattern(w.at(1)) + ")"
	case SyntaxKindDestructuring:
		return "destruct (" + vJoin(w.without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma), func(i *wNode) string {
			switch i.kind {
			case SyntaxKindNamed:
				return "named " + i.at(0).text + ": " + wPattern(i.at(2))
			case SyntaxKindSpread:
				return wSink(i)
			}
			return wPattern(i)
		}) + ")" + "<" + strings.Join(wBindings(w), ", ") + ">"
	}
	return "normal " + wExpr(w)
}

func wBindings(w *wNode) (ids []string) {
	switch w.kind {
	case SyntaxKindIdent:
		return []string{w.text}
	case SyntaxKindParenthesized:
		return wBindings(w.at(1))
	case SyntaxKindDestructuring:
		for _, i := range w.without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma) {
			switch i.kind {
			case SyntaxKindNamed:
				ids = append(ids, wBindings(i.at(2))...)
			case SyntaxKindSpread:
				if len(i.kids) > 1 && i.at(1).kind == SyntaxKindIdent {
					ids = append(ids, i.at(1).text)
				}
			default:
				ids = append(ids, wBindings(i)...)
			}
		}
	}
	return ids
}

func wExpr(w *wNode) string {
	switch w.kind {
	case SyntaxKindText:
		return "text " + strconv.Quote(w.text)
	case SyntaxKindLinebreak:
		return "linebreak"
	case SyntaxKindEscape:
		if strings.HasPrefix(w.text, "\\u{") {
			r, ok := wRune(w.text[3 : len(w.text)-1])
			if !ok {
				r = 0
			}
			return vfB("escape %d", r)
		}
		r, _ := utf8.DecodeRuneInString(w.text[1:])
		return vfB("escape %d", r)
	case SyntaxKindShorthand:
		r, ok := wShorthands[w.text]
		if !ok {
			panic(wUnsure{"shorthand"})
		}
		return vfB("shorthand %d", r)
	case SyntaxKindSmartQuote:
		return vfB("quote %v", w.text == `"`)
	case SyntaxKindStrong:
		return "strong " + wMarkup(w.at(1))
	case SyntaxKindEmph:
		return "emph " + wMarkup(w.at(1))
	case SyntaxKindRaw:
		block, lang := false, ""
		for _, k := range w.kids {
			if k.kind == SyntaxKindRawTrimmed && strings.ContainsAny(k.text, "\n\r\v\f\u0085\u2028\u2029") {
				block = true
			}
			if k.kind == SyntaxKindRawLang {
				lang = " lang " + strconv.Quote(k.text)
			}
		}
		if len(w.at(0).text) < 3 {
			block, lang = false, ""
		}
		var lines []*wNode
		for _, k := range w.kids {
			if k.kind == SyntaxKindText {
				lines = append(lines, k)
			}
		}
		return vfB("raw %v%s {%s}", block, lang, vJoin(lines, func(t *wNode) string { return strconv.Quote(t.text) }))
	case SyntaxKindLink:
		return "link " + w.text
	case SyntaxKindLabel:
		return "label " + w.text[1:len(w.text)-1]
	case SyntaxKindRef:
		s := "ref " + w.at(0).text[1:]
		if len(w.kids) > 1 {
			s += " " + wContent(w.at(1))
		}
		return s
	case SyntaxKindHeading:
		return vfB("heading %d %s", len(w.at(0).text), wMarkup(w.at(1)))
	case SyntaxKindListItem:
		return "item " + wMarkup(w.at(1))
	case SyntaxKindEnumItem:
		if t := w.at(0).text; t != "+" {
			n, ok := new(big.Int).SetString(strings.TrimSuffix(t, "."), 10)
			if ok && n.IsUint64() {
				return vfB("enum %d %s", n, wMarkup(w.at(1)))
			}
		}
		return "enum " + wMarkup(w.at(1))
	case SyntaxKindTermItem:
		return "term " + wMarkup(w.at(1)) + " is " + wMarkup(w.at(3))
	case SyntaxKindIdent:
		return "`" + w.text + "`"
	case SyntaxKindNone:
		return "none"
	case SyntaxKindAuto:
		return "auto"
	case SyntaxKindBool:
		return "bool " + w.text
	case SyntaxKindInt:
		t, base := w.text, 10
		for _, p := range []struct {
			s string
			b int
		}{{"0x", 16}, {"0o", 8}, {"0b", 2}} {
			if strings.HasPrefix(t, p.s) {
				t, base = t[2:], p.b
			}
		}
		n, ok := new(big.Int).SetString(t, base)
		if !ok {
			panic(wUnsure{"integer"})
		}
		if !n.IsInt64() {
			return "int 0"
		}
		return vfB("int %d", n)
	case SyntaxKindFloat:
		return "float " + vNum(wFloat(w.text))
	case SyntaxKindNumeric:
		for _, u := range wUnits {
			if t := strings.TrimSuffix(w.text, u.s); t != w.text {
				return vfB("numeric %s %d", vNum(wFloat(t)), u.u)
			}
		}
		panic(wUnsure{"unit"})
	case SyntaxKindStr:
		return "str " + strconv.Quote(wStr(w.text))
	case SyntaxKindCodeBlock:
		return "code {" + vJoin(w.at(1).without(SyntaxKindSemicolon), wExpr) + "}"
	case SyntaxKindContentBlock:
		return "content " + wContent(w)
	case SyntaxKindParenthesized:
		return "paren (" + wExpr(w.at(1)) + ")"
	case SyntaxKindArray:
		return "array (" + vJoin(w.without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma), func(i *wNode) string {
			if i.kind == SyntaxKindSpread {
				return ".." + wExpr(i.at(1))
			}
			return wExpr(i)
		}) + ")"
	case SyntaxKindDict:
		return "dict (" + vJoin(w.without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma, SyntaxKindColon), func(i *wNode) string {
			switch i.kind {
			case SyntaxKindNamed:
				return "named " + i.at(0).text + ": " + wExpr(i.at(2))
			case SyntaxKindKeyed:
				return "keyed " + wExpr(i.at(0)) + ": " + wExpr(i.at(2))
			case SyntaxKindSpread:
				return ".." + wExpr(i.at(1))
			}
			panic(wUnsure{"dictionary item"})
		}) + ")"
	case SyntaxKindUnary:
		return "unary " + w.at(0).text + " " + wExpr(w.at(1))
	case SyntaxKindBinary:
		var op []string
		for _, k := range w.kids[1 : len(w.kids)-1] {
			op = append(op, k.text)
		}
		return "binary (" + wExpr(w.at(0)) + " " + strings.Join(op, " ") + " " + wExpr(w.at(-1)) + ")"
	case SyntaxKindFieldAccess:
		return "field " + wExpr(w.at(0)) + " . " + w.at(2).text
	case SyntaxKindFuncCall:
		return "call " + wExpr(w.at(0)) + " " + wArgs(w.at(1))
	case SyntaxKindClosure:
		s, i := "closure", 0
		if w.at(0).kind == SyntaxKindIdent {
			s, i = s+" "+w.at(0).text, 1
		}
		if w.at(i).kind != SyntaxKindParams {
			panic(wUnsure{"no parameters"})
		}
		return s + " (" + vJoin(w.at(i).without(SyntaxKindLeftParen, SyntaxKindRightParen, SyntaxKindComma), func(p *wNode) string {
			switch p.kind {
			case SyntaxKindNamed:
				return "named " + p.at(0).text + ": " + wExpr(p.at(2))
			case SyntaxKindSpread:
				return wSink(p)
			}
			return wPattern(p)
		}) + ") => " + wExpr(w.at(i+2))
	case SyntaxKindLetBinding:
		p := w.at(1)
		if p.kind == SyntaxKindClosure {
			n := p.at(0).text
			return "let closure " + n + "<" + n + "> = " + wExpr(p)
		}
		s := "let " + wPattern(p) + "<" + strings.Join(wBindings(p), ", ") + ">"
		if len(w.kids) > 2 {
			s += " = " + wExpr(w.at(3))
		}
		return s
	case SyntaxKindDestructAssignment:
		return "assign " + wPattern(w.at(0)) + " = " + wExpr(w.at(2))
	case SyntaxKindSetRule:
		s := "set " + wExpr(w.at(1)) + " " + wArgs(w.at(2))
		if len(w.kids) > 3 {
			s += " if " + wExpr(w.at(4))
		}
		return s
	case SyntaxKindShowRule:
		if w.at(1).kind == SyntaxKindColon {
			return "show : " + wExpr(w.at(2))
		}
		return "show " + wExpr(w.at(1)) + ": " + wExpr(w.at(3))
	case SyntaxKindContextual:
		return "context " + wExpr(w.at(1))
	case SyntaxKindConditional:
		s := "if " + wExpr(w.at(1)) + " then " + wExpr(w.at(2))
		if len(w.kids) > 3 {
			s += " else " + wExpr(w.at(4))
		}
		return s
	case SyntaxKindWhileLoop:
		return "while " + wExpr(w.at(1)) + " do " + wExpr(w.at(2))
	case SyntaxKindForLoop:
		return "for " + wPattern(w.at(1)) + " in " + wExpr(w.at(3)) + " do " + wExpr(w.at(4))
	case SyntaxKindModuleImport:
		src := w.at(1)
		s := "import " + wExpr(src)
		switch src.kind {
		case SyntaxKindIdent:
			s += " bare " + src.text
		case SyntaxKindFieldAccess:
			s += " bare " + src.at(2).text
		case SyntaxKindStr:
			s += wBare(wStr(src.text))
		default:
			s += " dynamic"
		}
		for i, k := range w.kids[2:] {
			switch k.kind {
			case SyntaxKindAs:
				s += " as " + w.at(i+3).text
			case SyntaxKindStar:
				s += ": *"
			case SyntaxKindImportItems:
				s += ": (" + vJoin(k.without(SyntaxKindComma), func(i *wNode) string {
					p, to := i, ""
					if i.kind == SyntaxKindRenamedImportItem {
						p, to = i.at(0), i.at(2).text
					}
					if p.kind != SyntaxKindImportItemPath {
						panic(wUnsure{"import item"})
					}
					ids := p.without(SyntaxKindDot)
					from := ids[len(ids)-1].text
					if to == "" {
						to = from
					}
					return vJoin(ids, func(i *wNode) string { return i.text }) + " from " + from + " to " + to
				}) + ")"
			}
		}
		return s
	case SyntaxKindModuleInclude:
		return "include " + wExpr(w.at(1))
	case SyntaxKindLoopBreak:
		return "break"
	case SyntaxKindLoopContinue:
		return "continue"
	case SyntaxKindFuncReturn:
		if len(w.kids) > 1 {
			return "return " + wExpr(w.at(1))
		}
		return "return"
	case SyntaxKindEquation:
		block := w.all[1].kind == SyntaxKindSpace && w.all[len(w.all)-2].kind == SyntaxKindSpace
		return vfB("equation %v false {%s}", block, wMath(w.at(1)))
	case SyntaxKindMath:
		return vfB("math %v {", len(w.kids) > 0 && w.at(0).kind == SyntaxKindLeftParen && w.at(-1).kind == SyntaxKindRightParen) + wMath(w) + "}"
	case SyntaxKindMathText:
		if c, _ := utf8.DecodeRuneInString(w.text); unicode.In(c, unicode.N) {
			return "mathnum " + w.text
		}
		return "mathchar " + w.text
	case SyntaxKindMathIdent:
		return "mathid " + w.text
	case SyntaxKindMathShorthand:
		for i, t := range strings.Fields(wMathShort) {
			if t == w.text {
				return vfB("mathshort %d", []rune(wMathChars)[i])
			}
		}
		panic(wUnsure{"math shorthand"})
	case SyntaxKindMathAlignPoint:
		return "align"
	case SyntaxKindMathDelimited:
		return "delim " + wExpr(w.at(0)) + " {" + wMath(w.at(1)) + "} " + wExpr(w.at(-1))
	case SyntaxKindMathPrimes:
		return vfB("primes %d", len(w.kids))
	case SyntaxKindMathAttach:
		// base [primes] { ("_" | "^") script }
		k := wParts(w)
		s := "attach " + wExpr(k[0])
		k = k[1:]
		if len(k) > 0 && k[0].kind == SyntaxKindMathPrimes {
			s += vfB(" primes %d", len(k[0].kids))
			k = k[1:]
		}
		scripts := map[SyntaxKind]string{}
		for ; len(k) > 1; k = k[2:] {
			if _, ok := scripts[k[0].kind]; ok {
				panic(wUnsure{"script given twice"})
			}
			scripts[k[0].kind] = " " + k[0].text + " " + wExpr(k[1])
		}
		if len(k) > 0 {
			panic(wUnsure{"attachment"})
		}
		return s + scripts[SyntaxKindUnderscore] + scripts[SyntaxKindHat]
	case SyntaxKindMathFrac:
		k := wParts(w)
		if len(k) != 3 {
			panic(wUnsure{"fraction"})
		}
		return "frac " + wExpr(k[0]) + " / " + wExpr(k[2])
	case SyntaxKindMathRoot:
		k := wParts(w)
		if len(k) != 2 {
			panic(wUnsure{"root"})
		}
		return "root " + map[string]string{"√": "", "∛": "3 ", "∜": "4 "}[k[0].text] + wExpr(k[1])
	}
	panic(wUnsure{"no expression: " + w.kind.String()})
}

const wMathShort = "... - * ~ != := ::= =: << <<< >> >>> <= >= -> --> |-> >-> ->> <- <-- <-< <<- <-> <--> ~> ~~> <~ <~~ => |=> ==> <== <=> <==> [| |] ||"
const wMathChars = "…−∗∼≠≔⩴≕≪⋘≫⋙≤≥→⟶↦↣↠←⟵↢↞↔⟷⇝⟿⇜⬳⇒⤇⟹⟸⇔⟺⟦⟧‖"

// wParts returns the parts of a math node, without the marks of embedded code.
func wParts(w *wNode) []*wNode {
	k := w.without(SyntaxKindHash, SyntaxKindSemicolon)
	if len(k) == 0 {
		panic(wUnsure{"no parts"})
	}
	return k
}

func wMath(w *wNode) string {
	if w.kind != SyntaxKindMath {
		panic(wUnsure{"no math"})
	}
	var s []string
	for _, k := range w.all {
		switch k.kind {
		case SyntaxKindSpace:
			s = append(s, "space")
		case SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindHash, SyntaxKindSemicolon, SyntaxKindLeftParen, SyntaxKindRightParen:
		default:
			s = append(s, wExpr(k))
		}
	}
	return strings.Join(s, ", ")
}

// wWant computes the reference view of a document.
func wWant(root *SyntaxNode) (s string, why string) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(wUnsure)
			if !ok {
				panic(e)
			}
			why = u.why
		}
	}()
	return wMarkup(wTree(root)), ""
}

// --- casts -----------------------------------------------------------------------

type wCastCase struct {
	kind SyntaxKind
	is   func(*SyntaxNode) bool
	def  func() AstNode
	name string
}

func wCast[T AstNode](k SyntaxKind, def func() T) wCastCase {
	return wCastCase{k, func(n *SyntaxNode) bool {
		o, ok := SyntaxNode_cast[T](n).Get()
		if ok != SyntaxNode_is[T](n) {
			panic("is and cast disagree")
		}
		if ok && (o.to_untyped() != n || AstNode_span(o) != n.span()) {
			panic("the typed node has lost its node")
		}
		return ok
	}, func() AstNode { return def() }, fmt.Sprintf("%T", *new(T))}
}

var wCasts = []wCastCase{
	wCast(SyntaxKindMarkup, Markup_default), wCast(SyntaxKindText, Text_default), wCast(SyntaxKindSpace, Space_default),
	wCast(SyntaxKindLinebreak, Linebreak_default), wCast(SyntaxKindParbreak, Parbreak_default), wCast(SyntaxKindEscape, Escape_default),
	wCast(SyntaxKindShorthand, Shorthand_default), wCast(SyntaxKindSmartQuote, SmartQuote_default), wCast(SyntaxKindStrong, Strong_default),
	wCast(SyntaxKindEmph, Emph_default), wCast(SyntaxKindRaw, Raw_default), wCast(SyntaxKindRawLang, RawLang_default),
	wCast(SyntaxKindRawDelim, RawDelim_default), wCast(SyntaxKindLink, Link_default), wCast(SyntaxKindLabel, Label_default),
	wCast(SyntaxKindRef, Ref_default), wCast(SyntaxKindHeading, Heading_default), wCast(SyntaxKindListItem, ListItem_default),
	wCast(SyntaxKindEnumItem, EnumItem_default), wCast(SyntaxKindTermItem, TermItem_default), wCast(SyntaxKindEquation, Equation_default),
	wCast(SyntaxKindMath, Math_default), wCast(SyntaxKindMathText, MathText_default), wCast(SyntaxKindMathIdent, MathIdent_default),
	wCast(SyntaxKindMathShorthand, MathShorthand_default), wCast(SyntaxKindMathAlignPoint, MathAlignPoint_default), wCast(SyntaxKindMathDelimited, MathDelimited_default),
	wCast(SyntaxKindMathAttach, MathAttach_default), wCast(SyntaxKindMathPrimes, MathPrimes_default), wCast(SyntaxKindMathFrac, MathFrac_default),
	wCast(SyntaxKindMathRoot, MathRoot_default), wCast(SyntaxKindIdent, Ident_default), wCast(SyntaxKindNone, None_default),
	wCast(SyntaxKindAuto, Auto_default), wCast(SyntaxKindBool, Bool_default), wCast(SyntaxKindInt, Int_default),
	wCast(SyntaxKindFloat, Float_default), wCast(SyntaxKindNumeric, Numeric_default), wCast(SyntaxKindStr, Str_default),
	wCast(SyntaxKindCodeBlock, CodeBlock_default), wCast(SyntaxKindCode, Code_default), wCast(SyntaxKindContentBlock, ContentBlock_default),
	wCast(SyntaxKindParenthesized, Parenthesized_default), wCast(SyntaxKindArray, Array_default), wCast(SyntaxKindDict, Dict_default),
	wCast(SyntaxKindNamed, Named_default), wCast(SyntaxKindKeyed, Keyed_default), wCast(SyntaxKindSpread, Spread_default),
	wCast(SyntaxKindUnary, Unary_default), wCast(SyntaxKindBinary, Binary_default), wCast(SyntaxKindFieldAccess, FieldAccess_default),
	wCast(SyntaxKindFuncCall, FuncCall_default), wCast(SyntaxKindArgs, Args_default), wCast(SyntaxKindClosure, Closure_default),
	wCast(SyntaxKindParams, Params_default), wCast(SyntaxKindUnderscore, Underscore_default), wCast(SyntaxKindDestructuring, Destructuring_default),
	wCast(SyntaxKindLetBinding, LetBinding_default), wCast(SyntaxKindDestructAssignment, DestructAssignment_default), wCast(SyntaxKindSetRule, SetRule_default),
	wCast(SyntaxKindShowRule, ShowRule_default), wCast(SyntaxKindContextual, Contextual_default), wCast(SyntaxKindConditional, Conditional_default),
	wCast(SyntaxKindWhileLoop, WhileLoop_default), wCast(SyntaxKindForLoop, ForLoop_default), wCast(SyntaxKindModuleImport, ModuleImport_default),
	wCast(SyntaxKindImportItems, ImportItems_default), wCast(SyntaxKindImportItemPath, ImportItemPath_default), wCast(SyntaxKindRenamedImportItem, RenamedImportItem_default),
	wCast(SyntaxKindModuleInclude, ModuleInclude_default), wCast(SyntaxKindLoopBreak, LoopBreak_default), wCast(SyntaxKindLoopContinue, LoopContinue_default),
	wCast(SyntaxKindFuncReturn, FuncReturn_default),
}

// Kinds that have a typed node but are no expressions of their own.
var wNoExpr = map[SyntaxKind]bool{SyntaxKindMarkup: true, SyntaxKindSpace: true, SyntaxKindRawLang: true, SyntaxKindRawDelim: true,
	SyntaxKindCode: true, SyntaxKindNamed: true, SyntaxKindKeyed: true, SyntaxKindSpread: true, SyntaxKindArgs: true, SyntaxKindParams: true,
	SyntaxKindUnderscore: true, SyntaxKindDestructuring: true, SyntaxKindImportItems: true, SyntaxKindImportItemPath: true, SyntaxKindRenamedImportItem: true}

var wNoHash = map[SyntaxKind]bool{SyntaxKindText: true, SyntaxKindLinebreak: true, SyntaxKindParbreak: true, SyntaxKindEscape: true,
	SyntaxKindShorthand: true, SyntaxKindSmartQuote: true, SyntaxKindStrong: true, SyntaxKindEmph: true, SyntaxKindRaw: true, SyntaxKindLink: true,
	SyntaxKindLabel: true, SyntaxKindRef: true, SyntaxKindHeading: true, SyntaxKindListItem: true, SyntaxKindEnumItem: true, SyntaxKindTermItem: true,
	SyntaxKindEquation: true, SyntaxKindMath: true, SyntaxKindMathText: true, SyntaxKindMathIdent: true, SyntaxKindMathShorthand: true,
	SyntaxKindMathAlignPoint: true, SyntaxKindMathDelimited: true, SyntaxKindMathAttach: true, SyntaxKindMathPrimes: true, SyntaxKindMathFrac: true,
	SyntaxKindMathRoot: true, SyntaxKindUnary: true, SyntaxKindBinary: true, SyntaxKindClosure: true, SyntaxKindDestructAssignment: true}

var wLiteral = map[SyntaxKind]bool{SyntaxKindNone: true, SyntaxKindAuto: true, SyntaxKindBool: true, SyntaxKindInt: true, SyntaxKindFloat: true, SyntaxKindNumeric: true, SyntaxKindStr: true}

func wSum(k SyntaxKind) [6]string {
	has := false
	for _, c := range wCasts {
		if c.kind == k && !wNoExpr[k] {
			has = true
		}
	}
	pos := func(s string) string {
		if has {
			return s
		}
		return ""
	}
	var r [6]string // array item, dict item, argument, parameter, pattern, destructuring item
	r[0], r[2] = pos("*syntax.ArrayItem_Pos"), pos("*syntax.Arg_Pos")
	r[4] = pos("*syntax.Pattern_Normal")
	switch k {
	case SyntaxKindUnderscore:
		r[4] = "*syntax.Pattern_Placeholder"
	case SyntaxKindParenthesized:
		r[4] = "*syntax.Pattern_Parenthesized"
	case SyntaxKindDestructuring:
		r[4] = "*syntax.Pattern_Destructuring"
	}
	if r[4] != "" {
		r[3], r[5] = "*syntax.Param_Pos", "*syntax.DestructuringItem_Pattern"
	}
	switch k {
	case SyntaxKindNamed:
		r[1], r[2], r[3], r[5] = "*syntax.DictItem_Named", "*syntax.Arg_Named", "*syntax.Param_Named", "*syntax.DestructuringItem_Named"
	case SyntaxKindKeyed:
		r[1] = "*syntax.DictItem_Keyed"
	case SyntaxKindSpread:
		r[0], r[1], r[2], r[3], r[5] = "*syntax.ArrayItem_Spread", "*syntax.DictItem_Spread", "*syntax.Arg_Spread", "*syntax.Param_Spread", "*syntax.DestructuringItem_Spread"
	}
	return r
}

func wGotSum[T AstNode](n *SyntaxNode) string {
	o, ok := SyntaxNode_cast[T](n).Get()
	if !ok {
		return ""
	}
	if o.to_untyped() != n {
		panic("the typed node has lost its node")
	}
	return fmt.Sprintf("%T", o)
}

func c16Kind(r *vfRun, k SyntaxKind) error {
	n := SyntaxNode_placeholder(k)
	for _, c := range wCasts {
		r.Transitions++
		if got := c.is(n); got != (c.kind == k) {
			return fmt.Errorf("a node of kind %v casts to %s: %v", k, c.name, got)
		}
		if c.kind == k {
			d := c.def()
			if got := fmt.Sprintf("%T", d); got != c.name || d.to_untyped() == nil || d.to_untyped().kind() != k {
				return fmt.Errorf("the placeholder of %s is a %s", c.name, got)
			}
		}
	}
	e, ok := SyntaxNode_cast[Expr](n).Get()
	want := ""
	for _, c := range wCasts {
		if c.kind == k && !wNoExpr[k] {
			want = c.name
		}
	}
	if got := fmt.Sprintf("%T", e); ok != (want != "") || ok && got != want {
		return fmt.Errorf("a node of kind %v casts to the expression %s, expected %q", k, got, want)
	}
	if ok && e.to_untyped() != n {
		return fmt.Errorf("the expression of kind %v has lost its node", k)
	}
	es, oks := Expr_cast_with_space(n).Get()
	if oks != (ok || k == SyntaxKindSpace) || oks && es.to_untyped() != n {
		return fmt.Errorf("a node of kind %v casts to an expression or space: %v", k, oks)
	}
	if ok && Expr_hash(e) != !wNoHash[k] {
		return fmt.Errorf("%v after a hash: %v", k, Expr_hash(e))
	}
	if ok && Expr_is_literal(e) != wLiteral[k] {
		return fmt.Errorf("%v is a literal: %v", k, Expr_is_literal(e))
	}
	got := [6]string{wGotSum[ArrayItem](n), wGotSum[DictItem](n), wGotSum[Arg](n), wGotSum[Param](n), wGotSum[Pattern](n), wGotSum[DestructuringItem](n)}
	if w := wSum(k); got != w {
		return fmt.Errorf("a node of kind %v casts to the items %q, expected %q", k, got, w)
	}
	r.Validated++
	return nil
}

// --- math: trees built by hand ----------------------------------------------------

// c16Math builds attachments, roots, fractions and delimited math.
func c16Math(r *vfRun, c string) error {
	leaf := func(k SyntaxKind, t string) *SyntaxNode { return NewLeaf(k, t) }
	triv := []func() []*SyntaxNode{
		func() []*SyntaxNode { return nil },
		func() []*SyntaxNode { return []*SyntaxNode{leaf(SyntaxKindSpace, " ")} },
		func() []*SyntaxNode {
			return []*SyntaxNode{leaf(SyntaxKindSpace, " "), leaf(SyntaxKindBlockComment, "/*c*/")}
		},
	}
	f := strings.Fields(c)
	t, _ := strconv.Atoi(f[1])
	gap := triv[t]
	id := func(s string) *SyntaxNode { return leaf(SyntaxKindMathIdent, s) }
	var kids []*SyntaxNode
	add := func(ns ...*SyntaxNode) {
		if len(kids) > 0 {
			kids = append(kids, gap()...)
		}
		kids = append(kids, ns...)
	}
	var kind SyntaxKind
	want := ""
	primes := func(n int) *SyntaxNode {
		var ps []*SyntaxNode
		for i := 0; i < n; i++ {
			ps = append(ps, leaf(SyntaxKindPrime, "'"))
		}
		return NewInner(SyntaxKindMathPrimes, ps)
	}
	switch f[2] {
	case "attach":
		kind, want = SyntaxKindMathAttach, "attach mathid aa"
		add(id("aa"))
		for _, p := range f[3:] {
			switch {
			case p[0] == '\'':
				add(primes(len(p)))
				want += vfB(" primes %d", len(p))
			case p == "_":
				add(leaf(SyntaxKindUnderscore, "_"))
				add(id("bb"))
			case p == "^":
				add(leaf(SyntaxKindHat, "^"))
				add(id("tt"))
			}
		}
		if strings.Contains(c, "_") {
			want += " _ mathid bb"
		}
		if strings.Contains(c, "^") {
			want += " ^ mathid tt"
		}
	case "frac":
		kind, want = SyntaxKindMathFrac, "frac mathid aa / mathid bb"
		add(id("aa"))
		add(leaf(SyntaxKindSlash, "/"))
		add(id("bb"))
	case "root":
		kind, want = SyntaxKindMathRoot, "root "+map[string]string{"√": "", "∛": "3 ", "∜": "4 "}[f[3]]+"mathid aa"
		add(leaf(SyntaxKindRoot, f[3]))
		add(id("aa"))
	case "primes":
		kind, want = SyntaxKindMathPrimes, "primes "+f[3]
		n, _ := strconv.Atoi(f[3])
		kids = primes(n).children()
	case "delim":
		kind, want = SyntaxKindMathDelimited, "delim mathchar ( {"+map[int]string{0: "", 1: "space, ", 2: "space, "}[t]+"mathid aa} mathchar )"
		kids = []*SyntaxNode{leaf(SyntaxKindMathText, "("), NewInner(SyntaxKindMath, append(gap(), id("aa"))), leaf(SyntaxKindMathText, ")")}
	case "equation":
		kind = SyntaxKindEquation
		kids = []*SyntaxNode{leaf(SyntaxKindDollar, "$")}
		block := true
		for i, p := range f[3] {
			if i == 1 {
				kids = append(kids, NewInner(SyntaxKindMath, []*SyntaxNode{id("aa")}))
			}
			if p == 's' {
				kids = append(kids, leaf(SyntaxKindSpace, " "))
			} else {
				block = false
			}
		}
		kids = append(kids, leaf(SyntaxKindDollar, "$"))
		want = vfB("equation %v false {mathid aa}", block)
	case "text":
		n := leaf(SyntaxKindMathText, f[3])
		want = "mathchar " + f[3]
		if strings.ContainsAny(f[3][:1], "0123456789") {
			want = "mathnum " + f[3]
		}
		if got := vExpr(&MathText{SyntaxNode: n}); got != want {
			return fmt.Errorf("math text %q is %s, expected %s", f[3], got, want)
		}
		return nil
	}
	n := NewInner(kind, kids)
	r.Transitions++
	e, ok := SyntaxNode_cast[Expr](n).Get()
	if !ok {
		return fmt.Errorf("%v is no expression", kind)
	}
	if got := vExpr(e); got != want {
		return fmt.Errorf("the view of %s is\n%s\nexpected\n%s", c, got, want)
	}
	r.Validated++
	return nil
}

// --- driver ---------------------------------------------------------------------

// vTouch calls every accessor of every node; only totality counts.
func vTouch(n *SyntaxNode) {
	vTouch1(n)
	for _, c := range n.children() {
		vTouch(c)
	}
}

func vTouch1(n *SyntaxNode) {
	vShallow, vLevel = true, 0
	defer func() { vShallow = false }()
	if m, ok := SyntaxNode_cast[*Markup](n).Get(); ok {
		m.exprs()
	}
	if e, ok := SyntaxNode_cast[Expr](n).Get(); ok {
		vExpr(e)
	}
	vLevel = 1
	if p, ok := SyntaxNode_cast[Pattern](n).Get(); ok {
		vPattern(p)
	}
	if a, ok := SyntaxNode_cast[*Args](n).Get(); ok {
		vArgs(a)
	}
	if s, ok := SyntaxNode_cast[*Spread](n).Get(); ok {
		vSink(s)
	}
}

func c16Check(r *vfRun, c string) error {
	tag, rest, _ := strings.Cut(c, "\x00")
	text := rest
	switch tag {
	case "kind":
		k, _ := strconv.Atoi(rest)
		return c16Kind(r, SyntaxKind(k))
	case "parts":
		// Nodes with parts missing, or with any other parts.
		var ks []SyntaxKind
		for _, f := range strings.Fields(rest) {
			k, _ := strconv.Atoi(f)
			ks = append(ks, SyntaxKind(k))
		}
		var cs []*SyntaxNode
		for _, k := range ks[1:] {
			cs = append(cs, NewLeaf(k, "x"))
		}
		vTouch1(NewInner(ks[0], cs))
		r.Validated++
		return nil
	case "math":
		return c16Math(r, "math "+rest)
	case "g":
		style, doc, ok := c11Build(rest)
		if !ok {
			return nil
		}
		text = gPrint(doc.toks, style)
	}
	root := Parse(text)
	m, ok := SyntaxNode_cast[*Markup](root).Get()
	if !ok {
		return fmt.Errorf("the root of %q is no markup", text)
	}
	vTouch(root)
	r.Transitions++
	if root.erroneous() {
		r.Count("erroneous", 1)
		return nil
	}
	vLevel = 0
	got := vMarkup(m)
	want, why := wWant(root)
	if why != "" {
		if tag == "g" || tag == "lit" {
			return fmt.Errorf("no reference view of %q: %s", text, why)
		}
		r.Count("unsure: "+why, 1)
		return nil
	}
	if got != want {
		return fmt.Errorf("the typed view of %q is\n%s\nexpected\n%s", text, got, want)
	}
	r.Validated++
	if r.Validated%16 == 0 {
		r.Outcome(got)
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c16Check, Gen: func(r *vfRun) {
		pick := func(a, b int) int {
			if r.Thorough {
				return b
			}
			return a
		}
		last := int(SyntaxKindDestructuring)
		for _, c := range wCasts {
			last = max(last, int(c.kind))
		}
		for k := 0; k <= last+60; k++ {
			if SyntaxKind(k) != SyntaxKindError && !strings.Contains(SyntaxKind(k).String(), "SyntaxKind(") {
				r.Emit(vfB("kind\x00%d", k))
			}
		}
		r.Bound("missing parts", "every kind of inner node without children and with one child of any kind")
		for _, c := range wCasts {
			switch c.kind {
			case SyntaxKindEscape, SyntaxKindShorthand, SyntaxKindMathShorthand, SyntaxKindMathText, SyntaxKindStr, SyntaxKindRef:
				continue // never without their text or marker
			}
			r.Emit(vfB("parts\x00%d", c.kind))
			for _, d := range wCasts {
				if d.kind != SyntaxKindStr {
					r.Emit(vfB("parts\x00%d %d", c.kind, d.kind))
				}
			}
		}
		r.Bound("kinds", "every kind against every typed node, sum type and predicate")
		for t := 0; t < 3; t++ {
			for _, p := range []string{"", "'", "'''"} {
				for _, a := range []string{"", "_", "^", "_ ^", "^ _"} {
					r.Emit(vfB("math\x00%d attach %s %s", t, p, a))
				}
			}
			for _, s := range []string{"frac", "root √", "root ∛", "root ∜", "primes 1", "primes 2", "primes 9", "delim", "equation ss", "equation sx", "equation xs", "equation xx", "text x", "text 3.14", "text é", "text ("} {
				r.Emit(vfB("math\x00%d %s", t, s))
			}
		}
		r.Bound("math", "attachments, fractions, roots, primes, delimited math and equations built by hand, 3 forms of trivia")

		// Grammar derivations.
		na, nc := len(c11A), len(c11C)
		n := 0
		for s := 0; s < gStyles; s++ {
			for a := 0; a < na; a++ {
				for i := 0; i < nc; i++ {
					n++
					r.Emit(vfB("g\x00%d.%d.%d.%d", s, n%gWraps, a, i))
					for j := 0; j < nc; j++ {
						if a < 3 || r.Thorough {
							n++
							r.Emit(vfB("g\x00%d.%d.%d.%d.%d", s, n%gWraps, a, i, j))
						}
					}
				}
			}
		}
		r.Bound("derivations", vfB("%d atoms in every context and x in every pair of %d contexts, %d trivia styles", na, nc, gStyles))
		if r.Thorough {
			for i := 0; i < nc; i++ {
				for j := 0; j < nc; j++ {
					for k := 0; k < nc; k++ {
						n++
						r.Emit(vfB("g\x00%d.%d.%d.%d.%d.%d", n%gStyles, n%gWraps, 0, i, j, k))
					}
				}
			}
			r.Bound("derivations 3", "every triple of contexts around x")
		}

		// Literals.
		lit := func(f string) func(string) { return func(s string) { r.Emit("lit\x00" + vfB(f, s)) } }
		vfWords([]string{"0", "1", "7", "9", "5"}, 1, pick(5, 6), "", lit("#%s"))
		vfWords([]string{"0", "1", "7", "9", "a", "F"}, 1, pick(4, 5), "", func(s string) { r.Emit("lex\x00#0x" + s) })
		vfWords([]string{"0", "1"}, 1, pick(9, 12), "", lit("#0b%s"))
		vfWords([]string{"0", "7", "3"}, 1, pick(5, 7), "", lit("#0o%s"))
		for _, s := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "0x7fffffffffffffff", "0o777777777777777777777", "000000000000000000000000001"} {
			lit("#%s")(s)
		}
		vfWords([]string{"0", "1", "9", ".", "e", "E", "-", "+"}, 1, pick(5, 7), "", func(s string) { r.Emit("lex\x00#" + s) })
		for _, m := range []string{"1", "0", "4.9", ".5", "2.", "17976931348623157", "0.1", "123456789.125"} {
			for _, e := range []string{"", "e0", "e5", "e-5", "e308", "e309", "e-323", "e-325", "e99999999999", "E+2", "e-99999999999"} {
				r.Emit("lex\x00#" + m + e)
				for _, u := range wUnits {
					r.Emit("lex\x00#" + m + e + u.s)
				}
			}
		}
		vfWords([]string{"0", "1", ".", "5", "e2", "e"}, 1, pick(3, 4), "", func(s string) {
			for _, u := range wUnits {
				r.Emit("lex\x00#" + s + u.s)
			}
		})
		r.Bound("numbers", "all short numbers in bases 2, 8, 10, 16, with fractions, exponents and the 9 units, and boundary values")
		vfWords([]string{"\\", "\"", "n", "u", "{", "}", "4", "D8", "t", "r", "é"}, 0, pick(5, 6), "", func(s string) { r.Emit("lex\x00#\"" + s + "\"") })
		for _, h := range []string{"0", "9", "41", "e9", "D7FF", "D800", "DFFF", "E000", "FFFD", "10FFFF", "110000", "7fffffff", "80000000", "FFFFFFFF", "100000041", "00000000041", "ffffffffffffffffff"} {
			for _, f := range []string{"#\"\\u{%s}\"", "#\"a\\u{%sb\"", "#\"\\u{%s}}\"", "#\"\\u{%s\\u{41}\"", "\\u{%s}", "a\\u{%s}b"} {
				r.Emit("lex\x00" + vfB(f, h))
			}
		}
		r.Bound("strings", "all string contents over 11 characters up to the length bound and escapes at all Unicode boundaries")
		for _, p := range []string{"", ".", "/", "a", "a.typ", "a.b.typ", ".typ", "x/a.typ", "x/y/a", "a/", "a//", "..", "x/..", "../a.typ", "a b.typ", "1.typ", "_x-1.typ", "a.", "x/.a", "x.y/b", "let.typ", "@", "@a", "@preview/pkg:0.1.0", "@p/q:1.2", "@p/q", "@p:1.0.0", "@p/a-b:1.2.3", "@/x:1.0.0", "@p/:1.0.0", "a/@b", "x\\\\y"} {
			for _, t := range []string{"", " as k", ": *", ": a", " /*c*/ as /*c*/ k /*c*/ : a as b, c.d"} {
				r.Emit("lex\x00#import \"" + p + "\"" + t)
			}
		}
		for _, n := range []string{"0", "1", "23", "007", "18446744073709551615", "18446744073709551616", "99999999999999999999"} {
			r.Emit("lex\x00" + n + ". a")
		}
		r.Bound("imports", "32 import paths with 5 tails")

		// Calls and argument lists.
		vfWords([]string{"a", "b: 1", "..c", ",", ", ", "/*c*/", "\n", " "}, 0, pick(4, 5), "", func(s string) {
			r.Emit("\x00#f(" + s + ")")
			r.Emit("\x00#(" + s + ")")
			r.Emit("\x00#let (" + s + ") = x")
		})
		r.Bound("lists", "all words over 8 tokens as arguments, array and pattern")

		// Math.
		vfWords([]string{"a", "xy(", "(", ")", "_", "^", "/", "√", "'", "#x", ",", ";", " "}, 0, pick(5, 6), "", func(s string) { r.Emit("\x00$" + s + "$") })
		vfWords([]string{"a", "1.5", "k: ", "..", ",", ";", " ", "#x;", "f.g", "->", "\"s\"", "&", "/*c*/"}, 0, pick(4, 5), "", func(s string) { r.Emit("\x00$mat(" + s + ")$") })
		for _, t := range strings.Fields(wMathShort) {
			r.Emit("\x00$" + t + "$")
		}
		r.Bound("equations", vfB("all words over 13 math tokens up to length %d, arguments over 13 tokens up to length %d, all shorthands", pick(5, 6), pick(4, 5)))

		// Markup.
		vfWords([]string{"a", " ", "\n", "\n\n", "= ", "== ", "- ", "+ ", "7. ", "/ ", ": ", "*", "_", "[", "]", "@r", "<l>", "https://x.y", "/*c*/", "\\\n", "\\#", "--", "...", "'", "\"", "#let x = 1", "#x", ";", "`r`", "```p q\n w```"}, 1, pick(3, 4), "", func(s string) { r.Emit("\x00" + s) })
		for _, nl := range []string{"\n", "\r", "\r\n", "\v", "\f", "\u0085", "\u2028", "\u2029"} {
			vfWords([]string{"a", "`", " ", "\t", nl, "\\"}, 0, pick(4, 5), "", func(s string) {
				r.Emit("\x00```" + s + "```")
				r.Emit("\x00`" + s + "`")
			})
			vfWords([]string{"a", "= ", "- ", "/ ", ": ", " ", nl, "<l>", "#let x = 1", "[", "]"}, 1, pick(4, 5), "", func(s string) { r.Emit("\x00" + s) })
			vfWords([]string{"a", "if ", "else ", "{", "}", "[", "]", ".b", "(", ")", nl, "="}, 1, pick(4, 5), "", func(s string) { r.Emit("\x00#{" + s + "}") })
		}
		r.Bound("newlines", vfB("raw text, markup and code with each of the 8 newlines: all words over 6, 11 and 12 tokens up to length %d", pick(4, 5)))
		r.Bound("markup", vfB("all words over 30 markup tokens up to length %d", pick(3, 4)))
		vfTexts(r, pick(1, 2), func(s string) { r.Emit("\x00" + s) })
	}}
}
