// C24: syntax sets against plain maps.
package PKG

import (
	"fmt"
	"strconv"
	"strings"
)

// Case "h" + history: operations separated by blanks, each appending a set to
// the pool: N<k>.<k>... new, A<i>.<k> add, U<i>.<j> union, C<i> clone.
// Case "p" + name: a predefined set.
func c24Check(r *vfRun, c string) error {
	if c[0] == 'p' {
		p := c24Pre()[c[1:]]
		want := map[SyntaxKind]bool{}
		for _, k := range p.kinds {
			want[k] = true
		}
		for k := 1; k <= int(NSyntaxKinds); k++ {
			r.Transitions++
			r.Validated++
			if got := p.set.Contains(SyntaxKind(k)); got != want[SyntaxKind(k)] {
				return fmt.Errorf("the set %s contains %v: %v, want %v", c[1:], SyntaxKind(k), got, !got)
			}
		}
		return nil
	}
	if c[0] == 'k' {
		n, _ := strconv.Atoi(c[1:])
		return c24Kind(r, SyntaxKind(n))
	}
	if c[0] == 't' {
		return c24Tree(r, Parse(c[1:]))
	}
	var pool []*SyntaxSet
	var model []map[int]bool
	num := func(s string) int { n, _ := strconv.Atoi(s); return n }
	for _, op := range strings.Fields(c[1:]) {
		a := strings.Split(op[1:], ".")
		m := map[int]bool{}
		var s *SyntaxSet
		switch op[0] {
		case 'N':
			var ks []SyntaxKind
			for _, x := range a {
				if x != "" {
					ks = append(ks, SyntaxKind(num(x)))
					m[num(x)] = true
				}
			}
			s = NewSyntaxSet(ks...)
		case 'A':
			for k := range model[num(a[0])] {
				m[k] = true
			}
			m[num(a[1])] = true
			s = pool[num(a[0])].Add(SyntaxKind(num(a[1])))
		case 'U':
			for k := range model[num(a[0])] {
				m[k] = true
			}
			for k := range model[num(a[1])] {
				m[k] = true
			}
			s = pool[num(a[0])].Union(pool[num(a[1])])
		case 'C':
			for k := range model[num(a[0])] {
				m[k] = true
			}
			s = pool[num(a[0])].Clone()
		}
		pool, model = append(pool, s), append(model, m)
		r.Transitions++
		// every set made so far, the operands included
		for i := range pool {
			for k := 1; k <= int(NSyntaxKinds); k++ {
				if got := pool[i].Contains(SyntaxKind(k)); got != model[i][k] {
					return fmt.Errorf("after %s in %q set %d contains kind %d: %v, want %v", op, c[1:], i, k, got, !got)
				}
			}
			r.Validated++
		}
	}
	r.Outcome(fmt.Sprint(model[len(model)-1]))
	return nil
}

type c24P struct {
	set   *SyntaxSet
	kinds []SyntaxKind
}

// The predefined sets, as the language reference lists them.
func c24Pre() map[string]c24P {
	cat := func(a []SyntaxKind, b ...SyntaxKind) []SyntaxKind { return append(append([]SyntaxKind{}, a...), b...) }
	atom := []SyntaxKind{SyntaxKindIdent, SyntaxKindLeftBrace, SyntaxKindLeftBracket, SyntaxKindLeftParen, SyntaxKindDollar,
		SyntaxKindLet, SyntaxKindSet, SyntaxKindShow, SyntaxKindContext, SyntaxKindIf, SyntaxKindWhile, SyntaxKindFor,
		SyntaxKindImport, SyntaxKindInclude, SyntaxKindBreak, SyntaxKindContinue, SyntaxKindReturn, SyntaxKindNone,
		SyntaxKindAuto, SyntaxKindInt, SyntaxKindFloat, SyntaxKindBool, SyntaxKindNumeric, SyntaxKindStr, SyntaxKindLabel, SyntaxKindRaw}
	prim := cat(atom, SyntaxKindUnderscore)
	un := []SyntaxKind{SyntaxKindPlus, SyntaxKindMinus, SyntaxKindNot}
	expr := cat(prim, un...)
	pat := cat(atom, SyntaxKindLeftParen, SyntaxKindUnderscore)
	return map[string]c24P{
		"statement": {StmtSet, []SyntaxKind{SyntaxKindLet, SyntaxKindSet, SyntaxKindShow, SyntaxKindImport, SyntaxKindInclude, SyntaxKindReturn}},
		"math expression": {MathExprSet, []SyntaxKind{SyntaxKindHash, SyntaxKindMathIdent, SyntaxKindFieldAccess, SyntaxKindDot, SyntaxKindComma,
			SyntaxKindSemicolon, SyntaxKindRightParen, SyntaxKindText, SyntaxKindMathText, SyntaxKindMathShorthand, SyntaxKindLinebreak,
			SyntaxKindMathAlignPoint, SyntaxKindEscape, SyntaxKindStr, SyntaxKindRoot, SyntaxKindPrime}},
		"code expression":        {CodeExprSet, expr},
		"atomic code expression": {AtomicCodeExprSet, atom},
		"code primary":           {CodePrimarySet, prim},
		"atomic code primary":    {AtomicCodePrimarySet, atom},
		"unary operator":         {UnaryOpSet, un},
		"binary operator": {BinaryOpSet, []SyntaxKind{SyntaxKindPlus, SyntaxKindMinus, SyntaxKindStar, SyntaxKindSlash, SyntaxKindAnd, SyntaxKindOr,
			SyntaxKindEqEq, SyntaxKindExclEq, SyntaxKindLt, SyntaxKindLtEq, SyntaxKindGt, SyntaxKindGtEq, SyntaxKindEq, SyntaxKindIn,
			SyntaxKindPlusEq, SyntaxKindHyphEq, SyntaxKindStarEq, SyntaxKindSlashEq}},
		"array or dictionary item": {ArrayOrDictItemSet, cat(expr, SyntaxKindDots)},
		"argument":                 {ArgSet, cat(expr, SyntaxKindDots)},
		"parameter":                {ParamSet, cat(pat, SyntaxKindDots)},
		"destructuring item":       {DestructuringItemSet, cat(pat, SyntaxKindDots)},
		"pattern":                  {PatternSet, pat},
		"pattern leaf":             {PatternLeafSet, atom},
	}
}

func vfProperty() vfProp {
	return vfProp{Check: c24Check, Gen: func(r *vfRun) {
		pre := c24Pre()
		var names []string
		for n := range pre {
			names = append(names, n)
		}
		for i := range names {
			for j := i + 1; j < len(names); j++ {
				if names[j] < names[i] {
					names[i], names[j] = names[j], names[i]
				}
			}
		}
		for _, n := range names {
			r.Emit("p" + n)
		}
		r.Bound("predefined", vfB("%d predefined sets, membership of each of the %d kinds", len(names), NSyntaxKinds))
		for k := 1; k <= int(NSyntaxKinds); k++ {
			for l := 1; l <= int(NSyntaxKinds); l++ {
				r.Emit(vfB("hN%d N%d A0.%d U0.1 U1.0", k, l, l))
			}
		}
		r.Bound("pairs", vfB("sets of every pair of the %d kinds by construction, insertion and union", NSyntaxKinds))
		for k := 0; k < 256; k++ {
			r.Emit(vfB("k%d", k))
		}
		r.Bound("kinds", "the name and seven classes of every kind, and of all other numbers of a byte")
		toks := []string{"a", "1", "#", "(", ")", "[", "]", "{", "}", ";", " ", "\n", "$", "=", ":", ",", "\"", "//", "/*", "*/", "#!", "let ", "set ", "show ", "import ", "include ", "if ", "else ", "not ", "in ", "none", "as ", "return ", "."}
		depth := 4
		if r.Thorough {
			depth = 5
		}
		vfWords(toks, 1, depth-1, "", func(s string) { r.Emit("t" + s) })
		vfWords(toks, depth-1, depth-1, "", func(s string) { r.Emit("t#{" + s + "}") })
		r.Bound("trees", vfB("the classes of all nodes of all words of up to %d of %d tokens, in markup and in code", depth-1, len(toks)))
		ks := []int{1, 2, 63, 64, 65, 128, int(NSyntaxKinds)}
		depth = 3
		if r.Thorough {
			depth = 4
		}
		var rec func(h string, n, d int)
		rec = func(h string, n, d int) {
			if d == 0 {
				r.Emit(h)
				return
			}
			for _, k := range ks {
				for i := 0; i < n; i++ {
					rec(vfB("%s A%d.%d", h, i, k), n+1, d-1)
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					rec(vfB("%s U%d.%d", h, i, j), n+1, d-1)
				}
				rec(vfB("%s C%d", h, i), n+1, d-1)
			}
			rec(vfB("%s N%d.%d", h, ks[2], ks[3]), n+1, d-1)
		}
		for _, init := range []string{"hN", "hN1", vfB("hN64.%d", NSyntaxKinds), "hN N2.65"} {
			rec(init, strings.Count(init, "N"), depth)
		}
		r.Bound("histories", vfB("every history of %d operations on all sets made so far, %d kinds, 4 starts", depth, len(ks)))
	}}
}

// c24Names are the names of the kinds, as messages use them.
var c24Names = map[SyntaxKind]string{
	SyntaxKindEnd: "end of tokens",
	SyntaxKindError: "syntax error",
	SyntaxKindShebang: "shebang",
	SyntaxKindLineComment: "line comment",
	SyntaxKindBlockComment: "block comment",
	SyntaxKindMarkup: "markup",
	SyntaxKindText: "text",
	SyntaxKindSpace: "space",
	SyntaxKindLinebreak: "line break",
	SyntaxKindParbreak: "paragraph break",
	SyntaxKindEscape: "escape sequence",
	SyntaxKindShorthand: "shorthand",
	SyntaxKindSmartQuote: "smart quote",
	SyntaxKindStrong: "strong content",
	SyntaxKindEmph: "emphasized content",
	SyntaxKindRaw: "raw block",
	SyntaxKindRawLang: "raw language tag",
	SyntaxKindRawTrimmed: "raw trimmed",
	SyntaxKindRawDelim: "raw delimiter",
	SyntaxKindLink: "link",
	SyntaxKindLabel: "label",
	SyntaxKindRef: "reference",
	SyntaxKindRefMarker: "reference marker",
	SyntaxKindHeading: "heading",
	SyntaxKindHeadingMarker: "heading marker",
	SyntaxKindListItem: "list item",
	SyntaxKindListMarker: "list marker",
	SyntaxKindEnumItem: "enum item",
	SyntaxKindEnumMarker: "enum marker",
	SyntaxKindTermItem: "term list item",
	SyntaxKindTermMarker: "term marker",
	SyntaxKindEquation: "equation",
	SyntaxKindMath: "math",
	SyntaxKindMathText: "math text",
	SyntaxKindMathIdent: "math identifier",
	SyntaxKindMathShorthand: "math shorthand",
	SyntaxKindMathAlignPoint: "math alignment point",
	SyntaxKindMathDelimited: "delimited math",
	SyntaxKindMathAttach: "math attachments",
	SyntaxKindMathFrac: "math fraction",
	SyntaxKindMathRoot: "math root",
	SyntaxKindMathPrimes: "math primes",
	SyntaxKindHash: "hash",
	SyntaxKindLeftBrace: "opening brace",
	SyntaxKindRightBrace: "closing brace",
	SyntaxKindLeftBracket: "opening bracket",
	SyntaxKindRightBracket: "closing bracket",
	SyntaxKindLeftParen: "opening paren",
	SyntaxKindRightParen: "closing paren",
	SyntaxKindComma: "comma",
	SyntaxKindSemicolon: "semicolon",
	SyntaxKindColon: "colon",
	SyntaxKindStar: "star",
	SyntaxKindUnderscore: "underscore",
	SyntaxKindDollar: "dollar sign",
	SyntaxKindPlus: "plus",
	SyntaxKindMinus: "minus",
	SyntaxKindSlash: "slash",
	SyntaxKindHat: "hat",
	SyntaxKindPrime: "prime",
	SyntaxKindDot: "dot",
	SyntaxKindEq: "equals sign",
	SyntaxKindEqEq: "equality operator",
	SyntaxKindExclEq: "inequality operator",
	SyntaxKindLt: "less-than operator",
	SyntaxKindLtEq: "less-than or equal operator",
	SyntaxKindGt: "greater-than operator",
	SyntaxKindGtEq: "greater-than or equal operator",
	SyntaxKindPlusEq: "add-assign operator",
	SyntaxKindHyphEq: "subtract-assign operator",
	SyntaxKindStarEq: "multiply-assign operator",
	SyntaxKindSlashEq: "divide-assign operator",
	SyntaxKindDots: "dots",
	SyntaxKindArrow: "arrow",
	SyntaxKindRoot: "root",
	SyntaxKindNot: "operator `not`",
	SyntaxKindAnd: "operator `and`",
	SyntaxKindOr: "operator `or`",
	SyntaxKindNone: "`none`",
	SyntaxKindAuto: "`auto`",
	SyntaxKindLet: "keyword `let`",
	SyntaxKindSet: "keyword `set`",
	SyntaxKindShow: "keyword `show`",
	SyntaxKindContext: "keyword `context`",
	SyntaxKindIf: "keyword `if`",
	SyntaxKindElse: "keyword `else`",
	SyntaxKindFor: "keyword `for`",
	SyntaxKindIn: "keyword `in`",
	SyntaxKindWhile: "keyword `while`",
	SyntaxKindBreak: "keyword `break`",
	SyntaxKindContinue: "keyword `continue`",
	SyntaxKindReturn: "keyword `return`",
	SyntaxKindImport: "keyword `import`",
	SyntaxKindInclude: "keyword `include`",
	SyntaxKindAs: "keyword `as`",
	SyntaxKindCode: "code",
	SyntaxKindIdent: "identifier",
	SyntaxKindBool: "boolean",
	SyntaxKindInt: "integer",
	SyntaxKindFloat: "float",
	SyntaxKindNumeric: "numeric value",
	SyntaxKindStr: "string",
	SyntaxKindCodeBlock: "code block",
	SyntaxKindContentBlock: "content block",
	SyntaxKindParenthesized: "group",
	SyntaxKindArray: "array",
	SyntaxKindDict: "dictionary",
	SyntaxKindNamed: "named pair",
	SyntaxKindKeyed: "keyed pair",
	SyntaxKindUnary: "unary expression",
	SyntaxKindBinary: "binary expression",
	SyntaxKindFieldAccess: "field access",
	SyntaxKindFuncCall: "function call",
	SyntaxKindArgs: "call arguments",
	SyntaxKindSpread: "spread",
	SyntaxKindClosure: "closure",
	SyntaxKindParams: "closure parameters",
	SyntaxKindLetBinding: "`let` expression",
	SyntaxKindSetRule: "`set` expression",
	SyntaxKindShowRule: "`show` expression",
	SyntaxKindContextual: "`context` expression",
	SyntaxKindConditional: "`if` expression",
	SyntaxKindWhileLoop: "while-loop expression",
	SyntaxKindForLoop: "for-loop expression",
	SyntaxKindModuleImport: "`import` expression",
	SyntaxKindImportItems: "import items",
	SyntaxKindImportItemPath: "imported item path",
	SyntaxKindRenamedImportItem: "renamed import item",
	SyntaxKindModuleInclude: "`include` expression",
	SyntaxKindLoopBreak: "`break` expression",
	SyntaxKindLoopContinue: "`continue` expression",
	SyntaxKindFuncReturn: "`return` expression",
	SyntaxKindDestructuring: "destructuring pattern",
	SyntaxKindDestructAssignment: "destructuring assignment expression",
}

var c24Keywords = map[string]SyntaxKind{
	"not": SyntaxKindNot, "and": SyntaxKindAnd, "or": SyntaxKindOr, "none": SyntaxKindNone, "auto": SyntaxKindAuto, "let": SyntaxKindLet, "set": SyntaxKindSet,
	"show": SyntaxKindShow, "context": SyntaxKindContext, "if": SyntaxKindIf, "else": SyntaxKindElse, "for": SyntaxKindFor, "in": SyntaxKindIn, "while": SyntaxKindWhile,
	"break": SyntaxKindBreak, "continue": SyntaxKindContinue, "return": SyntaxKindReturn, "import": SyntaxKindImport, "include": SyntaxKindInclude, "as": SyntaxKindAs,
}

// c24Kind checks the name and the classes of a kind.
func c24Kind(r *vfRun, k SyntaxKind) error {
	if k.Name() != c24Names[k] || k.String() != c24Names[k] {
		return fmt.Errorf("kind %d is called %q and %q, want %q", int(k), k.Name(), k.String(), c24Names[k])
	}
	in := func(ks ...SyntaxKind) bool {
		for _, x := range ks {
			if x == k {
				return true
			}
		}
		return false
	}
	keyword := false
	for _, x := range c24Keywords {
		keyword = keyword || x == k
	}
	for _, c := range []struct {
		what      string
		got, want bool
	}{
		{"a keyword", k.IsKeyword(), keyword},
		{"trivia", k.IsTrivia(), in(SyntaxKindShebang, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindSpace, SyntaxKindParbreak)},
		{"grouping", k.IsGrouping(), in(SyntaxKindLeftBrace, SyntaxKindRightBrace, SyntaxKindLeftBracket, SyntaxKindRightBracket, SyntaxKindLeftParen, SyntaxKindRightParen)},
		{"a terminator", k.IsTerminator(), in(SyntaxKindEnd, SyntaxKindSemicolon, SyntaxKindRightBrace, SyntaxKindRightBracket, SyntaxKindRightParen)},
		{"a block", k.IsBlock(), in(SyntaxKindCodeBlock, SyntaxKindContentBlock)},
		{"a statement", k.IsStmt(), in(SyntaxKindLetBinding, SyntaxKindSetRule, SyntaxKindShowRule, SyntaxKindModuleImport, SyntaxKindModuleInclude)},
		{"an error", k.IsError(), in(SyntaxKindError)},
	} {
		r.Transitions++
		r.Validated++
		if c.got != c.want {
			return fmt.Errorf("kind %d (%v) is %s: %v, want %v", int(k), k, c.what, c.got, c.want)
		}
	}
	return nil
}

// c24Tree checks the classes of all nodes of a tree by their texts.
func c24Tree(r *vfRun, root *SyntaxNode) error {
	var rec func(n *SyntaxNode) error
	rec = func(n *SyntaxNode) error {
		r.Transitions++
		k, text := n.SyntaxKind(), c24Text(n)
		inner := false
		var first string
		switch x := n.Repr.(type) {
		case *ErrorNode:
			if !k.IsError() {
				return fmt.Errorf("the error node %q is no error but %v", text, k)
			}
			return nil
		case *InnerNode:
			inner = true
			for _, c := range x.Children {
				if first == "" && !c.SyntaxKind().IsTrivia() {
					first = c24Text(c)
				}
			}
		}
		if k.IsError() {
			return fmt.Errorf("the node %q without a message is an error", text)
		}
		blank := strings.TrimSpace(text) == "" && text != "" || strings.HasPrefix(text, "//") || strings.HasPrefix(text, "/*") || strings.HasPrefix(text, "#!")
		if k.IsTrivia() && (!blank || inner) {
			return fmt.Errorf("%v %q is trivia", k, text)
		}
		if kw, ok := c24Keywords[text]; k.IsKeyword() && (!ok || kw != k || inner) {
			return fmt.Errorf("%v %q is a keyword", k, text)
		}
		if k.IsGrouping() && (len(text) != 1 || !strings.Contains("()[]{}", text) || inner) {
			return fmt.Errorf("%v %q is grouping", k, text)
		}
		if k.IsTerminator() && (len(text) > 1 || !strings.Contains(")]};", text) || inner) {
			return fmt.Errorf("%v %q is a terminator", k, text)
		}
		if k.IsBlock() && (!inner || first != "{" && first != "[") {
			return fmt.Errorf("%v %q is a block", k, text)
		}
		if k.IsStmt() && (!inner || first != "let" && first != "set" && first != "show" && first != "import" && first != "include") {
			return fmt.Errorf("%v %q is a statement", k, text)
		}
		r.Validated++
		r.Outcome(vfB("%d %d", int(k), len(text)))
		if x, ok := n.Repr.(*InnerNode); ok {
			for _, c := range x.Children {
				if err := rec(c); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return rec(root)
}

// c24Text joins the texts of a node's leaves.
func c24Text(n *SyntaxNode) string {
	switch x := n.Repr.(type) {
	case *LeafNode:
		return x.Text
	case *ErrorNode:
		return x.Text
	case *InnerNode:
		var b strings.Builder
		for _, c := range x.Children {
			b.WriteString(c24Text(c))
		}
		return b.String()
	}
	return ""
}
