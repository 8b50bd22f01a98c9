// C12: where statements and embedded expressions end.
package PKG

import (
	"fmt"
	"strconv"
	"strings"
)

var c12E []gx

func init() {
	c12E = append(c12E, gAtoms()...)
	for _, c := range gContexts() {
		for _, a := range gAtoms()[:3] {
			if c.ok(a) {
				c12E = append(c12E, c.fill(a))
			}
			if !strings.Contains(c.name, "□") {
				break
			}
		}
	}
}

type c12Follow struct {
	text string
	rest string // shape of what follows the expression, inside the parent
	stmt int    // 0: after plain expressions only, 1: after statements only, 2: both
	post func(e gx) (gx, bool)
}

func c12Follows() []c12Follow {
	T := func(s string) string { return gLeaf(SyntaxKindText, s) }
	semi := gLeaf(SyntaxKindSemicolon, ";")
	call := func(e gx) (gx, bool) { return gCall(e, gArgs(gId("y"))), gClosed(e) }
	ccall := func(e gx) (gx, bool) {
		return gCall(e, gN(SyntaxKindArgs, gGlueFirst(gText(false)))), gClosed(e) && e.tail&gtArgs == 0
	}
	field := func(e gx) (gx, bool) { return gField(e, "b", true), gClosed(e) }
	return []c12Follow{
		{"", "", 2, nil},
		{"\nb", T("b"), 2, nil},
		{"\n\nb", T("b"), 2, nil},
		{" \n b", T("b"), 2, nil},
		{" //c\nb", T("b"), 2, nil},
		{" /*c\nc*/ b", T("b"), 0, nil},
		{";b", semi + " " + T("b"), 2, nil},
		{"; b", semi + " " + T("b"), 2, nil},
		{";;b", semi + " " + T(";b"), 2, nil},
		{" ;b", semi + " " + T("b"), 1, nil},
		{" /*c*/ ;b", semi + " " + T("b"), 1, nil},
		{" ;b", T(";b"), 0, nil},
		{"\n;b", T(";b"), 2, nil},
		{" b", T("b"), 0, nil},
		{"\n.b", T(".b"), 2, nil},
		{"\n(y)", T("(y)"), 2, nil},
		{"\nelse b", T("else b"), 2, nil},
		{"\n+ b", "(" + SyntaxKindEnumItem.String() + " " + gLeaf(SyntaxKindEnumMarker, "+") + " (" + SyntaxKindMarkup.String() + " " + T("b") + "))", 2, nil},
		{". b", T(". b"), 0, nil},
		{".", T("."), 0, nil},
		{" .b", T(".b"), 0, nil},
		{" (y)", T("(y)"), 0, nil},
		{" + b", T("+") + " " + T("b"), 0, nil},
		{"+b", T("+b"), 0, nil},
		{" = b", T("=") + " " + T("b"), 0, nil},
		{"=> b", T("=") + " " + T("> b"), 0, nil},
		{",b", T(",b"), 0, nil},
		{":b", T(":") + " " + T("b"), 0, nil},
		{" in b", T("in b"), 0, nil},
		{"\n*b*", "(" + SyntaxKindStrong.String() + " " + gLeaf(SyntaxKindStar, "*") + " (" + SyntaxKindMarkup.String() + " " + T("b") + ") " + gLeaf(SyntaxKindStar, "*") + ")", 2, nil},
		{"(y)", "", 0, call},
		{"[c]", "", 0, ccall},
		{".b", "", 0, field},
		{"(y).b", "", 0, func(e gx) (gx, bool) {
			c, ok := call(e)
			f, ok2 := field(c)
			return f, ok && ok2
		}},
	}
}

var c12F = c12Follows()

// How the end of a block-like last token could merge with what follows is the
// business of the lexer; these words would run together.
func c12Merges(e gx, f string) bool {
	if f == "" {
		return false
	}
	last := e.toks[len(e.toks)-1].t
	a := last[len(last)-1]
	b := f[0]
	if e.nonatomic {
		return true
	}
	if b == '.' && len(f) > 1 && f[1] == 'b' {
		return false
	}
	if (a >= '0' && a <= '9') && (b == '.' || b == '*') {
		return true
	}
	return false
}

func c12Check(r *vfRun, c string) error {
	p := strings.Split(c[1:], ".")
	n := make([]int, len(p))
	for i := range p {
		n[i], _ = strconv.Atoi(p[i])
	}
	var text, want string
	switch c[0] {
	case 'e': // embedded: expression, follow, style, container
		e, f := c12E[n[0]], c12F[n[1]]
		if e.nonatomic || e.stmt && f.stmt == 0 || !e.stmt && f.stmt == 1 || c12Merges(e, f.text) {
			r.Count("not-derivable", 1)
			return nil
		}
		if e.stmt && f.post != nil {
			r.Count("not-derivable", 1)
			return nil
		}
		// An expression whose end is open would go on over an operator, a dot
		// or a parenthesis directly behind it.
		if e.open && f.text != "" && !e.stmt && !strings.ContainsAny(f.text[:1], "\n; ,:") {
			r.Count("not-derivable", 1)
			return nil
		}
		if e.tail&(gtComma|gtColon) != 0 && !e.stmt && f.text != "" && f.text[0] != '\n' {
			r.Count("not-derivable", 1)
			return nil
		}
		ft := f.text
		if f.post != nil {
			var ok bool
			if e, ok = f.post(e); !ok {
				r.Count("not-derivable", 1)
				return nil
			}
			ft = ""
		}
		et := gPrint(gEmbed(e).toks, n[2])
		sx := gLeaf(SyntaxKindHash, "#") + " " + e.sx
		if f.rest != "" {
			sx += " " + f.rest
		}
		a := gLeaf(SyntaxKindText, "a")
		mk := SyntaxKindMarkup.String()
		switch n[3] {
		case 0:
			text, want = "#"+et+ft, "("+mk+" "+sx+")"
		case 1:
			text, want = "a #"+et+ft, "("+mk+" "+a+" "+sx+")"
		case 2:
			lb, rb := gLeaf(SyntaxKindLeftBracket, "["), gLeaf(SyntaxKindRightBracket, "]")
			text = "#[a #" + et + ft + "]"
			want = "(" + mk + " " + gLeaf(SyntaxKindHash, "#") + " (" + SyntaxKindContentBlock.String() + " " + lb + " (" + mk + " " + a + " " + sx + ") " + rb + "))"
		}
	case 's': // statements of a block: e1, sep, e2, sep2, style
		e1, e2 := c12E[n[0]], c12E[n[2]]
		seps := []string{"\n", ";", " ; ", ";\n", "\n\n", " //c\n"}
		sep := func(i int) []gx {
			s := seps[i]
			if !strings.Contains(s, ";") {
				return []gx{gLit("", s)}
			}
			return []gx{gLit("", strings.Split(s, ";")[0]), gLit(gLeaf(SyntaxKindSemicolon, ";"), ";"), gLit("", strings.Split(s, ";")[1])}
		}
		parts := append([]gx{e1}, sep(n[1])...)
		parts = append(parts, e2)
		if n[3] > 0 {
			parts = append(parts, sep(n[3]-1)...)
		}
		doc, _ := gWrap(2, gBlock(parts...))
		text, want = gPrint(doc.toks, n[4]), doc.sx
	case 'x': // two statements on one line: an error
		e1, e2 := c12E[n[0]], c12E[n[1]]
		f1, f2 := e1.toks[0].t, e2.toks[0].t
		if e1.tail&(gtExpr) != 0 || f2 == "+" || f2 == "-" || f2 == "not" || f1 == "set" && f2 == "if" {
			r.Count("not-derivable", 1)
			return nil
		}
		doc, _ := gWrap(2, gBlock(e1, gLit("", " "), e2))
		text = gPrint(doc.toks, 1)
		root := Parse(text)
		r.Transitions++
		if !root.erroneous() {
			return fmt.Errorf("%q has two statements on a line and no separator, but parses without error to\n%s", text, gShape(root))
		}
		r.Validated++
		return nil
	case 'n': // the next line of a block: goes on or begins a statement
		e := c12E[n[0]]
		if e.stmt || !gClosed(e) || e.tail != 0 {
			r.Count("not-derivable", 1)
			return nil
		}
		b := func() gx { return gId("b") }
		un := func(i int) gx { x, _ := gUnary(gUnOps[i], b()); return x }
		type nx struct {
			text string
			sx   string
		}
		next := []nx{
			{".b", gField(e, "b", true).sx}, {".b(y)", gCall(gField(e, "b", true), gArgs(gId("y"))).sx},
			{"(y)", e.sx + " " + gParen(gId("y")).sx}, {"{b}", e.sx + " " + gBlock(b()).sx}, {"[c]", e.sx + " " + gText(false).sx},
			{gUnOps[0].t + " b", e.sx + " " + un(0).sx}, {gUnOps[1].t + " b", e.sx + " " + un(1).sx}, {gUnOps[2].t + " b", e.sx + " " + un(2).sx},
			{"b", e.sx + " " + b().sx}, {"\"s\"", e.sx + " " + gL(SyntaxKindStr, "\"s\"").sx},
		}
		x := next[n[1]]
		if last := e.toks[len(e.toks)-1].t; n[1] < 2 && last[len(last)-1] >= '0' && last[len(last)-1] <= '9' && n[2] == 4 {
			return nil
		}
		sep := []string{"\n", "\n\n", "\n  ", " \n", " //c\n", "/*c\nc*/", "\n//c\n", "\r", "\u2028"}[n[2]]
		if sep[0] == '/' && n[1] > 1 {
			// a comment is no newline: two expressions on a line
			text = "#{" + gPrint(gStmt(e).toks, n[3]) + sep + x.text + "}"
			if root := Parse(text); n[1] >= 8 && !root.erroneous() {
				return fmt.Errorf("%q has two statements on a line, but parses without error to\n%s", text, gShape(root))
			}
			r.Validated++
			return nil
		}
		text = "#{" + gPrint(gStmt(e).toks, n[3]) + sep + x.text + "}"
		want = "(" + SyntaxKindMarkup.String() + " " + gLeaf(SyntaxKindHash, "#") + " " + strings.Replace(gBlock(gLit("@@", "")).sx, "@@", x.sx, 1) + ")"
	case 'o': // the next line begins with what only continues an expression
		e := c12E[n[0]]
		if e.stmt || !gClosed(e) || e.tail&^gtArgs != 0 {
			r.Count("not-derivable", 1)
			return nil
		}
		if strings.HasPrefix(c12Ops[n[1]], "else") && strings.HasPrefix(e.sx, "("+SyntaxKindConditional.String()) {
			return nil
		}
		text = "#{" + gPrint(gStmt(e).toks, n[3]) + []string{"\n", "\n\n", " //c\n", "/*c*/\n ", "\n/*c*/"}[n[2]] + c12Ops[n[1]] + "}"
		root := Parse(text)
		r.Transitions++
		pre := "(" + SyntaxKindMarkup.String() + " " + gLeaf(SyntaxKindHash, "#") + " (" + SyntaxKindCodeBlock.String() + " " + gLeaf(SyntaxKindLeftBrace, "{") + " (" + SyntaxKindCode.String() + " " + e.sx + " "
		if got := gShape(root); !root.erroneous() || !strings.HasPrefix(got, pre) {
			return fmt.Errorf("%q: the statement on the first line does not go on, the second line is an error, but it parses to\n%s", text, got)
		}
		r.Validated++
		return nil
	case 'm': // a statement followed by text on its line: an error
		e := c12E[n[0]]
		if !e.stmt || e.tail&(gtExpr|gtComma) != 0 {
			return nil
		}
		text = "#" + gPrint(gEmbed(e).toks, 1) + " <b>"
		root := Parse(text)
		r.Transitions++
		if !root.erroneous() {
			return fmt.Errorf("the statement in %q is followed by text on its line, but parses without error to\n%s", text, gShape(root))
		}
		r.Validated++
		return nil
	}
	root := Parse(text)
	r.Transitions++
	if got := gShape(root); got != want {
		return fmt.Errorf("%q parses to\n%s\nwant\n%s", text, got, want)
	}
	r.Validated++
	if r.Cases%8 == 0 {
		r.Outcome(want)
	}
	return nil
}

// c12Ops are lines that could only continue an expression.
var c12Ops = func() []string {
	var out []string
	for _, o := range gBinOps {
		if o.t != "+" && o.t != "-" {
			out = append(out, o.t+" b")
		}
	}
	return append(out, "=> b", ": b", ", b", "as b", "else {b}", "else if b {c}", "in b", "..b")
}()

func vfProperty() vfProp {
	return vfProp{Check: c12Check, Gen: func(r *vfRun) {
		for st := 0; st < gStyles; st++ {
			for e := range c12E {
				for f := range c12F {
					for k := 0; k < 3; k++ {
						r.Emit(vfB("e%d.%d.%d.%d", e, f, st, k))
					}
				}
			}
		}
		r.Bound("embedded", vfB("%d expressions, %d continuations, 3 containers, 5 trivia styles", len(c12E), len(c12F)))
		for e := range c12E {
			r.Emit(vfB("m%d", e))
			for e2 := range c12E {
				r.Emit(vfB("x%d.%d", e, e2))
				for s := 0; s < 6; s++ {
					r.Emit(vfB("s%d.%d.%d.%d.%d", e, s, e2, (e+e2+s)%7, (e*7+e2*3+s)%gStyles))
					if r.Thorough {
						for t := 0; t < 7; t++ {
							for st := 0; st < gStyles; st++ {
								r.Emit(vfB("s%d.%d.%d.%d.%d", e, s, e2, t, st))
							}
						}
					}
				}
			}
		}
		for e := range c12E {
			for x := 0; x < 10; x++ {
				for s := 0; s < 9; s++ {
					r.Emit(vfB("n%d.%d.%d.%d", e, x, s, (e+x+s)%2))
				}
			}
		}
		for e := range c12E {
			for x := range c12Ops {
				for s := 0; s < 5; s++ {
					r.Emit(vfB("o%d.%d.%d.%d", e, x, s, (e+x+s)%2))
				}
			}
		}
		r.Bound("continuation lines", vfB("%d expressions, %d lines beginning with a binary operator, arrow, colon, comma, keyword or closing delimiter", len(c12E), len(c12Ops)))
		r.Bound("next lines", vfB("%d expressions, 10 continuations on the next line of a block, 9 line ends", len(c12E)))
		r.Bound("statements", vfB("every pair of %d statements with 6 separators; every pair on one line", len(c12E)))
	}}
}
