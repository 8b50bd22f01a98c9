// A reference grammar of Typst code: derivations are built bottom-up together
// with the concrete tree they must parse to, then printed with different
// amounts of trivia. Nothing here calls into the parser under test.
package PKG

import (
	"strconv"
	"strings"
)

// gtok is one token of a printed derivation.
type gtok struct {
	t    string
	glue bool // must directly follow the previous token
	sep  bool // must not directly follow the previous token
	lit  bool // printed as is, no trivia on either side
	nl   int8 // newline allowed before it: 0 undecided, 1 yes, 2 no
	cont bool // a code statement continues over a newline before it
}

// What the end of an expression would swallow.
const (
	gtComma = 1 << iota // commas: unparenthesized import items
	gtColon             // `:` and `as`: an import without items
	gtExpr              // any expression: a bare return
	gtArr               // `=`: an array or dictionary
	gtArgs              // a directly attached content block: an argument list
)

// gx is a derivation.
type gx struct {
	toks       []gtok
	sx         string
	lmin, rmin int  // loosest operator at the left / open right edge (9: none)
	open       bool // postfix operators would bind to an inner part
	nonatomic  bool // means something else directly behind `#`
	stmt       bool
	tail       int
}

func gL(k SyntaxKind, t string) gx { return gx{toks: []gtok{{t: t}}, sx: gLeaf(k, t), lmin: 9, rmin: 9} }
func gG(k SyntaxKind, t string) gx {
	return gx{toks: []gtok{{t: t, glue: true}}, sx: gLeaf(k, t), lmin: 9, rmin: 9}
}
func gS(k SyntaxKind, t string) gx {
	return gx{toks: []gtok{{t: t, sep: true}}, sx: gLeaf(k, t), lmin: 9, rmin: 9}
}
func gLeaf(k SyntaxKind, t string) string { return k.String() + "\"" + t + "\"" }

// gN builds an inner node; the tail of the last part is the tail of the node.
func gN(k SyntaxKind, parts ...gx) gx {
	e := gx{lmin: 9, rmin: 9}
	var sb strings.Builder
	sb.WriteString("(" + k.String())
	for i, p := range parts {
		e.toks = append(e.toks, p.toks...)
		if p.sx != "" {
			sb.WriteString(" " + p.sx)
		}
		if i == len(parts)-1 {
			e.tail = p.tail
			e.open = p.open
		}
	}
	sb.WriteString(")")
	e.sx = sb.String()
	return e
}

// gSeq joins parts without a node around them.
func gSeq(parts ...gx) gx {
	e := gN(SyntaxKindCode, parts...)
	var sx []string
	for _, p := range parts {
		if p.sx != "" {
			sx = append(sx, p.sx)
		}
	}
	e.sx = strings.Join(sx, " ")
	return e
}

func gMark(e gx, from int, nl int8) gx {
	t := append([]gtok{}, e.toks...)
	for i := from; i < len(t); i++ {
		if t[i].nl == 0 {
			t[i].nl = nl
		}
	}
	e.toks = t
	return e
}

// gFree: newlines are free inside (delimited by parentheses).
func gFree(e gx) gx { e = gMark(e, 1, 1); e.tail = 0; e.open = false; return e }

func gLit(sx, t string) gx { return gx{toks: []gtok{{t: t, lit: true}}, sx: sx, lmin: 9, rmin: 9} }

// gNL is a newline between statements.
var gNL = gLit("", "\n")

func gComma() gx      { return gL(SyntaxKindComma, ",") }
func gId(n string) gx { return gL(SyntaxKindIdent, n) }
func gInt() gx        { return gL(SyntaxKindInt, "1") }
func gLP() gx         { return gL(SyntaxKindLeftParen, "(") }
func gRP() gx         { return gL(SyntaxKindRightParen, ")") }
func gKw(k SyntaxKind, t string) gx {
	return gL(k, t)
}

// gStmts locks the newlines of a statement of a code block: only before `else`
// and `.` does a statement continue on the next line; the first token may
// stand on its own line.
func gStmt(e gx) gx {
	t := append([]gtok{}, e.toks...)
	for i := range t {
		if t[i].nl != 0 {
			continue
		}
		t[i].nl = 2
		if i == 0 || t[i].cont {
			t[i].nl = 1
		}
	}
	e.toks = t
	return e
}

// gBlock builds a code block out of statements and separators.
func gBlock(parts ...gx) gx {
	rb := gL(SyntaxKindRightBrace, "}")
	rb.toks[0].nl = 1
	for i := range parts {
		parts[i] = gStmt(parts[i])
	}
	e := gN(SyntaxKindCodeBlock, gL(SyntaxKindLeftBrace, "{"), gN(SyntaxKindCode, parts...), rb)
	e.tail, e.open = 0, false
	return e
}

// gEmbed locks an expression embedded with `#`.
func gEmbed(e gx) gx {
	e = gMark(e, 0, 2)
	if len(e.toks) > 0 {
		e.toks[0].glue = true
	}
	return e
}

// gContent builds a content block around an embedded expression.
func gContent(pre, preSx string, e gx, post, postSx string) gx {
	sx := preSx
	add := func(s string) {
		if s != "" {
			if sx != "" {
				sx += " "
			}
			sx += s
		}
	}
	add(gLeaf(SyntaxKindHash, "#"))
	e = gEmbed(e)
	add(e.sx)
	add(postSx)
	r := gx{lmin: 9, rmin: 9}
	r.toks = append(r.toks, gtok{t: "["}, gtok{t: pre + "#", lit: true})
	r.toks = append(r.toks, e.toks...)
	r.toks = append(r.toks, gtok{t: post, lit: true}, gtok{t: "]", glue: true})
	r.sx = "(" + SyntaxKindContentBlock.String() + " " + gLeaf(SyntaxKindLeftBracket, "[") + " (" + SyntaxKindMarkup.String() + " " + sx + ") " + gLeaf(SyntaxKindRightBracket, "]") + ")"
	return r
}

// gText is the content block `[c]`.
func gText(sep bool) gx {
	e := gx{lmin: 9, rmin: 9, toks: []gtok{{t: "[c]", sep: sep}}}
	e.sx = "(" + SyntaxKindContentBlock.String() + " " + gLeaf(SyntaxKindLeftBracket, "[") + " (" + SyntaxKindMarkup.String() + " " + gLeaf(SyntaxKindText, "c") + ") " + gLeaf(SyntaxKindRightBracket, "]") + ")"
	return e
}

func gGlueFirst(e gx) gx {
	t := append([]gtok{}, e.toks...)
	t[0].glue, t[0].sep = true, false
	e.toks = t
	return e
}

// --- operators ---------------------------------------------------------------

type gop struct {
	t    string
	kind SyntaxKind
	prec int
}

// The precedence table of the language reference.
var gBinOps = []gop{
	{"*", SyntaxKindStar, 6}, {"/", SyntaxKindSlash, 6},
	{"+", SyntaxKindPlus, 5}, {"-", SyntaxKindMinus, 5},
	{"==", SyntaxKindEqEq, 4}, {"!=", SyntaxKindExclEq, 4}, {"<", SyntaxKindLt, 4}, {"<=", SyntaxKindLtEq, 4},
	{">", SyntaxKindGt, 4}, {">=", SyntaxKindGtEq, 4}, {"in", SyntaxKindIn, 4}, {"not in", SyntaxKindNot, 4},
	{"and", SyntaxKindAnd, 3}, {"or", SyntaxKindOr, 2},
	{"=", SyntaxKindEq, 1}, {"+=", SyntaxKindPlusEq, 1}, {"-=", SyntaxKindHyphEq, 1}, {"*=", SyntaxKindStarEq, 1}, {"/=", SyntaxKindSlashEq, 1},
}

var gUnOps = []gop{{"+", SyntaxKindPlus, 7}, {"-", SyntaxKindMinus, 7}, {"not", SyntaxKindNot, 4}}

func gMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func gUnary(o gop, e gx) (gx, bool) {
	r := gN(SyntaxKindUnary, gL(o.kind, o.t), e)
	r.rmin = gMin(o.prec, e.rmin)
	r.open, r.nonatomic = true, true
	return r, e.lmin >= o.prec
}

func gBinary(o gop, a, b gx) (gx, bool) {
	parts := []gx{a, gL(o.kind, o.t), b}
	if o.t == "not in" {
		parts = []gx{a, gL(SyntaxKindNot, "not"), gL(SyntaxKindIn, "in"), b}
	}
	r := gN(SyntaxKindBinary, parts...)
	m := o.prec + 1
	if o.prec == 1 {
		m = 1
	}
	r.lmin = gMin(o.prec, a.lmin)
	r.rmin = gMin(m, b.rmin)
	r.open, r.nonatomic = true, true
	ok := o.prec < a.rmin && b.lmin >= m && a.tail&(gtComma|gtExpr) == 0 && !(o.t == "=" && a.tail&gtArr != 0)
	return r, ok
}

func gParen(e gx) gx {
	return gFree(gN(SyntaxKindParenthesized, gLP(), e, gRP()))
}

// --- atoms -------------------------------------------------------------------

func gAtoms() []gx {
	raw := gx{lmin: 9, rmin: 9, toks: []gtok{{t: "`r`"}}, sx: "(" + SyntaxKindRaw.String() + " " + gLeaf(SyntaxKindRawDelim, "`") + " " + gLeaf(SyntaxKindText, "r") + " " + gLeaf(SyntaxKindRawDelim, "`") + ")"}
	ret := gN(SyntaxKindFuncReturn, gKw(SyntaxKindReturn, "return"))
	ret.rmin, ret.open, ret.tail, ret.stmt = 0, true, gtExpr, true
	ea := gFree(gN(SyntaxKindArray, gLP(), gRP()))
	ea.tail = gtArr
	ed := gFree(gN(SyntaxKindDict, gLP(), gL(SyntaxKindColon, ":"), gRP()))
	ed.tail = gtArr
	lx := gN(SyntaxKindLetBinding, gKw(SyntaxKindLet, "let"), gId("v"))
	lx.rmin, lx.open, lx.stmt, lx.tail = 0, true, true, gtArr
	imp := gN(SyntaxKindModuleImport, gKw(SyntaxKindImport, "import"), gL(SyntaxKindStr, "\"m\""), gL(SyntaxKindColon, ":"), gL(SyntaxKindStar, "*"))
	imp.open, imp.stmt, imp.rmin = true, true, 9
	return []gx{
		gId("x"), gInt(), gL(SyntaxKindStr, "\"s\""), gL(SyntaxKindFloat, "1.5"), gL(SyntaxKindNumeric, "2pt"),
		gL(SyntaxKindBool, "true"), gL(SyntaxKindNone, "none"), gL(SyntaxKindAuto, "auto"), gL(SyntaxKindLabel, "<l>"),
		raw, gText(false), gBlock(), ea, ed,
		gN(SyntaxKindLoopBreak, gKw(SyntaxKindBreak, "break")), gN(SyntaxKindLoopContinue, gKw(SyntaxKindContinue, "continue")),
		ret, lx, imp, gId("x-y_z"), gId("_a"),
	}
}

// --- one-hole contexts -------------------------------------------------------

type gctx struct {
	name string
	ok   func(e gx) bool
	fill func(e gx) gx
}

func gAny(e gx) bool     { return true }
func gNoComma(e gx) bool { return e.tail&gtComma == 0 }
func gCond(e gx) bool    { return e.tail&(gtComma|gtExpr) == 0 }
func gNoColon(e gx) bool { return e.tail&(gtComma|gtColon|gtExpr) == 0 }
func gClosed(e gx) bool  { return !e.open && e.tail&(gtComma|gtExpr) == 0 }

func gOpen(e gx) gx { e.open = true; e.rmin = 0; return e }

func gParams(parts ...gx) gx {
	return gFree(gN(SyntaxKindParams, append(append([]gx{gLP()}, parts...), gRP())...))
}

func gGroup(k SyntaxKind, parts ...gx) gx {
	e := gFree(gN(k, append(append([]gx{gLP()}, parts...), gRP())...))
	if k != SyntaxKindParenthesized {
		e.tail = gtArr
	}
	return e
}

func gArgs(parts ...gx) gx {
	lp := gG(SyntaxKindLeftParen, "(")
	return gFree(gN(SyntaxKindArgs, append(append([]gx{lp}, parts...), gRP())...))
}

func gNamed(n string, e gx) gx {
	return gN(SyntaxKindNamed, gId(n), gL(SyntaxKindColon, ":"), e)
}

func gKeyed(e gx) gx {
	return gN(SyntaxKindKeyed, gL(SyntaxKindStr, "\"k\""), gL(SyntaxKindColon, ":"), e)
}

func gSpread(e gx) gx { return gN(SyntaxKindSpread, gL(SyntaxKindDots, ".."), e) }
func gDots() gx       { return gN(SyntaxKindSpread, gL(SyntaxKindDots, "..")) }

func gCall(f gx, args gx) gx {
	r := gN(SyntaxKindFuncCall, f, args)
	r.nonatomic = f.nonatomic
	r.tail, r.open = gtArgs, false
	return r
}

func gField(e gx, n string, glue bool) gx {
	dot := gL(SyntaxKindDot, ".")
	dot.toks[0].glue = glue
	dot.toks[0].cont = !glue
	id := gId(n)
	id.toks[0].glue = true
	r := gN(SyntaxKindFieldAccess, e, dot, id)
	r.tail = 0
	r.nonatomic = e.nonatomic || !glue
	return r
}

func gContexts() []gctx {
	var cs []gctx
	add := func(name string, ok func(gx) bool, fill func(gx) gx) { cs = append(cs, gctx{name, ok, fill}) }
	kw := gKw
	semi := func() gx { e := gL(SyntaxKindSemicolon, ";"); e.toks[0].nl = 2; return e }
	blk := func() gx { return gBlock(gId("b")) }
	eq := func() gx { return gL(SyntaxKindEq, "=") }
	arrow := func() gx { return gL(SyntaxKindArrow, "=>") }
	colon := func() gx { return gL(SyntaxKindColon, ":") }
	stmt := func(e gx) gx { e.stmt = true; return e }

	for _, o := range gUnOps {
		o := o
		add("u"+o.t, func(e gx) bool { _, ok := gUnary(o, e); return ok }, func(e gx) gx { r, _ := gUnary(o, e); return r })
	}
	for _, o := range gBinOps {
		o := o
		add("□"+o.t+"y", func(e gx) bool { _, ok := gBinary(o, e, gId("y")); return ok }, func(e gx) gx { r, _ := gBinary(o, e, gId("y")); return r })
		add("y"+o.t+"□", func(e gx) bool { _, ok := gBinary(o, gId("y"), e); return ok }, func(e gx) gx { r, _ := gBinary(o, gId("y"), e); return r })
	}
	add("(□)", gAny, gParen)
	arr := SyntaxKindArray
	add("(□,)", gNoComma, func(e gx) gx { return gGroup(arr, e, gComma()) })
	add("(y,□)", gAny, func(e gx) gx { return gGroup(arr, gId("y"), gComma(), e) })
	add("(□,y)", gNoComma, func(e gx) gx { return gGroup(arr, e, gComma(), gId("y")) })
	add("(y,□,)", gNoComma, func(e gx) gx { return gGroup(arr, gId("y"), gComma(), e, gComma()) })
	add("(..□)", gAny, func(e gx) gx { return gGroup(arr, gSpread(e)) })
	add("(..□,y)", gNoComma, func(e gx) gx { return gGroup(arr, gSpread(e), gComma(), gId("y")) })
	dict := SyntaxKindDict
	add("(k:□)", gAny, func(e gx) gx { return gGroup(dict, gNamed("k", e)) })
	add("(\"k\":□,)", gNoComma, func(e gx) gx { return gGroup(dict, gKeyed(e), gComma()) })
	add("(k:□,..y)", gNoComma, func(e gx) gx { return gGroup(dict, gNamed("k", e), gComma(), gSpread(gId("y"))) })
	add("(..y,k:□)", gAny, func(e gx) gx { return gGroup(dict, gSpread(gId("y")), gComma(), gNamed("k", e)) })
	add("(:..□)", gAny, func(e gx) gx { return gGroup(dict, colon(), gSpread(e)) })
	add("((□):y)", gAny, func(e gx) gx {
		return gGroup(dict, gN(SyntaxKindKeyed, gParen(e), colon(), gId("y")))
	})
	add("□()", gClosed, func(e gx) gx { return gCall(e, gArgs()) })
	add("□(y)", gClosed, func(e gx) gx { return gCall(e, gArgs(gId("y"))) })
	add("□[c]", func(e gx) bool { return gClosed(e) && e.tail&gtArgs == 0 }, func(e gx) gx { return gCall(e, gN(SyntaxKindArgs, gGlueFirst(gText(false)))) })
	add("□(y)[c][c]", gClosed, func(e gx) gx {
		a := gArgs(gId("y"))
		c := gGlueFirst(gText(false))
		in := gSeq(a, c, c)
		// One Args node holds the parentheses and the trailing blocks.
		in.sx = strings.TrimSuffix(a.sx, ")") + " " + c.sx + " " + c.sx + ")"
		return gCall(e, in)
	})
	call := func(parts ...gx) gx { return gCall(gId("f"), gArgs(parts...)) }
	add("f(□)", gAny, func(e gx) gx { return call(e) })
	add("f(y,□)", gAny, func(e gx) gx { return call(gId("y"), gComma(), e) })
	add("f(□,y,)", gNoComma, func(e gx) gx { return call(e, gComma(), gId("y"), gComma()) })
	add("f(n:□)", gAny, func(e gx) gx { return call(gNamed("n", e)) })
	add("f(..□)", gAny, func(e gx) gx { return call(gSpread(e)) })
	add("f(n:□,..y)", gNoComma, func(e gx) gx { return call(gNamed("n", e), gComma(), gSpread(gId("y"))) })
	add("f[#□]", gAny, func(e gx) gx {
		return gCall(gId("f"), gN(SyntaxKindArgs, gGlueFirst(gContent("", "", gBlock(e), "", ""))))
	})
	add("□.m", gClosed, func(e gx) gx { return gField(e, "m", true) })
	add("□ .m", gClosed, func(e gx) gx { return gField(e, "m", false) })
	add("□.in", gClosed, func(e gx) gx { return gField(e, "in", true) })

	clo := func(ps gx, e gx) gx {
		r := gOpen(gN(SyntaxKindClosure, ps, arrow(), e))
		r.nonatomic = true
		return r
	}
	add("x=>□", gAny, func(e gx) gx { return clo(gN(SyntaxKindParams, gId("x")), e) })
	add("_=>□", gAny, func(e gx) gx { return clo(gN(SyntaxKindParams, gL(SyntaxKindUnderscore, "_")), e) })
	add("()=>□", gAny, func(e gx) gx { return clo(gParams(), e) })
	add("(x)=>□", gAny, func(e gx) gx { return clo(gParams(gId("x")), e) })
	add("(x,y)=>□", gAny, func(e gx) gx { return clo(gParams(gId("x"), gComma(), gId("y")), e) })
	add("(x,y:□,)=>z", gNoComma, func(e gx) gx { return clo(gParams(gId("x"), gComma(), gNamed("y", e), gComma()), gId("z")) })
	add("(y:□)=>z", gAny, func(e gx) gx { return clo(gParams(gNamed("y", e)), gId("z")) })
	add("(..x)=>□", gAny, func(e gx) gx { return clo(gParams(gSpread(gId("x"))), e) })
	add("(..,_)=>□", gAny, func(e gx) gx { return clo(gParams(gDots(), gComma(), gL(SyntaxKindUnderscore, "_")), e) })
	des := SyntaxKindDestructuring
	add("((a,b),c)=>□", gAny, func(e gx) gx {
		return clo(gParams(gGroup(des, gId("a"), gComma(), gId("b")), gComma(), gId("c")), e)
	})
	add("((a:b,..c),d:1)=>□", gAny, func(e gx) gx {
		return clo(gParams(gGroup(des, gNamed("a", gId("b")), gComma(), gSpread(gId("c"))), gComma(), gNamed("d", gInt())), e)
	})

	let := func(parts ...gx) gx {
		return stmt(gOpen(gN(SyntaxKindLetBinding, append([]gx{kw(SyntaxKindLet, "let")}, parts...)...)))
	}
	add("let x=□", gAny, func(e gx) gx { return let(gId("x"), eq(), e) })
	gp := func(parts ...gx) gx { return gGlueFirst(gParams(parts...)) }
	add("let f(a,b:□)=1", gAny, func(e gx) gx {
		return let(gN(SyntaxKindClosure, gId("f"), gp(gId("a"), gComma(), gNamed("b", e)), eq(), gInt()))
	})
	add("let f()=□", gAny, func(e gx) gx { return let(gN(SyntaxKindClosure, gId("f"), gp(), eq(), e)) })
	add("let (a,b)=□", gAny, func(e gx) gx { return let(gGroup(des, gId("a"), gComma(), gId("b")), eq(), e) })
	add("let (a:b,..c)=□", gAny, func(e gx) gx {
		return let(gGroup(des, gNamed("a", gId("b")), gComma(), gSpread(gId("c"))), eq(), e)
	})
	// a key is no binding: it may repeat names that are bound elsewhere
	add("let (a:b,c:a)=□", gAny, func(e gx) gx {
		return let(gGroup(des, gNamed("a", gId("b")), gComma(), gNamed("c", gId("a"))), eq(), e)
	})
	add("let (a:a,b,c:(c))=□", gAny, func(e gx) gx {
		return let(gGroup(des, gNamed("a", gId("a")), gComma(), gId("b"), gComma(), gNamed("c", gGroup(SyntaxKindParenthesized, gId("c")))), eq(), e)
	})
	add("((a:b,b:a,..c),d:1)=>□", gAny, func(e gx) gx {
		return clo(gParams(gGroup(des, gNamed("a", gId("b")), gComma(), gNamed("b", gId("a")), gComma(), gSpread(gId("c"))), gComma(), gNamed("d", gInt())), e)
	})
	add("let _=□", gAny, func(e gx) gx { return let(gL(SyntaxKindUnderscore, "_"), eq(), e) })
	add("let (a)=□", gAny, func(e gx) gx { return let(gGroup(SyntaxKindParenthesized, gId("a")), eq(), e) })
	add("let ((a,),_)=□", gAny, func(e gx) gx {
		return let(gGroup(des, gGroup(des, gId("a"), gComma()), gComma(), gL(SyntaxKindUnderscore, "_")), eq(), e)
	})
	add("let ()=□", gAny, func(e gx) gx { return let(gGroup(des), eq(), e) })

	asg := func(p gx, e gx) gx {
		r := gOpen(gN(SyntaxKindDestructAssignment, p, eq(), e))
		r.nonatomic = true
		return r
	}
	add("(a,b)=□", gAny, func(e gx) gx { return asg(gGroup(des, gId("a"), gComma(), gId("b")), e) })
	add("(a.x,b(1).c)=□", gAny, func(e gx) gx {
		return asg(gGroup(des, gField(gId("a"), "x", true), gComma(), gField(gCall(gId("b"), gArgs(gInt())), "c", true)), e)
	})
	add("(a:b,..c)=□", gAny, func(e gx) gx {
		return asg(gGroup(des, gNamed("a", gId("b")), gComma(), gSpread(gId("c"))), e)
	})
	add("((a,),b)=□", gAny, func(e gx) gx {
		return asg(gGroup(des, gGroup(des, gId("a"), gComma()), gComma(), gId("b")), e)
	})
	add("_=□", gAny, func(e gx) gx { return asg(gL(SyntaxKindUnderscore, "_"), e) })

	set := func(parts ...gx) gx {
		r := stmt(gN(SyntaxKindSetRule, append([]gx{kw(SyntaxKindSet, "set")}, parts...)...))
		r.open = true
		return r
	}
	add("set f(□)", gAny, func(e gx) gx { return set(gId("f"), gArgs(e)) })
	add("set f(y)if □", gAny, func(e gx) gx { return gOpen(set(gId("f"), gArgs(gId("y")), kw(SyntaxKindIf, "if"), e)) })
	add("set a.b.c(k:□)", gAny, func(e gx) gx {
		return set(gField(gField(gId("a"), "b", true), "c", true), gArgs(gNamed("k", e)))
	})
	show := func(parts ...gx) gx {
		return stmt(gOpen(gN(SyntaxKindShowRule, append([]gx{kw(SyntaxKindShow, "show")}, parts...)...)))
	}
	add("show:□", gAny, func(e gx) gx { return show(colon(), e) })
	add("show y:□", gAny, func(e gx) gx { return show(gId("y"), colon(), e) })
	add("show □:y", gNoColon, func(e gx) gx { return show(e, colon(), gId("y")) })
	add("context □", gAny, func(e gx) gx {
		r := gOpen(gN(SyntaxKindContextual, kw(SyntaxKindContext, "context"), e))
		r.nonatomic = e.nonatomic
		return r
	})

	closed := func(e gx) gx { e.open, e.tail = false, 0; return e }
	els := func() gx { e := kw(SyntaxKindElse, "else"); e.toks[0].cont = true; return e }
	cond := func(parts ...gx) gx { return closed(gN(SyntaxKindConditional, parts...)) }
	if_ := func() gx { return kw(SyntaxKindIf, "if") }
	add("if □{b}", gCond, func(e gx) gx { return cond(if_(), e, blk()) })
	add("if □[c]", gCond, func(e gx) gx { return cond(if_(), e, gText(true)) })
	add("if y{□}", gAny, func(e gx) gx { return cond(if_(), gId("y"), gBlock(e)) })
	add("if y[c]else{□}", gAny, func(e gx) gx { return cond(if_(), gId("y"), gText(true), els(), gBlock(e)) })
	add("if y{b}else if □{b}else[c]", gCond, func(e gx) gx {
		return cond(if_(), gId("y"), blk(), els(), cond(if_(), e, blk(), els(), gText(false)))
	})
	loop := func(k SyntaxKind, parts ...gx) gx { return closed(gN(k, parts...)) }
	wh := func() gx { return kw(SyntaxKindWhile, "while") }
	fo := func() gx { return kw(SyntaxKindFor, "for") }
	in := func() gx { return kw(SyntaxKindIn, "in") }
	add("while □{b}", gCond, func(e gx) gx { return loop(SyntaxKindWhileLoop, wh(), e, blk()) })
	add("while y{□}", gAny, func(e gx) gx { return loop(SyntaxKindWhileLoop, wh(), gId("y"), gBlock(e)) })
	add("for y in □{b}", gCond, func(e gx) gx { return loop(SyntaxKindForLoop, fo(), gId("y"), in(), e, blk()) })
	add("for (a,b)in □[c]", gCond, func(e gx) gx {
		return loop(SyntaxKindForLoop, fo(), gGroup(des, gId("a"), gComma(), gId("b")), in(), e, gText(true))
	})
	add("for _ in y{□}", gAny, func(e gx) gx {
		return loop(SyntaxKindForLoop, fo(), gL(SyntaxKindUnderscore, "_"), in(), gId("y"), gBlock(e))
	})

	imp := func(tail int, parts ...gx) gx {
		r := stmt(gN(SyntaxKindModuleImport, append([]gx{kw(SyntaxKindImport, "import")}, parts...)...))
		r.open, r.tail, r.rmin = true, tail, 9
		return r
	}
	path := func(ids ...string) gx {
		var ps []gx
		for i, id := range ids {
			if i > 0 {
				ps = append(ps, gL(SyntaxKindDot, "."))
			}
			ps = append(ps, gId(id))
		}
		return gN(SyntaxKindImportItemPath, ps...)
	}
	ren := func(p gx, n string) gx {
		return gN(SyntaxKindRenamedImportItem, p, kw(SyntaxKindAs, "as"), gId(n))
	}
	items := func(parts ...gx) gx { return gN(SyntaxKindImportItems, parts...) }
	as := func() gx { return kw(SyntaxKindAs, "as") }
	add("import □", gNoColon, func(e gx) gx { r := imp(e.tail|gtColon, e); r.rmin = 0; return r })
	add("import □ as n", gNoColon, func(e gx) gx { return imp(gtColon, e, as(), gId("n")) })
	add("import □:a,b as c,d.e", gNoColon, func(e gx) gx {
		return imp(gtComma, e, colon(), items(path("a"), gComma(), ren(path("b"), "c"), gComma(), path("d", "e")))
	})
	add("import □:*", gNoColon, func(e gx) gx { return imp(0, e, colon(), gL(SyntaxKindStar, "*")) })
	add("import □ as n:(a,b.c as d,)", gNoColon, func(e gx) gx {
		its := items(path("a"), gComma(), ren(path("b", "c"), "d"), gComma())
		grp := gFree(gSeq(gLP(), its, gRP()))
		return imp(0, e, as(), gId("n"), colon(), grp)
	})
	add("include □", gAny, func(e gx) gx { return stmt(gOpen(gN(SyntaxKindModuleInclude, kw(SyntaxKindInclude, "include"), e))) })
	add("return □", gAny, func(e gx) gx { return stmt(gOpen(gN(SyntaxKindFuncReturn, kw(SyntaxKindReturn, "return"), e))) })

	add("{□}", gAny, func(e gx) gx { return gBlock(e) })
	add("{□;y}", gAny, func(e gx) gx { return gBlock(e, semi(), gId("y")) })
	add("{□\\ny}", gAny, func(e gx) gx { return gBlock(e, gNL, gId("y")) })
	add("{y\\n□;}", gAny, func(e gx) gx { return gBlock(gId("y"), gNL, e, semi()) })
	add("{let y\\n□\\nz}", gAny, func(e gx) gx {
		return gBlock(gN(SyntaxKindLetBinding, kw(SyntaxKindLet, "let"), gId("y")), gNL, e, gNL, gId("z"))
	})
	txt := func(s string) string { return gLeaf(SyntaxKindText, s) }
	add("[a #{□} b]", gAny, func(e gx) gx { return gContent("a ", txt("a"), gBlock(e), " b", txt("b")) })
	add("[*#(□)*]", gAny, func(e gx) gx {
		r := gContent("*", "", gParen(e), "*", "")
		st := gLeaf(SyntaxKindStar, "*")
		r.sx = "(" + SyntaxKindContentBlock.String() + " " + gLeaf(SyntaxKindLeftBracket, "[") + " (" + SyntaxKindMarkup.String() +
			" (" + SyntaxKindStrong.String() + " " + st + " (" + SyntaxKindMarkup.String() + " " + gLeaf(SyntaxKindHash, "#") + " " + gParen(e).sx + ") " + st + ")) " + gLeaf(SyntaxKindRightBracket, "]") + ")"
		return r
	})
	return cs
}

// --- printing ----------------------------------------------------------------

const gStyles = 5

func gWordy(c byte) bool {
	return c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// gPrint writes a token list. Style 0: as little trivia as possible; 1: single
// spaces; 2: block comments; 3: newlines wherever they mean nothing; 4: line
// comments wherever they mean nothing.
func gPrint(toks []gtok, style int) string {
	var sb strings.Builder
	lastLit := true
	last := ""
	for _, t := range toks {
		if t.t == "" {
			continue
		}
		if t.lit || t.glue || lastLit {
			sb.WriteString(t.t)
			last, lastLit = t.t, t.lit
			continue
		}
		a, b := last[len(last)-1], t.t[0]
		need := t.sep || gWordy(a) && (gWordy(b) || b == '-') || last == "<" || a == '*' && (b == '/' || b == '=')
		switch {
		case style == 0 && need || style == 1:
			sb.WriteString(" ")
		case style == 2:
			sb.WriteString(" /*c*/ ")
		case style == 3:
			if t.nl == 1 {
				sb.WriteString("\n")
			} else {
				sb.WriteString(" ")
			}
		case style == 4:
			if t.nl == 1 {
				sb.WriteString(" //c\n")
			} else {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(t.t)
		last, lastLit = t.t, false
	}
	return sb.String()
}

// gShape renders a tree like the expected shapes: trivia left out.
func gShape(n *SyntaxNode) string {
	var sb strings.Builder
	var w func(n *SyntaxNode)
	w = func(n *SyntaxNode) {
		switch x := n.Repr.(type) {
		case *LeafNode:
			sb.WriteString(x.Kind.String() + "\"" + x.Text + "\"")
		case *ErrorNode:
			sb.WriteString("!" + x.Error.Message + "\"" + x.Text + "\"")
		case *InnerNode:
			sb.WriteString("(" + x.Kind.String())
			for _, c := range x.Children {
				if l, ok := c.Repr.(*LeafNode); ok {
					switch l.Kind {
					case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment:
						continue
					}
				}
				sb.WriteString(" ")
				w(c)
			}
			sb.WriteString(")")
		}
	}
	w(n)
	return sb.String()
}

// gWrap puts a code expression into a document. ok is false when the wrap does
// not admit the expression.
func gWrap(w int, e gx) (gx, bool) {
	mk := func(pre, preSx string, e gx, post, postSx string) gx {
		sx := preSx
		for _, s := range []string{gLeaf(SyntaxKindHash, "#"), e.sx, postSx} {
			if s != "" {
				if sx != "" {
					sx += " "
				}
				sx += s
			}
		}
		r := gx{sx: "(" + SyntaxKindMarkup.String() + " " + sx + ")"}
		r.toks = append(r.toks, gtok{t: pre + "#", lit: true})
		r.toks = append(r.toks, gEmbed(e).toks...)
		r.toks = append(r.toks, gtok{t: post, lit: true})
		return r
	}
	c := gLeaf(SyntaxKindText, "t")
	switch w {
	case 0:
		return mk("", "", gBlock(e), "", ""), true
	case 1:
		return mk("t ", c, e, "\nt", c), !e.nonatomic
	case 2:
		return mk("", "", gParen(e), " t", c), true
	case 3:
		return mk("", "", gN(SyntaxKindLetBinding, gKw(SyntaxKindLet, "let"), gId("v"), gL(SyntaxKindEq, "="), e), "", ""), true
	}
	return gx{}, false
}

const gWraps = 4

// --- derivations by number ------------------------------------------------------

var c11C = gContexts()
var c11A = gAtoms()

// Case: style.wrap.atom.ctx.ctx... (innermost context first)
func c11Build(c string) (style int, doc gx, ok bool) {
	var n []int
	for _, p := range strings.Split(c, ".") {
		v, err := strconv.Atoi(p)
		if err != nil {
			return 0, gx{}, false
		}
		n = append(n, v)
	}
	e := c11A[n[2]]
	for _, k := range n[3:] {
		if !c11C[k].ok(e) {
			return 0, gx{}, false
		}
		e = c11C[k].fill(e)
	}
	doc, ok = gWrap(n[1], e)
	return n[0], doc, ok
}
