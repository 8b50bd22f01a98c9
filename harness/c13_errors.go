// C13: a program is rejected exactly when it is invalid, and errors say what
// and where.
package PKG

import (
	"fmt"
	"strings"
)

type qErr struct {
	off   int
	text  string
	msg   string
	hints string
}

func (e qErr) String() string { return fmt.Sprintf("%d %q %s [%s]", e.off, e.text, e.msg, e.hints) }

// qErrors collects the error nodes of a tree in order.
func qErrors(n *SyntaxNode) []qErr {
	var out []qErr
	off := 0
	var w func(n *SyntaxNode)
	w = func(n *SyntaxNode) {
		switch x := n.Repr.(type) {
		case *LeafNode:
			off += len(x.Text)
		case *ErrorNode:
			out = append(out, qErr{off, string(x.Text), x.Error.Message, strings.Join(x.Error.Hints, "|")})
			off += len(x.Text)
		case *InnerNode:
			for _, c := range x.Children {
				w(c)
			}
		}
	}
	w(n)
	return out
}

// qReport: the reported errors are the error nodes, in order.
func qReport(root *SyntaxNode, text string) ([]qErr, error) {
	es := qErrors(root)
	rep := root.errors()
	if len(rep) != len(es) || root.erroneous() != (len(es) > 0) {
		return es, fmt.Errorf("%q: %d errors reported (erroneous %v), the tree has %d: %v", text, len(rep), root.erroneous(), len(es), es)
	}
	for i, e := range rep {
		if e.Message != es[i].msg || strings.Join(e.Hints, "|") != es[i].hints || e.Message == "" {
			return es, fmt.Errorf("%q: error %d is reported as %q %q, the tree has %v", text, i, e.Message, e.Hints, es[i])
		}
	}
	return es, nil
}

func c13Valid(r *vfRun, text string) error {
	want, valid, ok := qParse(text)
	if !ok {
		r.Count("out-of-scope", 1)
		return nil
	}
	root := parse_code(text)
	r.Transitions++
	es, err := qReport(root, text)
	if err != nil {
		return err
	}
	if valid && len(es) > 0 {
		return fmt.Errorf("%q is valid but reports %v", text, es[0])
	}
	if !valid && len(es) == 0 {
		return fmt.Errorf("%q is invalid but reports no error: %s", text, gShape(root))
	}
	if valid {
		r.Count("valid", 1)
		if got := gShape(root); got != want {
			return fmt.Errorf("%q parses to\n%s\nthe reference parser gives\n%s", text, got, want)
		}
	}
	r.Validated++
	if r.Cases%16 == 0 && len(es) > 0 {
		r.Outcome(es[0].msg)
	}
	return nil
}

// --- duplicates and sinks ----------------------------------------------------

type c13List struct {
	pre, post string
	kind      int // 0 parameters, 1 binding, 2 reassignment, 3 arguments, 4 dictionary
}

var c13Lists = []c13List{
	{"let f(", ") = 1", 0}, {"(", ") => 1", 0}, {"(z: (", ") => 1) => 2", 0}, {"f(n: (", ") => 1)", 0}, {"((y, x: (", ") => 1) => 1, 3)", 0},
	{"let (", ") = 1", 1}, {"for (", ") in x {}", 1}, {"let ((", ",), z) = 1", 1}, {"((", ",), z) => 1", 1}, {"((", ",), z: 1) => 1", 1},
	{"(", ") = 1", 2}, {"((", ",), z) = 1", 2}, {"{ (", ",) = (z,) = 1 }", 2},
	{"f(", ")", 3}, {"set f(", ")", 3}, {"f()(", ")[c]", 3}, {"(f(", "), f(n: 1, m: 2))", 3},
	{"(", ")", 4}, {"(:", ")", 4}, {"f(k: (", "))", 4}, {"(n: (", "), m: 1)", 4},
}

var c13Items = [][]string{
	{"a", "b", "_", "(a)", "(a, b)", "(c: a)", "..", "..a", "a: 1", "b: (a: 1)", "for"},
	{"a", "b", "_", "(a)", "(a, b)", "(a: b)", "b: a", "a: (b, c)", "..", "..a", "if"},
	{"a", "_", "(a)", "(a, b)", "a: a", "..", "..a", "..a.b"},
	{"a", "..a", "n: 1", "m: 2", "n: (n: 1)", "\"n\": 1", "1: 2", "_n: 1"},
	{"n: 1", "m: (n: 2)", "\"n\": 3", "..a", "(n): 1", "\"\": 1", "\"\\u{6e}\": 1", "\"n \": 1", "1: 1", "a"},
}

const c13Kw = "keyword `%[1]s` is not allowed as an identifier; try `%[1]s_` instead"

// c13Expect lists the errors of a list of items starting at offset off.
func c13Expect(kind int, forced bool, items []string, off int) []qErr {
	var out []qErr
	group := byte(0)
	seen := map[string]bool{}
	sink := false
	dup := func(what, name, text string, off int) {
		if seen[name] {
			out = append(out, qErr{off, text, "duplicate " + what + ": " + name, ""})
		}
		seen[name] = true
	}
	bind := func(what, name string, off int) { dup(what, name, name, off) }
	for _, it := range items {
		what := "binding"
		if kind == 0 {
			what = "parameter"
		}
		switch kind {
		case 0, 1:
			switch it {
			case "a", "b":
				bind(what, it, off)
			case "(a)":
				bind("binding", "a", off+1)
			case "(a, b)":
				bind("binding", "a", off+1)
				bind("binding", "b", off+4)
			case "(c: a)", "(a: b)":
				bind("binding", it[4:5], off+4)
			case "a: 1", "b: (a: 1)":
				bind("parameter", it[:1], off)
			case "b: a":
				bind("binding", "a", off+3)
			case "a: (b, c)":
				bind("binding", "b", off+4)
				bind("binding", "c", off+7)
			case "for", "if":
				out = append(out, qErr{off, it, "expected pattern, found keyword `" + it + "`", fmt.Sprintf(c13Kw, it)})
			case "..", "..a":
				n := len(out)
				if it == "..a" {
					bind(what, "a", off+2)
				}
				if sink {
					d := "destructuring"
					if kind == 0 {
						d = "argument"
					}
					out = append(out[:n], qErr{off, it, "only one " + d + " sink is allowed", ""})
				}
				sink = true
			}
		case 2:
			if it[0] == '.' {
				if sink {
					out = append(out, qErr{off, it, "only one destructuring sink is allowed", ""})
				}
				sink = true
			}
		case 3:
			switch it {
			case "n: 1", "m: 2", "n: (n: 1)":
				dup("argument", it[:1], it[:1], off)
			case "_n: 1":
				dup("argument", "_n", "_n", off)
			case "\"n\": 1":
				out = append(out, qErr{off, "\"n\"", "expected identifier, found string", ""})
			case "1: 2":
				out = append(out, qErr{off, "1", "expected identifier, found integer", ""})
			}
		case 4:
			n := len(out)
			switch it {
			case "n: 1", "m: (n: 2)":
				dup("key", it[:1], it[:1], off)
			case "\"n\": 3":
				dup("key", "n", "\"n\"", off)
			case "\"\": 1":
				dup("key", "", "\"\"", off)
			case "\"\\u{6e}\": 1":
				dup("key", "n", "\"\\u{6e}\"", off)
			case "\"n \": 1":
				dup("key", "n ", "\"n \"", off)
			}
			// The first item that is not spread decides what the group is.
			pair := "keyed pair"
			if it[0] == 'n' || it[0] == 'm' {
				pair = "named pair"
			}
			switch {
			case it == "..a":
			case it == "a" && (group == 'd' || forced):
				out = append(out, qErr{off, it, "expected named or keyed pair, found identifier", ""})
			case it == "a":
				group = 'a'
			case group == 'a' && !forced:
				out = append(out[:n], qErr{off, it, "expected expression, found " + pair, ""})
			default:
				group = 'd'
			}
		}
		off += len(it) + 2
	}
	return out
}

func c13List1(r *vfRun, c string) error {
	f := strings.Split(c, "\x00")
	l := c13Lists[c13Atoi(f[0])]
	items := f[1:]
	if l.kind == 2 && len(items) == 1 && l.pre == "(" {
		return nil
	}
	text := l.pre + strings.Join(items, ", ") + l.post
	root := parse_code(text)
	r.Transitions++
	got, err := qReport(root, text)
	if err != nil {
		return err
	}
	want := c13Expect(l.kind, l.pre == "(:", items, len(l.pre))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%q reports %v, expected %v", text, got, want)
	}
	r.Validated++
	for _, e := range want {
		r.Outcome(e.msg)
	}
	return nil
}

func c13Atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// --- delimiters ----------------------------------------------------------------

// c13Delims: which brackets are unmatched: 'o' openers, 'c' closers.
func c13Delims(s string) string {
	out := []byte(strings.Repeat(".", len(s)))
	i := 0
	var list func(closer byte) // ends at any closer, eating its own
	list = func(closer byte) {
		open := i - 1
		for i < len(s) {
			switch c := s[i]; c {
			case '(':
				i++
				list(')')
			case '{':
				i++
				list('}')
			case '[':
				i++
				o, depth := i-1, 0
				for ; i < len(s); i++ {
					if s[i] == '[' {
						depth++
					} else if s[i] == ']' {
						if depth == 0 {
							break
						}
						depth--
					}
				}
				if i == len(s) {
					out[o] = 'o'
				} else {
					i++
				}
			case ')', '}', ']':
				if c == closer {
					i++
					return
				}
				if closer != 0 {
					out[open] = 'o'
					return
				}
				out[i] = 'c'
				i++
			default:
				i++
			}
		}
		if closer != 0 {
			out[open] = 'o'
		}
	}
	list(0)
	return string(out)
}

func c13Delim(r *vfRun, text string) error {
	root := parse_code(text)
	r.Transitions++
	es, err := qReport(root, text)
	if err != nil {
		return err
	}
	got := []byte(strings.Repeat(".", len(text)))
	for _, e := range es {
		if e.msg == "unclosed delimiter" {
			if len(e.text) != 1 {
				return fmt.Errorf("%q: %v", text, e)
			}
			got[e.off] = 'o'
		} else if strings.HasPrefix(e.msg, "unexpected closing ") {
			if len(e.text) != 1 {
				return fmt.Errorf("%q: %v", text, e)
			}
			got[e.off] = 'c'
		}
	}
	if want := c13Delims(text); string(got) != want {
		return fmt.Errorf("%q reports unmatched delimiters %s, expected %s", text, got, want)
	}
	r.Validated++
	return nil
}

// --- locality ------------------------------------------------------------------

// c13Hole: an erroneous but closed block is what it is wherever it stands.
func c13Hole(r *vfRun, c string) error {
	f := strings.SplitN(c, "\x00", 3)
	style, ctx, bad := c13Atoi(f[0]), c13Atoi(f[1]), f[2]
	alone := parse_code(bad)
	ch := alone.Repr.(*InnerNode).Children
	if len(ch) != 1 || ch[0].kind() != SyntaxKindCodeBlock && ch[0].kind() != SyntaxKindContentBlock {
		r.Count("not-one-block", 1)
		return nil
	}
	es := qErrors(alone)
	for _, e := range es {
		if e.off == 0 && e.text != "" {
			r.Count("not-one-block", 1)
			return nil
		}
	}
	hole := gx{toks: []gtok{{t: bad}}, sx: gShape(ch[0]), lmin: 9, rmin: 9}
	e := hole
	if ctx > 0 {
		cs := c13Ctx
		if !cs[ctx-1].ok(hole) {
			return nil
		}
		e = cs[ctx-1].fill(hole)
	}
	doc, ok := gWrap(style%gWraps, e)
	if !ok {
		return nil
	}
	text := gPrint(doc.toks, style/gWraps)
	root := Parse(text)
	r.Transitions++
	if got := gShape(root); got != doc.sx {
		return fmt.Errorf("%q parses to\n%s\nexpected\n%s", text, got, doc.sx)
	}
	got, err := qReport(root, text)
	if err != nil {
		return err
	}
	off := strings.Index(text, bad)
	if len(got) != len(es) {
		return fmt.Errorf("%q reports %v, the block alone %v", text, got, es)
	}
	for i := range got {
		w := es[i]
		w.off += off
		if got[i] != w {
			return fmt.Errorf("%q reports %v, the block alone %v", text, got[i], w)
		}
	}
	r.Validated++
	return nil
}

// --- messages and hints --------------------------------------------------------

type c13Msg struct{ tmpl, msg, hints string }

const c13KwHint = "keyword `K` is not allowed as an identifier; try `K_` instead"

// The place of the error is marked «»; K is any keyword, T any trivia and N any
// trivia with or without newlines.
var c13Msgs = []c13Msg{
	{"letT«K» = 1", "expected pattern, found Q", c13KwHint},
	{"let (x,N«K»N) = 1", "expected pattern, found Q", c13KwHint},
	{"let f(x,N«K»N) = 1", "expected pattern, found Q", c13KwHint},
	{"let f(..«K»N) = 1", "expected pattern, found Q", c13KwHint},
	{"forT«K»T in x {}", "expected pattern, found Q", c13KwHint},
	{"(x,N..«K»N) = y", "expected pattern, found Q", c13KwHint},
	{"setT«K»()", "expected identifier, found Q", c13KwHint},
	{"set x.T«K»()", "expected identifier, found Q", c13KwHint},
	{"import xTasT«K»", "expected identifier, found Q", c13KwHint},
	{"import x: yTasT«K»", "expected identifier, found Q", c13KwHint},
	{"import x: y.T«K»", "expected identifier, found Q", c13KwHint},
	{"import x: (N«K»N)", "unexpected Q", ""},
	{"import x: (y,Ny.N«K»N, z)", "expected identifier, found Q", c13KwHint},
	{"x.T«K»", "expected identifier, found Q", c13KwHint},
	{"(x.N«K»N)", "expected identifier, found Q", c13KwHint},
	{"set f«» (x)", "expected argument list", "there may not be any spaces before the argument list"},
	{"set f«»T/**/[x]", "expected argument list", "there may not be any spaces before the argument list"},
	{"set f«»", "expected argument list", ""},
	{"set f«»T", "expected argument list", ""},
	{"set f«»\n(x)", "expected argument list", ""},
	{"x«»T<l>", "expected semicolon or line break", "labels can only be applied in markup mode|try wrapping your code in a markup block (`[ ]`)"},
	{"{let x = 1«»T<l>}", "expected semicolon or line break", "labels can only be applied in markup mode|try wrapping your code in a markup block (`[ ]`)"},
	{"x«»Ty", "expected semicolon or line break", ""},
	{"forTx«,»Ty in z {}", "unexpected comma", "destructuring patterns must be wrapped in parentheses"},
	{"if x«»T", "expected block", ""},
	{"if x {} else«»T", "expected block", ""},
	{"while x«»;y", "expected block", ""},
	{"for x«»T;", "expected keyword `in`", ""},
	{"let (x)«»T", "expected equals sign", ""},
	{"let f(x)«»\ny", "expected equals sign", ""},
	{"let x =«»T", "expected expression", ""},
	{"show«»Tx", "expected colon", ""},
	{"show x:«»T", "expected expression", ""},
	{"xTnot«»T", "expected keyword `in`", ""},
	{"x +«»N;", "expected expression", ""},
	{"return x +«»T", "expected expression", ""},
	{"(x«»Ny)", "expected comma", ""},
	{"f(x«»Ny)", "expected comma", ""},
	{"let f(x«»Ny) = 1", "expected comma", ""},
	{"let (x«»Ny) = 1", "expected comma", ""},
	{"import x: (y«»Nz)", "expected comma", ""},
	{"(x: 1,Ny: 2,N«z»N)", "expected named or keyed pair, found identifier", ""},
	{"(x,N«y:N1»N)", "expected expression, found named pair", ""},
	{"(x,N«\"y\":N1»N)", "expected expression, found keyed pair", ""},
	{"let f(N«x.y»:N1) = 1", "expected pattern, found field access", ""},
	{"let (N«1»N, x) = 1", "expected pattern, found integer", ""},
	{"let f((N«x(y)»N)) = 1", "expected pattern, found function call", ""},
	{"let («_»: x) = 1", "expected identifier, found underscore", ""},
	{"let f(«_»:N1) = 1", "expected identifier, found underscore", ""},
	{"f(«x.y»:N1)", "expected identifier, found field access", ""},
	{"«_»T", "expected expression, found underscore", ""},
	{"f(«_»N)", "expected expression, found underscore", ""},
	{"«\"x»", "unclosed string", ""},
	{"«<l»", "unclosed label", ""},
	{"«12px»", "invalid number suffix: px", ""},
}

func c13Message(r *vfRun, c string) error {
	f := strings.Split(c, "\x00")
	m := c13Msgs[c13Atoi(f[0])]
	if m.msg == "" {
		return nil
	}
	name := "keyword `" + f[1] + "`"
	switch f[1] {
	case "not", "and", "or":
		name = "operator `" + f[1] + "`"
	case "none", "auto":
		name = "`" + f[1] + "`"
	}
	rep := strings.NewReplacer("K", f[1], "T", f[2], "N", f[3], "Q", name)
	text := rep.Replace(m.tmpl)
	a, b := strings.Index(text, "«"), strings.Index(text, "»")
	w := qErr{a, text[a+2 : b], rep.Replace(m.msg), strings.ReplaceAll(m.hints, "K", f[1])}
	text = text[:a] + w.text + text[b+2:]
	es, err := qReport(parse_code(text), text)
	r.Transitions++
	if err != nil {
		return err
	}
	for _, e := range es {
		if e == w {
			r.Validated++
			return nil
		}
	}
	return fmt.Errorf("%q reports %v, expected %v", text, es, w)
}

// c13Around: what stands around a closed block is parsed, errors included, as
// if the block were correct. The block replaces the token "{b}" of the words.
func c13Around(r *vfRun, c string) error {
	f := strings.SplitN(c, "\x00", 2)
	bad, text := f[0], f[1]
	norm := func(text, block string) string {
		b := parse_code(block).Repr.(*InnerNode).Children
		if len(b) != 1 {
			return ""
		}
		s := strings.ReplaceAll(gShape(parse_code(text)), gShape(b[0]), "□")
		return strings.ReplaceAll(s, block, "□")
	}
	r.Transitions++
	bt := strings.ReplaceAll(text, "{b}", bad)
	good := "{b}"
	if bad[0] == '[' {
		good = "[b]"
	}
	text = strings.ReplaceAll(text, "{b}", good)
	want, got := norm(text, good), norm(bt, bad)
	if got != want {
		return fmt.Errorf("%q parses to\n%s\nbut around the block %q to\n%s", bt, got, text, want)
	}
	r.Validated++
	return nil
}

var c13Ctx = gContexts()

var c13Tokens = []string{"a", "b", "1", "\"a\"", "none", "<l>", "_", "(", ")", "{", "}", "[c]", ",", ":", ";", "\n", ".", "..", "=", "=>", "==", "+",
	"*", "-", "not", "in", "and", "or", "let", "set", "show", "context", "if", "else", "while", "for", "import", "include", "as", "return", "break", "+=", "true"}

var c13Core = []string{"a", "1", "_", "(", ")", "{", "}", "[c]", ",", ":", ";", "\n", ".", "..", "=", "=>", "-", "not", "in", "let", "if", "else"}
var c13Lean = []string{"a", "(", ")", ",", ":", "..", "=", "=>", "_", "\n", "1"}

func c13Print(toks []string, style int) string {
	if style == 1 {
		return strings.Join(toks, " ")
	}
	var g []gtok
	for _, t := range toks {
		g = append(g, gtok{t: t, lit: t == "\n"})
	}
	return gPrint(g, 0)
}

func c13Words(r *vfRun, name string, pre, alpha []string, lo, hi int) {
	for s := 0; s < 2; s++ {
		buf := append([]string{}, pre...)
		var rec func(n int)
		rec = func(n int) {
			if n == 0 {
				r.Emit("t" + c13Print(buf, s))
				return
			}
			for _, a := range alpha {
				buf = append(buf, a)
				rec(n - 1)
				buf = buf[:len(buf)-1]
			}
		}
		for n := lo; n <= hi; n++ {
			rec(n)
		}
	}
	r.Bound(name, vfB("all words over %d tokens of length %d to %d, with and without spaces between tokens", len(alpha), lo, hi))
}

// c13For: two patterns of a loop without parentheses.
func c13For(r *vfRun, c string) error {
	items := strings.Split(c, "\x00")
	text := "for " + items[0] + ", " + items[1] + " in x {}"
	got, err := qReport(parse_code(text), text)
	if err != nil {
		return err
	}
	r.Transitions++
	comma := qErr{4 + len(items[0]), ",", "unexpected comma", "destructuring patterns must be wrapped in parentheses"}
	var want []qErr
	for _, e := range c13Expect(1, false, items, 4) {
		if e.off > comma.off && comma.text != "" {
			want = append(want, comma)
			comma.text = ""
		}
		want = append(want, e)
	}
	if comma.text != "" {
		want = append(want, comma)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%q reports %v, expected %v", text, got, want)
	}
	r.Validated++
	return nil
}

// --- long lists ------------------------------------------------------------------

// c13Wides: pre, item, repeated item, post, message; § is the name. An empty
// message means that the repetition is fine.
var c13Wides = [][5]string{
	{"let f(", "§", "§", ") = 1", "duplicate parameter: §"}, {"let f(", "§: 1", "§: 1", ") = 1", "duplicate parameter: §"}, {"let f(", "(§,)", "§", ") = 1", "duplicate parameter: §"},
	{"(", "§", "§", ") => 1", "duplicate parameter: §"}, {"(", "§", "..§", ") => 1", "duplicate parameter: §"}, {"(", "(y: §)", "(y: §)", ") => 1", "duplicate binding: §"},
	{"let (", "§", "§", ") = 1", "duplicate binding: §"}, {"let (", "y: §", "§", ") = 1", "duplicate binding: §"}, {"let (", "(§, _)", "((§,),)", ") = 1", "duplicate binding: §"},
	{"for (", "§", "§", ") in x {}", "duplicate binding: §"}, {"(", "§", "§", ") = 1", ""}, {"let (", "§: _", "§: _", ") = 1", ""},
	{"f(", "§: 1", "§: 1", ")", "duplicate argument: §"}, {"set f(", "§: 1", "§: 1", ")", "duplicate argument: §"}, {"f(", "§", "§", ")", ""}, {"f(", "(§: 1)", "(§: 1)", ")", ""},
	{"(", "§: 1", "§: 1", ")", "duplicate key: §"}, {"(", "\"§\": 1", "§: 1", ")", "duplicate key: §"}, {"(", "§: 1", "\"§\": 1", ")", "duplicate key: §"}, {"(", "§", "§", ")", ""},
	{"import \"a\": ", "§", "§", "", ""}, {"$xy(", "§: 1", "§: 1", ")$", "duplicate argument: §"}, {"$xy(", "§", "§", ")$", ""}, {"$xy(", "§: 1;§", "§: 1", ")$", "duplicate argument: §"},
}

// c13Wide: n different names, then the k-th again, and one more.
func c13Wide(r *vfRun, c string) error {
	var row, n, k int
	fmt.Sscan(c, &row, &n, &k)
	t := c13Wides[row]
	name := func(i int) string { return fmt.Sprintf("n%dx", i) }
	var b strings.Builder
	b.WriteString(t[0])
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(t[1], "§", name(i)) + ", ")
	}
	rep := strings.ReplaceAll(t[2], "§", name(k))
	off := b.Len()
	b.WriteString(rep + ", " + strings.ReplaceAll(t[1], "§", name(n)) + t[3])
	text := b.String()
	root := parse_code(text)
	r.Transitions++
	got, err := qReport(root, text)
	if err != nil {
		return err
	}
	var want []qErr
	if t[4] != "" {
		bad := name(k)
		if i := strings.Index(rep, "\""+bad); i >= 0 {
			bad = "\"" + bad + "\""
		}
		want = append(want, qErr{off + strings.Index(rep, bad), bad, strings.ReplaceAll(t[4], "§", name(k)), ""})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%s with %d names and number %d again reports %v, expected %v", t[0], n, k, got, want)
	}
	r.Validated++
	return nil
}

func c13Check(r *vfRun, c string) error {
	switch c[0] {
	case 't':
		return c13Valid(r, c[1:])
	case 'x':
		return c13List1(r, c[1:])
	case 'd':
		return c13Delim(r, c[1:])
	case 'm':
		return c13Message(r, c[1:])
	case 'a':
		return c13Around(r, c[1:])
	case 'l':
		return c13Hole(r, c[1:])
	case 'w':
		return c13Wide(r, c[1:])
	case 'f':
		return c13For(r, c[1:])
	}
	panic("bad case")
}

// c13Edits: every derivation with one token removed, replaced, inserted, or
// two neighbours swapped.
func c13Edits(r *vfRun, e gx, alpha []string) {
	emit := func(t []gtok) {
		r.Emit("t" + gPrint(t, 0))
		r.Emit("t" + gPrint(t, 1))
	}
	t := e.toks
	for i := 0; i <= len(t); i++ {
		for _, a := range alpha {
			n := append(append([]gtok{}, t[:i]...), gtok{t: a, lit: a == "\n"})
			emit(append(n, t[i:]...))
			if i < len(t) {
				emit(append(append([]gtok{}, n...), t[i+1:]...))
			}
		}
		if i < len(t) {
			emit(append(append([]gtok{}, t[:i]...), t[i+1:]...))
		}
		if i+1 < len(t) {
			n := append([]gtok{}, t...)
			n[i], n[i+1] = n[i+1], n[i]
			emit(n)
		}
	}
}

func vfProperty() vfProp {
	return vfProp{Check: c13Check, Gen: func(r *vfRun) {
		c13Words(r, "words", nil, c13Tokens, 0, 3)
		for k, l := range c13Lists {
			hi := 4
			if r.Thorough {
				hi = 5
			}
			vfWords(c13Items[l.kind], 1, hi, "\x00", func(s string) { r.Emit(vfB("x%d\x00%s", k, s)) })
			r.Bound("lists "+l.pre, vfB("all lists of up to %d of %d items", hi, len(c13Items[l.kind])))
		}
		for _, p := range c13Items[1] {
			for _, q := range c13Items[1] {
				if one := func(s string) bool { return s[0] == '(' || len(s) == 1 }; one(q) && (one(p) || p == "if") {
					r.Emit("f" + p + "\x00" + q)
				}
			}
		}
		r.Bound("loops without parentheses", "all pairs of patterns")
		pow := 8
		if r.Thorough {
			pow = 11
		}
		for k := range c13Wides {
			for n := 1; n <= 1<<pow+1; n++ {
				if n > 9 && n&(n-1) != 0 && (n-1)&(n-2) != 0 && (n+1)&n != 0 && n != 10 && n != 100 && n != 1000 {
					continue
				}
				for _, i := range []int{0, 1, n / 2, n - 1} {
					if i < n {
						r.Emit(vfB("w%d %d %d", k, n, i))
					}
				}
			}
		}
		r.Bound("long lists", vfB("%d lists of n different names for n up to 9 and round the powers of two up to %d, then the first, second, middle and last name again and one more item", len(c13Wides), 1<<pow))
		n := 6
		if r.Thorough {
			n = 8
		}
		vfWords([]string{"(", ")", "{", "}", "[", "]"}, 1, n, "", func(s string) { r.Emit("d" + s) })
		r.Bound("delimiters", vfB("all bracket words up to length %d", n))
		for k := 3; k <= 8; k++ {
			for n := 1<<k - 1; n <= 1<<k+1; n++ {
				for _, o := range []string{"(", "{", "[", "({", "[{", "([", "{[("} {
					open := strings.Repeat(o, n)
					shut := ""
					for i := len(open) - 1; i >= 0; i-- {
						shut += string(")}]"[strings.IndexByte("({[", open[i])])
					}
					r.Emit("d" + open + shut)
					r.Emit("d" + open + shut[:len(shut)-1])
					r.Emit("d" + open + shut[1:])
					r.Emit("d" + open + shut + ")")
					r.Emit("d" + open[1:] + shut)
					m := len(shut) / 2
					for _, c := range "()[]{}" {
						r.Emit("d" + open + shut[:m] + string(c) + shut[m:])
						r.Emit("d" + open + shut[:m] + string(c) + shut[m+1:])
					}
				}
			}
		}
		r.Bound("deep delimiters", "7 nestings up to 257 deep, matched, with one missing, one too many, and one inserted or replaced in the middle of the closers")
		for k, m := range c13Msgs {
			kws, ts, ns := []string{"as"}, []string{" "}, []string{""}
			if strings.Contains(m.tmpl, "K") {
				kws = strings.Fields("not and or none auto let set show context if else for in while break continue return import include as")
			}
			if strings.Contains(m.msg, "expected pattern") && strings.Contains(m.tmpl, "N") && kws[0] == "not" {
				// What cannot even start an item is just unexpected.
				kws = strings.Fields("none auto let set show context if for while break continue return import include")
			}
			if strings.Contains(m.tmpl, "T") {
				ts = []string{" ", "  ", " /*c*/ ", " /*\\*/"}
			}
			if strings.Contains(m.tmpl, "N") {
				ns = []string{" ", "\n", " //c\n", "\n\n", " /*c*/\t", "\r\n"}
			}
			for _, kw := range kws {
				for _, t := range ts {
					for _, n := range ns {
						r.Emit(vfB("m%d\x00%s\x00%s\x00%s", k, kw, t, n))
					}
				}
			}
		}
		r.Bound("messages", vfB("%d kinds of mistakes with every keyword and trivia", len(c13Msgs)))
		// Blocks with errors inside, in every context.
		bads := []string{"{)}"}
		vfWords([]string{"a", "1", ",", ":", "=", "=>", "(", ")", "let", "if", "..", "_", "not", "\"s"}[:13], 1, 2, " ", func(s string) { bads = append(bads, "{"+s+"}") })
		bads = append(bads, "{let}", "{let for = 1}", "{set a ()}", "{show a}", "{(a: 1, 2)}", "{((a, a) => 1)}", "{f(a: 1, a: 2)}", "{12px}", "{#x}", "[*a]", "[_a]", "[#]", "[#(]", "[#{]", "[#let ]", "{for a, b in c {}}", "{import a: 1}", "{while}", "{/**/ ? }")
		for _, b := range bads {
			for ctx := 0; ctx <= len(c13Ctx); ctx++ {
				for s := 0; s < gWraps*gStyles; s++ {
					r.Emit(vfB("l%d\x00%d\x00%s", s, ctx, b))
				}
			}
		}
		r.Bound("locality", vfB("%d erroneous blocks in %d contexts and %d documents", len(bads), len(c13Ctx)+1, gWraps))
		for _, b := range []string{"{let}", "{a b}", "{(}", "[*a]"} {
			for _, sep := range []string{"", " "} {
				vfWords([]string{"{b}", "a", "(", ")", ",", ":", "=", "=>", "\n", "let ", "if ", "else", ".", "..", "-", "}"}, 2, 4, sep, func(s string) {
					if strings.Contains(s, "{b}") {
						r.Emit("a" + b + "\x00" + s)
					}
				})
			}
		}
		r.Bound("around", "4 erroneous blocks in all words of length 2 to 4 over 16 tokens")
		// One edit away from valid.
		atoms := gAtoms()
		for _, x := range c13Ctx {
			for k, a := range []gx{atoms[0], gParen(gId("b")), gBlock(), atoms[2]} {
				if x.ok(a) && (k == 0 || r.Thorough || !strings.Contains(x.name, "x=>")) {
					alpha := c13Tokens
					if k > 0 && !r.Thorough {
						alpha = c13Core
					}
					c13Edits(r, x.fill(a), alpha)
				}
			}
		}
		r.Bound("one edit", vfB("every derivation of depth 1 with a token removed, inserted, replaced or swapped"))
		c13Words(r, "core words", nil, c13Core, 4, 4)
		c13Words(r, "group words", []string{"("}, c13Lean, 3, 5)
		c13Words(r, "let words", []string{"let"}, c13Lean, 3, 4)
		c13Words(r, "for words", []string{"for"}, append([]string{"in", "{", "}"}, c13Lean...), 3, 4)
		c13Words(r, "if words", []string{"if"}, []string{"a", "{", "}", "[c]", "else", "if", "\n", "(", ")", ";"}, 3, 5)
		c13Words(r, "import words", []string{"import", "a"}, []string{":", "a", "b", "as", "*", ",", ".", "(", ")", "\n", ";"}, 2, 4)
		c13Words(r, "set words", []string{"set"}, []string{"a", ".", "(", ")", "[c]", "if", "\n", ",", ":", ";"}, 3, 4)
		c13Words(r, "show words", []string{"show"}, []string{"a", ".", "(", ")", "[c]", ":", "\n", ",", "=>", "set", ";"}, 3, 4)
		if !r.Thorough {
			return
		}
		c13Words(r, "words 4", nil, c13Tokens, 4, 4)
		c13Words(r, "core words 5", nil, c13Core, 5, 5)
		c13Words(r, "group words 6", []string{"("}, c13Lean, 6, 6)
		for _, x := range c13Ctx {
			for _, y := range c13Ctx {
				if !x.ok(atoms[0]) {
					continue
				}
				if e := x.fill(atoms[0]); y.ok(e) {
					c13Edits(r, y.fill(e), c13Core)
				}
			}
		}
		r.Bound("one edit 2", "every derivation of depth 2 with a token removed, inserted, replaced or swapped")
	}}
}
