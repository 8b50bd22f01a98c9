// Bounded text families shared by several explorers.
package PKG

import "strings"

// vfWords calls f with every word over the alphabet of length lo..hi, in order
// of length, letters joined by sep.
func vfWords(alpha []string, lo, hi int, sep string, f func(string)) {
	buf := make([]string, 0, hi)
	var rec func(n int)
	rec = func(n int) {
		if n == 0 {
			f(strings.Join(buf, sep))
			return
		}
		for _, a := range alpha {
			buf = append(buf, a)
			rec(n - 1)
			buf = buf[:len(buf)-1]
		}
	}
	for n := lo; n <= hi; n++ {
		rec(n)
	}
}

// One character of every class the lexer distinguishes outside of math.
var vfChars = strings.Split("a|1|#| |\n|(|)|[|]|{|}|*|_|`|\"|'|=|-|+|/|:|.|,|;|<|>|@|\\|~|é|!|&|%|\r|\u2212|\uFFFD|😀|$", "|")

// The characters that combine into multi-character tokens.
var vfCharsSmall = strings.Split("a|1|#| |\n|(|)|[|]|{|}|*|`|\"|=|-|/|:|.|,|;|\\", "|")

var vfMarkupTokens = []string{"a", "\n", " ", "  ", "= ", "- ", "+ ", "1. ", "/ ", ": ", "*", "_", "[", "]",
	"#[", "#x", "`", "```", "<l>", "@r", "//c\n", "/*", "*/", "\\", "https://x.y", "...", "\"", "é", "\t", "$"}

var vfCodeTokens = []string{"x", "1", "\"s\"", "(", ")", "[", "]", "{", "}", ",", ":", ";", "\n", ".", "..", "_", "=", "=>",
	"+", "-", "not", "in", "and", "==", "+=", "let", "if", "else", "for", "while", "set", "show", "import", "include",
	"as", "return", "break", "context", "none", "1pt", "<l>", "`r`", "*", "//c\n", "@r", "#x", "$a_1$"}

var vfCodeWraps = [][2]string{{"#{", "}"}, {"#", ""}, {"#(", ")"}, {"#f(", ")"}, {"#let ", ""}, {"#for ", ""}, {"#if ", ""},
	{"#import ", ""}, {"#set ", ""}, {"#show ", ""}, {"#let (", ") = 1"}, {"#((", ") => 1)"}, {"#{(", ") = 1}"}}

// vfTexts enumerates the families. level 0: small, 1: quick, 2: thorough.
func vfTexts(r *vfRun, level int, f func(string)) {
	pick := func(a, b, c int) int { return []int{a, b, c}[level] }
	f("")
	n := pick(2, 3, 4)
	vfWords(vfChars, 1, n, "", f)
	r.Bound("chars", vfB("all strings over %d characters up to length %d", len(vfChars), n))
	n = pick(3, 4, 5)
	vfWords(vfCharsSmall, 2, n, "", f)
	r.Bound("chars-small", vfB("all strings over %d characters up to length %d", len(vfCharsSmall), n))
	for _, pre := range []string{"#{", "#(", "#a(", "#let ", "/*", "```", "#\""} {
		m := pick(2, 3, 4)
		vfWords(vfCharsSmall, 1, m, "", func(s string) { f(pre + s) })
		r.Bound("chars after "+pre, vfB("all strings over %d characters up to length %d", len(vfCharsSmall), m))
	}
	n = pick(2, 3, 4)
	vfWords(vfMarkupTokens, 1, n, "", f)
	r.Bound("markup tokens", vfB("all words over %d markup tokens up to length %d", len(vfMarkupTokens), n))
	n = pick(2, 3, 3)
	for _, w := range vfCodeWraps {
		vfWords(vfCodeTokens, 1, n, " ", func(s string) { f(w[0] + s + w[1]) })
	}
	r.Bound("code tokens", vfB("all words over %d code tokens up to length %d in %d contexts", len(vfCodeTokens), n, len(vfCodeWraps)))
	if level == 2 {
		for _, w := range vfCodeWraps[:3] {
			vfWords(vfCodeTokens, 4, 4, " ", func(s string) { f(w[0] + s + w[1]) })
		}
		r.Bound("code tokens 4", vfB("all words of length 4 over %d code tokens in 3 contexts", len(vfCodeTokens)))
	}
	vfMath(r, level, f)
	// Nesting: repeated openers and closers.
	units := []string{"(", "[", "{", "#[", "#{", "#(", "*", "_", "- ", "= ", "if x ", "(x) => ", "not ", "-", "/*", "x.", "f(", "\n  - ", "`", "((x", "let "}
	m := pick(8, 40, 200)
	for _, u := range units {
		for _, c := range []string{"", ")", "]", "}", "*", "x", ") = 1", ") => 1"} {
			for _, pre := range []string{"", "#", "#{"} {
				for k := 1; k <= m; k++ {
					f(pre + strings.Repeat(u, k))
					f(pre + strings.Repeat(u, k) + strings.Repeat(c, k))
				}
			}
		}
	}
	r.Bound("nesting", vfB("%d opener kinds repeated up to %d times with 8 closers", len(units), m))
	if level > 0 {
		vfSizes(r, 9+level, 16, f)
	}
}

// The tokens of math.
var vfMathTokens = strings.Split("a|xy|1|é| |\n|(|)|[|]|[\x00|\x00]|{|\x00|/|^|_|'|!|&|,|;|:|.|..|\\|√|#x|#(|\"s\"|$|->|f.g|e\u0301|+|//c\n|*|=|k:", "|")

var vfMathWraps = [][2]string{{"$", "$"}, {"$", ""}, {"$f(", ")$"}, {"$ (", ") $"}, {"#{$", "$}"}, {"$f(a,", ";)$"}, {"- $", "\n$b"}, {"$a/", "/b$"}, {"$a_", "^b$"}}

// vfMath enumerates texts of math. \x00 stands for a bar in the lists above.
func vfMath(r *vfRun, level int, f func(string)) {
	toks := make([]string, len(vfMathTokens))
	for i, t := range vfMathTokens {
		toks[i] = strings.ReplaceAll(t, "\x00", "|")
	}
	n := []int{2, 2, 3}[level]
	for i, w := range vfMathWraps {
		m := n
		if i < 2 && level > 0 {
			m++
		}
		vfWords(toks, 0, m, "", func(s string) { f(w[0] + s + w[1]) })
	}
	r.Bound("math", vfB("all words over %d math tokens up to length %d in %d contexts, %d in the first two", len(toks), n, len(vfMathWraps), n+1))
	m := []int{6, 20, 100}[level]
	for _, u := range []string{"(", "[", "f(", "a_", "a^", "a/", "√", "(a", "$#", "f(a,", "f(;", "'", "!", "a'", "#[$"} {
		for _, c := range []string{"", ")", "]", "$", "a"} {
			for k := 1; k <= m; k++ {
				f("$" + strings.Repeat(u, k) + strings.Repeat(c, k) + "$")
				f("$" + strings.Repeat(u, k) + "b" + c)
			}
		}
	}
	r.Bound("nesting in math", vfB("15 kinds of opener up to %d times with 5 closers", m))
}
