// Long and deep texts: every construct that counts, repeated around the
// powers of two, where counters and buffers of a fixed width give way.
package PKG

import "strings"

// vfSizesTab: head, repeated unit, middle, repeated closer, tail.
var vfSizesTab = [][5]string{
	// One token or one line of any length.
	{"", "a", "", "", ""}, {"", "é", "", "", ""}, {"", "😀", "", "", ""}, {"", " ", "a", "", ""}, {"a", "\n", "b", "", ""}, {"a", "\r\n", "b", "", ""},
	{"", "=", " a", "", ""}, {"", "1", ". a", "", ""}, {"", "`", "x", "`", ""}, {"", "`", "x", "", ""}, {"`", "a", "`", "", ""}, {"```", "a", " b```", "", ""},
	{"```\n", " ", "a\n```", "", ""}, {"//", "a", "\n", "", ""}, {"/*", "a", "*/", "", ""}, {"/*", "a", "", "", ""}, {"@", "a", " ", "", ""}, {"<", "a", ">", "", ""},
	{"https://", "a", " ", "", ""}, {"\\u{", "1", "}", "", ""}, {"#", "1", "", "", ""}, {"#0.", "1", "", "", ""}, {"#0x", "1", "", "", ""}, {"#1", "x", "", "", ""},
	{"#", "x", "", "", ""}, {"#\"", "a", "\"", "", ""}, {"#\"", "é", "", "", ""}, {"#\"", "\\n", "\"", "", ""}, {"$a", "'", "$", "", ""}, {"$", "a", "$", "", ""}, {"$", "1", "$", "", ""}, {"$\"", "a", "\"$", "", ""},
	// Names of any length.
	{"#", "x", "[y]", "", ""}, {"#", "x", "(y)", "", ""}, {"#let ", "x", " = 1", "", ""}, {"#let ", "x", "(a) = 1", "", ""}, {"#set ", "x", "(a: 1)", "", ""}, {"#show ", "x", ": y", "", ""}, {"#show x.", "y", ": z", "", ""}, {"#show x: ", "y", "", "", ""},
	{"#(", "a", ": 1)", "", ""}, {"#f(", "a", ": 1)", "", ""}, {"#a.", "b", "(1)", "", ""}, {"#a.", "b", ".c[d]", "", ""}, {"#import \"", "a", "\": b", "", ""}, {"#import \"a\": ", "b", " as c", "", ""}, {"#for ", "a", " in b {}", "", ""}, {"#((", "a", ") => 1)", "", ""},
	{"$", "x", "(y)$", "", ""}, {"$x.", "y", "(z)$", "", ""}, {"$f(", "x", ": y)$", "", ""}, {"$#", "x", "(y)$", "", ""}, {"/ ", "a", ": b", "", ""}, {"= ", "a", "\n", "", ""}, {"- ", "a", "\n", "", ""}, {"*", "a", "*", "", ""}, {"```", "a", "\nb```", "", ""},
	// Many siblings.
	{"", "a\n", "", "", ""}, {"", "a ", "", "", ""}, {"", "\\", "", "", ""}, {"", "~", "", "", ""}, {"", "\"", "", "", ""}, {"", "'", "", "", ""}, {"", "#x;", "", "", ""},
	{"", "*a*", "", "", ""}, {"", "- a\n", "", "", ""}, {"", "= a\n", "", "", ""}, {"", "a\n\n", "", "", ""}, {"", "-", "", "", ""}, {"", "<l> ", "", "", ""}, {"", "$a$", "", "", ""}, {"", "`a`", "", "", ""},
	{"```", "a\n", "```", "", ""}, {"```\n", " a\r", " ```", "", ""}, {"", "#", "", "", ""}, {"", "]", "", "", ""}, {"", "/*é*/\n", "", "", ""},
	{"$", "a ", "$", "", ""}, {"$", "a b/c_d ", "$", "", ""}, {"$", "&", "$", "", ""}, {"$a", "!", "$", "", ""}, {"$f(", "a,", ")$", "", ""}, {"$f(", "a;", ")$", "", ""}, {"$f(", "a,b;", "", "", ""}, {"$a", "/b", "$", "", ""},
	{"#(", "1,", ")", "", ""}, {"#(", "a: 1,", ")", "", ""}, {"#(", "a,", ") = 1", "", ""}, {"#let (", "_,", ") = 1", "", ""}, {"#((", "_,", ") => 1)", "", ""}, {"#f(", "..a,", ")", "", ""}, {"#f(", "a: 1,", "", "", ""},
	{"#{", "x\n", "}", "", ""}, {"#{", "x;", "}", "", ""}, {"#{", "x ", "}", "", ""}, {"#{", ")", "}", "", ""}, {"#(", "1 ", ")", "", ""}, {"#{", "let a = 1;", "", "", ""}, {"#{", "\n", "}", "", ""},
	{"#(1", "+1", ")", "", ""}, {"#(1", "*2+1", ")", "", ""}, {"#x", ".a", "", "", ""}, {"#x", "()", "", "", ""}, {"#f", "[a]", "", "", ""}, {"#import \"a\": ", "a,", "b", "", ""}, {"#import \"a\": a", ".b", "", "", ""},
	{"#if a {}", " else if b {}", "", "", ""}, {"#{", "import \"é\"\n", "}", "", ""},
	// Deep.
	{"", "#[", "a", "]", ""}, {"#", "{", "1", "}", ""}, {"#", "(", "1", ")", ""}, {"#", "((", "1", "),)", ""}, {"", "*#[_", "b", "_]*", ""}, {"$", "(", "a", ")", "$"}, {"$", "f(", "a", ")", "$"}, {"$", "a_(", "b", ")", "$"},
	{"#", "f(", "1", ")", ""}, {"#(", "not ", "a", "", ")"}, {"#{", "-", "1", "", "}"}, {"#{", "x = ", "1", "", "}"}, {"#(", "a => ", "1", "", ")"}, {"#", "if a {", "1", "}", ""}, {"", "/*", "a", "*/", "b"}, {"https://", "(", "a", ")", " b"}, {"https://", "[", "a", "]", "] b"},
	{"", "[", "a", "]", ""}, {"", "- ", "a", "", "\nb"}, {"$", "$#[", "a", "]", ""}, {"$", "a_", "b", "", "$"}, {"$", "√", "b", "", "$"}, {"#", "{[", "1", "]}", ""}, {"#", "(", "a", ")", " = 1"},
}

// vfSizes enumerates every row repeated n times for n around every power of
// two up to 2^bits; the first rows, single tokens, up to 2^long.
func vfSizes(r *vfRun, bits, long int, f func(string)) {
	for i, t := range vfSizesTab {
		m := bits
		if i < 32 {
			m = long
		}
		for k := 3; k <= m; k++ {
			for n := 1<<k - 1; n <= 1<<k+1; n++ {
				f(t[0] + strings.Repeat(t[1], n) + t[2] + strings.Repeat(t[3], n) + t[4])
			}
		}
	}
	r.Bound("sizes", vfB("%d counting constructs, each repeated n times for n within one of every power of two up to %d, single tokens up to %d", len(vfSizesTab), 1<<bits, 1<<long))
}
