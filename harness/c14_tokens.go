// C14: the lexer splits every text into the tokens of the language reference.
package PKG

import (
	"fmt"
	big_ "math/big"
	"strings"
	"unicode"
)

// Case: mode digit + text.
func c14Check(r *vfRun, c string) error {
	mode := []SyntaxMode{SyntaxModeMarkup, SyntaxModeCode, SyntaxModeMath}[c[0]-'0']
	text := c[1:]
	want := rLex(text, mode)
	l := NewLexer(text, mode)
	i, off := 0, 0
	for {
		k, n := l.next()
		r.Transitions++
		if k == SyntaxKindEnd {
			if n.text() != "" || i != len(want) {
				return fmt.Errorf("mode %c: %q ends after %d of %d tokens %v", c[0], text, i, len(want), want)
			}
			break
		}
		if i >= len(want) {
			return fmt.Errorf("mode %c: %q has more than %d tokens: %v %q", c[0], text, i, k, n.text())
		}
		w := want[i]
		full := string(n.into_text_copy())
		if k != w.kind || full != w.text || n.SyntaxKind() != k {
			return fmt.Errorf("mode %c: token %d of %q is %v (node %v) %q, want %v %q", c[0], i, text, k, n.SyntaxKind(), full, w.kind, w.text)
		}
		off += len(full)
		if int(l.cursor()) != off {
			return fmt.Errorf("mode %c: after token %d of %q the cursor is %d, want %d", c[0], i, text, l.cursor(), off)
		}
		i++
	}
	r.Validated++
	if r.Cases%32 == 0 {
		r.Outcome(vfB("%v", want))
	}
	return nil
}

// into_text_copy concatenates the leaf texts without touching the node.
func (n *SyntaxNode) into_text_copy() string {
	var sb strings.Builder
	PrintNode(&sb, n)
	return sb.String()
}

func vfProperty() vfProp {
	return vfProp{Check: c14Check, Gen: func(r *vfRun) {
		big := append(append([]string{}, vfChars...), "h", "u", "$", "漢", "½", "^", "?", "|", "\t", "\v", "\u2028", "x", "e", "0", "2", "\u00a0")
		n := 3
		for m := 0; m < 3; m++ {
			al := big
			if m == 2 {
				al = append(append([]string{}, big...), "√", "\u0301", "b")
			}
			vfWords(al, 0, n, "", func(s string) { r.Emit(vfB("%d%s", m, s)) })
		}
		r.Bound("chars", vfB("all strings over %d characters up to length %d in 3 modes", len(big), n))
		groups := map[string][]string{
			"0markup":   {"a", "1", " ", "\n", "/", "*", "-", "."},
			"0punct":    {"-", "?", "1", " ", "a", "+", "=", "\n"},
			"0link":     {"http://", "https://", "a", ".", "(", ")", "[", "]", "!", " ", "é", "h"},
			"0linkend":  {"https://a", ".", ",", ";", ":", "!", "?", "'", "~", ")", "("},
			"0ref":      {"@", "a", ":", ".", "-", "<", ">", "_", " ", "["},
			"0esc":      {"\\", "u{", "}", "1F", "g", "D800", "110000", " ", "a", "\n"},
			"0comment":  {"/", "*", "a", "\n"},
			"1comment":  {"/", "*", "a", "\n"},
			"0raw":      {"`", "a", "\n", " "},
			"1num":      {"1", "0", ".", "e", "E", "+", "-", "m", "pt", "%", "a", " "},
			"1base":     {"0x", "0b", "0o", "1", "7", "9", "f", "g", "pt", "e", "."},
			"1suffix":   {"1", ".5", "1e3", "pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%", "0x1", "_", "é"},
			"1str":      {"\"", "\\", "a", "\n", "é"},
			"1stresc":   {"\"", "\\", "u", "{", "}", "n", "1"},
			"2stresc":   {"\"", "\\", "u", "{", "n", " "},
			"0newlines": {"\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029", " ", "a", "//"},
			"1newlines": {"\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029", " ", "a", "//"},
			"0marker":   {"1", ".", ")", "-", "+", "=", "/", " ", "a", "é"},
			"1hash":     {"#", "!", "\"", "a", ".", "(", ";", "1"},
			"1at":       {"@", "<", ">", "a", "-", ":", "."},
			"1id":       {"a", "-", "_", "1", ".", "@", "..", "not", "é", " "},
			"1ops":      {"=", "<", ">", "!", "+", "-", "*", "/", ".", "a", "\u2212"},
			"2short":    {"<", ">", "=", "-", "~", "|", "]", ":", "!", "[", ".", "*"},
			"2ident":    {"a", "b", ".", "1", "_", "-", "é", "\u0301", "'"},
		}
		// Every character of Unicode. In math, where grapheme clusters matter,
		// those that may join a cluster stand alone.
		templates := []string{"0◦", "0a◦", "0a*◦", "0◦*a", "0a_◦b", "0◦_ ", "0a ◦", "0<◦>", "0<a◦>", "0@◦", "0@a◦.", "0\\◦", "0-◦", "0◦//", "0 ◦", "0https://◦", "0h◦", "0#◦", "0.◦", "0a@◦", "0\\u{◦}",
			"1◦", "1a◦", "1-◦", "1<◦>", "11◦", "1.◦", "1.◦ ", "1a.in◦", "1@◦", "1#a◦", "1\\◦", "10x◦", "11e◦", "1/◦", "1\"◦\"", "1 ◦ ",
			"2◦", "2 ◦", "2\"◦\"", "2\\◦", "2xy ◦", "2a.◦"}
		if r.Thorough {
			templates = append(templates, "0◦a", "0*◦", "0◦◦", "0= ◦", "0=◦", "0◦\n", "0\n◦", "01.◦", "0/◦", "0[◦]", "0\"◦\"", "0//◦\na", "0/*◦*/", "0`◦`", "1◦a", "1◦◦", "1in◦", "1◦in", "1@a◦", "11p◦", "1//◦\na", "1`◦`", "1=◦", "1!◦", "1_◦", "2//◦\na")
		}
		for _, t := range templates {
			for c := rune(0); c <= unicode.MaxRune; c++ {
				if c == 0xD800 {
					c = 0xE000
				}
				if t[0] == '2' && strings.HasPrefix(t, "2a") && unicode.In(c, unicode.M, unicode.Cf, unicode.Other_Grapheme_Extend) {
					continue
				}
				r.Emit(strings.Replace(t, "◦", string(c), 1))
			}
		}
		r.Bound("Unicode", vfB("every character in %d places", len(templates)))
		vfSizes(r, 10, 16, func(t string) {
			for m := 0; m < 3; m++ {
				r.Emit(vfB("%d%s", m, t))
			}
		})
		names := make([]string, 0)
		for k := range groups {
			names = append(names, k)
		}
		sortStrings(names)
		for _, k := range names {
			g := groups[k]
			d := 2
			for lim := 60000; ; d++ {
				p := 1
				for i := 0; i <= d; i++ {
					p *= len(g)
				}
				if r.Thorough {
					lim = 3000000
				}
				if p > lim*5 {
					break
				}
			}
			vfWords(g, 1, d, "", func(s string) { r.Emit(k[:1] + s) })
			r.Bound(k[1:], vfB("all words over %q up to length %d in mode %c", g, d, k[0]))
		}
		kws := []string{"none", "auto", "true", "false", "not", "and", "or", "let", "set", "show", "context", "if", "else", "for", "in", "while", "break", "continue", "return", "import", "include", "as"}
		for _, kw := range kws {
			for _, p := range []string{"", ".", "..", "@", " ", "a.", "_", "-", "1", "é", "a", "...", ". "} {
				for _, s := range []string{"", "_", "-", "1", "a", "é", " ", ".", "("} {
					r.Emit("1" + p + kw + s)
					r.Emit("1" + p + strings.ToUpper(kw[:1]) + kw[1:] + s)
					r.Emit("1" + p + kw[1:] + s)
				}
			}
		}
		// Numbers round every power of two, with and without leading zeros.
		bounds := 0
		for k := 0; k <= 80; k++ {
			for d := int64(-1); d <= 1; d++ {
				n := new(big_.Int).Add(new(big_.Int).Lsh(big_.NewInt(1), uint(k)), big_.NewInt(d))
				for _, low := range []int64{0, 0x41, 0xD800} {
					n := new(big_.Int).Or(n, big_.NewInt(low))
					for _, zeros := range []string{"", "0", "000000000000000000"} {
						bounds++
						for _, m := range []string{"0", "2"} {
							r.Emit(m + "\\u{" + zeros + n.Text(16) + "}")
							r.Emit(m + "\\u{" + strings.ToUpper(zeros+n.Text(16)) + "}")
						}
						for _, t := range []string{"1%d", "10b%b", "10o%o", "10x%x", "1%de5", "1.%d", "1%d.5"} {
							t = strings.Replace(t, "%", zeros+"%", 1)
							for _, u := range []string{"", "pt", "e"} {
								r.Emit(vfB(t, n) + u)
							}
						}
						r.Emit("0" + zeros + n.String() + ". a")
					}
				}
			}
		}
		r.Bound("numbers", vfB("%d numbers round every power of two up to 2^80 as escapes, markers and in every base", bounds))
		r.Bound("keywords", "every keyword, capitalised and clipped, with 13 prefixes and 9 suffixes")
		for _, d := range []string{"0", "1", "12", "18446744073709551615", "18446744073709551616", "0018446744073709551615", "99999999999999999999"} {
			for _, s := range []string{". a", ".", ".\n", ".a", "a", ".//", "./*", "./a"} {
				r.Emit("0" + d + s)
				r.Emit("1" + d + s)
			}
		}
		if r.Thorough {
			for m := 0; m < 3; m++ {
				vfWords(vfChars, 4, 4, "", func(s string) { r.Emit(vfB("%d%s", m, s)) })
			}
			r.Bound("chars 4", vfB("all strings over %d characters of length 4 in 3 modes", len(vfChars)))
		}
	}}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
