// C04: replacing the whole text is one minimal edit and ends like a fresh parse.
package PKG

import (
	"fmt"
	"unicode/utf8"
)

// vfCommon is the reference diff: longest common prefix and suffix in whole
// characters, not overlapping in either text.
func vfCommon(a, b string) (pre, suf int) {
	for pre < len(a) && pre < len(b) {
		ra, na := utf8.DecodeRuneInString(a[pre:])
		rb, nb := utf8.DecodeRuneInString(b[pre:])
		if ra != rb || na != nb {
			break
		}
		pre += na
	}
	for pre+suf < len(a) && pre+suf < len(b) {
		ra, na := utf8.DecodeLastRuneInString(a[:len(a)-suf])
		rb, nb := utf8.DecodeLastRuneInString(b[:len(b)-suf])
		if ra != rb || na != nb || pre+suf+na > len(a) || pre+suf+nb > len(b) {
			break
		}
		suf += na
	}
	return pre, suf
}

func vfProperty() vfProp {
	// characters chosen to share leading or trailing UTF-8 bytes
	alpha := []string{"a", "b", "\n", "\r", "é", "\u0129", "\u4e00", "\u4e01", "\u5000", "😀", "😁", "\uFFFD"}
	mk := []string{"a", "\n", "#[", "]", "#{", "}", "`", "*", " ", "é", "= "}
	return vfProp{
		Gen: func(r *vfRun) {
			n := 2
			if r.Thorough {
				n = 3
			}
			var texts []string
			vfWords(alpha, 0, n, "", func(t string) { texts = append(texts, t) })
			for _, a := range texts {
				if r.Mine() {
					for _, b := range texts {
						r.Exec(vfEnc(a, vfEdit{0, 0, b}))
					}
				}
			}
			r.Bound("characters", vfB("all pairs of texts up to %d of %d characters", n, len(alpha)))
			texts = texts[:0]
			vfWords([]string{"a", "é", "\u0129", "\n"}, 0, 4, "", func(t string) { texts = append(texts, t) })
			for _, a := range texts {
				if r.Mine() {
					for _, b := range texts {
						r.Exec(vfEnc(a, vfEdit{0, 0, b}))
					}
				}
			}
			vfEveryChar(func(c rune) {
				if !r.Mine() {
					return
				}
				s := string(c)
				for i, d := range []rune{c ^ 0x40, c ^ 1, c ^ 0x1000, c ^ 0x40000} {
					if i > 0 && !r.Thorough && c%16 > 1 {
						continue
					}
					if d <= 0x10FFFF && (d < 0xD800 || d > 0xDFFF) {
						r.Exec(vfEnc("a"+s+"b", vfEdit{0, 0, "a" + string(d) + "b"}))
					}
				}
			})
			r.Bound("Unicode", "every character replaced by one that differs from it in one byte, two in sixteen (thorough: all) by four such")
			r.Bound("characters 4", "all pairs of texts up to 4 of 4 characters")
			texts = texts[:0]
			vfWords(mk, 0, 3, "", func(t string) { texts = append(texts, t) })
			texts = append(texts, vfDocs...)
			for _, a := range texts {
				if r.Mine() {
					for _, b := range texts {
						r.Exec(vfEnc(a, vfEdit{0, 0, b}))
					}
				}
			}
			r.Bound("markup", vfB("all pairs of markup words up to 3 of %d tokens and %d documents", len(mk), len(vfDocs)))
			sizes := func(c string) {
				t, e := vfDec(c)
				r.Exec(vfEnc(t, vfEdit{0, 0, vfApply(t, e[0])}, vfEdit{0, 0, t}))
			}
			vfSizeEdits(r, 6, 6, []string{"", "a", "\n", "é"}, sizes)
			vfSizeEdits(r, 8, 10, []string{"é"}, sizes)
			for _, a := range vfDocs {
				for _, b := range vfDocs {
					if r.Mine() {
						for _, c := range vfDocs {
							r.Exec(vfEnc(a, vfEdit{0, 0, b}, vfEdit{0, 0, c}, vfEdit{0, 0, a}))
						}
					}
				}
			}
			r.Bound("histories", vfB("all sequences of three replacements over %d documents, back to the start", len(vfDocs)))
		},
		Check: func(r *vfRun, c string) error {
			text, reps := vfDec(c)
			src := vfSource(text)
			lines := NewLines(text)
			for _, e := range reps {
				next := e.with
				what := fmt.Sprintf("replacing %q by %q", text, next)
				rr, ok := src.Lines.ReplacementRange(next)
				if ok != (text != next) {
					return fmt.Errorf("%s: a change is reported as %v", what, ok)
				}
				if ok {
					p, s := vfCommon(text, next)
					if int(rr.Prefix) != p || int(rr.Suffix) != s {
						return fmt.Errorf("%s: common prefix %d and suffix %d, want %d and %d", what, rr.Prefix, rr.Suffix, p, s)
					}
				}
				got := src.Replace(next)
				if err := vfStepOracle(r, src, next, what); err != nil {
					return err
				}
				if err := vfSameLines(src.Lines, next); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				if got.Start > got.End || got.End > uint64(len(next)) {
					return fmt.Errorf("%s: reparsed range %v is outside the text", what, got)
				}
				if !ok && got.Len() != 0 {
					return fmt.Errorf("%s: nothing changed but %v was reparsed", what, got)
				}
				if ch := lines.Replace(next); ch != ok {
					return fmt.Errorf("%s: Lines.Replace returns %v", what, ch)
				}
				if err := vfSameLines(lines, next); err != nil {
					return fmt.Errorf("%s: lines: %v", what, err)
				}
				r.Validated += 4
				text = next
			}
			r.Outcome(text)
			return nil
		},
	}
}
