// C05: the line index after any history of edits equals the index of the text.
package PKG

import (
	"fmt"
	"strings"
)

func vfProperty() vfProp {
	full := []string{"a", "\n", "\r", "é", "😀", "\u2028", "\u0085", "\v", "\f", "\u2029", "€"}
	small := []string{"\r", "\n", "a", "😀"}
	return vfProp{
		Gen: func(r *vfRun) {
			n := 3
			if r.Thorough {
				n = 4
			}
			ins := append([]string{"", "\r\n", "a\n", "\n\r", "éa"}, full...)
			vfWords(full, 0, n, "", func(t string) {
				if r.Mine() {
					vfEdits(t, 9, ins, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				}
			})
			r.Bound("one edit", vfB("all texts up to %d of %d characters, every edit by one of %d inserts", n, len(full), len(ins)))
			vfEveryChar(func(c rune) {
				if !r.Mine() {
					return
				}
				s := string(c)
				r.Exec(vfEnc("a\n", vfEdit{1, 1, s}))
				r.Exec(vfEnc("a"+s+"b", vfEdit{0, 1, ""}))
				if r.Thorough {
					r.Exec(vfEnc("a"+s+"\n", vfEdit{1, 1 + len(s), "\r"}))
					r.Exec(vfEnc("\r"+s, vfEdit{1, 1, s}))
				}
			})
			r.Bound("Unicode", "every character inserted, and next to an edit")
			vfSizeEdits(r, 6, 6, []string{"", "\r", "\n", "a", "\r\n", "😀"}, r.Exec)
			vfSizeEdits(r, 8, 11, []string{"\r"}, r.Exec)
			vfSizes(r, 10, 16, r.Emit)
			ins = []string{"", "\r", "\n", "a", "\r\n", "😀\n"}
			m := 3
			if r.Thorough {
				m = 5
			}
			vfWords(small, 0, m, "", func(t string) {
				vfEdits(t, 9, ins, func(e vfEdit) {
					if r.Mine() {
						vfEdits(vfApply(t, e), 9, ins, func(e2 vfEdit) { r.Exec(vfEnc(t, e, e2)) })
					}
				})
			})
			r.Bound("two edits", vfB("all texts up to %d of %d characters, every two edits by %d inserts", m, len(small), len(ins)))
			d := 2
			if r.Thorough {
				d = 3
			}
			vfWords([]string{"\r", "\n", "a"}, 0, d, "", func(t string) {
				vfEdits(t, 2, ins, func(e vfEdit) {
					t2 := vfApply(t, e)
					vfEdits(t2, 2, ins, func(e2 vfEdit) {
						if r.Mine() {
							vfEdits(vfApply(t2, e2), 2, ins, func(e3 vfEdit) { r.Exec(vfEnc(t, e, e2, e3)) })
						}
					})
				})
			})
			r.Bound("three edits", vfB("all texts up to %d of 3 characters, every three edits of at most 2 characters", d))
		},
		Check: func(r *vfRun, c string) error {
			text, eds := vfDec(c)
			l := NewLines(text)
			if err := vfSameLines(l, text); err != nil {
				return fmt.Errorf("fresh: %v", err)
			}
			r.Validated++
			viaSrc := r.Thorough || len(eds) == 1
			var src *Source
			if viaSrc {
				src = vfSource(text)
			}
			for _, e := range eds {
				want := vfApply(text, e)
				l.Edit(vfRng(e.s, e.e), e.with)
				r.Transitions++
				if err := vfSameLines(l, want); err != nil {
					return fmt.Errorf("after replacing %d..%d of %q by %q: %v", e.s, e.e, text, e.with, err)
				}
				r.Validated++
				if viaSrc {
					src.Edit(vfRng(e.s, e.e), e.with)
					if err := vfSameLines(src.Lines, want); err != nil {
						return fmt.Errorf("source, after replacing %d..%d of %q by %q: %v", e.s, e.e, text, e.with, err)
					}
				}
				text = want
			}
			if strings.Count(text, "\n") > 0 {
				r.Outcome(text)
			}
			return nil
		},
	}
}
