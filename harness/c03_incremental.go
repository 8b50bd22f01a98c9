// C03: after any history of edits the tree equals a fresh parse.
package PKG

import "fmt"

func vfProperty() vfProp {
	small := []string{"", "a", " ", "\n", "#", "[", "]", "{", "}", "*", "`", "/", "\"", "= "}
	return vfProp{
		Gen: func(r *vfRun) {
			// every edit of every short markup word
			n := 2
			if r.Thorough {
				n = 3
			}
			vfWords(vfMarkupTokens, 0, n, "", func(t string) {
				if !r.Mine() {
					return
				}
				vfEdits(t, 2, vfInserts, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
			})
			r.Bound("words", vfB("all words over %d tokens up to length %d, every edit replacing at most 2 characters by one of %d inserts", len(vfMarkupTokens), n, len(vfInserts)))
			if !r.Thorough {
				vfWords(vfMarkupTokens, 3, 3, "", func(t string) {
					if !r.Mine() {
						return
					}
					vfEdits(t, 1, small, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				})
				r.Bound("words 3", vfB("all words of length 3, every edit replacing at most 1 character by one of %d inserts", len(small)))
			}
			// every edit of the documents, alone and in pairs of documents
			for _, a := range vfDocs {
				for _, b := range append([]string{""}, vfDocs...) {
					if !r.Mine() {
						continue
					}
					t := a
					max, ins := 99, vfInserts
					if b != "" {
						t, max, ins = a+"\n"+b, 1, small
						if r.Thorough {
							ins = vfInserts
						}
					}
					vfEdits(t, max, ins, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				}
			}
			r.Bound("documents", vfB("all edits of %d documents, and edits of at most 1 character of all pairs", len(vfDocs)))
			// documents of lines: markers at and behind line starts, paragraph
			// breaks, everything far enough from the edit not to be reparsed
			lines := []string{"x", "= b", "- c", "/ d: e", "*s*", "#f", "//c", "#", "]", "[e]", "`r`", "a:", "/"}
			seps := []string{" ", "\n", "\n\n", "\n "}
			lineDocs := func(k int, f func(string)) {
				var rec func(t string, k int)
				rec = func(t string, k int) {
					if k == 0 {
						f(t)
						return
					}
					for _, l := range lines {
						if t == "" {
							rec(l, k-1)
							continue
						}
						for _, s := range seps {
							rec(t+s+l, k-1)
						}
					}
				}
				rec("", k)
			}
			lineIns := []string{"", "y", "\n", " "}
			lineDocs(3, func(t string) {
				if !r.Mine() {
					return
				}
				vfEdits(t, 1, lineIns, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
			})
			lineDocs(2, func(t string) {
				if !r.Mine() {
					return
				}
				for _, w := range [][2]string{{"#[", "]"}, {"#{[", "]}"}, {"x #f[", "\n] y\n\n= z"}, {"- ", ""}, {"*", "*"}, {"a b\n\n= c\nd\n", "\ne\n\n- f\ng"}} {
					u := w[0] + t + w[1]
					vfEdits(u, 1, lineIns, func(e vfEdit) { r.Exec(vfEnc(u, e)) })
				}
			})
			r.Bound("lines", vfB("all documents of 3 lines over %d lines and %d separators, and of 2 lines in 6 surroundings, every edit of at most 1 character with %d inserts", len(lines), len(seps), len(lineIns)))
			if r.Thorough {
				lines = []string{"x", "= b", "- c", "/ d:", "*s", "#f", "#", "]", "[", "a:"}
				seps = []string{" ", "\n", "\n\n"}
				lineDocs(4, func(t string) {
					if !r.Mine() {
						return
					}
					vfEdits(t, 1, []string{"", "y", "\n"}, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				})
				r.Bound("lines 4", "all documents of 4 lines over 10 lines and 3 separators")
			}
			bits := 5
			if r.Thorough {
				bits = 10
			}
			vfSizeEdits(r, bits, bits, small, r.Exec)
			vfSizeEdits(r, bits+3, bits+3, []string{"", "a", "\n"}, r.Exec)
			// histories of two edits
			m := 11
			ins2 := []string{"", "a", "\n", "#", "[", "]", "{", "}", "`", "*"}
			if r.Thorough {
				m = 20
			}
			for _, t := range vfDocs {
				if len(t) > m {
					continue
				}
				vfEdits(t, 1, ins2, func(e vfEdit) {
					if !r.Mine() {
						return
					}
					vfEdits(vfApply(t, e), 1, ins2, func(e2 vfEdit) { r.Exec(vfEnc(t, e, e2)) })
				})
			}
			r.Bound("two edits", vfB("all histories of 2 edits (at most 1 character, %d inserts) of the documents up to %d bytes", len(ins2), m))
			// long histories in which one block is edited again and again
			for _, t := range []string{"#{a}", "#[a]", "a #[b] c", "x\n\ny", "#{[a]}"} {
				k := 40
				if r.Thorough {
					k = 400
				}
				for _, w := range []string{"b", "[b]", "(", "b ", "{b}", "#b "} {
					for pos := 1; pos <= len(t); pos++ {
						if !r.Mine() {
							continue
						}
						var eds []vfEdit
						for i := 0; i < k; i++ {
							eds = append(eds, vfEdit{pos, pos, w})
						}
						r.Exec(vfEnc(t, eds...))
					}
				}
			}
		},
		Check: func(r *vfRun, c string) error {
			text, eds := vfDec(c)
			src := vfSource(text)
			for i, e := range eds {
				want := vfApply(text, e)
				got := src.Edit(vfRng(e.s, e.e), e.with)
				what := fmt.Sprintf("edit %d of %q (replace %d..%d by %q)", i, text, e.s, e.e, e.with)
				if err := vfStepOracle(r, src, want, what); err != nil {
					return err
				}
				if got.End > uint64(len(want)) || got.Start > uint64(e.s) || got.End < uint64(e.s+len(e.with)) {
					return fmt.Errorf("%s: reported reparsed range %d..%d does not cover the edit in %q", what, got.Start, got.End, want)
				}
				if got.End-got.Start < uint64(len(want)) {
					r.Count("incremental", 1)
				} else {
					r.Count("full", 1)
				}
				text = want
			}
			r.Outcome(text)
			return nil
		},
	}
}
