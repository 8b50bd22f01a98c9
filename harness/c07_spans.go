// C07: span numbers identify nodes, in order, after any history of edits.
package PKG

import (
	"fmt"
	"strings"
)

func vfSpanOracle(r *vfRun, src *Source, what string, full bool) error {
	nodes := vfCollect(src.Root)
	prev := uint64(0)
	for i, n := range nodes {
		id, ok := n.span.ID()
		if n.span.IsDetached() || !ok || id != src.ID {
			return fmt.Errorf("%s: node %d (%v) of %q has a span of file %v, want %v", what, i, n.kind, src.Text(), id, src.ID)
		}
		k := n.span.Number()
		if k <= prev || k < SpanFull.Start || k >= SpanFull.End {
			return fmt.Errorf("%s: node %d (%v) of %q has span number %d after %d (full range %v)", what, i, n.kind, src.Text(), k, prev, SpanFull)
		}
		prev = k
	}
	r.Transitions += uint64(len(nodes))
	r.Validated++
	if !full {
		return nil
	}
	for i, n := range nodes {
		rg, ok := src.Range(n.span)
		if !ok || rg.Start != n.start || rg.End != n.end {
			return fmt.Errorf("%s: range of node %d (%v) of %q is %v,%v want %d..%d", what, i, n.kind, src.Text(), rg, ok, n.start, n.end)
		}
		f, ok := src.Find(n.span)
		if !ok || f.Range() != rg {
			return fmt.Errorf("%s: node %d (%v) of %q is not found by its span", what, i, n.kind, src.Text())
		}
		// a number between this node's and the next one's belongs to no node
		if i+1 == len(nodes) || nodes[i+1].span.Number() > n.span.Number()+1 {
			if s, ok := NewSpanFromNumber(src.ID, n.span.Number()+1); ok {
				if rg, ok := src.Range(s); ok {
					return fmt.Errorf("%s: unused span number %d resolves to %v in %q", what, s.Number(), rg, src.Text())
				}
			}
		}
		if s, ok := NewSpanFromNumber(src.ID+1, n.span.Number()); ok {
			if rg, ok := src.Range(s); ok {
				return fmt.Errorf("%s: span of another file resolves to %v in %q", what, rg, src.Text())
			}
		}
		r.Validated += 4
	}
	if rg, ok := src.Range(NewDetachedSpan()); ok {
		return fmt.Errorf("%s: the detached span resolves to %v in %q", what, rg, src.Text())
	}
	return nil
}

func vfProperty() vfProp {
	small := []string{"", "a", "\n", "#[", "]", "*", "}", "`"}
	return vfProp{
		Gen: func(r *vfRun) {
			n := 2
			if r.Thorough {
				n = 3
			}
			vfWords(vfMarkupTokens, 0, n, "", func(t string) {
				if r.Mine() {
					r.Exec(t)
					vfEdits(t, 1, small, func(e vfEdit) { r.Exec(vfEnc(t, e)) })
				}
			})
			r.Bound("words", vfB("all words over %d tokens up to length %d, fresh and after every edit of at most 1 character by %d inserts", len(vfMarkupTokens), n, len(small)))
			vfWords(vfCodeTokens, 1, 2, " ", func(t string) { r.Emit("#{" + t + "}") })
			for _, t := range vfDocs {
				vfEdits(t, 2, vfInserts, func(e vfEdit) {
					if r.Mine() {
						r.Exec(vfEnc(t, e))
					}
				})
			}
			for _, t := range vfDocs {
				if len(t) > 8 && !r.Thorough {
					continue
				}
				vfEdits(t, 1, small, func(e vfEdit) {
					if r.Mine() {
						vfEdits(vfApply(t, e), 1, small, func(e2 vfEdit) { r.Exec(vfEnc(t, e, e2)) })
					}
				})
			}
			r.Bound("documents", vfB("%d documents: every edit of up to 2 characters, every two small edits of the short ones", len(vfDocs)))
			vfSizes(r, 11, 11, r.Emit)
			vfSizeEdits(r, 7, 7, small, r.Exec)
			// number space exhaustion in depth
			for _, u := range [][2]string{{"#[", "]"}, {"#{[", "]}"}, {"*#[_", "_]*"}, {"#[a ", " b]"}, {"#{{", "}}"}, {"x #[\n\n", "\n\n]"}} {
				for d := 4; d <= 60; d += 4 {
					t := strings.Repeat(u[0], d) + "x" + strings.Repeat(u[1], d)
					for l := 1; l <= d; l++ {
						for _, w := range []string{"b", "#[c]", "\n\n", "{d}", "#{e}f"} {
							if !r.Mine() {
								continue
							}
							var eds []vfEdit
							for i := 0; i < 24; i++ {
								eds = append(eds, vfEdit{l * len(u[0]), l * len(u[0]), w})
							}
							r.Exec(vfEnc(t, eds...))
						}
					}
				}
			}
			r.Bound("exhaustion in depth", "6 nestings up to 60 deep, 24 insertions of 5 texts at every level")
			// number space exhaustion: edits at one place, again and again
			k := 120
			if r.Thorough {
				k = 600
			}
			for _, t := range []string{"#{a}", "#[a]", "x\n\ny", "#{[a]}", "a b", "a#[x]b#[y]c", "#[#[#[a]]]", "#{a}\n\n#{b}\n\n#{c}"} {
				for _, w := range []string{"b", "#[]", "b ", "{b}", "#b ", "\n\n", "[#{1}]"} {
					for pos := 0; pos <= len(t); pos++ {
						if !r.Mine() {
							continue
						}
						var eds []vfEdit
						for i := 0; i < k; i++ {
							eds = append(eds, vfEdit{pos, pos, w})
						}
						r.Exec(vfEnc(t, eds...))
						for i := range eds {
							if i%2 == 1 {
								eds[i] = vfEdit{pos, pos + len(w), ""}
							}
						}
						r.Exec(vfEnc(t, eds...))
					}
				}
			}
			r.Bound("exhaustion", vfB("%d edits at every position of 8 texts by 7 inserts, growing and alternating", k))
		},
		Check: func(r *vfRun, c string) error {
			text, eds := vfDec(c)
			src := vfSource(text)
			if err := vfSpanOracle(r, src, "fresh", len(eds) == 0 && len(text) < 200); err != nil {
				return err
			}
			for i, e := range eds {
				src.Edit(vfRng(e.s, e.e), e.with)
				text = vfApply(text, e)
				what := fmt.Sprintf("edit %d (replace %d..%d by %q)", i, e.s, e.e, e.with)
				last := i == len(eds)-1
				if err := vfSpanOracle(r, src, what, last && len(text) < 60); err != nil {
					return err
				}
			}
			r.Outcome(text)
			return nil
		},
	}
}
