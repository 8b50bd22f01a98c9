// Edit histories on a Source, shared by the incremental explorers.
package PKG

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
)

// A history is encoded as text U+001F start U+001F end U+001F with ...
const vfSep = "\x1f"

type vfEdit struct {
	s, e int
	with string
}

func vfEnc(text string, eds ...vfEdit) string {
	var sb strings.Builder
	sb.WriteString(text)
	for _, e := range eds {
		sb.WriteString(vfSep + strconv.Itoa(e.s) + vfSep + strconv.Itoa(e.e) + vfSep + e.with)
	}
	return sb.String()
}

func vfDec(c string) (string, []vfEdit) {
	p := strings.Split(c, vfSep)
	var eds []vfEdit
	for i := 1; i+2 < len(p); i += 3 {
		s, _ := strconv.Atoi(p[i])
		e, _ := strconv.Atoi(p[i+1])
		eds = append(eds, vfEdit{s, e, p[i+2]})
	}
	return p[0], eds
}

func vfApply(t string, e vfEdit) string { return t[:e.s] + e.with + t[e.e:] }

// vfBounds lists the character boundaries of a text.
func vfBounds(t string) []int {
	var b []int
	for i := range t {
		b = append(b, i)
	}
	return append(b, len(t))
}

// vfEdits calls f with every edit that replaces at most maxDel characters by
// one of the inserts; edits that change nothing are left out.
func vfEdits(t string, maxDel int, ins []string, f func(vfEdit)) {
	b := vfBounds(t)
	for i := range b {
		for j := i; j < len(b) && j-i <= maxDel; j++ {
			for _, w := range ins {
				if t[b[i]:b[j]] == w {
					continue
				}
				f(vfEdit{b[i], b[j], w})
			}
		}
	}
}

func vfNewFile(name string) FileID {
	return NewFileID(option.None[*PackageSpec](), NewVirtualPath(name))
}

var vfFile FileID

func vfSource(text string) *Source {
	if vfFile == 0 {
		vfFile = vfNewFile("verif.typ")
	}
	return NewSource(vfFile, text)
}

// vfSameTree compares two trees in everything but spans.
func vfSameTree(a, b *SyntaxNode) bool {
	switch x := a.Repr.(type) {
	case *LeafNode:
		y, ok := b.Repr.(*LeafNode)
		return ok && x.Kind == y.Kind && x.Text == y.Text
	case *ErrorNode:
		y, ok := b.Repr.(*ErrorNode)
		return ok && x.Text == y.Text && x.Error.Message == y.Error.Message &&
			strings.Join(x.Error.Hints, "\x00") == strings.Join(y.Error.Hints, "\x00")
	case *InnerNode:
		y, ok := b.Repr.(*InnerNode)
		if !ok || x.Kind != y.Kind || x.Len != y.Len || x.Descendants != y.Descendants ||
			x.Erroneous != y.Erroneous || len(x.Children) != len(y.Children) {
			return false
		}
		for i := range x.Children {
			if !vfSameTree(x.Children[i], y.Children[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func vfRng(s, e int) ranges.Range { return ranges.NewRange(uint64(s), uint64(e)) }

// vfStepOracle compares a source after an edit with a fresh parse.
func vfStepOracle(r *vfRun, src *Source, want string, what string) error {
	if src.Text() != want {
		return fmt.Errorf("%s: text is %q, want %q", what, src.Text(), want)
	}
	fresh := Parse(want)
	r.Validated++
	if !vfSameTree(src.Root, fresh) {
		return fmt.Errorf("%s: incremental tree differs from a fresh parse of %q\n got  %s\n want %s", what, want, vfDump(src.Root), vfDump(fresh))
	}
	n, err := vfTreeCheck(src.Root, want)
	r.Transitions += uint64(n)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

// Short documents, one or more for every construct the reparser treats
// specially.
var vfDocs = []string{
	"#{1+2}", "a #[b] c", "a*b* c", "= a\nb", "- a\n- b", "- a\n  b", "1. a\nb", "/ a: b", "#f(x)[y]", "`a` b", "```a b```",
	"a\n\nb", "#let x = 1\na", "#if a {b} else [c]", "#{let f(x) = x\nf}", "a // b\nc", "a /* b */ c", "\\a ~ b", "@r[a] b", "<l> a",
	"[a [b] c]", "#[a #[b]]", "#{[a]}", "#[{] a}", "a #x; b", "#x.y z", "\"a\" 'b'", "https://a.b c", "#show x: y\nz", "#(a, b)\nc",
	"é #{\"é\"}é", "*a\n\nb*", "_a #[b_] c_", "#for x in y {z}\na", "#{ // }\n}", "#[/* ] */]", "#[ `]` ]", "#{\"}\"}", "a: b / c", "/ a",
	"a $x^2$ b", "$ (a + #[b]) $ c", "#f($a$)", "$a", "- $ a\n b $\nc", "#{ $f(x, #{1}; y: z)$ }", "$a/\"]\" \\ [b$ #[c]", "#[$]$]",
}

var vfInserts = []string{"", "a", " ", "\n", "\n\n", "#", "[", "]", "{", "}", "*", "_", "`", "\"", "/", "//", "/*", "*/", ":", ";", "\\", "=", "- ", "1", ".", "(", ")", "é", "#x", "#[b]", "$"}

// vfSpots lists the character boundaries near the start, the quarters and the
// end of a text.
func vfSpots(t string) []int {
	b := vfBounds(t)
	var out []int
	for i := range b {
		for q := 0; q <= 4; q++ {
			if d := i - (len(b)-1)*q/4; d >= -1 && d <= 1 {
				out = append(out, i)
				break
			}
		}
	}
	for i, k := range out {
		out[i] = b[k]
	}
	return out
}

// vfSizeEdits enumerates edits at the spots of long texts: each replaces at
// most one character by one of the inserts.
func vfSizeEdits(r *vfRun, bits, long int, ins []string, f func(string)) {
	vfSizes(r, bits, long, func(t string) {
		if !r.Mine() {
			return
		}
		for _, p := range vfSpots(t) {
			for _, w := range ins {
				if w != "" {
					f(vfEnc(t, vfEdit{p, p, w}))
				}
				for i := range t[p:] {
					if i > 0 {
						f(vfEnc(t, vfEdit{p, p + i, w}))
						break
					}
				}
			}
		}
	})
	r.Bound("sizes, edited", vfB("edits of at most one character near the start, the quarters and the end of each, %d inserts", len(ins)))
}
