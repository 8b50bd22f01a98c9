// Package mathclass holds the Unicode math classes (UTR #25, MathClass-15) of
// ASCII and of some other characters. It stands for the module of this name,
// which is not available offline; the explored texts use only characters
// whose classes are given here.
package mathclass

import (
	"sort"
	"unicode"
)

func table(chars string) *unicode.RangeTable {
	rs := []rune(chars)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	t := &unicode.RangeTable{}
	for _, r := range rs {
		if r > 0xFFFF {
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(r), Hi: uint32(r), Stride: 1})
			continue
		}
		t.R16 = append(t.R16, unicode.Range16{Lo: uint16(r), Hi: uint16(r), Stride: 1})
		if r <= unicode.MaxLatin1 {
			t.LatinOffset++
		}
	}
	return t
}

var (
	Normal      = table("!#$%&*-0123456789?@^_~∂∞∀∃∅′″‴ℵ…⋮⋯⋱°♯")
	Alphabetic  = table("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyzαβγδεζηθικλμνξοπρστυφχψωΓΔΘΛΞΠΣΦΨΩℝℂℕℤℚ𝐴𝑥")
	Binary      = table("/\\·×÷∗∘∙∧∨∩∪⊕⊗⊙")
	Closing     = table(")]}⌉⌋⟩⟧")
	Diacritic   = table("`´¨¯\u0302\u0303\u0304\u0301")
	Fence       = table("|‖∣∥")
	Glyph_Part  = table("⎛⎜⎝⎞⎟⎠")
	Large       = table("∑∏∐∫∬∮⋀⋁⋂⋃√∛∜")
	Opening     = table("([{⌈⌊⟨⟦")
	Punctuation = table(",.:;")
	Relation    = table("<=>∈∉≠≡≤≥≪≫→←↔⇒⇐⇔⊂⊃⊆⊇∼≈≔")
	Space       = table(" \u00a0\u2003")
	Unary       = table("¬∇∁")
	Vary        = table("+±∓−")
	Special     = table("\u2061\u2062")
)
