// Reference line index.
package PKG

import "fmt"

func vfIsNewline(c rune) bool {
	return c == '\n' || c == '\v' || c == '\f' || c == '\r' || c == 0x85 || c == 0x2028 || c == 0x2029
}

// vfLineIndex is the reference: one pass over the characters.
func vfLineIndex(t string) []Line {
	out := []Line{{}}
	u16 := uint(0)
	rs := []rune(t)
	b := uint(0)
	for i, c := range rs {
		b += uint(len(string(c)))
		u16++
		if c > 0xffff {
			u16++
		}
		if vfIsNewline(c) && !(c == '\r' && i+1 < len(rs) && rs[i+1] == '\n') {
			out = append(out, Line{ByteIdx: b, Utf16Idx: u16})
		}
	}
	return out
}

func vfSameLines(l *Lines, t string) error {
	if l.Text != t {
		return fmt.Errorf("text is %q, want %q", l.Text, t)
	}
	want := vfLineIndex(t)
	if len(want) != len(l.Lines) {
		return fmt.Errorf("%q: line index %v, want %v", t, l.Lines, want)
	}
	for i := range want {
		if want[i] != l.Lines[i] {
			return fmt.Errorf("%q: line index %v, want %v", t, l.Lines, want)
		}
	}
	if l.LenLines() != uint(len(want)) || l.LenBytes() != uint(len(t)) {
		return fmt.Errorf("%q: %d lines and %d bytes reported", t, l.LenLines(), l.LenBytes())
	}
	return nil
}


// vfEveryChar enumerates all Unicode characters.
func vfEveryChar(f func(rune)) {
	for c := rune(0); c <= 0x10FFFF; c++ {
		if c == 0xD800 {
			c = 0xE000
		}
		f(c)
	}
}
