// C06: byte, UTF-16, line and column conversions against a table of the text.
package PKG

import (
	"fmt"
	"strings"
)

func vfProperty() vfProp {
	alpha := []string{"a", "\n", "\r", "é", "😀", "\u2028", "€", "\u0085", "\v"}
	return vfProp{
		Gen: func(r *vfRun) {
			n := 6
			if r.Thorough {
				n = 7
			}
			vfWords(alpha, 0, n, "", r.Emit)
			vfSizes(r, 9, 9, r.Emit)
			temps := []string{"◦", "a◦b"}
			if r.Thorough {
				temps = append(temps, "\n◦", "◦\n", "\r◦\n", "◦◦", "é◦\ra")
			}
			for _, t := range temps {
				vfEveryChar(func(c rune) { r.Emit(strings.ReplaceAll(t, "◦", string(c))) })
			}
			r.Bound("Unicode", vfB("every character in %d places", len(temps)))
			r.Bound("texts", vfB("all texts up to %d of %d characters; every byte, UTF-16, line and column index up to 3 beyond the end, and the largest integers", n, len(alpha)))
		},
		Check: func(r *vfRun, t string) error {
			l := NewLines(t)
			lines := vfLineIndex(t)
			const big = ^uint(0)
			type pos struct{ b, u, line, col uint }
			var tab []pos
			{
				b, u := uint(0), uint(0)
				line, col := uint(0), uint(0)
				for _, c := range t + "\x00" {
					for line+1 < uint(len(lines)) && lines[line+1].ByteIdx <= b {
						line++
						col = 0
					}
					tab = append(tab, pos{b, u, line, col})
					col++
					b += uint(len(string(c)))
					u++
					if c > 0xffff {
						u++
					}
				}
			}
			end := tab[len(tab)-1]
			if l.LenUtf16() != end.u || l.LenBytes() != uint(len(t)) || l.LenLines() != uint(len(lines)) {
				return fmt.Errorf("%q: lengths %d bytes, %d utf16, %d lines; want %d, %d, %d", t, l.LenBytes(), l.LenUtf16(), l.LenLines(), len(t), end.u, len(lines))
			}
			for _, p := range tab {
				if v, ok := l.ByteToUtf16(p.b); !ok || v != p.u {
					return fmt.Errorf("%q: ByteToUtf16(%d) = %d,%v want %d", t, p.b, v, ok, p.u)
				}
				if v, ok := l.ByteToLine(p.b); !ok || v != p.line {
					return fmt.Errorf("%q: ByteToLine(%d) = %d,%v want %d", t, p.b, v, ok, p.line)
				}
				if v, ok := l.ByteToColumn(p.b); !ok || v != p.col {
					return fmt.Errorf("%q: ByteToColumn(%d) = %d,%v want %d", t, p.b, v, ok, p.col)
				}
				if v, ok := l.ByteToLineColumn(p.b); !ok || v.Line != p.line || v.Col != p.col {
					return fmt.Errorf("%q: ByteToLineColumn(%d) = %v,%v want %d:%d", t, p.b, v, ok, p.line, p.col)
				}
				if v, ok := l.LineColumnToByte(p.line, p.col); !ok || v != p.b {
					return fmt.Errorf("%q: LineColumnToByte(%d,%d) = %d,%v want %d", t, p.line, p.col, v, ok, p.b)
				}
				r.Validated += 5
			}
			// UTF-16 index: the first character boundary at or after it.
			for u := uint(0); u <= end.u; u++ {
				want := end.b
				for _, p := range tab {
					if p.u >= u {
						want = p.b
						break
					}
				}
				if v, ok := l.Utf16ToByte(u); !ok || v != want {
					return fmt.Errorf("%q: Utf16ToByte(%d) = %d,%v want %d", t, u, v, ok, want)
				}
				r.Validated++
			}
			for _, k := range []uint{1, 2, 3, 1 << 31, 1 << 62, 1<<63 - 1 - end.b, big - end.b} {
				b, u, n := uint(len(t))+k, end.u+k, uint(len(lines))+k-1
				if v, ok := l.ByteToUtf16(b); ok {
					return fmt.Errorf("%q: ByteToUtf16(%d) = %d beyond the end", t, b, v)
				}
				if v, ok := l.ByteToLine(b); ok {
					return fmt.Errorf("%q: ByteToLine(%d) = %d beyond the end", t, b, v)
				}
				if v, ok := l.ByteToColumn(b); ok {
					return fmt.Errorf("%q: ByteToColumn(%d) = %d beyond the end", t, b, v)
				}
				if v, ok := l.ByteToLineColumn(b); ok {
					return fmt.Errorf("%q: ByteToLineColumn(%d) = %v beyond the end", t, b, v)
				}
				if v, ok := l.Utf16ToByte(u); ok {
					return fmt.Errorf("%q: Utf16ToByte(%d) = %d beyond the end", t, u, v)
				}
				if v, ok := l.LineToByte(n); ok {
					return fmt.Errorf("%q: LineToByte(%d) = %d beyond the end", t, n, v)
				}
				if v, ok := l.LineToRange(n); ok {
					return fmt.Errorf("%q: LineToRange(%d) = %v beyond the end", t, n, v)
				}
				if v, ok := l.LineColumnToByte(n, 0); ok {
					return fmt.Errorf("%q: LineColumnToByte(%d,0) = %v beyond the end", t, n, v)
				}
				r.Validated += 8
			}
			for i := range lines {
				e := uint(len(t))
				if i+1 < len(lines) {
					e = lines[i+1].ByteIdx
				}
				s := lines[i].ByteIdx
				if v, ok := l.LineToByte(uint(i)); !ok || v != s {
					return fmt.Errorf("%q: LineToByte(%d) = %d,%v want %d", t, i, v, ok, s)
				}
				if v, ok := l.LineToRange(uint(i)); !ok || uint(v.Start) != s || uint(v.End) != e {
					return fmt.Errorf("%q: LineToRange(%d) = %v,%v want %d..%d", t, i, v, ok, s, e)
				}
				chars := uint(len([]rune(t[s:e])))
				if v, ok := l.LineColumnToByte(uint(i), chars); !ok || v != e {
					return fmt.Errorf("%q: LineColumnToByte(%d,%d) = %d,%v want the end of the line %d", t, i, chars, v, ok, e)
				}
				for _, col := range []uint{chars + 1, chars + 2, 1 << 40, 1 << 63, big} {
					if v, ok := l.LineColumnToByte(uint(i), col); ok {
						return fmt.Errorf("%q: LineColumnToByte(%d,%d) = %d beyond the line", t, i, col, v)
					}
				}
				r.Validated += 8
			}
			r.Transitions += uint64(len(tab) + len(lines))
			if len(lines) > 1 {
				r.Outcome(fmt.Sprint(lines))
			}
			return nil
		},
	}
}
