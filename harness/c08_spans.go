// C08: spans encode file, number and range without loss.
package PKG

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/ranges"
)

var c08Ids = []FileID{1, 2, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff}

func c08Num(s string) uint64 { n, _ := strconv.ParseUint(s, 10, 64); return n }

// Cases: "n" id number; "r" id start end; "o" list of spans; all decimal.
func c08Check(r *vfRun, c string) error {
	f := strings.Fields(c[1:])
	r.Transitions++
	switch c[0] {
	case 'n':
		id, n := FileID(c08Num(f[0])), c08Num(f[1])
		s, ok := NewSpanFromNumber(id, n)
		if want := n >= 2 && n < 1<<47; ok != want {
			return fmt.Errorf("NewSpanFromNumber(%d, %d) reports %v, want %v", id, n, ok, want)
		}
		r.Validated++
		if !ok {
			return nil
		}
		if s.Number() != n {
			return fmt.Errorf("number %d of file %d reads back as %d", n, id, s.Number())
		}
		if g, ok := s.ID(); !ok || g != id {
			return fmt.Errorf("file of number %d of file %d reads back as %d, %v", n, id, g, ok)
		}
		if rg, ok := s.RawRange(); ok {
			return fmt.Errorf("number %d of file %d reads as the range %v", n, id, rg)
		}
		return c08Common(r, s)
	case 'r':
		id, a, b := FileID(c08Num(f[0])), c08Num(f[1]), c08Num(f[2])
		s := NewSpanFromRange(id, ranges.NewRange(a, b))
		const max = 1<<23 - 1
		want := ranges.NewRange(min(a, max), min(b, max))
		rg, ok := s.RawRange()
		if !ok || rg != want {
			return fmt.Errorf("range %d..%d of file %d reads back as %v, %v, want %v", a, b, id, rg, ok, want)
		}
		if g, ok := s.ID(); !ok || g != id {
			return fmt.Errorf("file of range %d..%d of file %d reads back as %d, %v", a, b, id, g, ok)
		}
		if n := s.Number(); n < 1<<47 || n >= 1<<48 {
			return fmt.Errorf("range %d..%d of file %d has number %d", a, b, id, n)
		}
		if SpanFull.Start <= s.Number() && s.Number() < SpanFull.End {
			return fmt.Errorf("range %d..%d of file %d has the number %d of a numbered span", a, b, id, s.Number())
		}
		r.Validated += 3
		return c08Common(r, s)
	case 'o':
		det := NewDetachedSpan()
		var l []Span
		want := det
		for _, x := range f {
			s := det
			if x != "1" {
				s = NewSpanFromUint64(c08Num(x))
				if want == det {
					want = s
				}
			}
			l = append(l, s)
		}
		if got := FindFirstNonDetached(slices.Values(l)); got != want {
			return fmt.Errorf("first non-detached of %v is %v, want %v", l, got, want)
		}
		if len(l) == 2 {
			if got := l[0].Or(l[1]); got != func() Span {
				if l[0] == det {
					return l[1]
				}
				return l[0]
			}() {
				return fmt.Errorf("%v or %v is %v", l[0], l[1], got)
			}
		}
		r.Validated++
		return nil
	}
	return fmt.Errorf("bad case %q", c)
}

var c08Seen = map[Span]string{}

func c08Common(r *vfRun, s Span) error {
	if s.IsDetached() {
		return fmt.Errorf("span %d reads as detached", s)
	}
	if NewSpanFromUint64(s.Uint64()) != s {
		return fmt.Errorf("span %d does not survive its raw number", s)
	}
	if d := NewDetachedSpan(); !d.IsDetached() || d == s {
		return fmt.Errorf("span %d equals the detached span", s)
	} else if _, ok := d.ID(); ok {
		return fmt.Errorf("the detached span has a file")
	} else if _, ok := d.RawRange(); ok {
		return fmt.Errorf("the detached span has a range")
	} else if s.Or(d) != s || d.Or(s) != s || d.Or(d) != d {
		return fmt.Errorf("Or with the detached span changes %d", s)
	}
	sp := NewSpanned("v", s)
	m := sp.Map(func(x string) string { return x + "w" })
	if sp.Value != "v" || m.Value != "vw" || m.Span != s || sp.Span != s {
		return fmt.Errorf("spanned value: %v maps to %v", sp, m)
	}
	r.Validated += 5
	if r.Cases%64 == 0 {
		r.Outcome(fmt.Sprint(s))
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c08Check, Gen: func(r *vfRun) {
		w := uint64(600)
		if r.Thorough {
			w = 20000
		}
		for _, id := range c08Ids {
			for _, base := range []uint64{0, 1 << 16, 1 << 23, 1 << 24, 1 << 32, 1 << 46, 1 << 47, 1 << 48, 1 << 49, 1 << 63} {
				lo := base - min(base, w)
				for n := lo; n < base+w; n++ {
					r.Emit(vfB("n%d %d", id, n))
				}
			}
			r.Emit(vfB("n%d %d", id, ^uint64(0)))
		}
		r.Bound("numbers", vfB("%d numbers around each of 10 powers of two, %d files", 2*w, len(c08Ids)))
		var vs []uint64
		for i := uint64(0); i < 24; i++ {
			vs = append(vs, i)
		}
		for k := 5; k < 64; k++ {
			vs = append(vs, 1<<k-1, 1<<k, 1<<k+1)
		}
		vs = append(vs, ^uint64(0))
		for _, id := range c08Ids {
			for _, a := range vs {
				for _, b := range vs {
					r.Emit(vfB("r%d %d %d", id, a, b))
				}
			}
		}
		r.Bound("ranges", vfB("all pairs of %d starts and ends, %d files", len(vs), len(c08Ids)))
		// the detached span, numbered spans and raw ranges of several files
		list := []string{"1"}
		for _, id := range []FileID{1, 2, 0x8000, 0xffff} {
			for _, low := range []uint64{2, 3, 1<<47 - 1, 1 << 47, 1<<47 + 1, 1<<47 + 1<<23, 1<<48 - 1} {
				list = append(list, fmt.Sprint(uint64(id)<<48|low))
			}
		}
		vfWords(list, 0, 3, " ", func(s string) { r.Emit("o" + s) })
		vfWords(append(list[:4:4], list[4:7]...), 4, 5, " ", func(s string) { r.Emit("o" + s) })
		r.Bound("first non-detached", vfB("all lists of up to 3 of %d spans and of up to 5 of 7, numbered and raw, with Or on every pair", len(list)))
	}}
}
