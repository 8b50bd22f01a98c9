// C30: scanner, stack, vector, option, range and character helpers against
// reference models; every reachable cursor and every operation sequence.
package PKG

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"github.com/mewmew/typast/internal/mathx"
	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/scanner"
	"github.com/mewmew/typast/internal/stack"
	"github.com/mewmew/typast/internal/stdx"
	"github.com/mewmew/typast/internal/typutil"
	"github.com/mewmew/typast/internal/vector"
)

// c30M is the model of a scanner: the characters and the number before the
// cursor.
type c30M struct {
	rs []rune
	i  int
}

func (m *c30M) off(k int) uint { return uint(len(string(m.rs[:k]))) }

// snap is the index of the character that holds the byte.
func (m *c30M) snap(b uint) int {
	k := 0
	for k < len(m.rs) && m.off(k+1) <= b {
		k++
	}
	return k
}

func (m *c30M) has(k int, p []rune) bool {
	return k+len(p) <= len(m.rs) && slices.Equal(m.rs[k:k+len(p)], p)
}

func (m *c30M) char(k int) string {
	if k < 0 || k >= len(m.rs) {
		return "none"
	}
	return string(m.rs[k])
}

func c30Char(c rune, ok bool) string {
	if !ok {
		return "none"
	}
	return string(c)
}

var c30Alpha = []rune{'a', 'é', '\uFFFD', '😀'}

var c30Sets = [][]rune{{}, {'a'}, {'é', '😀'}, {'\uFFFD', 'a'}}

func c30Patterns() []string {
	ps := []string{""}
	for _, a := range c30Alpha {
		ps = append(ps, string(a))
		for _, b := range c30Alpha[:2] {
			ps = append(ps, string([]rune{a, b}))
		}
	}
	return ps
}

// c30Op is an operation; run returns what it gives on the implementation and
// on the model.
type c30Op struct {
	name  string
	moves bool
	run   func(s *scanner.Scanner, m *c30M) (got, want string)
}

func c30Ops(n uint) []c30Op {
	var ops []c30Op
	q := func(name string, f func(s *scanner.Scanner, m *c30M) (string, string)) {
		ops = append(ops, c30Op{name, false, f})
	}
	u := func(name string, f func(s *scanner.Scanner, m *c30M) (string, string)) {
		ops = append(ops, c30Op{name, true, f})
	}
	sp := fmt.Sprint
	q("Done", func(s *scanner.Scanner, m *c30M) (string, string) { return sp(s.Done()), sp(m.i == len(m.rs)) })
	q("Text", func(s *scanner.Scanner, m *c30M) (string, string) { return s.Text(), string(m.rs) })
	q("Before", func(s *scanner.Scanner, m *c30M) (string, string) { return s.Before(), string(m.rs[:m.i]) })
	q("After", func(s *scanner.Scanner, m *c30M) (string, string) { return s.After(), string(m.rs[m.i:]) })
	q("Peek", func(s *scanner.Scanner, m *c30M) (string, string) { return c30Char(s.Peek()), m.char(m.i) })
	offs := []uint{}
	for b := uint(0); b <= n+1; b++ {
		offs = append(offs, b)
	}
	offs = append(offs, math.MaxInt64, math.MaxUint64)
	for _, b := range offs {
		q(sp("From ", b), func(s *scanner.Scanner, m *c30M) (string, string) {
			return s.From(b), string(m.rs[min(m.snap(b), m.i):m.i])
		})
		q(sp("To ", b), func(s *scanner.Scanner, m *c30M) (string, string) {
			return s.To(b), string(m.rs[m.i:max(m.snap(b), m.i)])
		})
		u(sp("Jump ", b), func(s *scanner.Scanner, m *c30M) (string, string) {
			s.Jump(b)
			m.i = m.snap(b)
			return "", ""
		})
		for _, e := range offs {
			q(sp("Get ", b, " ", e), func(s *scanner.Scanner, m *c30M) (string, string) {
				i := m.snap(b)
				return s.Get(ranges.NewRange(uint64(b), uint64(e))), string(m.rs[i:max(i, m.snap(e))])
			})
		}
	}
	for k := -7; k <= 7; k++ {
		q(sp("Scout ", k), func(s *scanner.Scanner, m *c30M) (string, string) {
			return c30Char(s.Scout(k)), m.char(m.i + k)
		})
		q(sp("Locate ", k), func(s *scanner.Scanner, m *c30M) (string, string) {
			return sp(s.Locate(k)), sp(m.off(min(max(m.i+k, 0), len(m.rs))))
		})
	}
	u("Eat", func(s *scanner.Scanner, m *c30M) (string, string) {
		w := m.char(m.i)
		m.i = min(m.i+1, len(m.rs))
		return c30Char(s.Eat()), w
	})
	u("Uneat", func(s *scanner.Scanner, m *c30M) (string, string) {
		w := m.char(m.i - 1)
		m.i = max(m.i-1, 0)
		return c30Char(s.Uneat()), w
	})
	for _, p := range c30Patterns() {
		rs := []rune(p)
		q("At "+p, func(s *scanner.Scanner, m *c30M) (string, string) { return sp(s.At(p)), sp(m.has(m.i, rs)) })
		u("EatIf "+p, func(s *scanner.Scanner, m *c30M) (string, string) {
			w := m.has(m.i, rs)
			if w {
				m.i += len(rs)
			}
			return sp(s.EatIf(p)), sp(w)
		})
		u("Expect "+p, func(s *scanner.Scanner, m *c30M) (string, string) {
			w := m.has(m.i, rs)
			if w {
				m.i += len(rs)
			}
			ok := func() (ok bool) {
				defer func() { recover() }()
				s.Expect(p)
				return true
			}()
			return sp(ok), sp(w)
		})
		if p != "" {
			u("EatWhile "+p, func(s *scanner.Scanner, m *c30M) (string, string) {
				i := m.i
				for m.has(m.i, rs) {
					m.i += len(rs)
				}
				return s.EatWhile(p), string(m.rs[i:m.i])
			})
		}
		u("EatUntil "+p, func(s *scanner.Scanner, m *c30M) (string, string) {
			i := m.i
			for m.i < len(m.rs) && !m.has(m.i, rs) {
				m.i++
			}
			return s.EatUntil(p), string(m.rs[i:m.i])
		})
	}
	for _, set := range c30Sets {
		in := func(c rune) bool { return slices.Contains(set, c) }
		at := func(m *c30M) bool { return m.i < len(m.rs) && in(m.rs[m.i]) }
		nm := fmt.Sprintf("%q", set)
		q("AtAny "+nm, func(s *scanner.Scanner, m *c30M) (string, string) { return sp(s.AtAny(set)), sp(at(m)) })
		q("AtFunc "+nm, func(s *scanner.Scanner, m *c30M) (string, string) { return sp(s.AtFunc(in)), sp(at(m)) })
		for _, fn := range []bool{false, true} {
			u(fmt.Sprint("EatIfAny ", fn, nm), func(s *scanner.Scanner, m *c30M) (string, string) {
				w := at(m)
				if w {
					m.i++
				}
				if fn {
					return sp(s.EatIfFunc(in)), sp(w)
				}
				return sp(s.EatIfAny(set)), sp(w)
			})
			u(fmt.Sprint("EatWhileFunc ", fn, nm), func(s *scanner.Scanner, m *c30M) (string, string) {
				i := m.i
				for m.i < len(m.rs) && in(m.rs[m.i]) != fn {
					m.i++
				}
				if fn {
					return s.EatUntilFunc(in), string(m.rs[i:m.i])
				}
				return s.EatWhileFunc(in), string(m.rs[i:m.i])
			})
		}
	}
	return ops
}

// c30Step runs one operation and compares result and cursor.
func c30Step(r *vfRun, op *c30Op, s *scanner.Scanner, m *c30M) error {
	r.Transitions++
	r.Validated++
	from := s.Cursor()
	got, want := op.run(s, m)
	if got != want {
		return fmt.Errorf("scanner at %d of %q: %s gives %q, want %q", from, string(m.rs), op.name, got, want)
	}
	if s.Cursor() != m.off(m.i) {
		return fmt.Errorf("scanner at %d of %q: %s moves to %d, want %d", from, string(m.rs), op.name, s.Cursor(), m.off(m.i))
	}
	return nil
}

// c30Scan explores every cursor of a text with every operation, also on
// clones, which never move the original.
func c30Scan(r *vfRun, text string) error {
	rs := []rune(text)
	ops := c30Ops(uint(len(text)))
	path := map[int][]int{0: nil} // operations that lead to a cursor
	queue := []int{0}
	for len(queue) > 0 {
		at := queue[0]
		queue = queue[1:]
		r.Count("scanner states", 1)
		for k := range ops {
			for _, clone := range []bool{false, true} {
				s, m := scanner.New(text), &c30M{rs: rs}
				for _, o := range path[at] {
					if err := c30Step(r, &ops[o], s, m); err != nil {
						return err
					}
				}
				if m.i != at {
					return fmt.Errorf("model is not deterministic")
				}
				orig := s
				if clone {
					s = s.Clone()
				}
				if err := c30Step(r, &ops[k], s, m); err != nil {
					return err
				}
				if clone && orig.Cursor() != (&c30M{rs: rs}).off(at) {
					return fmt.Errorf("scanner at %d of %q: %s on a clone moves the original to %d", at, text, ops[k].name, orig.Cursor())
				}
				if _, ok := path[m.i]; !ok {
					path[m.i] = append(slices.Clone(path[at]), k)
					queue = append(queue, m.i)
				}
			}
		}
	}
	if len(path) != len(rs)+1 {
		return fmt.Errorf("only %d cursors of %q are reachable", len(path), text)
	}
	r.Outcome(text)
	return nil
}

// c30Hist runs every sequence of moves on one scanner, all queries after it.
func c30Hist(r *vfRun, text string, depth int) error {
	ops := c30Ops(uint(len(text)))
	var moves []int
	for i, o := range ops {
		if o.moves {
			moves = append(moves, i)
		}
	}
	rs := []rune(text)
	var rec func(s *scanner.Scanner, m c30M, d int) error
	rec = func(s *scanner.Scanner, m c30M, d int) error {
		if d == 0 {
			for i := range ops {
				if !ops[i].moves {
					if err := c30Step(r, &ops[i], s, &m); err != nil {
						return err
					}
				}
			}
			return nil
		}
		for _, k := range moves {
			s2, m2 := s.Clone(), m
			if err := c30Step(r, &ops[k], s2, &m2); err != nil {
				return err
			}
			if err := rec(s2, m2, d-1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(scanner.New(text), c30M{rs: rs}, depth)
}

// c30Stack runs a word over the stack operations: + push, - pop.
func c30Stack(r *vfRun, w string) error {
	st, m, n := stack.New[int](), []int{}, 0
	for _, c := range w {
		r.Transitions++
		if c == '+' {
			n++
			st.Push(n)
			m = append(m, n)
		} else {
			v, ok := st.Pop()
			wv := 0
			if len(m) > 0 {
				wv = m[len(m)-1]
			}
			if v != wv || ok != (len(m) > 0) {
				return fmt.Errorf("stack %q: pop gives %d %v, want %d", w, v, ok, wv)
			}
			m = m[:max(len(m)-1, 0)]
		}
		v, ok := st.Top()
		wv := 0
		if len(m) > 0 {
			wv = m[len(m)-1]
		}
		r.Validated++
		if v != wv || ok != (len(m) > 0) || st.Size() != len(m) || st.IsEmpty() != (len(m) == 0) || st.String() != fmt.Sprint(m) {
			return fmt.Errorf("stack %q: top %d %v, size %d, empty %v, text %s; want %v", w, v, ok, st.Size(), st.IsEmpty(), st.String(), m)
		}
	}
	r.Outcome(fmt.Sprint(m))
	return nil
}

// c30Vector runs every sequence of vector operations that begins with the
// given ones ("p", "d1:2", "i1", "t1", "x2").
func c30Vector(r *vfRun, w string) error {
	var v vector.Vector[int]
	m, n := []int{}, 0
	type kept struct{ got, want []int }
	var keep []kept
	for _, op := range strings.Fields(w) {
		r.Transitions++
		a, b, _ := strings.Cut(op[1:], ":")
		x, _ := strconv.Atoi(a)
		y, _ := strconv.Atoi(b)
		n++
		switch op[0] {
		case 'p':
			v.Push(n)
			m = append(slices.Clone(m), n)
		case 'd':
			got := v.Drain(ranges.NewRange(uint64(x), uint64(y)))
			keep = append(keep, kept{got, slices.Clone(m[x:y])})
			m = slices.Concat(m[:x], m[y:])
		case 'i':
			v.Insert(x, n)
			m = slices.Concat(m[:x], []int{n}, m[x:])
		case 't':
			v.Truncate(x)
			m = slices.Clone(m[:x])
		case 'x':
			s := make([]int, x)
			for i := range s {
				s[i] = 100*n + i
			}
			v.ExtendFromSlice(s)
			keep = append(keep, kept{s, slices.Clone(s)})
			m = slices.Concat(m, s)
		}
		r.Validated++
		if !slices.Equal([]int(v), m) {
			return fmt.Errorf("vector after %q is %v, want %v", w, []int(v), m)
		}
		for _, k := range keep {
			if !slices.Equal(k.got, k.want) {
				return fmt.Errorf("vector: a slice given or taken before changes to %v from %v in %q", k.got, k.want, w)
			}
		}
	}
	r.Outcome(fmt.Sprint(m))
	return nil
}

func c30VectorGen(r *vfRun, depth int) {
	var rec func(w string, n, d int)
	rec = func(w string, n, d int) {
		r.Emit("v" + w)
		if d == 0 {
			return
		}
		rec(w+" p", n+1, d-1)
		for i := 0; i <= n; i++ {
			rec(fmt.Sprint(w, " i", i), n+1, d-1)
			rec(fmt.Sprint(w, " t", i), i, d-1)
			for j := i; j <= n; j++ {
				rec(fmt.Sprint(w, " d", i, ":", j), n-(j-i), d-1)
			}
		}
		for k := 0; k <= 2; k++ {
			rec(fmt.Sprint(w, " x", k), n+k, d-1)
		}
	}
	rec("", 0, depth)
}

func c30Option(r *vfRun) error {
	r.Transitions++
	for _, x := range []int{0, 1, -1} {
		y := x
		o := option.Some(y)
		y = 7
		c := o.Clone()
		for _, p := range []option.Option[int]{o, c} {
			v, ok := p.Get()
			r.Validated++
			if !p.IsPresent() || !ok || v != x || p.MustGet() != x {
				return fmt.Errorf("option of %d gives %d %v %v", x, v, ok, p.IsPresent())
			}
		}
		o = option.Some(5)
		if c.MustGet() != x {
			return fmt.Errorf("a clone follows its option")
		}
	}
	var zero option.Option[int]
	n := option.None[int]()
	for i, p := range []option.Option[int]{zero, n, n.Clone(), zero.Clone()} {
		v, ok := p.Get()
		r.Validated++
		if p.IsPresent() || ok || v != 0 {
			return fmt.Errorf("none %d gives %d %v", i, v, ok)
		}
		paniced := func() (y bool) {
			defer func() { y = recover() != nil }()
			p.MustGet()
			return
		}()
		if !paniced {
			return fmt.Errorf("the value of none %d was given", i)
		}
	}
	return nil
}

func c30Range(r *vfRun, a, b uint64) error {
	r.Transitions++
	r.Validated++
	g := ranges.NewRange(a, b)
	if g.Start != a || g.End != b || g.IsEmpty() != (a >= b) || (a <= b && g.Len() != b-a) {
		return fmt.Errorf("range %d %d: start %d, end %d, empty %v, length %d", a, b, g.Start, g.End, g.IsEmpty(), g.Len())
	}
	return nil
}

func c30Power(r *vfRun, x uint64) error {
	r.Transitions++
	r.Validated++
	var got uint64
	paniced := func() (y bool) {
		defer func() { y = recover() != nil }()
		got = mathx.NextPowerOfTwo(x)
		return
	}()
	if x > 1<<63 {
		if !paniced {
			return fmt.Errorf("the power of two from %d on is given as %d", x, got)
		}
		return nil
	}
	if paniced || got < x || got&(got-1) != 0 || got == 0 || (got > 1 && got/2 >= x) {
		return fmt.Errorf("the power of two from %d on is given as %d (panic %v)", x, got, paniced)
	}
	return nil
}

var c30Math = map[rune]stdx.MathClass{
	':': stdx.MathClass_Relation, '⋯': stdx.MathClass_Normal, '⋱': stdx.MathClass_Normal,
	'⋰': stdx.MathClass_Normal, '⋮': stdx.MathClass_Normal, '.': stdx.MathClass_Normal,
	'/': stdx.MathClass_Normal, '⊥': stdx.MathClass_Normal, '⅋': stdx.MathClass_Binary,
	'⎰': stdx.MathClass_Opening, '⟅': stdx.MathClass_Opening, '⎱': stdx.MathClass_Closing,
	'⟆': stdx.MathClass_Closing, '⟇': stdx.MathClass_Binary, '،': stdx.MathClass_Punctuation,
}

// c30Space are the characters with the property White_Space.
var c30Space = "\t\n\v\f\r \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

func c30CharProps(r *vfRun, c rune) error {
	r.Transitions++
	low := c >= 'a' && c <= 'z'
	up := c >= 'A' && c <= 'Z'
	dig := c >= '0' && c <= '9'
	alpha := unicode.Is(unicode.L, c) || unicode.Is(unicode.Nl, c) || unicode.Is(unicode.Other_Alphabetic, c)
	num := unicode.Is(unicode.Nd, c) || unicode.Is(unicode.Nl, c) || unicode.Is(unicode.No, c)
	got := []bool{stdx.IsAsciiLowercase(c), stdx.IsAsciiUppercase(c), stdx.IsAsciiAlphabetic(c), stdx.IsAsciiDigit(c),
		stdx.IsAsciiAlphanumeric(c), stdx.IsAsciiHexdigit(c), stdx.IsWhitespace(c), stdx.IsAlphabetic(c), stdx.IsNumeric(c), stdx.IsAlphanumeric(c)}
	want := []bool{low, up, low || up, dig, low || up || dig, dig || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F',
		strings.ContainsRune(c30Space, c), alpha, num, alpha || num}
	for i := range got {
		r.Validated++
		if got[i] != want[i] {
			return fmt.Errorf("character %U: property %d is %v, want %v", c, i, got[i], want[i])
		}
	}
	a, aok := typutil.DefaultMathClass(c).Get()
	w, ok := c30Math[c]
	if !ok {
		w, ok = stdx.MathClassFromChar(c).Get()
	}
	if a != w || aok != ok {
		return fmt.Errorf("character %U has math class %d %v, want %d %v", c, a, aok, w, ok)
	}
	return nil
}

func c30Boundary(r *vfRun, text string) error {
	b := map[int]bool{len(text): true}
	for i := range text {
		b[i] = true
	}
	for i := 0; i <= len(text); i++ {
		r.Transitions++
		r.Validated++
		if stdx.IsCharBoundary(text, uint(i)) != b[i] {
			return fmt.Errorf("boundary %d of %q is %v", i, text, !b[i])
		}
	}
	return nil
}

func c30Check(r *vfRun, c string) error {
	switch c[0] {
	case 's':
		if err := c30Boundary(r, c[1:]); err != nil {
			return err
		}
		return c30Scan(r, c[1:])
	case 'h':
		return c30Hist(r, c[2:], int(c[1]-'0'))
	case 'k':
		return c30Stack(r, c[1:])
	case 'v':
		return c30Vector(r, c[1:])
	case 'o':
		return c30Option(r)
	case 'r':
		f := strings.Fields(c[1:])
		a, _ := strconv.ParseUint(f[0], 10, 64)
		b, _ := strconv.ParseUint(f[1], 10, 64)
		return c30Range(r, a, b)
	case 'p':
		lo, hi, _ := strings.Cut(c[1:], " ")
		a, _ := strconv.ParseUint(lo, 10, 64)
		b, _ := strconv.ParseUint(hi, 10, 64)
		for x := a; ; x++ {
			if err := c30Power(r, x); err != nil {
				return err
			}
			if x == b {
				return nil
			}
		}
	case 'c':
		n, _ := strconv.Atoi(c[1:])
		for x := rune(n); x < rune(n)+256; x++ {
			if err := c30CharProps(r, x); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("bad case %q", c)
}

func c30Words(n int, f func(string)) {
	var rec func(w []rune)
	rec = func(w []rune) {
		f(string(w))
		if len(w) == n {
			return
		}
		for _, c := range c30Alpha {
			rec(append(slices.Clone(w), c))
		}
	}
	rec(nil)
}

func c30Gen(r *vfRun) {
	r.Emit("o")
	n, sn, vn, hn := 4, 12, 5, 2
	if r.Thorough {
		n, sn, vn, hn = 6, 18, 6, 2
	}
	c30Words(n, func(w string) { r.Emit("s" + w) })
	r.Bound("scanner", fmt.Sprintf("every cursor of every text of up to %d characters of 1 to 4 bytes, every operation with every offset, distance, pattern and set, on the scanner and on a clone", n))
	c30Words(hn, func(w string) { r.Emit("h" + strconv.Itoa(hn) + w) })
	r.Bound("histories", fmt.Sprintf("texts of up to %d characters: every sequence of %d moves and every query after it", hn, hn))
	var st func(w string)
	st = func(w string) {
		r.Emit("k" + w)
		if len(w) < sn {
			st(w + "+")
			st(w + "-")
		}
	}
	st("")
	r.Bound("stack", fmt.Sprintf("every sequence of up to %d operations", sn))
	c30VectorGen(r, vn)
	r.Bound("vector", fmt.Sprintf("every sequence of up to %d operations with every position", vn))
	nums := []uint64{0, 1, 2, 3, 7, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	for _, a := range nums {
		for _, b := range nums {
			r.Emit(fmt.Sprintf("r%d %d", a, b))
		}
	}
	for i := uint64(0); i < 64; i++ {
		r.Emit(fmt.Sprintf("p%d %d", i*4096, i*4096+4095))
	}
	for i := uint(2); i < 64; i++ {
		x := uint64(1) << i
		r.Emit(fmt.Sprintf("p%d %d", x-2, x+2))
	}
	r.Emit(fmt.Sprintf("p%d %d", uint64(math.MaxUint64-2), uint64(math.MaxUint64)))
	for c := 0; c < 0x110000; c += 256 {
		r.Emit(fmt.Sprint("c", c))
	}
	r.Bound("helpers", "every code point's properties; ranges of 10 limits; powers of two up to 2^18 and around every power")
}

func vfProperty() vfProp { return vfProp{Gen: c30Gen, Check: c30Check} }
