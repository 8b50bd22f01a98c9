package PKG

import (
	"fmt"
	"runtime"
	"strings"
)

// Cases: "t" + text: parse it; "w" + head \x1f unit \x1f mid \x1f closer \x1f tail: the
// work done for head·unitᵏ·mid·closerᵏ·tail must grow at most polynomially.
func vfProperty() vfProp {
	return vfProp{Gen: c02Gen, Check: c02Check}
}

var c02Ks = []int{6, 9, 12, 15, 18}

func c02Mallocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs
}

func c02Check(r *vfRun, c string) error {
	switch c[0] {
	case 't':
		t := c[1:]
		a := Parse(t)
		r.Transitions++
		if a == nil || a.Repr == nil {
			return fmt.Errorf("no tree for %q", t)
		}
		if k := a.SyntaxKind(); k != SyntaxKindMarkup {
			return fmt.Errorf("root of %q is %v", t, k)
		}
		r.Validated++
		if len(t) < 40 {
			b := Parse(t)
			r.Transitions++
			if x, y := vfDump(a), vfDump(b); x != y {
				return fmt.Errorf("two parses of %q differ:\n%s\n%s", t, x, y)
			}
			cd := parse_code(t)
			r.Transitions++
			if _, err := vfTreeCheck(cd, t); err != nil {
				return fmt.Errorf("as code: %v", err)
			}
			r.Validated += 2
			r.Outcome(vfKinds(a))
		}
		return nil
	case 'w':
		p := strings.Split(c[1:], "\x1f")
		var base uint64
		for i, k := range c02Ks {
			t := p[0] + strings.Repeat(p[1], k) + p[2] + strings.Repeat(p[3], k) + p[4]
			m := c02Mallocs(func() { Parse(t) })
			r.Transitions++
			if i == 0 {
				base = m
				continue
			}
			q := float64(k) / float64(c02Ks[0])
			if lim := 2*float64(base)*q*q*q + 5000; float64(m) > lim {
				return fmt.Errorf("work grows too fast: %q takes %d allocations, with %d repetitions instead of %d it took %d (limit %.0f)", t, m, c02Ks[0], k, base, lim)
			}
			r.Validated++
		}
		return nil
	}
	return fmt.Errorf("bad case %q", c)
}

func c02Gen(r *vfRun) {
	lv := 1
	if r.Thorough {
		lv = 2
	}
	// Work growth first: an explosion would starve everything after it.
	alpha := []string{"(", "x", ":", "..", ",", "[", "{", "let ", "if ", "not ", "-", "=>", "=", "\"s\"", "_", "#", "*", "- ", "\n", ".", "for ", "/*", "`", "f("}
	n := 2
	if r.Thorough {
		n = 3
	}
	closers := []string{"", ")", ")=>y", ") = 1", "]", "}", "=>1", ",)", "){}", "*"}
	for _, h := range []string{"#", "#{", "", "#let f(", "#f("} {
		vfWords(alpha, 1, n, "", func(u string) {
			for _, cl := range closers {
				r.Emit("w" + h + "\x1f" + u + "\x1fx\x1f" + cl + "\x1f")
			}
		})
	}
	r.Bound("work", vfB("all units of up to %d of %d tokens, repeated up to %d times, behind 5 heads, with %d closers: allocations grow at most cubically", n, len(alpha), c02Ks[len(c02Ks)-1], len(closers)))
	for _, u := range []string{"(", "[", "{", "#[", "#{", "#(", "#f(", "*", "_", "- ", "= ", "#if x ", "#(x) => ", "#not ", "#-", "/*", "#x.", "`", "#((x", "#let ", "\n", "a", "\\", "\"", "<", "@a", "//", "#!", "é", "#(x: (x) => ", "#(x, .."} {
		for _, k := range []int{50, 200, 700} {
			r.Emit("t" + strings.Repeat(u, k))
			r.Emit("t#{" + strings.Repeat(strings.TrimPrefix(u, "#"), k))
		}
	}
	r.Bound("depth", "31 openers repeated up to 700 times in markup and in code")
	vfTexts(r, lv, func(t string) { r.Emit("t" + t) })
}
