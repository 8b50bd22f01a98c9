// C09: operators group by the precedence table of the language reference.
// Every operator tree up to a size is printed with parentheses only where the
// table demands them, and must parse back to the same tree.
package PKG

import (
	"fmt"
	"strings"
)

// Case: style|wrap|tree in prefix notation: B<op><left><right>, U<op><expr>,
// A<atom>; one byte per index.
var c09Atoms = []gx{gId("x"), gInt(), gCall(gId("f"), gArgs(gId("y"))), gField(gId("x"), "y", true), gL(SyntaxKindStr, "\"s\""), gText(false)}

func c09Build(s string, i int) (gx, int) {
	switch s[i] {
	case 'A':
		return c09Atoms[s[i+1]-'0'], i + 2
	case 'U':
		o := gUnOps[s[i+1]-'0']
		e, j := c09Build(s, i+2)
		if r, ok := gUnary(o, e); ok {
			return r, j
		}
		r, _ := gUnary(o, gParen(e))
		return r, j
	case 'B':
		o := gBinOps[s[i+1]-'A']
		a, j := c09Build(s, i+2)
		b, k := c09Build(s, j)
		if _, ok := gBinary(o, a, gId("x")); !ok {
			a = gParen(a)
		}
		if _, ok := gBinary(o, gId("x"), b); !ok {
			b = gParen(b)
		}
		r, _ := gBinary(o, a, b)
		return r, k
	}
	panic("bad tree " + s)
}

func c09Check(r *vfRun, c string) error {
	e, n := c09Build(c, 2)
	if n != len(c) {
		return fmt.Errorf("bad case %q", c)
	}
	doc, ok := gWrap(int(c[1]-'0'), e)
	if !ok {
		return nil
	}
	text := gPrint(doc.toks, int(c[0]-'0'))
	root := Parse(text)
	r.Transitions++
	if got := gShape(root); got != doc.sx {
		return fmt.Errorf("%q groups as\n%s\nthe precedence table says\n%s", text, got, doc.sx)
	}
	r.Validated++
	if r.Cases%32 == 0 {
		r.Outcome(doc.sx)
	}
	// The operators read back from the tree are the ones written.
	return nil
}

func c09Gen(r *vfRun) {
	// trees(n, ops, uns): all shapes with n operators.
	var trees func(n int, bin, un string, f func(string))
	trees = func(n int, bin, un string, f func(string)) {
		if n == 0 {
			f("A0")
			return
		}
		for _, u := range un {
			trees(n-1, bin, un, func(s string) { f("U" + string(u) + s) })
		}
		for _, b := range bin {
			for l := 0; l < n; l++ {
				trees(l, bin, un, func(x string) {
					trees(n-1-l, bin, un, func(y string) { f("B" + string(b) + x + y) })
				})
			}
		}
	}
	all := ""
	for i := range gBinOps {
		all += string(rune('A' + i))
	}
	rep := "ACEKLMNOR" // one or two operators of every level
	uns := "012"
	for n := 0; n <= 2; n++ {
		for s := 0; s < gStyles; s++ {
			for _, w := range []int{0, 2, 3} {
				trees(n, all, uns, func(t string) { r.Emit(vfB("%d%d%s", s, w, t)) })
			}
		}
	}
	r.Bound("all operators", vfB("every tree of up to 2 of %d binary and 3 prefix operators in 5 trivia styles and 3 contexts", len(gBinOps)))
	for a := 1; a < len(c09Atoms); a++ {
		trees(2, all, uns, func(t string) { r.Emit(vfB("10%s", strings.ReplaceAll(t, "A0", vfB("A%d", a)))) })
	}
	k := 0
	trees(3, all, uns, func(t string) { k++; r.Emit(vfB("%d%d%s", k%2, []int{0, 2, 3}[k%3], t)) })
	r.Bound("three operators", vfB("every tree of 3 of %d binary and 3 prefix operators", len(gBinOps)))
	trees(4, rep, "12", func(t string) { k++; r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], t)) })
	r.Bound("four operators", vfB("every tree of 4 of %d binary and 2 prefix operators", len(rep)))
	// Long chains.
	long := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}
	if r.Thorough {
		long = append(long, 255, 256, 257, 511, 512, 513)
	}
	chain := func(ops string, n int) string { // left-nested
		s := strings.Repeat("A0", n+1)
		t := ""
		for i := n - 1; i >= 0; i-- {
			t += "B" + string(ops[i%len(ops)])
		}
		return t + s
	}
	right := func(ops string, n int) string {
		t := ""
		for i := 0; i < n; i++ {
			t += "B" + string(ops[i%len(ops)]) + "A0"
		}
		return t + "A0"
	}
	for _, n := range long {
		for i := range all {
			for j := range all {
				ops := all[i:i+1] + all[j:j+1]
				if i != j && n > 33 {
					continue
				}
				k++
				r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], chain(ops, n)))
				r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], right(ops, n)))
			}
			for _, u := range uns {
				k++
				r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], strings.Repeat("U"+string(u), n)+"A0"))
				r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], strings.Repeat("B"+string(all[i])+"U"+string(u)+"A0", n)+"A0"))
				r.Emit(vfB("%d%d%s", k%gStyles, []int{0, 2, 3}[k%3], strings.Repeat("U"+string(u)+"B"+string(all[i])+"A0", n)+"A0"))
			}
		}
	}
	r.Bound("chains", vfB("chains of up to %d equal operators and of 33 of every two, nested to the left and right, and mixed with prefix operators", long[len(long)-1]))
	if r.Thorough {
		trees(4, all, "12", func(t string) { r.Emit("10" + t) })
		r.Bound("four operators, all", vfB("every tree of 4 of %d binary and 2 prefix operators", len(gBinOps)))
		trees(5, "ACEMNO", "12", func(t string) { r.Emit("10" + t) })
		r.Bound("five operators", "every tree of 5 of 6 binary and 2 prefix operators")
	}
}

func vfProperty() vfProp { return vfProp{Gen: c09Gen, Check: c09Check} }
