// C11: every derivation of the reference grammar parses to exactly its tree.
package PKG

import (
	"fmt"
	"strings"
)

func c11Trivia(n *SyntaxNode, text string) error {
	x, ok := n.Repr.(*InnerNode)
	if !ok {
		return nil
	}
	switch x.Kind {
	case SyntaxKindMarkup, SyntaxKindCode:
	default:
		for _, i := range []int{0, len(x.Children) - 1} {
			if i >= 0 && len(x.Children) > 0 {
				if l, ok := x.Children[i].Repr.(*LeafNode); ok {
					switch l.Kind {
					case SyntaxKindSpace, SyntaxKindParbreak, SyntaxKindLineComment, SyntaxKindBlockComment:
						return fmt.Errorf("%v starts or ends with trivia %q in %q", x.Kind, l.Text, text)
					}
				}
			}
		}
	}
	for _, c := range x.Children {
		if err := c11Trivia(c, text); err != nil {
			return err
		}
	}
	return nil
}

// c11Wide builds an element with n parts.
var c11WideKinds = []func(n int) gx{
	func(n int) gx { return gGroup(SyntaxKindArray, c11Rep(n, gComma(), gId("a"))...) },
	func(n int) gx {
		return gGroup(SyntaxKindArray, append(c11Rep(n+1, gComma(), gSpread(gId("a"))), gComma())...)
	},
	func(n int) gx {
		return gGroup(SyntaxKindDict, c11Names(n, func(i int) gx { return gNamed(vfB("k%d", i), gInt()) })...)
	},
	func(n int) gx { return gCall(gId("f"), gArgs(c11Rep(n, gComma(), gId("a"))...)) },
	func(n int) gx {
		return gCall(gId("f"), gArgs(c11Names(n, func(i int) gx { return gNamed(vfB("k%d", i), gInt()) })...))
	},
	func(n int) gx {
		c := gGlueFirst(gText(false))
		a := gArgs()
		in := []gx{a}
		sx := ""
		for i := 0; i < n; i++ {
			in = append(in, c)
			sx += " " + c.sx
		}
		s := gSeq(in...)
		s.sx = a.sx[:len(a.sx)-1] + sx + ")"
		return gCall(gId("f"), s)
	},
	func(n int) gx { // parameters
		ps := gParams(c11Names(n, func(i int) gx { return gId(vfB("p%d", i)) })...)
		r := gOpen(gN(SyntaxKindClosure, ps, gL(SyntaxKindArrow, "=>"), gId("a")))
		r.nonatomic = true
		return r
	},
	func(n int) gx { // parameters with defaults
		ps := gParams(c11Names(n, func(i int) gx { return gNamed(vfB("p%d", i), gId("a")) })...)
		r := gOpen(gN(SyntaxKindClosure, ps, gL(SyntaxKindArrow, "=>"), gId("a")))
		r.nonatomic = true
		return r
	},
	func(n int) gx { // let with a destructuring pattern
		if n < 2 {
			n = 2
		}
		p := gGroup(SyntaxKindDestructuring, c11Names(n, func(i int) gx { return gId(vfB("p%d", i)) })...)
		r := gOpen(gN(SyntaxKindLetBinding, gKw(SyntaxKindLet, "let"), p, gL(SyntaxKindEq, "="), gId("a")))
		r.stmt = true
		return r
	},
	func(n int) gx { return gBlock(c11Rep(n, gNL, gId("a"))...) },
	func(n int) gx { // statements
		var ps []gx
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, gNL)
			}
			l := gOpen(gN(SyntaxKindLetBinding, gKw(SyntaxKindLet, "let"), gId(vfB("x%d", i))))
			l.stmt = true
			ps = append(ps, l)
		}
		return gBlock(ps...)
	},
	func(n int) gx { // imported items
		var ps []gx
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, gComma())
			}
			ps = append(ps, gN(SyntaxKindImportItemPath, gId(vfB("x%d", i))))
		}
		r := gN(SyntaxKindModuleImport, gKw(SyntaxKindImport, "import"), gL(SyntaxKindStr, "\"s\""), gL(SyntaxKindColon, ":"), gN(SyntaxKindImportItems, ps...))
		r.stmt, r.open, r.tail, r.rmin = true, true, gtComma, 9
		return r
	},
	func(n int) gx { // a long path
		var ps []gx
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, gL(SyntaxKindDot, "."))
			}
			ps = append(ps, gId("a"))
		}
		r := gN(SyntaxKindModuleImport, gKw(SyntaxKindImport, "import"), gL(SyntaxKindStr, "\"s\""), gL(SyntaxKindColon, ":"), gN(SyntaxKindImportItems, gN(SyntaxKindImportItemPath, ps...)))
		r.stmt, r.open, r.tail, r.rmin = true, true, gtComma, 9
		return r
	},
}

func c11Rep(n int, sep, e gx) []gx {
	var out []gx
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, sep)
		}
		out = append(out, e)
	}
	if n == 1 && sep.sx == gComma().sx {
		out = append(out, sep)
	}
	return out
}

func c11Names(n int, f func(i int) gx) []gx {
	var out []gx
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, gComma())
		}
		out = append(out, f(i))
	}
	return out
}

func c11Check(r *vfRun, c string) error {
	var style int
	var doc gx
	var ok bool
	if c[0] == 'w' {
		var w, k, n int
		if _, err := fmt.Sscanf(c, "w%d.%d.%d.%d", &style, &w, &k, &n); err != nil {
			panic(err)
		}
		doc, ok = gWrap(w, c11WideKinds[k](n))
	} else {
		style, doc, ok = c11Build(c)
	}
	if !ok {
		r.Count("not-derivable", 1)
		return nil
	}
	text := gPrint(doc.toks, style)
	root := Parse(text)
	r.Transitions++
	if got := gShape(root); got != doc.sx {
		return fmt.Errorf("%q parses to\n%s\nthe grammar derives\n%s", text, got, doc.sx)
	}
	if es := root.errors(); len(es) != 0 || root.erroneous() {
		return fmt.Errorf("%q is valid but reports %d errors, erroneous=%v", text, len(es), root.erroneous())
	}
	if err := c11Trivia(root, text); err != nil {
		return err
	}
	r.Validated++
	if r.Cases%16 == 0 {
		r.Outcome(doc.sx)
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c11Check, Gen: func(r *vfRun) {
		na, nc := len(c11A), len(c11C)
		for s := 0; s < gStyles; s++ {
			for w := 0; w < gWraps; w++ {
				for a := 0; a < na; a++ {
					r.Emit(vfB("%d.%d.%d", s, w, a))
					for i := 0; i < nc; i++ {
						r.Emit(vfB("%d.%d.%d.%d", s, w, a, i))
						for j := 0; j < nc; j++ {
							if a > 2 && !r.Thorough && (s != (i+j+a)%gStyles || w != (i+2*j+a)%gWraps) {
								continue // the first three atoms are printed in every way
							}
							r.Emit(vfB("%d.%d.%d.%d.%d", s, w, a, i, j))
						}
					}
				}
			}
		}
		r.Bound("derivations 2", vfB("%d atoms in every pair of %d one-hole contexts; %d trivia styles and %d documents for 3 of the atoms (thorough: for all)", na, nc, gStyles, gWraps))
		sizes := []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}
		if r.Thorough {
			sizes = append(sizes, 127, 128, 129)
		}
		for i := 0; i < nc; i++ {
			for _, k := range sizes {
				for w := 0; w < gWraps; w++ {
					r.Emit(vfB("%d.%d.0%s", (i+w)%gStyles, w, strings.Repeat(vfB(".%d", i), k)))
				}
			}
			for j := 0; j < nc; j++ {
				for _, k := range []int{2, 3, 4, 8} {
					r.Emit(vfB("%d.%d.0%s", (i+j+k)%gStyles, (i+3*j+k)%gWraps, strings.Repeat(vfB(".%d.%d", i, j), k)))
				}
			}
		}
		r.Bound("towers", vfB("every context around itself up to %d times, every pair alternating up to 8 times", sizes[len(sizes)-1]))
		for k := range c11WideKinds {
			for _, m := range append([]int{1, 2, 3, 5, 6, 127, 128, 129, 255, 256, 257, 511, 512, 513}, sizes...) {
				for s := 0; s < gStyles; s++ {
					for w := 0; w < gWraps; w++ {
						r.Emit(vfB("w%d.%d.%d.%d", s, w, k, m))
					}
				}
			}
		}
		r.Bound("wide", vfB("%d kinds of list with up to 513 parts, in every style and document", len(c11WideKinds)))
		var core []int
		for i, x := range c11C {
			switch x.name {
			case "unot", "u-", "□+y", "y*□", "y=□", "(□)", "(y,□)", "(k:□)", "□(y)", "□.m", "f(□)", "f(n:□)", "f[#□]", "x=>□", "(y:□)=>z", "let x=□", "(a,b)=□", "set f(□)", "show y:□", "context □",
				"if □{b}", "if y{□}", "for y in □{b}", "import □:a,b as c,d.e", "return □", "{□}", "[a #{□} b]":
				core = append(core, i)
			}
		}
		for _, i := range core {
			for _, j := range core {
				for _, k := range core {
					for _, l := range core {
						r.Emit(vfB("%d.%d.0.%d.%d.%d.%d", (i+j+k+l)%gStyles, (i+2*j+3*k+4*l)%gWraps, i, j, k, l))
					}
				}
			}
		}
		r.Bound("derivations 4", vfB("every quadruple of %d one-hole contexts around x", len(core)))
		n := 0
		for i := 0; i < nc; i++ {
			for j := 0; j < nc; j++ {
				for k := 0; k < nc; k++ {
					n++
					if r.Thorough {
						for s := 0; s < gStyles; s++ {
							r.Emit(vfB("%d.%d.%d.%d.%d.%d", s, (n+s)%gWraps, 0, i, j, k))
						}
						continue
					}
					r.Emit(vfB("%d.%d.%d.%d.%d.%d", n%gStyles, n%gWraps, 0, i, j, k))
				}
			}
		}
		r.Bound("derivations 3", vfB("every triple of %d one-hole contexts around x", nc))
	}}
}
