// C23: the tree walker visits every node once, in order, and prunes exactly.
package PKG

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
)

// The nodes in pre-order, with the index behind each subtree.
type c23Node struct {
	p    any // *LeafNode, *InnerNode or *ErrorNode
	next int
}

func c23Ref(n *syntax.SyntaxNode, out *[]c23Node) {
	i := len(*out)
	*out = append(*out, c23Node{p: any(n.Repr)})
	if x, ok := n.Repr.(*syntax.InnerNode); ok {
		for _, c := range x.Children {
			c23Ref(c, out)
		}
	}
	(*out)[i].next = len(*out)
}

// c23Roots walks from any node of the tree, given in any form; with 's' a
// node of the tree is the child of another one as well.
func c23Roots(r *vfRun, root *syntax.SyntaxNode, text, head string) error {
	var all []*syntax.SyntaxNode
	var rec func(n *syntax.SyntaxNode)
	rec = func(n *syntax.SyntaxNode) {
		all = append(all, n)
		if x, ok := n.Repr.(*syntax.InnerNode); ok {
			for _, c := range x.Children {
				rec(c)
			}
		}
	}
	rec(root)
	var form, i, j int
	fmt.Sscanf(head[1:], "%d.%d.%d", &form, &i, &j)
	if i >= len(all) || j >= len(all) {
		return nil
	}
	n := all[i]
	var want []c23Node
	if head[0] == 's' {
		// The tree with one more reference to node i as last child of the root.
		x := root.Repr.(*syntax.InnerNode)
		y := *x
		y.Children = append(append([]*syntax.SyntaxNode{}, x.Children...), n)
		c23Ref(root, &want)
		want[0].p = any(&y)
		n = &syntax.SyntaxNode{Repr: &y}
	} else {
		c23Ref(n, &want)
	}
	var got []any
	visit := func(n any) bool {
		r.Transitions++
		switch x := n.(type) {
		case *syntax.LeafNode, *syntax.InnerNode, *syntax.ErrorNode:
			got = append(got, x)
		}
		return true
	}
	switch form {
	case 0:
		Walk(n, visit)
	case 1:
		Walk(&n, visit)
	case 2:
		Walk(&n.Repr, visit)
	case 3:
		Walk(n.Repr, visit)
	case 4:
		switch x := n.Repr.(type) {
		case *syntax.LeafNode:
			Walk(&x, visit)
		case *syntax.InnerNode:
			Walk(&x, visit)
		case *syntax.ErrorNode:
			Walk(&x, visit)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("walking %q from node %d (form %d) visits %d nodes, want %d", text, i, form, len(got), len(want))
	}
	for k := range got {
		if got[k] != want[k].p {
			return fmt.Errorf("walking %q from node %d (form %d): visit %d is %v, want %v", text, i, form, k, got[k], want[k].p)
		}
	}
	r.Validated++
	return nil
}

// Case: root form digit, prune kind digit, prune set separated by commas, U+001F, text.
func c23Check(r *vfRun, c string) error {
	head, text, _ := strings.Cut(c, "\x1f")
	root := syntax.Parse(text)
	if head[0] == 'r' || head[0] == 's' {
		return c23Roots(r, root, text, head)
	}
	var nodes []c23Node
	c23Ref(root, &nodes)
	prune := map[any]bool{}
	if len(head) > 2 {
		for _, x := range strings.Split(head[2:], ",") {
			i, _ := strconv.Atoi(x)
			if i < len(nodes) {
				prune[nodes[i].p] = true
			}
		}
	}
	var want []any
	for i := 0; i < len(nodes); {
		want = append(want, nodes[i].p)
		if prune[nodes[i].p] {
			i = nodes[i].next
		} else {
			i++
		}
	}
	var got, sn []any
	visit := func(n any) bool {
		r.Transitions++
		switch x := n.(type) {
		case *syntax.LeafNode, *syntax.InnerNode, *syntax.ErrorNode:
			got = append(got, x)
			if head[1] == '0' {
				return !prune[x]
			}
		case *syntax.SyntaxNode:
			sn = append(sn, any(x.Repr))
			if head[1] == '1' && prune[any(x.Repr)] {
				got = append(got, any(x.Repr))
				return false
			}
		}
		return true
	}
	switch head[0] {
	case '0':
		Walk(root, visit)
	case '1':
		Walk(&root, visit)
	case '2':
		if x, ok := root.Repr.(*syntax.InnerNode); ok {
			Walk(x, visit)
		}
	case '3':
		Walk(&root.Repr, visit)
	}
	if len(got) != len(want) {
		return fmt.Errorf("walking %q with %d pruned nodes visits %d nodes, want %d", text, len(prune), len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("walking %q: visit %d is %v, want %v", text, i, got[i], want[i])
		}
	}
	if head[1] == '1' || head[0] == '0' {
		// syntax nodes come in the same order
		if head[0] == '0' && len(sn) != len(want) {
			return fmt.Errorf("walking %q visits %d syntax nodes, want %d", text, len(sn), len(want))
		}
		for i := range sn {
			if head[0] == '0' && sn[i] != want[i] {
				return fmt.Errorf("walking %q: syntax node %d is out of order", text, i)
			}
		}
	}
	r.Validated++
	r.Outcome(vfB("%d/%d", len(nodes), len(want)))
	return nil
}

func vfB(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func vfProperty() vfProp {
	return vfProp{Check: c23Check, Gen: func(r *vfRun) {
		toks := []string{"a", "*b*", "#f(x)[y]", "#{1;2}", "- c\n", "#(", "= h\n", "#[#x]", " ", "#let z = 1\n", "]", "/* d */"}
		n := 3
		if r.Thorough {
			n = 4
		}
		var rec func(s string, k int)
		count := 0
		rec = func(s string, k int) {
			if r.Mine() {
				root := syntax.Parse(s)
				var nodes []c23Node
				c23Ref(root, &nodes)
				for form := 0; form < 4; form++ {
					r.Exec(vfB("%d0\x1f%s", form, s))
				}
				for i := range nodes {
					for form := 0; form < 5; form++ {
						r.Exec(vfB("r%d.%d.0\x1f%s", form, i, s))
					}
					if i > 0 {
						r.Exec(vfB("s0.%d.0\x1f%s", i, s))
					}
				}
				pairs := len(nodes) < 14 || r.Thorough && len(nodes) < 40
				for i := range nodes {
					r.Exec(vfB("00%d\x1f%s", i, s))
					r.Exec(vfB("01%d\x1f%s", i, s))
					for j := i + 1; pairs && j < len(nodes); j++ {
						r.Exec(vfB("00%d,%d\x1f%s", i, j, s))
					}
				}
				// all subsets of small trees
				if len(nodes) <= 8 {
					for m := 0; m < 1<<len(nodes); m++ {
						var set []string
						for i := range nodes {
							if m>>i&1 == 1 {
								set = append(set, strconv.Itoa(i))
							}
						}
						if len(set) > 2 {
							r.Exec("00" + strings.Join(set, ",") + "\x1f" + s)
						}
					}
				}
			}
			count++
			if k == 0 {
				return
			}
			for _, t := range toks {
				rec(s+t, k-1)
			}
		}
		rec("", n)
		r.Bound("trees", vfB("the trees of all words over %d tokens up to length %d; pruned at every node, at every pair of nodes of trees below 14 nodes, at every subset of trees up to 8 nodes; 4 kinds of root", len(toks), n))
		_ = count
		// large and deep trees
		big := 20000
		if r.Thorough {
			big = 200000
		}
		for _, s := range []string{strings.Repeat("a~", big), strings.Repeat("#[", 300) + strings.Repeat("]", 300), "#{" + strings.Repeat("1;", big) + "}", strings.Repeat("*_[", 200)} {
			if r.Mine() {
				for form := 0; form < 4; form++ {
					r.Exec(vfB("%d0\x1f%s", form, s))
				}
				for _, i := range []int{1, 2, 3, 700, 4000} {
					r.Exec(vfB("00%d\x1f%s", i, s))
					r.Exec(vfB("00%d,%d\x1f%s", i, i+50, s))
				}
				for _, i := range []int{1, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 2*big - 1, 2 * big} {
					r.Exec(vfB("s0.%d.0\x1f%s", i, s))
				}
			}
		}
		r.Bound("large trees", "lists of tens of thousands of siblings and hundreds of levels, whole and pruned at one and two nodes")
	}}
}
