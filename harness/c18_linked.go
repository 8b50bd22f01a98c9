// C18: navigation in a parsed tree.
package PKG

import "fmt"

// c18Node is one node of the reference list (pre-order) of a tree.
type c18Node struct {
	n          *SyntaxNode
	parent     int // index in the list, -1 for the root
	index      int // index among the siblings
	start, end int
	kids       []int
	leaf       bool // a leaf node, no error
	trivia     bool
}

func c18List(root *SyntaxNode) []c18Node {
	var out []c18Node
	var walk func(n *SyntaxNode, parent, index, off int) int
	walk = func(n *SyntaxNode, parent, index, off int) int {
		i := len(out)
		out = append(out, c18Node{n: n, parent: parent, index: index, start: off})
		if parent >= 0 {
			out[parent].kids = append(out[parent].kids, i)
		}
		end := off
		switch x := n.Repr.(type) {
		case *LeafNode:
			end += len(x.Text)
			out[i].leaf = true
			switch x.Kind {
			case SyntaxKindShebang, SyntaxKindLineComment, SyntaxKindBlockComment, SyntaxKindSpace, SyntaxKindParbreak:
				out[i].trivia = true
			}
		case *ErrorNode:
			end += len(x.Text)
		case *InnerNode:
			for k, c := range x.Children {
				end = walk(c, i, k, end)
			}
		}
		out[i].end = end
		return end
	}
	walk(root, -1, 0, 0)
	return out
}

type c18Tree struct {
	r    *vfRun
	l    []c18Node
	text string
	link []*LinkedNode
}

// same compares a navigation result with node want of the list (-1: none).
func (t *c18Tree) same(what string, from int, got *LinkedNode, ok bool, want int) error {
	t.r.Transitions++
	t.r.Validated++
	fail := func(f string, a ...any) error {
		src := "the root"
		if from >= 0 {
			src = fmt.Sprintf("node %d (%v at %d)", from, t.l[from].n.SyntaxKind(), t.l[from].start)
		}
		return fmt.Errorf("%s from %s: %s, in %q %s", what, src, fmt.Sprintf(f, a...), t.text, vfKinds(t.l[0].n))
	}
	if !ok {
		if want >= 0 {
			return fail("nothing, want %v at %d", t.l[want].n.SyntaxKind(), t.l[want].start)
		}
		return nil
	}
	if want < 0 {
		return fail("%v at %d, want nothing", got.get().SyntaxKind(), got.Range().Start)
	}
	// The node, its position and its chain of parents.
	for i := want; ; i = t.l[i].parent {
		w := t.l[i]
		if got.get() != w.n {
			return fail("another node (%v, want %v at %d)", got.get().SyntaxKind(), w.n.SyntaxKind(), w.start)
		}
		if rg := got.Range(); int(rg.Start) != w.start || int(rg.End) != w.end {
			return fail("%v has range %v, want %d..%d", w.n.SyntaxKind(), rg, w.start, w.end)
		}
		if int(got.index) != w.index {
			return fail("%v has index %d, want %d", w.n.SyntaxKind(), got.index, w.index)
		}
		p, ok := got.parent.Get()
		pk, pok := got.parent_kind()
		if ok != (w.parent >= 0) || pok != ok {
			return fail("%v at %d: parent known: %v", w.n.SyntaxKind(), w.start, ok)
		}
		if !ok {
			return nil
		}
		if want := t.l[w.parent].n.SyntaxKind(); pk != want {
			return fail("%v at %d: parent kind %v, want %v", w.n.SyntaxKind(), w.start, pk, want)
		}
		got = p
	}
}

func c18Check(r *vfRun, c string) error {
	src := NewDetachedSource(c)
	l := c18List(src.Root)
	t := &c18Tree{r: r, l: l, text: c, link: make([]*LinkedNode, len(l))}
	root := NewLinkedNode(src.Root)
	t.link[0] = root
	r.Outcome(vfKinds(src.Root))
	leafIn := func(i int, last bool) int { // first or last leaf that is no trivia within i
		res := -1
		for j := i; j < len(l); j++ {
			if j > i {
				p := j
				for p > i {
					p = l[p].parent
				}
				if p != i {
					break
				}
			}
			if l[j].leaf && !l[j].trivia && (res < 0 || last) {
				res = j
			}
		}
		return res
	}
	sub := make([]int, len(l)) // one past the subtree
	for i := len(l) - 1; i >= 0; i-- {
		sub[i] = i + 1
		for _, k := range l[i].kids {
			sub[i] = max(sub[i], sub[k])
		}
	}
	for i := range l {
		lk := t.link[i]
		// Children, forwards and backwards; and stopping early.
		k := 0
		for idx, ch := range lk.children().Children() {
			if k >= len(l[i].kids) || idx != k {
				return fmt.Errorf("child %d of node %d numbered %d of %d in %q", k, i, idx, len(l[i].kids), c)
			}
			if err := t.same("child", i, ch, true, l[i].kids[k]); err != nil {
				return err
			}
			t.link[l[i].kids[k]] = ch
			k++
		}
		if k != len(l[i].kids) {
			return fmt.Errorf("node %d has %d children, visited %d, in %q", i, len(l[i].kids), k, c)
		}
		for idx, ch := range lk.children().RevChildren() {
			k--
			if k < 0 || idx != k {
				return fmt.Errorf("child %d of node %d numbered %d in reverse, in %q", k, i, idx, c)
			}
			if err := t.same("child in reverse", i, ch, true, l[i].kids[k]); err != nil {
				return err
			}
		}
		if k != 0 {
			return fmt.Errorf("node %d has %d children, in reverse %d were left out, in %q", i, len(l[i].kids), k, c)
		}
		for stop := range l[i].kids {
			n := 0
			for range lk.children().Children() {
				n++
				if n == stop+1 {
					break
				}
			}
			for range lk.children().RevChildren() {
				n++
				if n == 2*(stop+1) {
					break
				}
			}
			if n != 2*(stop+1) {
				return fmt.Errorf("stopping at child %d of node %d visited %d, in %q", stop, i, n, c)
			}
		}
	}
	for i, w := range l {
		lk := t.link[i]
		// Siblings.
		prev, next := -1, -1
		if w.parent >= 0 {
			sib := l[w.parent].kids
			for k := w.index - 1; k >= 0; k-- {
				if !l[sib[k]].trivia {
					prev = sib[k]
					break
				}
			}
			for k := w.index + 1; k < len(sib); k++ {
				if !l[sib[k]].trivia {
					next = sib[k]
					break
				}
			}
		}
		got, ok := lk.prev_sibling()
		if err := t.same("previous sibling", i, got, ok, prev); err != nil {
			return err
		}
		if k, ok := lk.prev_sibling_kind(); ok != (prev >= 0) || ok && k != l[prev].n.SyntaxKind() {
			return fmt.Errorf("previous sibling kind of node %d is %v, %v, in %q", i, k, ok, c)
		}
		got, ok = lk.next_sibling()
		if err := t.same("next sibling", i, got, ok, next); err != nil {
			return err
		}
		if k, ok := lk.next_sibling_kind(); ok != (next >= 0) || ok && k != l[next].n.SyntaxKind() {
			return fmt.Errorf("next sibling kind of node %d is %v, %v, in %q", i, k, ok, c)
		}
		// Leaves.
		prev, next = -1, -1
		for j := i - 1; j >= 0; j-- {
			if l[j].leaf && !l[j].trivia {
				prev = j
				break
			}
		}
		for j := sub[i]; j < len(l); j++ {
			if l[j].leaf && !l[j].trivia {
				next = j
				break
			}
		}
		got, ok = lk.prev_leaf()
		if err := t.same("previous leaf", i, got, ok, prev); err != nil {
			return err
		}
		got, ok = lk.next_leaf()
		if err := t.same("next leaf", i, got, ok, next); err != nil {
			return err
		}
		got, ok = lk.leftmost_leaf()
		if err := t.same("leftmost leaf", i, got, ok, leafIn(i, false)); err != nil {
			return err
		}
		got, ok = lk.rightmost_leaf()
		if err := t.same("rightmost leaf", i, got, ok, leafIn(i, true)); err != nil {
			return err
		}
		// Find by span: from the root, from the node itself and from every ancestor.
		span := c18Span(w.n)
		for j := i; j >= 0; j = l[j].parent {
			got, ok = t.link[j].find(span)
			if err := t.same("find "+w.n.SyntaxKind().String(), j, got, ok, i); err != nil {
				return err
			}
		}
		// No other subtree holds it.
		for j := range l {
			if j > i || sub[j] <= i {
				if got, ok = t.link[j].find(span); ok {
					return t.same("find outside", j, got, ok, -1)
				}
			}
		}
		if got, ok = lk.find(NewDetachedSpan()); ok {
			return t.same("find a detached span", i, got, ok, -1)
		}
	}
	// The leaf at every position; a node without children counts, errors too.
	for cur := 0; cur <= len(c)+1; cur++ {
		before, after := -1, -1
		for i, w := range l {
			if len(w.kids) == 0 && w.start < cur && cur <= w.end {
				before = i
			}
			if len(w.kids) == 0 && w.start <= cur && cur < w.end {
				after = i
			}
		}
		for _, start := range []int{0} {
			lk := t.link[start]
			got, ok := lk.leaf_before(uint(cur))
			if cur > 0 {
				if err := t.same(fmt.Sprintf("leaf before %d", cur), start, got, ok, before); err != nil {
					return err
				}
				got, ok = lk.leaf_at(uint(cur), SideBefore)
				if err := t.same(fmt.Sprintf("leaf at %d, before", cur), start, got, ok, before); err != nil {
					return err
				}
			}
			got, ok = lk.leaf_after(uint(cur))
			if err := t.same(fmt.Sprintf("leaf after %d", cur), start, got, ok, after); err != nil {
				return err
			}
			got, ok = lk.leaf_at(uint(cur), SideAfter)
			if err := t.same(fmt.Sprintf("leaf at %d, after", cur), start, got, ok, after); err != nil {
				return err
			}
		}
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{
		Gen: func(r *vfRun) {
			level := 0
			if r.Thorough {
				level = 1
			}
			vfTexts(r, level, r.Emit)
			if !r.Thorough {
				vfSizes(r, 6, 6, r.Emit)
			}
		},
		Check: c18Check,
	}
}

func c18Span(n *SyntaxNode) Span {
	switch x := n.Repr.(type) {
	case *LeafNode:
		return x.Span
	case *InnerNode:
		return x.Span
	case *ErrorNode:
		return x.Error.Span
	}
	return 0
}
