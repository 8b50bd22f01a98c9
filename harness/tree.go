// Tree oracles written over the exported node representation only.
package PKG

import (
	"fmt"
	"strings"
)

func vfB(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// vfTreeCheck walks the tree once and compares every stored fact about a node
// with the same fact recomputed from scratch.
func vfTreeCheck(root *SyntaxNode, text string) (nodes int, err error) {
	seen := map[*SyntaxNode]bool{}
	var walk func(n *SyntaxNode, off int) (length int, desc uint, bad bool, err error)
	walk = func(n *SyntaxNode, off int) (int, uint, bool, error) {
		if n == nil || n.Repr == nil {
			return 0, 0, false, fmt.Errorf("nil node at offset %d of %q", off, text)
		}
		if seen[n] {
			return 0, 0, false, fmt.Errorf("node %v at offset %d occurs twice in the tree of %q", n.SyntaxKind(), off, text)
		}
		seen[n] = true
		nodes++
		switch x := n.Repr.(type) {
		case *LeafNode:
			if off+len(x.Text) > len(text) || text[off:off+len(x.Text)] != x.Text {
				return 0, 0, false, fmt.Errorf("leaf %v holds %q at offset %d of %q", x.Kind, x.Text, off, text)
			}
			if x.Kind == SyntaxKindError || x.Kind == SyntaxKindEnd {
				return 0, 0, false, fmt.Errorf("leaf of kind %v in %q", x.Kind, text)
			}
			return len(x.Text), 1, false, nil
		case *ErrorNode:
			if off+len(x.Text) > len(text) || text[off:off+len(x.Text)] != x.Text {
				return 0, 0, false, fmt.Errorf("error node holds %q at offset %d of %q", x.Text, off, text)
			}
			if x.Error == nil || x.Error.Message == "" {
				return 0, 0, false, fmt.Errorf("error node without message at offset %d of %q", off, text)
			}
			return len(x.Text), 1, true, nil
		case *InnerNode:
			sum, desc, bad := 0, uint(1), false
			for _, c := range x.Children {
				l, d, b, err := walk(c, off+sum)
				if err != nil {
					return 0, 0, false, err
				}
				sum += l
				desc += d
				bad = bad || b
			}
			if int(x.Len) != sum {
				return 0, 0, false, fmt.Errorf("%v stores length %d, its text has %d bytes, in %q", x.Kind, x.Len, sum, text)
			}
			if x.Descendants != desc {
				return 0, 0, false, fmt.Errorf("%v stores %d descendants, it has %d, in %q", x.Kind, x.Descendants, desc, text)
			}
			if x.Erroneous != bad {
				return 0, 0, false, fmt.Errorf("%v stores erroneous=%v, want %v, in %q", x.Kind, x.Erroneous, bad, text)
			}
			if x.Kind == SyntaxKindError || x.Kind == SyntaxKindEnd {
				return 0, 0, false, fmt.Errorf("inner node of kind %v in %q", x.Kind, text)
			}
			return sum, desc, bad, nil
		}
		return 0, 0, false, fmt.Errorf("unknown node representation %T", n.Repr)
	}
	l, _, _, err := walk(root, 0)
	if err != nil {
		return nodes, err
	}
	if l != len(text) {
		return nodes, fmt.Errorf("tree covers %d of %d bytes of %q", l, len(text), text)
	}
	return nodes, nil
}

// vfKinds renders a tree as an S-expression of kinds, without texts.
func vfKinds(n *SyntaxNode) string {
	var sb strings.Builder
	var w func(n *SyntaxNode)
	w = func(n *SyntaxNode) {
		switch x := n.Repr.(type) {
		case *LeafNode:
			sb.WriteString(x.Kind.String())
		case *ErrorNode:
			sb.WriteString("!")
		case *InnerNode:
			sb.WriteString("(" + x.Kind.String())
			for _, c := range x.Children {
				sb.WriteString(" ")
				w(c)
			}
			sb.WriteString(")")
		}
	}
	w(n)
	return sb.String()
}

// vfDump renders everything a tree shows apart from spans.
func vfDump(n *SyntaxNode) string {
	var sb strings.Builder
	var w func(n *SyntaxNode)
	w = func(n *SyntaxNode) {
		switch x := n.Repr.(type) {
		case *LeafNode:
			fmt.Fprintf(&sb, "%v%q", x.Kind, x.Text)
		case *ErrorNode:
			fmt.Fprintf(&sb, "!%q<%s|%s>", x.Text, x.Error.Message, strings.Join(x.Error.Hints, "|"))
		case *InnerNode:
			fmt.Fprintf(&sb, "(%v/%d/%d/%v", x.Kind, x.Len, x.Descendants, x.Erroneous)
			for _, c := range x.Children {
				sb.WriteString(" ")
				w(c)
			}
			sb.WriteString(")")
		}
	}
	w(n)
	return sb.String()
}
