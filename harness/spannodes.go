// Nodes of a tree with their spans and ranges.
package PKG

type vfNode struct {
	span       Span
	start, end uint64
	kind       SyntaxKind
	node       *SyntaxNode
}

func vfSpanOf(n *SyntaxNode) Span {
	switch x := n.Repr.(type) {
	case *LeafNode:
		return x.Span
	case *InnerNode:
		return x.Span
	case *ErrorNode:
		return x.Error.Span
	}
	return 0
}

// vfCollect lists the nodes in pre-order with their ranges.
func vfCollect(root *SyntaxNode) []vfNode {
	var out []vfNode
	var walk func(n *SyntaxNode, off uint64) uint64
	walk = func(n *SyntaxNode, off uint64) uint64 {
		i := len(out)
		out = append(out, vfNode{span: vfSpanOf(n), start: off, kind: n.SyntaxKind(), node: n})
		end := off
		switch x := n.Repr.(type) {
		case *LeafNode:
			end += uint64(len(x.Text))
		case *ErrorNode:
			end += uint64(len(x.Text))
		case *InnerNode:
			for _, c := range x.Children {
				end = walk(c, end)
			}
		}
		out[i].end = end
		return end
	}
	walk(root, 0)
	return out
}
