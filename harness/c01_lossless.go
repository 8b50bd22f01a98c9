// C01: the concrete tree reproduces the text and its metadata is consistent.
package PKG

import (
	"fmt"
	"strings"
)

func vfProperty() vfProp {
	return vfProp{
		Gen: func(r *vfRun) {
			level := 1
			if r.Thorough {
				level = 2
			}
			vfTexts(r, level, r.Emit)
		},
		Check: func(r *vfRun, c string) error {
			root := Parse(c)
			n, err := vfTreeCheck(root, c)
			r.Transitions += uint64(n)
			if err != nil {
				return err
			}
			if root.SyntaxKind() != SyntaxKindMarkup {
				return fmt.Errorf("root is %v, not markup", root.SyntaxKind())
			}
			var sb strings.Builder
			PrintNode(&sb, root)
			if sb.String() != c {
				return fmt.Errorf("PrintNode gives %q for %q", sb.String(), c)
			}
			r.Validated++
			if r.Cases%64 == 0 {
				r.Outcome(vfKinds(root))
			}
			return nil
		},
	}
}
