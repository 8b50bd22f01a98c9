// C25: parse-typ prints exactly the tree of every file.
package PKG

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
)

// c25Line is a line of output read back.
type c25Line struct {
	depth            int
	what, kind, text string
	msg              string
}

func c25Parse(out string) ([]c25Line, error) {
	var ls []c25Line
	for out != "" {
		l, rest, ok := strings.Cut(out, "\n")
		if !ok {
			return nil, fmt.Errorf("the output does not end with a line end: %q", l)
		}
		out = rest
		x := c25Line{}
		t := strings.TrimLeft(l, " ")
		if (len(l)-len(t))%2 != 0 {
			return nil, fmt.Errorf("odd indentation in %q", l)
		}
		x.depth = (len(l) - len(t)) / 2
		quoted := func(pre string) (string, bool) {
			if !strings.HasPrefix(t, pre) {
				return "", false
			}
			t = t[len(pre):]
			q, err := strconv.QuotedPrefix(t)
			if err != nil {
				return "", false
			}
			t = t[len(q):]
			s, err := strconv.Unquote(q)
			return s, err == nil
		}
		good := false
		switch {
		case strings.HasPrefix(t, "leaf "):
			x.what = "leaf"
			if x.kind, good = quoted("leaf (kind="); good {
				x.text, good = quoted(") text=")
			}
		case strings.HasPrefix(t, "inner "):
			x.what = "inner"
			if x.kind, good = quoted("inner (kind="); good {
				good = strings.HasPrefix(t, ")")
				t = strings.TrimPrefix(t, ")")
			}
		case strings.HasPrefix(t, "error "):
			x.what = "error"
			if x.text, good = quoted("error (text="); good {
				x.msg, good = quoted(") error=")
			}
		}
		if !good || t != "" {
			return nil, fmt.Errorf("unreadable line %q", l)
		}
		ls = append(ls, x)
	}
	return ls, nil
}

func c25Want(ls *[]c25Line, n *SyntaxNode, depth int) {
	switch x := n.Repr.(type) {
	case *LeafNode:
		*ls = append(*ls, c25Line{depth: depth, what: "leaf", kind: x.Kind.String(), text: x.Text})
	case *ErrorNode:
		*ls = append(*ls, c25Line{depth: depth, what: "error", text: x.Text, msg: x.Error.Message})
	case *InnerNode:
		*ls = append(*ls, c25Line{depth: depth, what: "inner", kind: x.Kind.String()})
		for _, c := range x.Children {
			c25Want(ls, c, depth+1)
		}
	}
}

// c25Files runs the tool on files; "\x00" texts stand for missing files,
// "\x00dir" for directories.
func c25Files(r *vfRun, texts []string, args []int) error {
	dir := tScratch()
	defer tClear(dir)
	files := map[string]string{}
	name := func(i int) string {
		return []string{"f%d.typ", "d/f%d.typ", "f %d.typ", "f%d"}[i%4]
	}
	for i, t := range texts {
		if t != "\x00" {
			files[filepath.Join("work", vfB(name(i), i))] = t
		}
	}
	tWrite(dir, files)
	var as []string
	var want []c25Line
	fails := false
	for _, a := range args {
		p := vfB(name(a), a)
		if a%3 == 0 {
			p = filepath.Join(dir, "work", p)
		}
		as = append(as, p)
		if fails = fails || strings.HasPrefix(texts[a], "\x00"); !fails {
			c25Want(&want, Parse(texts[a]), 0)
		}
	}
	res := tRun("parse-typ", dir, as...)
	r.Transitions += uint64(len(want))
	if (res.code != 0) != fails {
		return fmt.Errorf("parse-typ exits with %d on %q\n%s", res.code, texts, res.err)
	}
	if fails && res.err == "" {
		return fmt.Errorf("parse-typ fails without a message on %q", texts)
	}
	got, err := c25Parse(res.out)
	if err != nil {
		return fmt.Errorf("parse-typ on %q: %v", texts, err)
	}
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			return fmt.Errorf("parse-typ prints %+v on line %d, expected %+v", got[i], i+1, want[i:min(i+1, len(want))])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("parse-typ leaves out %+v", want[len(got)])
	}
	after := tRead(dir)
	for p, t := range after {
		if files[p] != t {
			return fmt.Errorf("parse-typ changed %s", p)
		}
	}
	r.Validated++
	return nil
}

func c25Check(r *vfRun, c string) error {
	switch {
	case c == "names":
		seen := map[string]SyntaxKind{}
		for k := SyntaxKindEnd; k <= SyntaxKindDestructAssignment; k++ {
			s := k.String()
			if strings.Contains(s, "SyntaxKind(") {
				continue
			}
			if o, ok := seen[s]; ok || s == "" {
				return fmt.Errorf("the kinds %d and %d are both called %q", o, k, s)
			}
			seen[s] = k
		}
		r.Validated++
		return nil
	case strings.HasPrefix(c, "list\x1e"):
		texts := strings.Split(c, "\x1e")[1:]
		var args []int
		for _, a := range strings.Fields(texts[0]) {
			i, _ := strconv.Atoi(a)
			args = append(args, i)
		}
		return c25Files(r, texts[1:], args)
	}
	texts := strings.Split(c, "\x1e")
	args := make([]int, len(texts))
	for i := range args {
		args[i] = i
	}
	err := c25Files(r, texts, args)
	if err != nil && len(texts) > 1 { // find the text
		for _, t := range texts {
			if e := c25Files(r, []string{t}, []int{0}); e != nil {
				return fmt.Errorf("%q: %v", t, e)
			}
		}
	}
	if err == nil {
		r.Count("files", uint64(len(texts)))
	}
	return err
}

func vfProperty() vfProp {
	return vfProp{Check: c25Check, Gen: func(r *vfRun) {
		r.Emit("names")
		// Lists of arguments: every sequence of good, empty, wrong, missing
		// files and directories.
		kinds := []string{"a #b\n", "", "#let (", "\x00", "\x00dir"}
		n := 4
		if r.Thorough {
			n = 5
		}
		var ds []string
		for i := range kinds {
			ds = append(ds, strconv.Itoa(i))
		}
		vfWords(ds, 0, n, " ", func(s string) { r.Emit("list\x1e" + s + "\x1e" + strings.Join(kinds, "\x1e")) })
		r.Bound("arguments", vfB("all lists of up to %d of: a file, an empty one, an erroneous one, a missing one, a directory", n))
		var batch []string
		level := 0
		if r.Thorough {
			level = 1
		}
		vfTexts(r, level, func(s string) {
			if batch = append(batch, s); len(batch) == 300 {
				r.Emit(strings.Join(batch, "\x1e"))
				batch = nil
			}
		})
		r.Emit(strings.Join(batch, "\x1e"))
		vfSizes(r, 8, 16, r.Emit)
	}}
}
