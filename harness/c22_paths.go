// C22: virtual paths are absolute, normalised and never leave the root.
package PKG

import (
	"fmt"
	"strings"

	"github.com/mewmew/typast/internal/option"
)

func c22Norm(segs []string) []string {
	var out []string
	for _, s := range segs {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func c22Str(segs []string) string { return "/" + strings.Join(segs, "/") }

// Case: path U+001F path.
func c22Check(r *vfRun, c string) error {
	p, q, _ := strings.Cut(c, "\x1f")
	base := c22Norm(strings.Split(p, "/"))
	v := NewVirtualPath(p)
	r.Transitions++
	if v.Path != c22Str(base) {
		return fmt.Errorf("virtual path of %q is %q, want %q", p, v.Path, c22Str(base))
	}
	if w := NewVirtualPath(v.Path); w.Path != v.Path {
		return fmt.Errorf("virtual path %q is not stable: %q", v.Path, w.Path)
	}
	var segs []string
	if !strings.HasPrefix(q, "/") && len(base) > 0 {
		segs = append(segs, base[:len(base)-1]...)
	}
	want := c22Str(c22Norm(append(segs, strings.Split(q, "/")...)))
	j := v.Join(q)
	r.Transitions++
	if j.Path != want {
		return fmt.Errorf("%q resolved relative to %q is %q, want %q", q, v.Path, j.Path, want)
	}
	if v.Path != c22Str(base) {
		return fmt.Errorf("joining changed the path to %q", v.Path)
	}
	r.Validated += 3
	r.Outcome(want)
	for _, ext := range []string{".pdf", ""} {
		want := "/" // the root has no name to change
		if len(base) > 0 {
			dir, name := base[:len(base)-1], base[len(base)-1]
			// a name is dots, at least one character that is none, and maybe an extension
			if i := strings.LastIndexByte(name, '.'); i > 0 && strings.Trim(name[:i], ".") != "" {
				name = name[:i]
			}
			want = c22Str(append(append([]string{}, dir...), name+ext))
		}
		if got := v.WithExtension(ext).Path; got != want {
			return fmt.Errorf("%q with extension %q is %q, want %q", v.Path, ext, got, want)
		}
		r.Validated++
	}
	if r.Cases%64 == 0 {
		// the same through file ids and spans, in a project and in a package
		for _, spec := range []option.Option[*PackageSpec]{option.None[*PackageSpec](), option.Some(&PackageSpec{"preview", "p", PackageVersion{1, 2, 3}})} {
			id := NewFileID(spec, v)
			jd := id.Join(q)
			s, _ := NewSpanFromNumber(id, 2)
			rd, err := s.ResolvePath(q)
			r.Transitions += 3
			if jd.VPath().Path != want || err != nil || rd != jd {
				return fmt.Errorf("%q relative to file %v is %v by file and %v, %v by span, want %q", q, id, jd, rd, err, want)
			}
			a, oka := spec.Get()
			b, okb := jd.Spec().Get()
			if oka != okb || oka && *a != *b {
				return fmt.Errorf("%q relative to file %v leaves its package: %v", q, id, jd)
			}
			if _, err := NewDetachedSpan().ResolvePath(q); err == nil {
				return fmt.Errorf("%q resolves relative to a detached span", q)
			}
			r.Validated += 3
		}
	}
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c22Check, Gen: func(r *vfRun) {
		segs := []string{"a", "b.typ", "..", ".", ""}
		n := 4
		if r.Thorough {
			n = 5
			segs = append(segs, "c.d.e")
		}
		var ps []string
		vfWords(segs, 1, n, "/", func(s string) { ps = append(ps, s) })
		for _, p := range ps {
			if !r.Mine() {
				continue
			}
			for _, q := range ps {
				r.Exec(p + "\x1f" + q)
			}
		}
		r.Bound("paths", vfB("all pairs of paths of up to %d of %d segments, rooted or not", n, len(segs)))
		for _, p := range []string{"...", "..a", "a..", "...a/b", "é/ü.typ", "a b.typ", "a/...", "x/..y/z", "a.b/c", "a.b.c", ".a", ".a.b", "x/.a", "x/.a.b", "..a.b", "x/...", "x/...a", "....", "x.y/.z", "x.y/z", "a.", "a..", "a.b.", "x/.a."} {
			for _, q := range append([]string{"...", "..a/b", "é.png", "a..b"}, ps[:30]...) {
				r.Emit(p + "\x1f" + q)
			}
		}
	}}
}
