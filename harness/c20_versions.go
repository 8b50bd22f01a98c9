// C20: version bounds, version order and manifest validation.
package PKG

import (
	"fmt"
	"strconv"
	"strings"
)

func c20Parts(s string) []uint32 {
	var v []uint32
	for _, x := range strings.Split(s, ".") {
		n, _ := strconv.ParseUint(x, 10, 32)
		v = append(v, uint32(n))
	}
	return v
}

// c20Cmp compares the components the bound has.
func c20Cmp(v, b []uint32) int {
	for i := range b {
		if v[i] < b[i] {
			return -1
		}
		if v[i] > b[i] {
			return 1
		}
	}
	return 0
}

// Cases: "m" version bound; "v" name|version|compiler|specname|specversion;
// "t" toml; "b" bound text; "f" mask: manifest with the optional fields of it.
func c20Check(r *vfRun, c string) error {
	r.Transitions++
	switch c[0] {
	case 'm':
		f := strings.Fields(c[1:])
		p := c20Parts(f[0])
		v := PackageVersion{Major: p[0], Minor: p[1], Patch: p[2]}
		b := c20Bound(f[1])
		cmp := c20Cmp(p, c20Parts(f[1]))
		got := []bool{v.MatchesEQ(b), v.MatchesGT(b), v.MatchesLT(b), v.MatchesGE(b), v.MatchesLE(b)}
		want := []bool{cmp == 0, cmp > 0, cmp < 0, cmp >= 0, cmp <= 0}
		for i, op := range []string{"==", ">", "<", ">=", "<="} {
			if got[i] != want[i] {
				return fmt.Errorf("%s %s %s is %v, want %v", f[0], op, f[1], got[i], want[i])
			}
			r.Validated++
		}
		r.Outcome(c)
		return nil
	case 'v':
		f := strings.Split(c[1:], "|")
		mv, sv := c20Parts(f[1]), c20Parts(f[4])
		m := NewPackageManifest(NewPackageInfo(f[0], PackageVersion{mv[0], mv[1], mv[2]}, "lib.typ"))
		if f[2] != "" {
			m.Pkg.Compiler = c20Bound(f[2])
		}
		spec := &PackageSpec{Namespace: "preview", Name: f[3], Version: PackageVersion{sv[0], sv[1], sv[2]}}
		want := f[0] == f[3] && f[1] == f[4]
		if f[2] != "" {
			cur := CurrentCompilerVersion()
			want = want && c20Cmp([]uint32{cur.Major, cur.Minor, cur.Patch}, c20Parts(f[2])) >= 0
		}
		err := m.Validate(spec)
		if (err == nil) != want {
			return fmt.Errorf("manifest of %s %s for compilers from %q against %v: %v, want accepted=%v", f[0], f[1], f[2], spec, err, want)
		}
		r.Validated++
		r.Outcome(vfB("%v", want))
		return nil
	case 't':
		f := strings.Split(c[1:], "|")
		var sb strings.Builder
		sb.WriteString("[package]\nname = " + strconv.Quote(f[0]) + "\nversion = " + strconv.Quote(f[1]) + "\nentrypoint = " + strconv.Quote(f[2]) + "\nauthors = [\"A\", \"B\"]\n")
		if f[3] != "" {
			sb.WriteString("compiler = " + strconv.Quote(f[3]) + "\n")
		}
		if f[4] != "" {
			sb.WriteString("[template]\npath = " + strconv.Quote(f[4]) + "\nentrypoint = \"main.typ\"\n")
		}
		m, err := ParsePackageManifestFromToml(sb.String())
		_, _, okV := c20RefVersion(f[1], 3, 3)
		_, _, okB := c20RefVersion(f[3], 1, 3)
		want := okV && (f[3] == "" || okB)
		if (err == nil) != want {
			return fmt.Errorf("manifest %q: %v, want accepted=%v", sb.String(), err, want)
		}
		r.Validated++
		if err != nil {
			return nil
		}
		if m.Pkg == nil || m.Pkg.Name != f[0] || m.Pkg.Entrypoint != f[2] || len(m.Pkg.Authors) != 2 || m.Pkg.Authors[1] != "B" {
			return fmt.Errorf("manifest %q parses to %+v", sb.String(), m.Pkg)
		}
		p, _, _ := c20RefVersion(f[1], 3, 3)
		if m.Pkg.Version != (PackageVersion{p[0], p[1], p[2]}) {
			return fmt.Errorf("manifest %q has version %v", sb.String(), m.Pkg.Version)
		}
		if (m.Pkg.Compiler != nil) != (f[3] != "") {
			return fmt.Errorf("manifest %q has compiler %v", sb.String(), m.Pkg.Compiler)
		}
		if f[3] != "" {
			if err := c20SameBound(m.Pkg.Compiler, f[3]); err != nil {
				return err
			}
		}
		if (m.Template != nil) != (f[4] != "") || m.Template != nil && (m.Template.Path != f[4] || m.Template.Entrypoint != "main.typ") {
			return fmt.Errorf("manifest %q has template %+v", sb.String(), m.Template)
		}
		return nil
	case 'f':
		mask, _ := strconv.Atoi(c[1:])
		on := func(i int) bool { return mask>>i&1 == 1 }
		text := "[package]\nname = \"n\"\nversion = \"1.2.3\"\nentrypoint = \"e\"\n"
		want := &PackageInfo{Name: "n", Version: PackageVersion{1, 2, 3}, Entrypoint: "e"}
		lists := []struct {
			key string
			to  *[]string
		}{{"authors", &want.Authors}, {"keywords", &want.Keywords}, {"categories", &want.Categories}, {"disciplines", &want.Disciplines}, {"exclude", &want.Exclude}}
		for i, l := range lists {
			if on(i) {
				*l.to = []string{l.key + "1", "é " + l.key, ""}[:1+mask%3]
				text += l.key + " = " + strings.ReplaceAll(fmt.Sprintf("%q", *l.to), "\" \"", "\", \"") + "\n"
			}
		}
		for i, s := range []struct {
			key string
			to  *string
		}{{"license", &want.License}, {"description", &want.Description}, {"homepage", &want.Homepage}, {"repository", &want.Repository}} {
			if on(5 + i) {
				*s.to = "the \"" + s.key + "\""
				text += s.key + " = " + strconv.Quote(*s.to) + "\n"
			}
		}
		bound := ""
		if on(9) {
			bound = "0.13"
			text += "compiler = \"0.13\"\n"
		}
		tmpl := TemplateInfo{}
		if on(10) {
			tmpl = TemplateInfo{Path: "p", Entrypoint: "te"}
			text += "[template]\npath = \"p\"\nentrypoint = \"te\"\n"
			if on(11) {
				tmpl.Thumbnail = "th"
				text += "thumbnail = \"th\"\n"
			}
		}
		if on(12) {
			text += "unknown = 1\n[tool.x]\nname = \"z\"\n"
		}
		m, err := ParsePackageManifestFromToml(text)
		if err != nil || m.Pkg == nil {
			return fmt.Errorf("manifest %q: %v", text, err)
		}
		if (m.Pkg.Compiler != nil) != on(9) || on(9) && m.Pkg.Compiler.String() != bound {
			return fmt.Errorf("manifest %q has compiler %v", text, m.Pkg.Compiler)
		}
		if (m.Template != nil) != on(10) || on(10) && !(m.Template.Path == tmpl.Path && m.Template.Entrypoint == tmpl.Entrypoint && m.Template.Thumbnail == tmpl.Thumbnail) {
			return fmt.Errorf("manifest %q has template %+v", text, m.Template)
		}
		show := func(p *PackageInfo) string {
			return fmt.Sprintf("%q", []any{p.Name, p.Version.String(), p.Entrypoint, p.Authors, p.License, p.Description, p.Homepage, p.Repository, p.Keywords, p.Categories, p.Disciplines, p.Exclude})
		}
		if show(m.Pkg) != show(want) {
			return fmt.Errorf("manifest %q has the fields %s, want %s", text, show(m.Pkg), show(want))
		}
		r.Validated++
		r.Outcome(text)
		return nil
	case 'x':
		if m, err := ParsePackageManifestFromToml(c[1:]); err == nil {
			return fmt.Errorf("manifest without a package section %q is accepted: %+v", c[1:], m)
		}
		r.Validated++
		return nil
	case 'b':
		b, err := ParseVersionBound(c[1:])
		_, canon, ok := c20RefVersion(c[1:], 1, 3)
		if (err == nil) != ok {
			return fmt.Errorf("bound %q: %v, want accepted=%v", c[1:], err, ok)
		}
		var u VersionBound
		if e := u.UnmarshalText([]byte(c[1:])); (e == nil) != ok {
			return fmt.Errorf("bound text %q: %v, want accepted=%v", c[1:], e, ok)
		}
		r.Validated += 2
		if !ok {
			return nil
		}
		if b.String() != canon || u.String() != canon {
			return fmt.Errorf("bound %q prints as %q and %q, want %q", c[1:], b, u.String(), canon)
		}
		if err := c20SameBound(b, c[1:]); err != nil {
			return err
		}
		r.Outcome(canon)
		return c20SameBound(&u, c[1:])
	}
	return fmt.Errorf("bad case %q", c)
}

func c20SameBound(b *VersionBound, text string) error {
	p, _, _ := c20RefVersion(text, 1, 3)
	if b.Major != p[0] || (b.Minor != nil) != (len(p) > 1) || (b.Patch != nil) != (len(p) > 2) ||
		len(p) > 1 && *b.Minor != p[1] || len(p) > 2 && *b.Patch != p[2] {
		return fmt.Errorf("bound %q parses to %v", text, b)
	}
	return nil
}

func c20Bound(s string) *VersionBound {
	p := c20Parts(s)
	b := &VersionBound{Major: p[0]}
	if len(p) > 1 {
		b.Minor = &p[1]
	}
	if len(p) > 2 {
		b.Patch = &p[2]
	}
	return b
}

// c20RefVersion reads lo..hi dot-separated 32-bit decimal numbers.
func c20RefVersion(s string, lo, hi int) (v []uint32, canon string, ok bool) {
	parts := strings.Split(s, ".")
	if len(parts) < lo || len(parts) > hi {
		return nil, "", false
	}
	for i, x := range parts {
		if x == "" {
			return nil, "", false
		}
		n := uint64(0)
		for _, d := range []byte(x) {
			if d < '0' || d > '9' {
				return nil, "", false
			}
			n = n*10 + uint64(d-'0')
			if n > 1<<32-1 {
				return nil, "", false
			}
		}
		v = append(v, uint32(n))
		if i > 0 {
			canon += "."
		}
		canon += strconv.FormatUint(n, 10)
	}
	return v, canon, true
}

func vfProperty() vfProp {
	return vfProp{Check: c20Check, Gen: func(r *vfRun) {
		comp := []string{"0", "1", "2", "10", "4294967295"}
		if r.Thorough {
			comp = []string{"0", "1", "2", "9", "10", "11", "255", "4294967294", "4294967295"}
		}
		vfWords(comp, 3, 3, ".", func(v string) {
			vfWords(comp, 1, 3, ".", func(b string) { r.Emit("m" + v + " " + b) })
		})
		r.Bound("matching", vfB("all versions of %d component values against all bounds of one to three", len(comp)))
		// One component of any size.
		sizes := []uint32{0}
		for k := 0; k <= 32; k++ {
			for d := int64(-1); d <= 1; d++ {
				if n := int64(1)<<k + d; n > 0 && n < 1<<32 && uint32(n) != sizes[len(sizes)-1] {
					sizes = append(sizes, uint32(n))
				}
			}
		}
		for _, a := range sizes {
			for _, b := range sizes {
				for _, rest := range []string{"0", "7"} {
					r.Emit(vfB("m%d.%s.%s %d", a, rest, rest, b))
					r.Emit(vfB("m%d.%s.%s %d.7", a, rest, rest, b))
					r.Emit(vfB("m%d.%s.%s %d.7.7", a, rest, rest, b))
					r.Emit(vfB("m%s.%d.%s %s.%d", rest, a, rest, rest, b))
					r.Emit(vfB("m%s.%d.%s %s.%d.7", rest, a, rest, rest, b))
					r.Emit(vfB("m%s.%s.%d %s.%s.%d", rest, rest, a, rest, rest, b))
				}
				r.Emit(vfB("va|0.0.%d||a|0.0.%d", a, b))
				r.Emit(vfB("va|0.%d.0||a|0.%d.0", a, b))
				r.Emit(vfB("va|%d.0.0||a|%d.0.0", a, b))
			}
			r.Emit(vfB("b%d", a))
			r.Emit(vfB("b%d.%d.%d", a, a, a))
			r.Emit(vfB("ta|%d.%d.%d|l|%d.%d.%d|t", a, a, a, a, a, a))
		}
		r.Bound("components", vfB("all pairs of %d component values round powers of two, in every place", len(sizes)))
		for mask := 0; mask < 1<<13; mask++ {
			r.Emit(vfB("f%d", mask))
		}
		r.Bound("fields", "every subset of the optional manifest fields, with and without a template, unknown fields and tool sections")
		var bs []string
		bs = append(bs, "")
		vfWords([]string{"0", "1", "12", "13", "14"}, 1, 3, ".", func(b string) { bs = append(bs, b) })
		vs := []string{"0.0.0", "1.2.3", "1.2.4", "0.2.3", "1.0.3"}
		for _, n := range []string{"a", "b", "", "A"} {
			for _, sn := range []string{"a", "b", ""} {
				for _, v := range vs {
					for _, sv := range vs {
						for _, b := range bs {
							r.Emit(vfB("v%s|%s|%s|%s|%s", n, v, b, sn, sv))
						}
					}
				}
			}
		}
		r.Bound("validation", vfB("all pairs of %d versions and of names, %d compiler bounds", len(vs), len(bs)))
		n := 6
		if r.Thorough {
			n = 8
		}
		vfWords([]string{"1", ".", "0", "4294967295", "-", "a"}, 0, n, "", func(s string) {
			r.Emit("b" + s)
			if strings.Count(s, ".") > 0 && len(s) < 8 {
				r.Emit("ta|" + s + "|lib.typ||")
				r.Emit("ta|1.2.3|src/l.typ|" + s + "|t")
			}
		})
		r.Bound("texts", vfB("all words over 6 tokens up to length %d as bound, manifest version and manifest compiler", n))
		for _, s := range []string{"", "[tool.x]\na = 1\n", "[template]\npath = \"a\"\nentrypoint = \"b\"\n", "package = 1", "[package", "name = \"a\""} {
			r.Emit("x" + s)
		}
	}}
}
