// C19: package specifications and versions parse and print consistently.
package PKG

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

func c19Ident(s string) bool {
	for i, c := range s {
		if c == '_' || unicode.IsLetter(c) || i > 0 && (c == '-' || unicode.IsDigit(c) || unicode.In(c, unicode.Mn, unicode.Mc, unicode.Pc)) {
			continue
		}
		return false
	}
	return s != ""
}

// c19Ref splits "@ns/name[:rest]" by hand.
func c19Ref(s string) (ns, name, ver string, hasVer, ok bool) {
	if !strings.HasPrefix(s, "@") {
		return
	}
	ns, rest, _ := strings.Cut(s[1:], "/")
	name, ver, hasVer = strings.Cut(rest, ":")
	return ns, name, ver, hasVer, c19Ident(ns) && c19Ident(name)
}

func c19Version(s string) (PackageVersion, bool) {
	var v [3]uint32
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return PackageVersion{}, false
	}
	for i := range p {
		if p[i] == "" || strings.Trim(p[i], "0123456789") != "" {
			return PackageVersion{}, false
		}
		n, err := strconv.ParseUint(p[i], 10, 64)
		if err != nil || n > 1<<32-1 {
			return PackageVersion{}, false
		}
		v[i] = uint32(n)
	}
	return PackageVersion{v[0], v[1], v[2]}, true
}

func c19Check(r *vfRun, c string) error {
	ns, name, ver, hasVer, ok := c19Ref(c)
	v, okV := c19Version(ver)
	want := ok && hasVer && okV
	spec, err := ParsePackageSpec(c)
	r.Transitions++
	if (err == nil) != want {
		return fmt.Errorf("spec %q: %v, want accepted=%v", c, err, want)
	}
	r.Validated++
	if want {
		w := PackageSpec{Namespace: ns, Name: name, Version: v}
		if *spec != w {
			return fmt.Errorf("spec %q parses to %+v, want %+v", c, *spec, w)
		}
		canon := vfB("@%s/%s:%d.%d.%d", ns, name, v.Major, v.Minor, v.Patch)
		if spec.String() != canon {
			return fmt.Errorf("spec %q prints as %q, want %q", c, spec, canon)
		}
		again, err := ParsePackageSpec(canon)
		if err != nil || *again != w {
			return fmt.Errorf("printed spec %q parses to %+v, %v", canon, again, err)
		}
		vl := spec.Versionless()
		if vl.Namespace != ns || vl.Name != name || *vl.At(v) != w || vl.String() != "@"+ns+"/"+name {
			return fmt.Errorf("spec %q without version is %+v (%v)", c, vl, vl)
		}
		cl := spec.Clone()
		if *cl != w || cl == spec {
			return fmt.Errorf("clone of %q is %+v", c, cl)
		}
		r.Validated += 4
		r.Outcome(canon)
	}
	wantL := ok && !hasVer
	vl, err := ParseVersionlessPackageSpec(c)
	r.Transitions++
	if (err == nil) != wantL {
		return fmt.Errorf("versionless spec %q: %v, want accepted=%v", c, err, wantL)
	}
	if wantL {
		if vl.Namespace != ns || vl.Name != name || vl.String() != c {
			return fmt.Errorf("versionless spec %q parses to %+v and prints as %q", c, vl, vl)
		}
		r.Outcome(c)
	}
	pv, okP := c19Version(c)
	got, err := ParsePackageVersion(c)
	r.Transitions++
	if (err == nil) != okP || okP && got != pv {
		return fmt.Errorf("version %q parses to %v, %v, want %v, %v", c, got, err, pv, okP)
	}
	var u PackageVersion
	if err := u.UnmarshalText([]byte(c)); (err == nil) != okP || okP && u != pv {
		return fmt.Errorf("version text %q parses to %v, %v, want %v, %v", c, u, err, pv, okP)
	}
	if okP && got.String() != vfB("%d.%d.%d", pv.Major, pv.Minor, pv.Patch) {
		return fmt.Errorf("version %q prints as %q", c, got)
	}
	r.Validated += 3
	return nil
}

func vfProperty() vfProp {
	return vfProp{Check: c19Check, Gen: func(r *vfRun) {
		al := []string{"@", "/", ":", ".", "a", "1", "-", "_", "é", " "}
		n := 5
		if r.Thorough {
			n = 7
		}
		vfWords(al, 0, n, "", r.Emit)
		r.Bound("texts", vfB("all words over %d characters up to length %d", len(al), n))
		ids := []string{"", "a", "preview", "_", "-a", "a-", "a_1", "1a", "é", "a b", "a@", "a.b", "A", "a\u0301", "none"}
		seps := []string{"/", "", "//", ":"}
		vseps := []string{":", "", "::", "/"}
		vers := []string{"", "1.2.3", "0.0.0", "1.2", "1.2.3.4", "01.2.3", "1.2.x", "4294967295.0.1", "4294967296.0.1", "1.4294967296.1", "1.1.4294967296", "-1.0.0", "+1.0.0", "1..3", "1.2.3 ", " 1.2.3", "1.2.-3", "18446744073709551617.0.0", "1_0.0.0", "0x1.0.0"}
		for _, p := range []string{"@", "", "@@", " @"} {
			for _, a := range ids {
				for _, s := range seps {
					for _, b := range ids {
						for _, vs := range vseps {
							for _, v := range vers {
								r.Emit(p + a + s + b + vs + v)
							}
						}
					}
				}
			}
		}
		r.Bound("specs", vfB("all combinations of 4 heads, %d namespaces and names, 4 separators, %d versions", len(ids), len(vers)))
		vfWords([]string{"0", "1", "9", "4294967295", ".", "a", "-", "+", " "}, 0, n, "", func(s string) { r.Emit(s); r.Emit("@a/b:" + s) })
		// every short word before, behind and inside a good version
		vfWords([]string{"0", "1", ".", "a", "-", "+", " ", ":", "/", "@", "_", "\t", "\n"}, 0, 3, "", func(s string) {
			for _, v := range []string{s + "1.2.3", "1.2.3" + s, "1." + s + "2.3", "1.2." + s} {
				r.Emit(v)
				r.Emit("@a/b:" + v)
			}
		})
		r.Bound("versions", vfB("all words over 9 tokens up to length %d as version, alone and in a spec", n))
	}}
}
