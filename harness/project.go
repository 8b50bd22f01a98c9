// Projects and packages for the command-line tools, described in a case.
package PKG

import (
	"path"
	"strconv"
	"strings"
)

type uWorld struct {
	files map[string]string // everything below the scratch directory
	mode  string            // "out", "in" or "root"
	main  string
}

type uVer [3]int

func uParse(s string) (v uVer, ok bool) {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return v, false
	}
	for i := range p {
		n, err := strconv.ParseUint(p[i], 10, 32)
		if err != nil || p[i] == "" {
			return v, false
		}
		v[i] = int(n)
	}
	return v, true
}

func (v uVer) less(w uVer) bool {
	for i := range v {
		if v[i] != w[i] {
			return v[i] < w[i]
		}
	}
	return false
}

func (v uVer) String() string { return vfB("%d.%d.%d", v[0], v[1], v[2]) }

// uSpec splits "@ns/name:version".
func uSpec(ref string) (ns, name string, v uVer, ok bool) {
	ns, rest, _ := strings.Cut(strings.TrimPrefix(ref, "@"), "/")
	name, ver, _ := strings.Cut(rest, ":")
	v, ok = uParse(ver)
	return ns, name, v, ok && strings.HasPrefix(ref, "@")
}

// uRefs finds the references of a file written with the statements above: the
// strings marked by \x01 and \x02 in the model's text.
func uRefs(text string) (refs []string) {
	for {
		_, rest, ok := strings.Cut(text, "\x01")
		if !ok {
			return refs
		}
		ref, rest, _ := strings.Cut(rest, "\x02")
		refs = append(refs, ref)
		text = rest
	}
}

// uPlain is the text a reference is written as in the file.
func uPlain(text string) string {
	return strings.NewReplacer("\x01", "\"", "\x02", "\"").Replace(text)
}

// uUnescape resolves the escapes the alphabet uses.
func uUnescape(s string) string {
	return strings.NewReplacer("\\u{61}", "a", "\\u{72}", "r", "\\\\", "\\").Replace(s)
}

// A case is "mode\x1emain\x1epath\x1ftext\x1epath\x1ftext...".
func uCase(mode, main string, files map[string]string) string {
	s := []string{mode, main}
	for _, p := range tKeys(files) {
		s = append(s, p+"\x1f"+files[p])
	}
	return strings.Join(s, "\x1e")
}

func uDecode(c string) *uWorld {
	p := strings.Split(c, "\x1e")
	w := &uWorld{files: map[string]string{}, mode: p[0], main: p[1]}
	for _, f := range p[2:] {
		a, b, _ := strings.Cut(f, "\x1f")
		w.files[a] = b
	}
	return w
}

func uToml(name, version, entry string) string {
	return vfB("[package]\nname = %q\nversion = %q\nentrypoint = %q\nauthors = []\n", name, version, entry)
}

func uQuote(embed, ref string) string { return strings.ReplaceAll(embed, "%s", "\x01"+ref+"\x02") }

const (
	uPre   = "cache/typst/packages/preview/"
	uLocal = "home/.local/share/typst/packages/local/"
	uUni   = "universe/packages/preview/"
)

// uPkg adds a package with one file.
func uPkg(files map[string]string, root, name, v, entry, text string) {
	files[root+name+"/"+v+"/typst.toml"] = uToml(name, v, entry)
	files[root+name+"/"+v+"/"+entry] = text
}

// uEntries emits a world for every entry file of a package, imported by the
// project, by another package, or both. Those behind a bar do not work.
func uEntries(r *vfRun, stmts []func(ref string) string, modes []string, f func(mode string, files map[string]string)) {
	entries := []string{"lib.typ", "src/lib.typ", "./lib.typ", "./src/lib.typ", "src//lib.typ", "src/../lib.typ", "src/./d/../lib.typ", "é b.typ", "typst.toml.typ", "|../0.3.0/lib.typ", "|none.typ", "|src", "|.", "|no manifest", "|no entry", "|no package", "|broken"}
	k := 0
	for _, e := range entries {
		for _, root := range []string{uPre, uLocal} {
			for i := range stmts {
				for via := 1; via < 4; via++ {
					k++
					ns := map[string]string{uPre: "preview", uLocal: "local"}[root]
					ref := vfB("@%s/e:0.1.0", ns)
					files := map[string]string{}
					d := root + "e/0.1.0/"
					name, bad := strings.CutPrefix(e, "|")
					files[d+"typst.toml"] = uToml("e", "0.1.0", name)
					switch {
					case name == "no manifest":
						delete(files, d+"typst.toml")
					case name == "no entry":
						files[d+"typst.toml"] = "[package]\nname = \"e\"\nversion = \"0.1.0\"\n"
					case name == "no package":
						files[d+"typst.toml"] = "[tool.x]\ny = 1\n"
					case name == "broken":
						files[d+"typst.toml"] = "[package\n"
					case !bad:
						files[d+path.Clean(name)] = "#let x = 1\n" + stmts[i](path.Join(path.Dir("/"+name), "u.typ"))
						files[d+path.Join(path.Dir(name), "u.typ")] = "u"
					}
					files[d+"src/d/z.typ"] = "z"
					uPkg(files, root, "w", "0.1.0", "lib.typ", "w\n")
					uPkg(files, uPre, "e", "0.0.3", "lib.typ", "w\n")
					t := ""
					if via&1 == 1 {
						t += stmts[i](ref)
					}
					if via&2 == 2 {
						t += stmts[(i+1)%len(stmts)](vfB("@%s/w:0.1.0", ns))
						files[root+"w/0.1.0/lib.typ"] += stmts[(i+2)%len(stmts)](ref)
					}
					files["work/proj/m.typ"] = t
					f(modes[k%len(modes)], files)
				}
			}
		}
	}
	r.Bound("entry files", vfB("%d kinds of manifests and entry files, %d statements, imported from the project and from a package", len(entries), len(stmts)))
}

// uCliques emits packages that all import each other in any order, among
// them packages of their own that need an update. Whichever the tool takes
// first, it meets packages in its queue, done, and new ones.
func uCliques(r *vfRun, imp func(i int, ref string) string, modes []string, f func(mode string, files map[string]string)) {
	k := 0
	for n := 1; n <= 4; n++ {
		for own := 0; own <= n; own++ { // the place of the own packages
			for turn := 0; turn < n; turn++ {
				for direct := 1; direct <= n; direct++ {
					for v := 0; v < 4; v++ {
						k++
						files := map[string]string{}
						uPkg(files, uPre, "x", "0.1.0", "lib.typ", "x\n")
						uPkg(files, uPre, "x", "0.2.0", "lib.typ", "y\n")
						m := ""
						for i := 0; i < n; i++ {
							t := ""
							for j := 0; j <= n; j++ {
								if j == own {
									t += imp(k+j, vfB("@preview/o%d:1.0.0", i))
								}
								if j < n {
									o := (i*(v&1) + turn + j) % n
									if o != i || v&2 == 2 {
										t += imp(k+i, vfB("@local/q%d:1.0.0", o))
									}
								}
							}
							uPkg(files, uLocal, vfB("q%d", i), "1.0.0", "lib.typ", t)
							uPkg(files, uPre, vfB("o%d", i), "1.0.0", "lib.typ", imp(i, "@preview/x:0.1.0"))
							if i < direct {
								m += imp(i, vfB("@local/q%d:1.0.0", i))
							}
						}
						files["work/proj/m.typ"] = m
						f(modes[k%len(modes)], files)
					}
				}
			}
		}
	}
	r.Bound("cliques", vfB("%d graphs of up to 4 packages that import each other and one more each", k))
}

// uShow describes a world, the project's files first.
func uShow(files map[string]string) string {
	a, b := "", ""
	for _, p := range tKeys(files) {
		l := vfB("  %s: %q\n", p, files[p])
		if strings.HasPrefix(p, "work/") {
			a += l
		} else {
			b += l
		}
	}
	return a + b
}

// uSizes enumerates projects that are long in one direction: chains of files
// and packages, many references, versions and directories, and large files.
func uSizes(r *vfRun, imp func(i int, ref string) string, inc func(i int, ref string) string, modes []string, f func(mode string, files map[string]string)) {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65}
	k := 0
	world := func() map[string]string {
		files := map[string]string{}
		uPkg(files, uPre, "p", "0.1.0", "lib.typ", "x\n")
		uPkg(files, uPre, "p", "0.3.0", "src/lib.typ", "y\n")
		return files
	}
	emit := func(files map[string]string) {
		k++
		f(modes[k%len(modes)], files)
	}
	old := "@preview/p:0.1.0"
	for _, n := range sizes {
		for v := 0; v < 4; v++ {
			// a chain of files, side by side or one directory deeper each
			files := world()
			at := func(i int) string { return vfB("f%d.typ", i) }
			if v%2 == 1 {
				at = func(i int) string { return strings.Repeat("d/", i) + "f.typ" }
			}
			files["work/proj/m.typ"] = imp(k, at(1))
			for i := 1; i <= n; i++ {
				t := "x\n"
				next := at(i + 1)
				if v%2 == 1 {
					next = "d/f.typ"
				}
				if i < n && v < 2 {
					t = inc(i, next)
				} else if i < n {
					t = imp(i, next)
				}
				if i == n || i == n/2 {
					t += imp(i, old)
				}
				files["work/proj/"+at(i)] = t
			}
			emit(files)
		}
		// a chain of packages
		for _, root := range []string{uPre, uLocal} {
			ns := map[string]string{uPre: "preview", uLocal: "local"}[root]
			files := world()
			files["work/proj/m.typ"] = imp(0, vfB("@%s/q1:1.0.0", ns)) + imp(1, old)
			for i := 1; i <= n; i++ {
				t := imp(i, old)
				if i < n {
					t = imp(i, vfB("@%s/q%d:1.0.0", ns, i+1))
				}
				uPkg(files, root, vfB("q%d", i), "1.0.0", "src/lib.typ", t)
			}
			emit(files)
		}
		// many references in one file
		for v := 0; v < 3; v++ {
			files := world()
			t := ""
			for i := 0; i < n; i++ {
				switch v {
				case 0:
					t += imp(i, old)
				case 1:
					uPkg(files, uPre, vfB("q%d", i), "0.1.0", "lib.typ", "x\n")
					uPkg(files, uPre, vfB("q%d", i), vfB("0.1.%d", i), "lib.typ", "x\n")
					t += imp(i, vfB("@preview/q%d:0.1.0", i))
				case 2:
					files[vfB("work/proj/g%d.typ", i)] = imp(i, old)
					t += inc(i, vfB("g%d.typ", i))
				}
			}
			files["work/proj/m.typ"] = t
			emit(files)
		}
		// many versions
		files := world()
		for i := 0; i <= n; i++ {
			uPkg(files, uPre, "v", vfB("0.%d.0", i), "lib.typ", "x\n")
			uPkg(files, uPre, "v", vfB("0.0.%d", i), "lib.typ", "x\n")
		}
		files["work/proj/m.typ"] = imp(n, "@preview/v:0.0.0") + imp(n+1, vfB("@preview/v:0.%d.0", n))
		emit(files)
	}
	for bit := 8; bit <= 16; bit++ {
		for n := 1<<bit - 1; n <= 1<<bit+1; n++ {
			for _, u := range []string{"x", "é\n", "/* */"} {
				if bit > 13 && strings.HasSuffix(u, "\n") {
					continue // the parser takes seconds for so many lines
				}
				files := world()
				pad := strings.Repeat(u, n/len(u)) + "\n"
				files["work/proj/m.typ"] = imp(n, old) + pad + imp(n+1, old) + inc(n, "a.typ") + pad
				files["work/proj/a.typ"] = pad + imp(n, old)
				uPkg(files, uPre, "p", "0.1.0", "lib.typ", pad+imp(n, "u.typ"))
				files[uPre+"p/0.1.0/u.typ"] = pad + "x"
				emit(files)
			}
		}
	}
	r.Bound("sizes", vfB("chains of up to %d files and packages, up to %d references and versions, files of up to 65537 bytes", sizes[len(sizes)-1], sizes[len(sizes)-1]))
}
