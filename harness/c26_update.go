// C26: update-typ changes exactly the outdated package imports.
package PKG

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// uStmt is a statement of a project file. Its text contains the import
// string as %s; ref is what it refers to.
type uStmt struct {
	text string // %s stands for the quoted reference
	ref  string // "" for a statement without effect
}

// uEmbed lists the ways an import is written.
var uEmbed = []string{
	"#import %s\n", "= H\n#import %s: x, y as z\n", "#{ import (%s) as r }", "#let f() = { import %s: *; x }\n", "- a #[b #import/*c*/ %s // d\n ]",
	"#import ( /*c*/ %s ): (x)\n", "#if x [#import %s;] else {}\n",
}

var uInclude = []string{"#include %s\n", "#{ include %s }", "a #include(%s)\n", "#f[#include %s]"}

// uNoise contains package names that nothing imports.
var uNoise = []string{
	"// #import \"@preview/p:0.1.0\"\n", "`#import \"@preview/p:0.1.0\"`", "#\"@preview/p:0.1.0\"", "#f(\"@preview/p:0.1.0\")", "#import \"@preview/p:\" + v\n",
	"/* #import \"@preview/p:0.1.0\" */", "@preview/p:0.1.0 ", "#import \"@preview/p:0.1.0\".x\n", "#let v = \"a.typ\"\n", "#import v: x\n",
}

// uBroken are errors that do not stop the tool. Those in uOpen take in what
// follows them.
var (
	uBroken = []string{"#import\n", "#import ;", "#include\n", "#import: x\n", "#let\n", "#import (\"\" + 1)\n"}
	uOpen   = []string{"#(1", "#import \"", "#import \x01@preview/p:0.1.0\x02: (\n", "#[", "#{ let x = "}
)

// uRoots are the directories of packages.
var uRoots = map[string][]string{"preview": {"cache/typst/packages/preview", "universe/packages/preview"}, "local": {"home/.local/share/typst/packages/local"}}

// installed lists the versions of a package.
func (w *uWorld) installed(ns, name string) (vs []uVer) {
	seen := map[uVer]bool{}
	for _, root := range uRoots[ns] {
		if strings.HasPrefix(root, "universe") && w.mode != "universe" {
			continue
		}
		pre := root + "/" + name + "/"
		for p, text := range w.files {
			rest, ok := strings.CutPrefix(p, pre)
			dir, _, sub := strings.Cut(rest, "/")
			if v, good := uParse(dir); ok && good && (sub || strings.HasSuffix(text, "\x00dir") || strings.HasSuffix(text, "\x00link")) && !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
	}
	return vs
}

// pkgDir is the directory of a package version, "" if it is not installed.
func (w *uWorld) pkgDir(ns, name string, v uVer) string {
	for _, root := range append([]string{"universe/packages/preview"}, uRoots[ns]...) {
		if strings.HasPrefix(root, "universe") && (w.mode != "universe" || ns != "preview") {
			continue
		}
		d := root + "/" + name + "/" + v.String()
		for p := range w.files {
			if strings.HasPrefix(p, d+"/") {
				return d
			}
			if p == d {
				if t, ok := strings.CutSuffix(w.files[p], "\x00link"); ok {
					return t
				}
				return d
			}
		}
	}
	return ""
}

// uGoal is what the tool has to do.
type uGoal struct {
	out   map[string]string // project files by path below the root
	fail  bool
	vague bool // whether it fails is not laid down
	warn  []string
}

func (w *uWorld) goal() uGoal {
	g := uGoal{out: map[string]string{}}
	type lib struct{ ref, dir string }
	var libs []lib
	done := map[string]bool{}
	use := func(ref string) {
		if !done[ref] {
			done[ref] = true
			ns, name, v, _ := uSpec(ref)
			libs = append(libs, lib{ref, w.pkgDir(ns, name, v)})
		}
	}
	newest := func(ref string) string {
		ns, name, v, _ := uSpec(ref)
		best := v
		for _, o := range w.installed(ns, name) {
			if best.less(o) {
				best = o
			}
		}
		return "@" + ns + "/" + name + ":" + best.String()
	}
	var visit func(root, file, libName string)
	visit = func(root, file, libName string) {
		full := root + "/" + file
		if done[full] {
			return
		}
		done[full] = true
		text, ok := w.files[full]
		if !ok || strings.HasPrefix(path.Clean(file), "..") {
			g.fail = true
			return
		}
		for _, ref := range uRefs(text) {
			if _, _, _, ok := uSpec(ref); ok {
				n := newest(ref)
				if libName == "" {
					text = strings.ReplaceAll(text, "\x01"+ref+"\x02", "\x01"+n+"\x02")
					use(n)
					continue
				}
				if n != ref {
					g.warn = append(g.warn, vfB("in library %q, update needed for %q: new version %q old version %q", libName, file, n, ref))
				}
				use(ref)
				continue
			}
			p := uUnescape(ref)
			if path.IsAbs(p) {
				visit(root, strings.TrimPrefix(path.Clean(p), "/"), libName)
			} else {
				visit(root, path.Join(path.Dir(file), p), libName)
			}
		}
		if libName == "" {
			g.out[file] = uPlain(text)
		}
	}
	visit("work/proj", w.main, "")
	if g.fail {
		return g // nothing is said about the files
	}
	for i := 0; i < len(libs); i++ {
		l := libs[i]
		entry, ok := "", l.dir != ""
		if ok {
			var toml string
			toml, ok = w.files[l.dir+"/typst.toml"]
			var named bool
			var rest string
			_, rest, named = strings.Cut(toml, "entrypoint = \"")
			entry, _, _ = strings.Cut(rest, "\"")
			ok, entry = ok && named, path.Clean(entry)
		}
		if !ok {
			g.fail = true
			return g
		}
		visit(l.dir, entry, l.ref)
	}
	return g
}

func (w *uWorld) run(r *vfRun) error {
	g := w.goal()
	dir := tScratch()
	defer tClear(dir)
	real := map[string]string{}
	for p, t := range w.files {
		real[p] = uPlain(t)
	}
	tWrite(dir, real)
	tLinks(dir, real)
	args := []string{}
	outDir := "work/out"
	switch w.mode {
	case "in":
		args = append(args, "-i")
		outDir = "work/proj"
	case "universe":
		args = append(args, "-universe", filepath.Join(dir, "universe"))
	}
	args = append(args, "-root", "proj", "proj/"+w.main)
	switch w.mode {
	case "noroot": // the main file's directory
		args = []string{"-out", "out", "proj/" + w.main}
	case "prefix": // a root whose name only begins like the project's
		args, g = []string{"-root", "pro", "proj/" + w.main}, uGoal{fail: true}
	case "sub": // a root below the file
		args, g = []string{"-i", "-root", "proj/d", "proj/" + w.main}, uGoal{fail: true}
	case "verbose":
		args = []string{"-v", "-root", "./proj/", "./proj/../proj//" + w.main}
	case "outer":
		outDir = "work/o/p"
		args = []string{"-out", "./x/../o//p/", "-root", filepath.Join(dir, "work/proj") + "/", filepath.Join(dir, "work/proj", w.main)}
	case "both": // in place wins
		outDir = "work/proj"
		args = []string{"-out", "o", "-i", "-root", "proj", "proj/" + w.main}
	case "none":
		args, g = []string{"-i", "-root", "proj"}, uGoal{fail: true}
	case "two":
		args, g = []string{"-i", "-root", "proj", "proj/" + w.main, "proj/a.typ"}, uGoal{fail: true}
	case "outfile": // the output directory cannot be made
		args, g = []string{"-root", "proj", "-out", "taken", "proj/" + w.main}, uGoal{fail: true}
	case "again": // written over an older output
		args = []string{"-root", "proj", "proj/" + w.main}
		for p := range g.out {
			real["work/out/"+p] = "older " + strings.Repeat("x", 100)
		}
		real["work/out/kept.txt"] = "k"
		tWrite(dir, real)
	}
	res := tRun("update-typ", dir, args...)
	r.Transitions++
	show := func() string {
		return vfB("update-typ %s\nexit status %d: %s\n", strings.Join(args, " "), res.code, vfTrim([]byte(res.err))) + uShow(real)
	}
	if strings.Contains(res.err, "panic:") || strings.Contains(res.err, "goroutine ") {
		return fmt.Errorf("update-typ panics\n%s", show())
	}
	if (res.code != 0) != g.fail {
		return fmt.Errorf("update-typ exits with status %d, expected failure: %v\n%s", res.code, g.fail, show())
	}
	after := tRead(dir)
	want := map[string]string{}
	for p, t := range real {
		if strings.HasSuffix(t, "\x00dir") || strings.HasSuffix(t, "\x00link") {
			continue
		}
		want[p] = t
	}
	for p, t := range g.out {
		want[outDir+"/"+p] = t
	}
	for p, t := range want {
		got, ok := after[p]
		if g.fail && strings.HasPrefix(p, outDir+"/") && len(g.out) > 0 && (!ok || got == real[p]) {
			continue // it may stop before
		}
		if !ok {
			return fmt.Errorf("update-typ leaves out %s\n%s", p, show())
		}
		if got != t {
			return fmt.Errorf("after update-typ %s reads %q, expected %q\n%s", p, got, t, show())
		}
	}
	for p := range after {
		if _, ok := want[p]; !ok {
			return fmt.Errorf("update-typ made %s\n%s", p, show())
		}
	}
	if !g.fail {
		// Warnings about packages.
		var got []string
		flat := strings.Join(strings.Fields(tPlain(res.err)), " ")
		for {
			_, rest, ok := strings.Cut(flat, "in library ")
			if !ok {
				break
			}
			q := strings.SplitN(rest, "\"", 9)
			if len(q) < 9 {
				return fmt.Errorf("unreadable warning %q\n%s", rest, show())
			}
			got = append(got, "in library "+strings.Join(q[:8], "\"")+"\"")
			flat = q[8]
		}
		sort.Strings(got)
		sort.Strings(g.warn)
		if strings.Join(got, "\n") != strings.Join(g.warn, "\n") {
			return fmt.Errorf("update-typ warns about\n%s\nexpected\n%s\n%s", strings.Join(got, "\n"), strings.Join(g.warn, "\n"), show())
		}
	}
	if !g.fail {
		changed := false
		for p, t := range g.out {
			changed = changed || t != real["work/proj/"+p]
		}
		plain := tPlain(res.err)
		if strings.Contains(plain, "updated project Typst files") != changed {
			return fmt.Errorf("update-typ reports updated files, expected %v\n%s", changed, show())
		}
		if strings.Contains(plain, "update needed for transitive dependencies") != (len(g.warn) > 0) {
			return fmt.Errorf("update-typ reports transitive dependencies, expected %v\n%s", len(g.warn) > 0, show())
		}
	}
	r.Outcome(strings.Join(tKeys(after), " ") + strings.Join(g.warn, " ") + vfB("%v", g.fail))
	r.Validated++
	return nil
}

func c26Check(r *vfRun, c string) error { return uDecode(c).run(r) }

func vfProperty() vfProp {
	return vfProp{Check: c26Check, Gen: func(r *vfRun) {
		// Which version is the newest: every set of installed versions and
		// every imported version.
		vs := []string{"0.1.0", "0.1.1", "0.2.0", "0.10.0", "1.0.0", "2.0.0"}
		if r.Thorough {
			vs = append(vs, "0.1.10", "10.0.0")
		}
		for set := 0; set < 1<<len(vs); set++ {
			for _, v := range vs {
				for i, root := range []string{uPre, uLocal, uUni, uPre + "+" + uUni} {
					files := map[string]string{}
					roots := strings.Split(root, "+")
					for k, o := range vs {
						if set>>k&1 == 1 {
							uPkg(files, roots[k%len(roots)], "p", o, "lib.typ", "#let x = 1\n")
						}
					}
					ns := "preview"
					if root == uLocal {
						ns = "local"
					}
					mode := "out"
					if i >= 2 {
						mode = "universe"
					}
					files["work/proj/m.typ"] = uQuote(uEmbed[0], "@"+ns+"/p:"+v)
					r.Emit(uCase(mode, "m.typ", files))
				}
			}
		}
		r.Bound("versions", vfB("all sets of %d installed versions, all imported versions, in 4 places", len(vs)))
		// Things besides versions in a package's directory, and links.
		junk := []string{"0.0.1x\x00dir", ".git\x00dir", "0.5\x00dir", "README\x00", "v0.9.0\x00dir", "0.9.0\x00", "0.3.0\x00link", "0.4.0\x00link", "00.1.0.0\x00dir", "tmp\x00link"}
		for a := range junk {
			for b := a; b < len(junk); b++ {
				for _, v := range []string{"0.1.0", "0.2.0"} {
					files := map[string]string{}
					uPkg(files, uLocal, "p", "0.1.0", "lib.typ", "x")
					uPkg(files, uLocal, "p", "0.2.0", "lib.typ", "x")
					files["home/src/p/dev/lib.typ"], files["home/src/p/dev/typst.toml"] = "x", uToml("p", "0.3.0", "lib.typ")
					for _, j := range []string{junk[a], junk[b]} {
						n, t, _ := strings.Cut(j, "\x00")
						switch t {
						case "dir":
							files[uLocal+"p/"+n] = "\x00dir"
						case "link":
							files[uLocal+"p/"+n] = "home/src/p/dev\x00link"
						default:
							files[uLocal+"p/"+n] = "text"
						}
					}
					files["work/proj/m.typ"] = uQuote(uEmbed[0], "@local/p:"+v)
					r.Emit(uCase("out", "m.typ", files))
				}
			}
		}
		r.Bound("other entries", vfB("all pairs of %d other entries in a package's directory, links to versions among them", len(junk)))

		// Syntax: every way to write an import among all other statements.
		base := func() map[string]string {
			files := map[string]string{}
			uPkg(files, uPre, "p", "0.1.0", "lib.typ", "x")
			uPkg(files, uPre, "p", "0.3.0", "src/lib.typ", "x")
			uPkg(files, uLocal, "q", "1.0.0", "lib.typ", "x")
			files["work/proj/a.typ"] = "a"
			files["work/proj/unused.typ"] = uQuote(uEmbed[0], "@preview/p:0.1.0")
			return files
		}
		var stmts []string
		for _, e := range uEmbed {
			for _, ref := range []string{"@preview/p:0.1.0", "@preview/p:0.3.0", "@local/q:1.0.0", "a.typ"} {
				stmts = append(stmts, uQuote(e, ref))
			}
		}
		for _, e := range uInclude {
			stmts = append(stmts, uQuote(e, "a.typ"), uQuote(e, "/a.typ"), uQuote(e, "./x/../\\u{61}.typ"), uQuote(e, "@preview/p:0.1.0"), uQuote(e, "@local/q:1.0.0"))
		}
		stmts = append(stmts, uNoise...)
		stmts = append(stmts, uBroken...)
		for _, a := range stmts {
			for _, b := range append(append([]string{""}, stmts...), uOpen...) {
				for _, mode := range []string{"out", "in", "noroot"} {
					files := base()
					files["work/proj/m.typ"] = a + b
					r.Emit(uCase(mode, "m.typ", files))
				}
			}
		}
		r.Bound("statements", vfB("all pairs of %d statements", len(stmts)))

		uSizes(r, func(i int, ref string) string { return uQuote(uEmbed[i%len(uEmbed)], ref) },
			func(i int, ref string) string { return uQuote(uInclude[i%len(uInclude)], ref) },
			[]string{"out", "in", "noroot"}, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		for _, mode := range []string{"prefix", "sub", "verbose", "outer", "both", "none", "two", "outfile", "again"} {
			for _, a := range stmts {
				files := base()
				files["work/pro/m.typ"], files["work/taken"], files["work/proj/d/x"] = "x", "t", "y"
				files["work/proj/m.typ"] = a
				r.Emit(uCase(mode, "m.typ", files))
			}
		}
		r.Bound("invocations", vfB("9 more ways to call the tool, five of them errors, with all %d statements", len(stmts)))

		var fill []func(string) string
		for _, e := range append(append([]string{}, uEmbed...), uInclude...) {
			fill = append(fill, func(ref string) string { return uQuote(e, ref) })
		}
		uEntries(r, fill, []string{"out", "in", "noroot"}, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		uCliques(r, func(i int, ref string) string { return fill[i%len(fill)](ref) }, []string{"out", "in", "noroot"}, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		// Graphs of files: main, a, d/b refer to any two of everything.
		refs := []string{"", "@preview/p:0.1.0", "@local/q:1.0.0", "a.typ", "/a.typ", "d/b.typ", "b.typ", "../a.typ", "/d/b.typ", "m.typ", "../m.typ", "none.typ", "../../x.typ"}
		n := 0
		text := func(i int) string {
			if refs[i] == "" {
				return "x\n"
			}
			if (i+n)%2 == 1 {
				return uQuote(uInclude[i%len(uInclude)], refs[i])
			}
			return uQuote(uEmbed[i%len(uEmbed)], refs[i])
		}
		for m1 := range refs {
			for m2 := range refs {
				if !r.Thorough && m2 > 5 {
					break
				}
				for a := range refs {
					for b := range refs {
						n++
						files := base()
						files["work/proj/m.typ"] = text(m1) + text(m2)
						files["work/proj/a.typ"] = text(a)
						files["work/proj/d/b.typ"] = "b" + text(b)
						r.Emit(uCase([]string{"out", "in"}[n%2], "m.typ", files))
					}
				}
			}
		}
		r.Bound("files", vfB("%d graphs of three files with references out of %d (quick: the second of the main file out of 6)", n, len(refs)))

		// Graphs of packages: which package imports which.
		prefs := []string{"", "@preview/p:0.1.0", "@preview/p:0.3.0", "@local/q:1.0.0", "@local/q:1.1.0", "@preview/r:0.1.0", "@preview/none:0.1.0", "u.typ", "/src/u.typ"}
		for m := 1; m < 7; m++ {
			for p1 := range prefs {
				for p3 := range prefs {
					for q := range prefs {
						files := map[string]string{}
						t := func(i int) string {
							if prefs[i] == "" {
								return "x\n"
							}
							if (i+p1+p3)%3 == 1 {
								return uQuote(uInclude[i%len(uInclude)], prefs[i])
							}
							return uQuote(uEmbed[i%len(uEmbed)], prefs[i])
						}
						uPkg(files, uPre, "p", "0.1.0", "src/lib.typ", t(p1))
						uPkg(files, uPre, "p", "0.3.0", "src/lib.typ", t(p3))
						uPkg(files, uLocal, "q", "1.0.0", "src/lib.typ", t(q))
						uPkg(files, uLocal, "q", "1.1.0", "src/lib.typ", t(p3))
						uPkg(files, uPre, "r", "0.1.0", "src/lib.typ", t(q))
						for _, d := range []string{uPre + "p/0.1.0", uPre + "p/0.3.0", uLocal + "q/1.0.0", uLocal + "q/1.1.0", uPre + "r/0.1.0"} {
							files[d+"/src/u.typ"] = "y" + t(p1)
						}
						files["work/proj/m.typ"] = t(m)
						r.Emit(uCase("out", "m.typ", files))
					}
				}
			}
		}
		r.Bound("packages", vfB("%d graphs of 5 packages", 6*len(prefs)*len(prefs)*len(prefs)))
	}}
}
