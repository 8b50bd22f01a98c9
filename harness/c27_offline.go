// C27: offline-typ makes a self-contained copy.
package PKG

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"
)

// References are written \x01KREF\x02 where K is the kind: 'i' an import, 'n'
// an include, 'r' a resource and 's' a style. \x03 is where an import is
// renamed.

// oRewrite makes a file's new text. ref gives the text that replaces a
// reference, and the name to insert at the next \x03.
func oRewrite(text string, ref func(kind byte, ref string) (string, string)) string {
	var b strings.Builder
	name := ""
	for {
		i := strings.IndexAny(text, "\x01\x03")
		if i < 0 {
			return b.String() + text
		}
		b.WriteString(text[:i])
		if text[i] == 3 {
			if name != "" {
				b.WriteString(" as " + name)
			}
			name, text = "", text[i+1:]
			continue
		}
		var s string
		s, text, _ = strings.Cut(text[i+1:], "\x02")
		var t string
		t, name = ref(s[0], s[1:])
		b.WriteString("\"" + t + "\"")
	}
}

func oPlain(text string) string {
	return oRewrite(text, func(_ byte, ref string) (string, string) { return ref, "" })
}

func (w *uWorld) plain() map[string]string {
	m := map[string]string{}
	for p, t := range w.files {
		m[p] = oPlain(t)
	}
	return m
}

func oPkgDir(ns, name string, v uVer) string {
	if ns == "local" {
		return uLocal + name + "/" + v.String()
	}
	return "cache/typst/packages/" + ns + "/" + name + "/" + v.String()
}

// entry is the entry file of a package.
func (w *uWorld) entry(dir string) (string, bool) {
	toml, ok := w.files[dir+"/typst.toml"]
	_, rest, ok2 := strings.Cut(toml, "entrypoint = \"")
	e, _, _ := strings.Cut(rest, "\"")
	return e, ok && ok2
}

// offline gives the files of the copy and whether something is missing.
func (w *uWorld) offline() (map[string]string, bool) {
	typ, res := map[string]string{}, map[string]string{}
	fail := false
	type lib struct{ dir, entry, lib string }
	var libs []lib
	done := map[string]bool{}
	var visit func(root, file, libDir string)
	visit = func(root, file, libDir string) {
		if done[root+"/"+file] || fail {
			return
		}
		done[root+"/"+file] = true
		text, ok := w.files[root+"/"+file]
		if !ok || strings.HasPrefix(file, "../") {
			fail = true
			return
		}
		var follow []string
		typ[strings.TrimPrefix(libDir+"/"+file, "/")] = oRewrite(text, func(kind byte, ref string) (string, string) {
			if ns, name, v, ok := uSpec(ref); ok && (kind == 'i' || kind == 'n') {
				dir := oPkgDir(ns, name, v)
				e, ok := w.entry(dir)
				if !ok {
					fail = true
					return "", ""
				}
				l := vfB("/libs/%s/%s", name, v)
				libs = append(libs, lib{dir, e, l})
				if kind == 'n' {
					name = "" // nothing is named by an include
				}
				return l + "/" + e, name
			}
			p := uUnescape(ref)
			if path.IsAbs(p) {
				p = strings.TrimPrefix(path.Clean(p), "/")
				ref = libDir + ref
			} else {
				p = path.Join(path.Dir(file), p)
			}
			out := strings.TrimPrefix(libDir+"/"+p, "/")
			t, there := w.files[root+"/"+p]
			there = there && !strings.HasPrefix(p, "../")
			switch {
			case kind == 'i', kind == 'n':
				follow = append(follow, p)
			case there:
				res[out] = oPlain(t)
			case kind == 'r':
				fail = true
			default:
				return strings.TrimPrefix(ref, libDir), ""
			}
			return ref, ""
		})
		for _, p := range follow {
			visit(root, p, libDir)
		}
	}
	visit("work/proj", w.main, "")
	for i := 0; i < len(libs); i++ {
		visit(libs[i].dir, path.Clean(libs[i].entry), libs[i].lib)
	}
	for p, t := range typ {
		res[p] = t
	}
	return res, fail
}

func c27Check(r *vfRun, c string) error {
	w := uDecode(c)
	want, fail := w.offline()
	dir := tScratch()
	defer tClear(dir)
	real := w.plain()
	tWrite(dir, real)
	mode, fonts, _ := strings.Cut(w.mode, " ")
	var args []string
	outDir := "work/out"
	if fonts != "" {
		args = append(args, "-font-path", fonts)
		for _, f := range strings.Split(fonts, ":") {
			n := 0
			f = path.Clean(f)
			for p, t := range real {
				rel, ok := strings.CutPrefix(p, "work/")
				if ok && (strings.HasPrefix(rel, f+"/") || rel == f) {
					n++
					if _, ok := want[rel]; !ok && !strings.HasSuffix(t, "\x00dir") {
						want[rel] = t
					}
				}
			}
			fail = fail || n == 0
		}
	}
	switch mode {
	case "out":
		args = append(args, "-root", "proj", "proj/"+w.main)
	case "sub": // the main file's directory is the root
		args = append(args, "proj/"+w.main)
	case "deep": // an output directory to be made inside of the project
		outDir = "work/proj/x/y"
		args = append(args, "-out", "proj/x/y", "-root", filepath.Join(dir, "work/proj"), filepath.Join(dir, "work/proj", w.main))
	case "bad": // a file outside of the root
		fail = true
		args = append(args, "-root", "proj/d", "proj/"+w.main)
	case "prefix": // a root whose name only begins like the project's
		fail = true
		args = append(args, "-root", "pro", "proj/"+w.main)
	case "verbose":
		args = append(args, "-v", "-root", "./proj/", "./proj/../proj//"+w.main)
	case "outer": // a root above the project
		outDir = "work/o/p"
		args = append(args, "-out", "./x/../o//p/", "-root", "../work/proj/", "proj/./"+w.main)
	case "none":
		fail = true
		args = append(args, "-root", "proj")
	case "two":
		fail = true
		args = append(args, "-root", "proj", "proj/"+w.main, "proj/"+w.main)
	case "outfile": // the output directory cannot be made
		fail = true
		args = append(args, "-root", "proj", "-out", "taken", "proj/"+w.main)
	case "again": // the copy is made over an older one
		args = append(args, "-root", "proj", "proj/"+w.main)
		for p := range want {
			real["work/out/"+p] = "older " + strings.Repeat("x", 100)
		}
		real["work/out/kept.txt"] = "k"
		tWrite(dir, real)
	default:
		panic(mode)
	}
	got := tRun("offline-typ", dir, args...)
	r.Transitions++
	show := func() string {
		return vfB("offline-typ %s\nexit status %d: %s\n", strings.Join(args, " "), got.code, vfTrim([]byte(got.err))) + uShow(real)
	}
	if strings.Contains(got.err, "panic:") || strings.Contains(got.err, "goroutine ") {
		return fmt.Errorf("offline-typ panics\n%s", show())
	}
	if (got.code != 0) != fail {
		return fmt.Errorf("offline-typ exits with status %d, expected failure: %v\n%s", got.code, fail, show())
	}
	after := tRead(dir)
	for p, t := range real {
		if strings.HasSuffix(t, "\x00dir") {
			continue
		}
		if q, ok := strings.CutPrefix(p, "work/out/"); ok && mode == "again" && !fail {
			if _, ok := want[q]; ok {
				continue // compared below
			}
		}
		if u, ok := after[p]; !ok || u != t && (mode != "again" || !strings.HasPrefix(t, "older")) {
			return fmt.Errorf("after offline-typ %s reads %q, it was %q\n%s", p, u, t, show())
		}
		delete(after, p)
	}
	if !fail {
		for p, t := range want {
			u, ok := after[outDir+"/"+p]
			if !ok {
				return fmt.Errorf("the copy lacks %s\n%s", p, show())
			}
			if u != t {
				return fmt.Errorf("%s of the copy reads %q, expected %q\n%s", p, u, t, show())
			}
		}
	}
	for p := range after {
		q, ok := strings.CutPrefix(p, outDir+"/")
		if _, known := want[q]; !ok || !fail && !known {
			return fmt.Errorf("offline-typ made %s\n%s", p, show())
		}
	}
	if fail {
		r.Outcome("fails")
	} else {
		r.Outcome(strings.Join(tKeys(want), " "))
	}
	r.Validated++
	return nil
}

// oImports lists the ways an import is written, oNamed those with a name.
var oImports = []string{
	"#import \x01i%s\x02\x03\n", "= H\n#import \x01i%s\x02\x03: x, y as z\n", "#{ import (\x01i%s\x02) as r }", "#let f() = { import \x01i%s\x02\x03: *; x }\n",
	"- a #[b #import/*c*/ \x01i%s\x02\x03 // d\n ]", "#import ( /*c*/ \x01i%s\x02 )\x03: (x)\n", "#if x [#import \x01i%s\x02\x03;] else {}\n",
	"#import \x01i%s\x02 /*c*/ as q: *\n", "#import \x01i%s\x02\x03: x.y as z, (w)\n",
}

var oIncludes = []string{"#include \x01n%s\x02\n", "#{ include \x01n%s\x02 }", "a #include(\x01n%s\x02)\n", "#f[#include \x01n%s\x02]"}

// oResources lists the ways a file is used.
var oResources = []string{
	"#image(\x01r%s\x02)\n", "#figure(image(width: 1cm, \x01r%s\x02), caption: [x])\n", "#let t = read(\x01r%s\x02, encoding: none)\n", "#{ plugin( /*c*/ \x01r%s\x02 ) }",
	"#bibliography(\x01r%s\x02, title: \"t\")\n", "#set bibliography(\x01r%s\x02)\n", "= #[#image(\x01r%s\x02)[x]]\n",
}

// oStyles lists the ways a style is used.
var oStyles = []string{
	"#bibliography(\x01rd/r.bib\x02, title: \"t\", style: \x01s%s\x02)\n", "#set bibliography(title: none, style: \x01s%s\x02, full: true)\n", "#set bibliography(style: \x01s%s\x02)\n",
}

// oNoise uses no file.
var oNoise = []string{
	"// #import \"@preview/p:0.1.0\"\n", "`#image(\"r.png\")`", "#\"r.png\"", "#f(\"r.png\")", "#import \"@preview/p:\" + v\n", "#image(v + \"r.png\")\n", "#image(source: \"r.png\")\n",
	"/* #include \"a.typ\" */", "#import \"@preview/p:0.1.0\".x\n", "#image\n", "#x.image(\"r.png\")\n", "image(\"r.png\")\n", "#import v: x\n", "#set image(alt: \"r.png\")\n", "#read((\"r.png\",))\n",
	"#show bibliography: set text(style: \"italic\")\n", "#import\n", "#include\n", "#image(\n)\n", "#let image = \"r.png\"\n", "#include v\n",
}

var oOpen = []string{"#(1", "#import \"", "#import \x01i@preview/p:0.1.0\x02\x03: (\n", "#[", "#image(\x01rr.png\x02", "#image(\"r.png"}

func oFill(embed, ref string) string { return strings.ReplaceAll(embed, "%s", ref) }

func vfProperty() vfProp {
	return vfProp{Check: c27Check, Gen: func(r *vfRun) {
		base := func() map[string]string {
			files := map[string]string{}
			uPkg(files, uPre, "p", "0.1.0", "lib.typ", "x\n")
			uPkg(files, uPre, "p", "0.3.0", "src/lib.typ", "y\n")
			uPkg(files, uLocal, "q-r", "1.0.0", "lib.typ", "z\n")
			files[uPre+"p/0.1.0/unused.typ"], files[uPre+"p/0.1.0/README.md"] = "u", "u"
			files["work/proj/a.typ"], files["work/proj/unused.typ"] = "a", "u"
			files["work/proj/r.png"], files["work/proj/d/r.bib"], files["work/proj/d/é.csl"] = "\x89PNG\r\n\x00", "@x{y}", "<style/>"
			return files
		}
		var stmts []string
		for _, e := range oImports {
			for _, ref := range []string{"@preview/p:0.1.0", "@preview/p:0.3.0", "@local/q-r:1.0.0", "/\\u{61}.typ"} {
				stmts = append(stmts, oFill(e, ref))
			}
		}
		for _, e := range oIncludes {
			stmts = append(stmts, oFill(e, "a.typ"), oFill(e, "/a.typ"), oFill(e, "./x/../\\u{61}.typ"), oFill(e, "@preview/p:0.1.0"), oFill(e, "@local/q-r:1.0.0"))
		}
		for _, e := range oResources {
			stmts = append(stmts, oFill(e, "r.png"), oFill(e, "/d/\\u{72}.bib"))
		}
		for _, e := range oStyles {
			stmts = append(stmts, oFill(e, "d/é.csl"), oFill(e, "/d/é.csl"), oFill(e, "ieee"))
		}
		stmts = append(stmts, oNoise...)
		modes := []string{"out", "sub", "deep"}
		for i, a := range stmts {
			for j, b := range append(append([]string{""}, stmts...), oOpen...) {
				for k, mode := range modes {
					if !r.Thorough && (i+j)%len(modes) == k {
						continue
					}
					files := base()
					files["work/proj/m.typ"] = a + b
					r.Emit(uCase(mode, "m.typ", files))
				}
			}
		}
		r.Bound("statements", vfB("all pairs of %d statements", len(stmts)))

		uSizes(r, func(i int, ref string) string { return oFill(oImports[i%len(oImports)], ref) },
			func(i int, ref string) string { return oFill(oIncludes[i%len(oIncludes)], ref) },
			modes, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		var fill []func(string) string
		for _, e := range oImports {
			fill = append(fill, func(ref string) string { return oFill(e, ref) })
		}
		for _, e := range oIncludes {
			fill = append(fill, func(ref string) string { return oFill(e, ref) })
		}
		uEntries(r, fill, modes, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		uCliques(r, func(i int, ref string) string { return fill[i%len(fill)](ref) }, modes, func(mode string, files map[string]string) { r.Emit(uCase(mode, "m.typ", files)) })

		// Graphs of files.
		refs := []string{"", "@preview/p:0.1.0", "@local/q-r:1.0.0", "a.typ", "/a.typ", "d/b.typ", "b.typ", "../a.typ", "/d/b.typ", "m.typ", "../m.typ", "none.typ", "../../x.typ"}
		for _, x := range []string{"r.png", "../r.png", "/d/r.bib", "a.typ", "/d/b.typ", "m.typ", "none.png", "d", "../../x.png"} {
			refs = append(refs, "="+x)
		}
		text := func(i, alt int) string {
			ref := refs[i]
			if ref == "" {
				return "x\n"
			}
			if x, ok := strings.CutPrefix(ref, "="); ok {
				return oFill(oResources[alt%len(oResources)], x)
			}
			if alt%2 == 1 {
				return oFill(oIncludes[alt%len(oIncludes)], ref)
			}
			return oFill(oImports[alt%len(oImports)], ref)
		}
		n := 0
		for m1 := range refs {
			for m2 := range refs {
				if !r.Thorough && m2 != 1 && m2 != 3 && m2 != 13 {
					continue
				}
				for a := range refs {
					for b := range refs {
						n++
						files := base()
						files["work/proj/m.typ"] = text(m1, n) + text(m2, n/2)
						files["work/proj/a.typ"] = text(a, n/3)
						files["work/proj/d/b.typ"] = "b" + text(b, n/5)
						files["work/x.typ"], files["work/x.png"] = "x", "x"
						r.Emit(uCase([]string{"out", "sub", "deep"}[n%3], "m.typ", files))
					}
				}
			}
		}
		r.Bound("files", vfB("%d graphs of three files with references out of %d (quick: the second of the main file out of 3)", n, len(refs)))

		// Graphs of packages.
		prefs := []string{"", "@preview/p:0.1.0", "@preview/p:0.3.0", "@local/q:1.0.0", "@preview/none:0.1.0", "@other/o:2.0.0", "u.typ", "/src/u.typ", "=u.png", "=/src/u.png", "=../../0.3.0/src/u.png", "/lib.typ"}
		ptext := func(i, alt int) string {
			ref := prefs[i]
			if ref == "" {
				return "x\n"
			}
			if x, ok := strings.CutPrefix(ref, "="); ok {
				return oFill(oResources[alt%len(oResources)], x)
			}
			if alt%2 == 0 {
				return oFill(oIncludes[alt%len(oIncludes)], ref)
			}
			return oFill(oImports[alt%len(oImports)], ref)
		}
		n = 0
		for m := 1; m < 6; m++ {
			for p1 := range prefs {
				for p3 := range prefs {
					for q := range prefs {
						n++
						files := map[string]string{}
						uPkg(files, uPre, "p", "0.1.0", "src/lib.typ", ptext(p1, n)+ptext(p3, n/2))
						uPkg(files, uPre, "p", "0.3.0", "src/lib.typ", ptext(p3, n))
						uPkg(files, uLocal, "q", "1.0.0", "src/lib.typ", ptext(q, n))
						uPkg(files, "cache/typst/packages/other/", "o", "2.0.0", "src/lib.typ", ptext(q, n/3))
						for _, d := range []string{uPre + "p/0.1.0", uPre + "p/0.3.0", uLocal + "q/1.0.0", "cache/typst/packages/other/o/2.0.0"} {
							files[d+"/src/u.typ"], files[d+"/src/u.png"] = "y"+ptext(p1, n/7), d
						}
						files["work/proj/m.typ"], files["work/proj/lib.typ"], files["work/proj/src/u.typ"], files["work/proj/src/u.png"] = ptext(m, n), "l", "s", "p"
						r.Emit(uCase("out", "m.typ", files))
					}
				}
			}
		}
		r.Bound("packages", vfB("%d graphs of 4 packages in three namespaces with references out of %d", n, len(prefs)))

		// Styles in packages, roots and font directories.
		for _, st := range oStyles {
			for _, ref := range []string{"s.csl", "/d/s.csl", "../d/s.csl", "ieee", "/ieee"} {
				for _, there := range []string{"d/s.csl", "ieee", "src/s.csl", "zzz"} {
					files := base()
					uPkg(files, uPre, "s", "0.1.0", "src/lib.typ", oFill(strings.ReplaceAll(st, "d/r.bib", "/d/r.bib"), ref))
					files[uPre+"s/0.1.0/d/r.bib"], files[uPre+"s/0.1.0/"+there] = "r", "<s/>"
					files["work/proj/m.typ"] = oFill(oImports[0], "@preview/s:0.1.0")
					r.Emit(uCase("out", "m.typ", files))
				}
			}
		}
		dirs := []string{"fonts", "./fonts/", "none", "x/y", "x", "proj/fonts", "empty"}
		for i, f := range append([]string{""}, dirs...) {
			for j, g := range append([]string{""}, dirs...) {
				for _, mode := range []string{"out", "sub", "deep", "bad"} {
					files := base()
					files["work/fonts/a.otf"], files["work/fonts/b/c.ttf"], files["work/x/y/z.otf"], files["work/proj/fonts/f.otf"], files["work/fontsy/n.otf"], files["work/empty"] = "A", "C", "Z", "F", "N", "\x00dir"
					files["work/proj/m.typ"] = stmts[(i+j*5)%len(stmts)]
					if f != "" || g == "" {
						r.Emit(uCase(strings.TrimRight(mode+" "+strings.TrimSuffix(f+":"+g, ":"), " "), "m.typ", files))
					}
				}
			}
		}
		for _, mode := range []string{"verbose", "outer", "prefix", "none", "two", "outfile", "again"} {
			for _, a := range stmts {
				files := base()
				files["work/pro/m.typ"], files["work/taken"] = "x", "t"
				files["work/proj/m.typ"] = a
				r.Emit(uCase(mode, "m.typ", files))
			}
		}
		r.Bound("invocations", vfB("7 more ways to call the tool, four of them errors, with all %d statements", len(stmts)))
		r.Bound("options", "4 ways to give root and output, all pairs of 7 font directories")
	}}
}
