// instr rewrites packages for controlled scheduling: it inserts yield points,
// replaces mutexes by modelled ones and reports accesses to shared variables.
//
//	instr OUTDIR MODULE REPO PKG[:stmt,file.go|:file.go]...
//
// The list of files rewritten is printed as JSON: original path -> new path.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

type instr struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	stmts   bool // yield before every statement
	vars    bool // yield only where shared variables are touched
	tracked map[string]bool
	changed bool
}

func main() {
	out, module, repo := os.Args[1], os.Args[2], os.Args[3]
	res := map[string]string{}
	for _, spec := range os.Args[4:] {
		dir, opts, _ := strings.Cut(spec, ":")
		stmtFiles := map[string]bool{}
		for _, o := range strings.Split(opts, ",") {
			stmtFiles[o] = true
		}
		fset := token.NewFileSet()
		ents, err := os.ReadDir(filepath.Join(repo, dir))
		if err != nil {
			fail(err)
		}
		var files []*ast.File
		var names []string
		var heads []string
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(repo, dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				fail(err)
			}
			head := ""
			for _, l := range strings.Split(string(src), "\n") {
				if strings.HasPrefix(l, "//go:build") {
					head = l + "\n\n"
				}
				if strings.HasPrefix(l, "package ") {
					break
				}
			}
			if strings.Contains(head, "verif") {
				continue
			}
			f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
			if err != nil {
				fail(err)
			}
			files, names, heads = append(files, f), append(names, n), append(heads, head)
		}
		info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: fakeImporter{}, Error: func(error) {}}
		pkg, _ := conf.Check(module+"/"+dir, fset, files, info)
		mutexes, racy = map[string]map[string]bool{}, true
		for _, f := range files {
			findMutexes(f)
		}
		var resets []string
		for i, f := range files {
			in := &instr{fset: fset, info: info, pkg: pkg, stmts: stmtFiles[names[i]], vars: stmtFiles["vars"]}
			resets = append(resets, resetStmts(fset, f, stmtFiles[names[i]])...)
			in.file(f, module)
			var sb strings.Builder
			sb.WriteString(heads[i])
			if err := printer.Fprint(&sb, fset, f); err != nil {
				fail(err)
			}
			q := filepath.Join(out, strings.ReplaceAll(dir, "/", "_")+"_"+names[i])
			if err := os.WriteFile(q, []byte(sb.String()), 0o644); err != nil {
				fail(err)
			}
			res[filepath.Join(repo, dir, names[i])] = q
		}
		if opts != "" && opts != "vars" {
			q := filepath.Join(out, strings.ReplaceAll(dir, "/", "_")+"_zz_vf_reset.go")
			sort.Strings(resets)
			src := "package " + files[0].Name.Name + "\n\n// vfReset gives the package-level variables their first values again.\nfunc vfReset() {\n" + strings.Join(resets, "") + "}\n"
			if err := os.WriteFile(q, []byte(src), 0o644); err != nil {
				fail(err)
			}
			res[filepath.Join(repo, dir, "zz_vf_reset.go")] = q
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

// resetStmts resets all variables, or those that hold a mutex.
func resetStmts(fset *token.FileSet, f *ast.File, all bool) (r []string) {
	want := func(s string) bool {
		for n := range mutexes {
			if strings.Contains(s, n) {
				return true
			}
		}
		return all
	}
	str := func(n ast.Node) string {
		var sb strings.Builder
		printer.Fprint(&sb, fset, n)
		return sb.String()
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			for i, n := range v.Names {
				switch {
				case n.Name == "_":
				case len(v.Values) == len(v.Names):
					val := str(v.Values[i])
					if !want(val) || strings.Contains(val, "errors.") || strings.Contains(val, "fmt.") || strings.Contains(val, "sync") {
						continue
					}
					r = append(r, "\t"+n.Name+" = "+val+"\n")
				case len(v.Values) == 0 && v.Type != nil:
					t := str(v.Type)
					if !want(t) || strings.Contains(t, ".") {
						continue // a mutex, at rest between runs
					}
					r = append(r, "\t"+n.Name+" = *new("+t+")\n")
				}
			}
		}
	}
	return r
}

func (in *instr) file(f *ast.File, module string) {
	usesSync := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && im.Name == nil {
			usesSync = true
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.block(fd.Body)
			if !in.vars && len(fd.Body.List) > 1 && fd.Name.Name != "init" && fd.Name.Name != "String" {
				fd.Body.List = append([]ast.Stmt{call("Y")}, fd.Body.List...)
			}
		}
	}
	if usesSync {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "sync" {
					switch s.Sel.Name {
					case "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues":
						x.Name = "vfsched_"
					}
				}
			}
			return true
		})
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: ast.NewIdent("sync"), Sel: ast.NewIdent("Locker")}}}})
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vfsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + module + `/internal/vfsched"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("vfsched_"), Sel: ast.NewIdent("Y")}}}}})
}

func call(name string, args ...ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vfsched_"), Sel: ast.NewIdent(name)}, Args: args}}
}

type access struct {
	key   string
	write bool
}

// mutexes lists the fields of struct types that hold mutexes.
var mutexes = map[string]map[string]bool{}

// racy is cleared when the package synchronises by other means than mutexes.
var racy = true

func findMutexes(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ChanType, *ast.GoStmt, *ast.SelectStmt:
			racy = false
		case *ast.ImportSpec:
			if x.Path.Value == `"sync/atomic"` {
				racy = false
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "sync" {
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues", "Locker":
				default:
					racy = false
				}
			}
		case *ast.TypeSpec:
			st, ok := x.Type.(*ast.StructType)
			if !ok {
				return true
			}
			for _, fl := range st.Fields.List {
				t := fl.Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				s, ok := t.(*ast.SelectorExpr)
				if !ok {
					continue
				}
				if id, ok := s.X.(*ast.Ident); !ok || id.Name != "sync" {
					continue
				}
				m := mutexes[x.Name.Name]
				if m == nil {
					m = map[string]bool{}
					mutexes[x.Name.Name] = m
				}
				m[s.Sel.Name] = true
				for _, n := range fl.Names {
					m[n.Name] = true
				}
			}
		}
		return true
	})
}

// guarded names the struct type and tells whether it holds a mutex.
func guarded(t types.Type) (string, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return "", false
	}
	return n.Obj().Name(), mutexes[n.Obj().Name()] != nil
}

// key names the shared variable an expression denotes, if any.
func (in *instr) key(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		if v, ok := in.info.Uses[x].(*types.Var); ok && v.Parent() == in.pkg.Scope() {
			return v.Name()
		}
	case *ast.SelectorExpr:
		if s := in.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			if n, ok := guarded(s.Recv()); ok && !mutexes[n][x.Sel.Name] {
				return n + "." + x.Sel.Name
			} else if v := in.key(x.X); v != "" && !ok {
				return v + "." + x.Sel.Name
			}
		}
	}
	return ""
}

// root is the variable an assignment to e changes.
func root(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return e
		}
	}
}

// accesses lists the shared variables a statement touches outside nested
// blocks.
func (in *instr) accesses(s ast.Stmt) []access {
	acc := map[string]bool{}
	write := func(e ast.Expr) {
		if k := in.key(root(e)); k != "" {
			acc[k] = true
		}
		// A field of a package-level struct value.
		if s, ok := root(e).(*ast.SelectorExpr); ok {
			if k := in.key(root(s.X)); k != "" {
				if t, ok := in.info.Types[root(s.X)]; ok {
					if _, isPtr := t.Type.Underlying().(*types.Pointer); !isPtr {
						acc[k] = true
					}
				}
			}
		}
	}
	first := true
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			if _, ok := n.(*ast.BlockStmt); ok && first {
				return false
			}
			return false
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					write(l)
				}
			}
		case *ast.IncDecStmt:
			write(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if _, ok := x.X.(*ast.CompositeLit); !ok {
					if k := in.key(root(x.X)); k != "" {
						acc[k] = acc[k] || false
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
				write(x.Args[0])
			}
		}
		if e, ok := n.(ast.Expr); ok {
			if k := in.key(e); k != "" {
				acc[k] = acc[k]
			}
		}
		return true
	}
	ast.Inspect(s, walk)
	var r []access
	for k, w := range acc {
		r = append(r, access{k, w})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

func (in *instr) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		as := in.accesses(s)
		_, decl := s.(*ast.DeclStmt)
		if in.stmts && !decl || len(as) > 0 {
			r = append(r, call("Y"))
		}
		for _, a := range as {
			if !racy {
				break
			}
			r = append(r, call("A", &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", a.key)}, ast.NewIdent(fmt.Sprint(a.write))))
		}
		in.nested(s)
		r = append(r, s)
	}
	return r
}

func (in *instr) block(b *ast.BlockStmt) { b.List = in.list(b.List) }

// nested instruments the blocks inside a statement.
func (in *instr) nested(s ast.Node) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, c := range x.List {
				switch c.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			in.block(x)
			return false
		case *ast.CaseClause:
			x.Body = in.list(x.Body)
			return false
		case *ast.CommClause:
			x.Body = in.list(x.Body)
			return false
		}
		return true
	})
}
