"""The planted bugs (see seedlib.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


SX = "typst/syntax/"

seed("c01-trim-errors", "C01",
     [(SX + "parser.go", "for start > 0 && p.nodes[start-1].kind().IsError() && p.nodes[start-1].is_empty() {",
       "for start > 0 && p.nodes[start-1].kind().IsError() && !p.nodes[start-1].is_leaf() {")],
     "two tokens in a row that cannot be parsed, the first of them reported as unexpected",
     "the text of an earlier error is dropped when a second unexpected token follows: the tree no longer reproduces the source",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"#{ , , }", "#(;;)", "a ] ] b"} {
		if got := Parse(s).into_text(); got != s { t.Errorf("%q became %q", s, got) }
	}
}
''')

seed("c02-memo-destructuring", "C02",
     [(SX + "parser.go", """		destructuring_or_parenthesized(p, true, make(map[string]bool))
		if !p.expect(SyntaxKindEq) {
			return
		}
		code_expr(p)
		p.wrap(m, SyntaxKindDestructAssignment)
	} else {""", """		destructuring_or_parenthesized(p, true, make(map[string]bool))
		if !p.expect(SyntaxKindEq) {
			return
		}
		code_expr(p)
		p.wrap(m, SyntaxKindDestructAssignment)
		if checkpoint.node_len > 0 {
			return // Nothing else can start a destructuring here.
		}
	} else {""")],
     "destructuring assignments nested in the default values of each other's parameters, twenty or more deep",
     "results of destructuring assignments are no longer remembered: parsing takes exponential time",
     r'''
package syntax
import ("testing"; "strings"; "time")
func TestDemo(t *testing.T) {
	n := 26
	s := "#{" + strings.Repeat("(x: (y, ", n) + "z" + strings.Repeat(") = 1) => 2", n) + "}"
	s = "#{" + strings.Repeat("(a, f((", n) + "z, b" + strings.Repeat(") = 1)) = 2", n) + "}"
	done := make(chan bool, 1)
	go func() { Parse(s); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still parsing after 20 s")
	}
}
''')

seed("c06-line-end", "C06",
     [(SX + "lines.go", "\thead := l.Text[start:byteIdx]\n\tcol := uint(utf8.RuneCountInString(head))",
       "\thead := strings.TrimRight(l.Text[start:byteIdx], \"\\r\\n\")\n\tcol := uint(utf8.RuneCountInString(head))")],
     "a position between the CR and the LF of one line break",
     "the column of a position inside CR LF is one too small",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	l := NewLines("ab\r\ncd")
	if col, ok := l.ByteToColumn(3); !ok || col != 3 { t.Fatalf("column %d %v, want 3", col, ok) }
}
''')

seed("c07-upper", "C07",
     [(SX + "node.go", "end_number = node.Children[renumber.End].span().Number()", "end_number = node.Children[renumber.End].upper()")],
     "an edit in front of a node that has children and is kept",
     "renumbered children take numbers out of the range of the node that follows them: numbers are no longer unique and in document order",
     r'''
package syntax
import ("testing"; "github.com/mewmew/typast/internal/ranges")
func TestDemo(t *testing.T) {
	src := NewDetachedSource("a b *c* d _e_ f *g* h i j k l m n o p")
	for i := 0; i < 40; i++ {
		src.Edit(ranges.NewRange(2, 2), "x *y* ")
		last := uint64(0)
		var rec func(n *SyntaxNode)
		rec = func(n *SyntaxNode) {
			if k := n.span().Number(); k <= last { t.Fatalf("edit %d: number %d after %d", i, k, last) } else { last = k }
			for _, c := range n.children() { rec(c) }
		}
		rec(src.Root)
	}
}
''')

seed("c08-number-end", "C08",
     [(SX + "span.go", "number < SpanFull.Start || number >= SpanFull.End", "number < SpanFull.Start || number > SpanFull.End")],
     "the first number behind the valid range",
     "the number 2^47 is accepted and reads back as the raw range 0..0",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if s, ok := NewSpanFromNumber(FileIDFromUint16(3), SpanFull.End); ok { t.Fatalf("accepted %x", uint64(s)) }
}
''')

seed("c11-named-key-trivia", "C11",
     [(SX + "parser.go", "\tif !(p.eat_if(SyntaxKindIdent) && p.at(SyntaxKindColon)) {\n", "\tif !(p.eat_if(SyntaxKindIdent) && p.directly_at(SyntaxKindColon)) {\n")],
     "a destructuring pattern with white space or a comment between a key and its colon and a key equal to a name bound before",
     "such a key is taken as a binding of its own: a name that only occurs as key is reported as duplicate",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"let (a: b, c : a) = d", "let (c : a, a : c) = d", "let (a /**/ : a) = d"} {
		for _, e := range parse_code(s).errors() { t.Errorf("%q: %v", s, e.Message) }
	}
}
''')

seed("c12-dot-continue", "C12",
     [(SX + "parser.go", "\tcase SyntaxKindElse, SyntaxKindDot:\n\t\treturn false\n\t}\n\treturn true", "\tcase SyntaxKindElse, SyntaxKindDot:\n\t\treturn newline.parbreak\n\tcase SyntaxKindAnd, SyntaxKindOr:\n\t\treturn newline.parbreak\n\t}\n\treturn true")],
     "a code line that starts with `and` or `or`",
     "a statement goes on behind a newline if the next line starts with `and` or `or`",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if len(parse_code("a\nor b").errors()) == 0 { t.Fatal("a statement starting with `or` was accepted") }
}
''')

seed("c14-comment-depth", "C14",
     [(SX + "lexer.go", "\t\t\tdepth += 1\n\t\t\tstate = '_'", "\t\t\tdepth += 1\n\t\t\tstate = c")],
     "a nested block comment opened by `/*/`",
     "the star of an inner `/*` also closes it if a slash follows",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	s := "/* /*/ */ a */ b"
	if got := Parse(s).children()[0].text(); got != "/* /*/ */ a */" { t.Fatalf("comment is %q", got) }
}
''')

seed("c15-inline-newline", "C15",
     [(SX + "lexer.go", "\t\tcase '`':\n\t\t\tfound += 1\n\t\tdefault:\n\t\t\tfound = 0", "\t\tcase '`':\n\t\t\tfound += 1\n\t\tcase '\\r':\n\t\t\t// Never ends a run.\n\t\tdefault:\n\t\t\tfound = 0")],
     "a carriage return between two runs of backticks inside a raw block",
     "a run of backticks interrupted by a carriage return ends the raw block",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	s := "```a ``\r` b```"
	if got := len(Parse(s).children()); got != 1 { t.Fatalf("%d nodes, want one raw block", got) }
}
''')

seed("c17-dot-chain", "C17",
     [(SX + "highlight.go", "\t\tif parent_kind, ok := ancestor.parent_kind(); ok && parent_kind == SyntaxKindFieldAccess {\n\t\t\tancestor = ancestor.parent.MustGet()\n\t\t} else {\n\t\t\tbreak\n\t\t}",
       "\t\tif parent_kind, ok := ancestor.parent_kind(); ok && parent_kind == SyntaxKindFieldAccess && ancestor.index == 0 {\n\t\t\tancestor = ancestor.parent.MustGet()\n\t\t} else {\n\t\t\tbreak\n\t\t}")],
     "a show rule whose selector or transformation is a field access",
     "the fields of a show rule's selector are no longer highlighted as functions",
     r'''
package syntax
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	got := highlight_html(Parse("#show math.equation: it"))
	if !strings.Contains(got, `<span class="typ-func">equation</span>`) { t.Fatal(got) }
}
''')

seed("c19-spec-tail", "C19",
     [(SX + "package.go", "\tif len(parts) > 3 {\n\t\treturn PackageVersion{}, errors.Errorf(\"version number has unexpected components: %q\", parts[3:])",
       "\tif len(parts) > 3 && len(parts[3]) > 0 {\n\t\treturn PackageVersion{}, errors.Errorf(\"version number has unexpected components: %q\", parts[3:])")],
     "a version followed by a stray dot",
     "`@preview/a:1.2.3.` and even `1.2.3..4` are accepted as package specifications",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"@preview/a:1.2.3.", "@preview/a:1.2.3..4"} {
		if _, err := ParsePackageSpec(s); err == nil { t.Errorf("%q was accepted", s) }
	}
}
''')

seed("c20-bound-gt", "C20",
     [(SX + "package.go", "\tif bound.Minor == nil {\n\t\treturn false\n\t}\n\tif v.Minor != *bound.Minor {\n\t\treturn v.Minor > *bound.Minor\n\t}\n\tif bound.Patch == nil {\n\t\treturn false\n\t}\n\treturn v.Patch > *bound.Patch",
       "\tif bound.Minor != nil && v.Minor != *bound.Minor {\n\t\treturn v.Minor > *bound.Minor\n\t}\n\tif bound.Patch == nil {\n\t\treturn v.Minor > 0 && bound.Minor == nil && v.Patch > v.Minor\n\t}\n\treturn v.Patch > *bound.Patch")],
     "a bound with only a major version and a version whose patch exceeds its minor",
     "a version is both equal to and greater than a major-only bound",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	v := PackageVersion{Major: 1, Minor: 2, Patch: 5}
	b, _ := ParseVersionBound("1")
	if v.MatchesGT(b) { t.Fatal("1.2.5 > 1") }
}
''')

seed("c24-union-alias", "C24",
     [(SX + "set.go", "func (set *SyntaxSet) Clone() *SyntaxSet {\n\treturn &SyntaxSet{b: set.b.Clone()}",
       "func (set *SyntaxSet) Clone() *SyntaxSet {\n\tif set.b.None() {\n\t\treturn set // nothing to copy\n\t}\n\treturn &SyntaxSet{b: set.b.Clone()}")],
     "an element added to the clone of an empty set",
     "adding to an empty set changes the empty set itself",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	empty := NewSyntaxSet()
	_ = empty.Add(SyntaxKindLet)
	if empty.Contains(SyntaxKindLet) { t.Fatal("the empty set changed") }
}
''')

seed("c03-at-start", "C03",
     [(SX + "reparser.go", "if (at_end || at_start == prev_at_start_after) && (", "if (")],
     "an edit that swallows a newline some nodes before a list, heading or term marker (say by turning a line comment into a block comment)",
     "a segment is reparsed although what follows it no longer starts a line: the markers behind it stay headings or items",
     r'''
package syntax
import ("testing"; "github.com/mewmew/typast/internal/ranges")
func TestDemo(t *testing.T) {
	src := NewDetachedSource("//c\n*/+ ")
	src.Edit(ranges.NewRange(1, 1), "*")
	if !src.Root.spanless_eq(Parse(src.Text())) { t.Fatalf("trees differ for %q", src.Text()) }
}
''')

seed("c03-parbreak", "C03",
     [(SX + "reparser.go", "if kind == SyntaxKindParbreak || (kind == SyntaxKindSpace && any_(node.text(), isNewline)) {", "if kind == SyntaxKindSpace && any_(node.text(), isNewline) {")],
     "an edit two nodes behind a heading or item that stands right behind a paragraph break",
     "a segment that starts behind a paragraph break is reparsed as if it did not start a line: its heading or item becomes text",
     r'''
package syntax
import ("testing"; "github.com/mewmew/typast/internal/ranges")
func TestDemo(t *testing.T) {
	src := NewDetachedSource("x\n\n= b\n*c* d e f")
	src.Edit(ranges.NewRange(9, 9), "y")
	if !src.Root.spanless_eq(Parse(src.Text())) { t.Fatal("trees differ") }
}
''')

seed("c05-shift", "C05",
     [(SX + "lines.go", """	// Update the text itself.
	l.Text = replaceRange(l.Text, replace, with)
""", """	// Edits within a line merely shift the lines behind it.
	if old := l.Text[replace.Start:replace.End]; startByte == uint(replace.Start) && !strings.ContainsAny(old+with, "\\r\\n\\f\\v\\u0085\\u2028") {
		delta, delta16 := len(with)-len(old), int(lenUtf16(with))-int(lenUtf16(old))
		for i := line + 1; i < uint(len(l.Lines)); i++ {
			l.Lines[i].ByteIdx = uint(int(l.Lines[i].ByteIdx) + delta)
			l.Lines[i].Utf16Idx = uint(int(l.Lines[i].Utf16Idx) + delta16)
		}
		l.Text = replaceRange(l.Text, replace, with)
		return
	}

	// Update the text itself.
	l.Text = replaceRange(l.Text, replace, with)
""")],
     "an edit that inserts or removes a paragraph separator (U+2029)",
     "lines begun by a paragraph separator are neither added nor removed",
     r'''
package syntax
import ("testing"; "reflect"; "github.com/mewmew/typast/internal/ranges")
func TestDemo(t *testing.T) {
	l := NewLines("ab\ncd\nef")
	l.Edit(ranges.NewRange(1, 1), "x\u2029y")
	if want := NewLines(l.Text); !reflect.DeepEqual(l.Lines, want.Lines) { t.Fatalf("%v, want %v", l.Lines, want.Lines) }
}
''')

seed("c09-not-in", "C09",
     [(SX + "parser.go", "} else if min_prec <= BinOp_NotIn.precedence() && p.eat_if(SyntaxKindNot) {", "} else if min_prec < BinOp_NotIn.precedence() && p.eat_if(SyntaxKindNot) {")],
     "`not in` behind the operand of a `not`",
     "`not a not in b` is grouped as `(not a) not in b`",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if got := parse_code("not a not in b").children()[0].kind(); got != SyntaxKindUnary { t.Fatalf("grouped as %v", got) }
}
''')

seed("c18-prev-leaf", "C18",
     [(SX + "node.go", """		if leaf, ok := prev.rightmost_leaf(); ok {
			return leaf, true
		}
		node = prev
""", """		if leaf, ok := prev.rightmost_leaf(); ok {
			return leaf, true
		}
		break
""")],
     "a previous sibling that holds no leaf besides white space, such as an empty list item's body",
     "the previous leaf of a node behind an empty node is that of its parent",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	root := NewLinkedNode(Parse("#{}"))
	last, ok := root.rightmost_leaf()
	if !ok || last.node.kind() != SyntaxKindRightBrace { t.Fatal("no closing brace") }
	prev, ok := last.prev_leaf()
	if !ok || prev.node.kind() != SyntaxKindLeftBrace { t.Fatalf("previous leaf is %v", prev) }
}
''')

seed("c23-large", "C23",
     [("typst/cstwalk/cstwalk.go", "	if visited[root] {\n		return\n	}", "	if visited[root] || len(visited) > 1<<16 {\n		return // Already seen.\n	}")],
     "a tree of more than twenty thousand nodes",
     "the walk stops without notice after 65536 visits",
     r'''
package cstwalk
import ("testing"; "strings"; "github.com/mewmew/typast/typst/syntax")
func TestDemo(t *testing.T) {
	root := syntax.Parse("#{" + strings.Repeat("1;", 20000) + "}")
	n := 0
	Walk(root, func(x any) bool {
		if _, ok := x.(*syntax.LeafNode); ok { n++ }
		return true
	})
	if n != 40003 { t.Fatalf("%d leaves visited, want 40003", n) }
}
''', pkg="typst/cstwalk")

seed("c21-upgrade", "C21",
     [(SX + "file.go", """	pair := Pair{Spec: spec, VPath: vpath}
	interner.Lock()
	defer interner.Unlock()
	key := pair.key()
	if id, ok := interner.toID[key]; ok {
		return id
	}
	// NOTE""", """	pair := Pair{Spec: spec, VPath: vpath}
	key := pair.key()
	interner.RLock()
	id, ok := interner.toID[key]
	interner.RUnlock()
	if ok {
		return id
	}
	interner.Lock()
	defer interner.Unlock()
	// NOTE"""), (SX + "file.go", "	id := pushPair(pair)\n	interner.toID[key] = id\n	return id", "	id = pushPair(pair)\n	interner.toID[key] = id\n	return id")],
     "two goroutines that ask for the same new file, the second between the first one's lookup and its registration",
     "one file gets two identifiers",
     r'''
package syntax
import ("testing"; "sync"; "fmt"; "github.com/mewmew/typast/internal/option")
func TestDemo(t *testing.T) {
	for round := 0; round < 30000; round++ {
		path := fmt.Sprintf("/d%d", round)
		var ids [6]FileID
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range ids {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := NewVirtualPath(path)
				<-start
				ids[i] = NewFileID(option.None[*PackageSpec](), p)
			}()
		}
		close(start)
		wg.Wait()
		for _, id := range ids {
			if id != ids[0] { t.Fatalf("%s has identifiers %v", path, ids) }
		}
	}
}
''')

seed("c21-string-lock", "C21",
     [(SX + "file.go", """	out := &strings.Builder{}
	vpath := id.VPath()
""", """	out := &strings.Builder{}
	interner.RLock() // one view of package and path
	defer interner.RUnlock()
	vpath := id.VPath()
""")],
     "a goroutine that registers a file while another one prints an identifier",
     "printing an identifier takes the read lock twice: with a writer waiting in between both goroutines wait for ever",
     r'''
package syntax
import ("testing"; "sync"; "fmt"; "time"; "github.com/mewmew/typast/internal/option")
func TestDemo(t *testing.T) {
	id := NewFileID(option.None[*PackageSpec](), NewVirtualPath("/a"))
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 7000; j++ {
					if i%2 == 0 { _ = id.String() } else { NewFileID(option.None[*PackageSpec](), NewVirtualPath(fmt.Sprint(i, "-", j))) }
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("deadlock")
	}
}
''')

seed("c28-shared-errors", "C28",
     [(SX + "lexer.go", """	lexer.err = option.Some(NewSyntaxError(message))
	return SyntaxKindError
}
""", """	err, ok := lexErrors[message]
	if !ok {
		err = NewSyntaxError(message)
		if len(lexErrors) < 64 {
			lexErrors[message] = err
		}
	}
	lexer.err = option.Some(err)
	return SyntaxKindError
}

// lexErrors holds the errors of the lexer by message.
var lexErrors = make(map[string]*SyntaxError)
""")],
     "a text with a stray `*/` that is parsed after another text with one",
     "the errors of all texts share their hints, which grow with every text parsed",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	a := len(Parse("a */ b").errors()[0].Hints)
	b := len(Parse("c */").errors()[0].Hints)
	if a != b { t.Fatalf("%d hints, then %d", a, b) }
}
''')

seed("c28-html-buffer", "C28",
     [(SX + "highlight.go", """	buf := &strings.Builder{}
	buf.WriteString("<code>")
""", """	buf := &html_buf
	buf.Reset()
	buf.WriteString("<code>")
"""), (SX + "highlight.go", """// Highlight one source node, emitting HTML.
""", """// The buffer of highlight_html.
var html_buf strings.Builder

// Highlight one source node, emitting HTML.
""")],
     "two texts highlighted at the same time in different goroutines",
     "the output of both is mixed in one buffer",
     r'''
package syntax
import ("testing"; "sync")
func TestDemo(t *testing.T) {
	root := Parse("#let a = (1, 2, 3); *b* _c_ <d> #{ f(x) }")
	want := highlight_html(root)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { if e := recover(); e != nil { t.Error(e) } }()
			for j := 0; j < 4000; j++ {
				if got := highlight_html(root); got != want { t.Errorf("%q", got); return }
			}
		}()
	}
	wg.Wait()
}
''')

seed("c04-overlap", "C04",
     [(SX + "lines.go", "for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {",
       "for i, j := len(old)-1, len(new)-1; i >= prefix && j >= 0; i, j = i-1, j-1 {")],
     "a new text that drops one of several repetitions, such as `abab` to `ab`",
     "the common suffix overlaps the common prefix in the new text: replacing panics",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	s := NewDetachedSource("x abab y")
	s.Replace("x ab y")
	if s.Text() != "x ab y" || s.Root.into_text() != "x ab y" { t.Fatal(s.Text()) }
}
''')

seed("c10-nested-mode", "C10",
     [(SX + "parser.go", """	if newline, ok := p.token.newline.Get(); ok && mode != previous {
""", """	if newline, ok := p.token.newline.Get(); ok && fmt.Sprintf("%T", mode) != fmt.Sprintf("%T", previous) {
""")],
     "a line indented less than a nested item but more than the item around it",
     "the line leaves both items instead of the inner one",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	root := Parse("- a\n  - b\n c")
	if n := len(root.children()); n != 1 { t.Fatalf("%d nodes, want one item", n) }
}
''')

seed("c13-nested-binding", "C13",
     [(SX + "parser.go", """	case SyntaxKindLeftParen:
		destructuring_or_parenthesized(p, reassignment, seen)
	default:
		pattern_leaf(""", """	case SyntaxKindLeftParen:
		inner := make(map[string]bool, len(seen))
		for name := range seen {
			inner[name] = true
		}
		destructuring_or_parenthesized(p, reassignment, inner)
	default:
		pattern_leaf(""")],
     "a name bound in a nested pattern and again behind it",
     "the second binding is not reported as a duplicate",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if !Parse("#let ((a, b), a) = c").erroneous() { t.Fatal("duplicate binding not reported") }
}
''')

seed("c16-raw-cr", "C16",
     [(SX + "ast.go", "if child.kind() == SyntaxKindRawTrimmed && strings.ContainsFunc(child.text(), isNewline) {",
       "if child.kind() == SyntaxKindRawTrimmed && strings.Contains(child.text(), \"\\n\") {")],
     "a raw block whose lines end in carriage returns or Unicode line separators",
     "the block is taken as inline",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	raw, ok := SyntaxNode_cast[*Raw](Parse("```\ra\r```").children()[0]).Get()
	if !ok || !raw.block() { t.Fatal("not a block") }
}
''')

seed("c22-extension-cut", "C22",
     [(SX + "path.go", "	name := vpath.Path[:len(vpath.Path)-len(ext)]\n", "	name := strings.TrimRight(vpath.Path, ext)\n")],
     "a file whose name ends in letters of its extension",
     "changing the extension of `/script.typ` cuts the name to `/scri`",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if got := NewVirtualPath("script.typ").WithExtension(".pdf").Path; got != "/script.pdf" { t.Fatal(got) }
}
''')

seed("c25-error-node", "C25",
     [(SX + "node.go", """		fmt.Printf("%serror (text=%q) error=%q\\n", pad, repr.Text, repr.Error.Message)
""", """		if len(repr.Text) == 0 {
			fmt.Printf("%serror=%q\\n", pad, repr.Error.Message)
			return
		}
		fmt.Printf("%serror (text=%q) error=%q\\n", pad, strings.TrimSpace(repr.Text), repr.Error.Message)
""")],
     "an error whose text starts or ends with white space, such as an unclosed string",
     "the printed texts joined are no longer the file",
     r'''
package main
import ("testing"; "os"; "io"; "strings"; "path/filepath")
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "a.typ")
	os.WriteFile(p, []byte("#\"ab \n"), 0o644)
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	err := parse(p)
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if err != nil || !strings.Contains(string(b), `text="\"ab \n"`) { t.Fatalf("%v\n%s", err, b) }
}
''', pkg="cmd/parse-typ")

UNIVERSE = r'''
func install(t *testing.T, pkgs map[string]string) {
	u := t.TempDir()
	t.Setenv("HOME", u)
	t.Setenv("XDG_CACHE_HOME", u)
	universeDir = u
	for p, text := range pkgs {
		p = filepath.Join(u, "packages", "preview", p)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(text), 0o644)
	}
}
const toml = "[package]\nname = \"@\"\nversion = \"1.0.0\"\nentrypoint = \"lib.typ\"\n"
'''

seed("c26-downgrade", "C26",
     [("cmd/update-typ/main.go", """	if a.Minor > b.Minor {
		return true
	}
	if a.Minor < b.Minor {
		return false
	}
	return a.Patch > b.Patch
""", """	if a.Minor > b.Minor {
		return true
	}
	return a.Patch > b.Patch
""")],
     "an older minor version with a higher patch level that is listed behind the newest version",
     "imports are changed to a version that is not the newest, even to an older one",
     r'''
package main
import ("testing"; "os"; "path/filepath"; "github.com/mewmew/typast/typst/syntax")
''' + UNIVERSE + r'''
func TestDemo(t *testing.T) {
	install(t, map[string]string{"p/0.9.5/typst.toml": toml, "p/0.10.0/typst.toml": toml})
	spec, _ := syntax.ParsePackageSpec("@preview/p:0.10.0")
	if got, ok := latestSpec(spec); ok { t.Fatalf("updated to %v", got) }
}
''', pkg="cmd/update-typ")

seed("c26-transitive", "C26",
     [("cmd/update-typ/main.go", """		localSpecs, _updated, err := checkLib(projectRoot, localTypPath, libName)
		if err != nil {
			return nil, false, errors.WithStack(err)
		}
		if _updated {
			updated = true
		}
		specs = append(specs, localSpecs...)
	}

	return specs, updated, nil
}

// parse parses""", """		localSpecs, _updated, err := checkLib(projectRoot, localTypPath, libName)
		if err != nil {
			return nil, false, errors.WithStack(err)
		}
		if _updated {
			updated = true
			specs = append(specs, localSpecs...)
		}
	}

	return specs, updated, nil
}

// parse parses""")],
     "a package that another one imports in a file other than its entry file, whose own imports are outdated",
     "the packages used there are not checked",
     r'''
package main
import ("testing"; "os"; "path/filepath"; "strings"; "github.com/mewmew/typast/typst/syntax")
''' + UNIVERSE + r'''
func TestDemo(t *testing.T) {
	install(t, map[string]string{
		"p/1.0.0/typst.toml": strings.ReplaceAll(toml, "@", "p"), "p/1.0.0/lib.typ": "#import \"x.typ\"", "p/1.0.0/x.typ": "#import \"@preview/q:1.0.0\"",
		"q/1.0.0/typst.toml": strings.ReplaceAll(toml, "@", "q"), "q/1.0.0/lib.typ": "#import \"@preview/r:1.0.0\"",
		"r/1.0.0/typst.toml": strings.ReplaceAll(toml, "@", "r"), "r/1.0.0/lib.typ": "",
		"r/1.0.1/typst.toml": strings.ReplaceAll(toml, "@", "r"), "r/1.0.1/lib.typ": "",
	})
	spec, _ := syntax.ParsePackageSpec("@preview/p:1.0.0")
	updated, err := checkLibs([]*syntax.PackageSpec{spec})
	if err != nil || !updated { t.Fatalf("outdated import not found (%v)", err) }
}
''', pkg="cmd/update-typ")

seed("c27-same-resource", "C27",
     [("cmd/offline-typ/main.go", "		absResourcePath := filepath.Join(projectRoot.Name(), localResourcePath)\n", "		absResourcePath := filepath.Clean(localResourcePath)\n")],
     "a project and a package that both use a file of the same name, such as `logo.png`",
     "the second of them is left out of the copy",
     r'''
package main
import ("testing"; "os"; "path/filepath")
func TestDemo(t *testing.T) {
	a, b, out := t.TempDir(), t.TempDir(), t.TempDir()
	ra, _ := os.OpenRoot(a)
	rb, _ := os.OpenRoot(b)
	for _, d := range []string{a, b} {
		os.WriteFile(filepath.Join(d, "m.typ"), []byte("#image(\"l.png\")"), 0o644)
		os.WriteFile(filepath.Join(d, "l.png"), []byte(d), 0o644)
	}
	for _, r := range []*os.Root{ra, rb} {
		os.MkdirAll(filepath.Join(out, filepath.Base(r.Name())), 0o755)
		o, _ := os.OpenRoot(filepath.Join(out, filepath.Base(r.Name())))
		if _, err := rewrite(o, r, "m.typ", ""); err != nil { t.Fatal(err) }
		if buf, err := o.ReadFile("l.png"); err != nil || string(buf) != r.Name() { t.Fatalf("%q %v", buf, err) }
		os.RemoveAll(filepath.Join(out, filepath.Base(r.Name()), "m.typ"))
	}
}
''', pkg="cmd/offline-typ")

seed("c29-prime-frac", "C29",
     [(SX + "parser.go", "		if primed && op.kind == SyntaxKindMathFrac {\n", "		if primed && op.kind == SyntaxKindMathFrac && p.directly_at(SyntaxKindSlash) {\n")],
     "a primed numerator with a space before the slash",
     "the numerator of `f' / 2` is the primes alone, not `f'`",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	frac := parse_math("22' / 33").children()[0]
	if frac.kind() != SyntaxKindMathFrac || frac.children()[0].kind() != SyntaxKindMathAttach { t.Fatal(frac.kind(), frac.children()[0].kind()) }
}
''')

seed("c29-array-named", "C29",
     [(SX + "parser.go", """	if maybe_array_start != p.marker() && has_arrays && positional {
		p.wrap(maybe_array_start""", """	if maybe_array_start != p.marker() && has_arrays {
		p.wrap(maybe_array_start""")],
     "a named argument behind the rows of a matrix",
     "the named argument becomes a row of its own",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	args := parse_math("mat(22 ; 33 ; delim: 44 )").children()[0].children()[1]
	for _, c := range args.children() {
		if c.kind() == SyntaxKindNamed { return }
	}
	t.Fatal("no named argument")
}
''')

seed("c30-scout-replacement", "C30",
     [("internal/scanner/scanner.go", """		rs := []rune(before) // TODO: optimize when needed.
		index := len(rs) + n
		if index >= 0 && index < len(rs) {
			return rs[index], true
		}
""", """		for ; n < 0; n++ {
			c, size := utf8.DecodeLastRuneInString(before)
			if c == utf8.RuneError {
				break // start of text
			}
			if n == -1 {
				return c, true
			}
			before = before[:len(before)-size]
		}
""")],
     "a replacement character (U+FFFD) before the cursor",
     "characters before a replacement character are no longer seen",
     r'''
package scanner
import "testing"
func TestDemo(t *testing.T) {
	s := New("a\ufffdb")
	s.Jump(4)
	if c, ok := s.Scout(-2); !ok || c != 'a' { t.Fatal(c, ok) }
}
''', pkg="internal/scanner")

seed("c26-queue-break", "C26",
     [("cmd/update-typ/main.go", "				continue // already in queue.", "				break // already in queue.")],
     "two packages in use that import each other before they import another one",
     "what the package imports behind the one still waiting is never checked",
     r'''
package main
import ("testing"; "os"; "path/filepath"; "strings"; "github.com/mewmew/typast/typst/syntax")
''' + UNIVERSE + r'''
func TestDemo(t *testing.T) {
	files := map[string]string{}
	add := func(name, text string) {
		files[name+"/1.0.0/typst.toml"], files[name+"/1.0.0/lib.typ"] = strings.ReplaceAll(toml, "@", name), text
	}
	add("p", "#import \"@preview/q:1.0.0\"\n#import \"@preview/op:1.0.0\"")
	add("q", "#import \"@preview/p:1.0.0\"\n#import \"@preview/oq:1.0.0\"")
	add("op", "")
	add("oq", "")
	install(t, files)
	p, _ := syntax.ParsePackageSpec("@preview/p:1.0.0")
	q, _ := syntax.ParsePackageSpec("@preview/q:1.0.0")
	if _, err := checkLibs([]*syntax.PackageSpec{p, q}); err != nil { t.Fatal(err) }
	for _, s := range []string{"@preview/op:1.0.0", "@preview/oq:1.0.0"} {
		if done[s] == nil { t.Fatalf("%s was not checked", s) }
	}
}
''', pkg="cmd/update-typ")

seed("c03-repaired", "C03",
     [(SX + "node.go", """	node.Descendants = node.Descendants + new_descendants - prev_descendants
	node.Erroneous = false
	for""", """	node.Descendants = node.Descendants + new_descendants - prev_descendants
	for""")],
     "an edit inside of a nested block that removes the only error of a text, reparsed incrementally",
     "the nodes around the block stay marked as erroneous",
     r'''
package syntax
import ("testing"; "github.com/mewmew/typast/internal/ranges")
func TestDemo(t *testing.T) {
	src := NewDetachedSource("a #[b #{ 1 2 } c] d")
	if !src.Root.erroneous() { t.Skip() }
	src.Edit(ranges.NewRange(10, 11), "+")
	if src.Root.erroneous() { t.Fatalf("%q is said to have errors", src.Text()) }
}
''')

seed("c24-terminator", "C24",
     [(SX + "kind.go", """	SyntaxKindRightBracket: true,
}

// IsTerminator""", """}

// IsTerminator""")],
     "a return at the end of a content block",
     "the bracket is not taken for the end of the expression",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if !SyntaxKindRightBracket.IsTerminator() { t.Fatal("] ends no expression") }
}
''')

seed("c22-dotdot", "C22",
     [(SX + "path.go", "	dir := filepath.Dir(vpath.Path)\n	new_path := filepath.Join(dir, path)\n	return NewVirtualPath(new_path)", "	dir := filepath.Dir(vpath.Path)\n	new_path := dir + \"/\" + path\n	if filepath.IsLocal(path) {\n		return &VirtualPath{Path: new_path}\n	}\n	return NewVirtualPath(new_path)")],
     "a path with a dot or a double slash in it that stays below the file's directory",
     "the resulting path is not normalised, so that one file gets two identifiers",
     r'''
package syntax
import "testing"
func TestDemo(t *testing.T) {
	if got := NewVirtualPath("/d/a.typ").Join("./b/../c.typ").Path; got != "/d/c.typ" { t.Fatal(got) }
	if got := NewVirtualPath("/a.typ").Join("c.typ").Path; got != "/c.typ" { t.Fatal(got) }
}
''')
