"""Titles, statements and manifest texts of every property; lib/mk.py writes
properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, technique=technique, note=note, observe=observe))


S = "typst/syntax/"
MATH = " In math, characters have the classes of the check's own table (the module with the full table is not available here)."

prop("C01", "Parsing is lossless and the tree's metadata is consistent",
     "For every valid UTF-8 source text, parsing yields one markup tree whose leaves, read from left to right, are exactly the source text, and printing the tree reproduces that text. "
     "Every node's length, descendant count and erroneous flag equal what its children imply, every error node has a message, and no node occurs twice in the tree.",
     ["inputs"], "all source texts; explored: all character strings and token words up to the bounds in the evidence, behind every kind of context prefix",
     "the unit tests parse a handful of fixed texts and compare kinds; they never relate leaves to the text for malformed input",
     [S + "parser.go", S + "lexer.go", S + "node.go"], [("tree construction by wrapping flat nodes", S + "parser.go"), ("node metadata", S + "node.go")],
     "bounded exhaustive enumeration of inputs against the real parser with a tree oracle",
     "every text of the bounded families is parsed by the real code and every node compared with values recomputed from scratch." + MATH)
prop("C02", "Parsing terminates, is deterministic and does bounded work",
     "For every valid UTF-8 text, parsing as markup or as code returns a tree, without a panic, and twice the same one. "
     "The work grows at most polynomially with the text: nested or repeated openers, however combined, never make parsing exponential or exhaust memory.",
     ["inputs"], "all source texts; explored: all words up to the bounds, all repetitions of short token units between heads and closers, deep nesting",
     "the tests parse a few short, mostly valid texts; neither depth nor ambiguous parentheses are exercised",
     [S + "parser.go", S + "lexer.go"], [("backtracking with memoized parse results", S + "parser.go")],
     "bounded exhaustive enumeration of inputs against the real parser; allocation counts as the work measure",
     "work is measured in allocations, not time, so that the verdict does not depend on the machine." + MATH)
prop("C03", "Incremental editing gives the same tree as a fresh parse",
     "After any history of edits at character boundaries to a source, its text is the edited text and its tree equals, in every kind, text, error and flag, the tree of a fresh parse of that text. "
     "The range reported as reparsed lies within the new text and covers the inserted text.",
     ["histories", "inputs"], "all initial texts and edit histories; explored: every edit of every short text, every pair of edits of short documents, long histories at one place",
     "the tests apply a few single edits and check only whether the reparse was incremental",
     [S + "reparser.go", S + "source.go", S + "node.go", S + "parser.go"], [("reparse of the smallest safe block or markup range", S + "reparser.go")],
     "exhaustive exploration of edit histories on the real source, differential oracle (fresh parse) after every step",
     "the oracle is the parser itself on the final text, so this check decides agreement, not correctness of the tree (see C09-C15)." + MATH)
prop("C04", "Replacing a whole text is one minimal edit",
     "Replacing a source's text by any other leaves exactly that text, with the tree and line index a fresh source of it has. "
     "The change is applied as one edit between the longest common prefix and the longest common suffix in whole characters, so an unchanged text changes nothing and multi-byte characters are never cut.",
     ["inputs", "histories"], "all pairs of old and new texts; explored: all pairs over characters that share UTF-8 bytes, and all pairs of short documents",
     "no test replaces a text",
     [S + "source.go"], [("common prefix and suffix of the texts", S + "source.go")],
     "exhaustive enumeration of pairs of texts against a reference diff and a fresh source",
     "minimality is observed through the reported reparsed range and node identity where the text is unchanged.")
prop("C05", "The line index stays right under every edit history",
     "After any history of edits at character boundaries, the line index of a text, and of the source that contains it, equals the index built from scratch: same lines, same byte and UTF-16 offsets. "
     "Every Unicode newline counts, and CR LF counts once even when an edit joins or parts it.",
     ["histories", "inputs"], "all texts and edit histories; explored: every edit and every two or three edits of all short texts over the newline and wide characters",
     "the tests edit three fixed texts",
     [S + "lines.go", S + "source.go"], [("recomputation of the lines behind an edit", S + "lines.go")],
     "exhaustive exploration of edit histories against a reference index",
     "the reference index is computed by a direct scan in the harness.")
prop("C06", "Byte, UTF-16, line and column positions convert consistently",
     "For every text, conversions between byte, UTF-16, line and line/column positions agree with counting characters, code units and lines in the text, at every position up to and including its end. "
     "Positions beyond the text, however large, and columns beyond their line are reported as such instead of being converted.",
     ["inputs"], "all texts and all positions; explored: all texts up to the bound over characters of each UTF-8/UTF-16 width and each newline, all positions, and extreme integers",
     "the tests convert at a few positions of one fixed text",
     [S + "lines.go"], [("binary search over the line index, scan within a line", S + "lines.go")],
     "exhaustive enumeration of texts and positions against a reference table",
     "the reference table is built by one pass over the characters.")
prop("C07", "Spans identify nodes, in order, throughout every edit history",
     "In a source, fresh or after any history of edits, all nodes carry spans of that file with distinct numbers that increase in document order within the valid range. "
     "Looking a span up finds exactly the node that carries it, with its true byte range; unused numbers, other files' spans and detached spans find nothing.",
     ["histories", "inputs"], "all texts and edit histories; explored: every edit of every short text, pairs of edits, and hundreds of edits at one place until the number space is exhausted",
     "the tests number one small tree; none edits a source and looks spans up",
     [S + "node.go", S + "source.go", S + "span.go", S + "reparser.go"], [("numbering and renumbering of replaced children", S + "node.go"), ("search by span number", S + "node.go")],
     "exhaustive exploration of edit histories with an invariant on every state",
     "spans are read from the nodes and ranges recomputed by a pre-order walk in the harness.")
prop("C08", "Spans encode file, number and range without loss",
     "A span built from a file and a number in the valid range, or from a file and a byte range, gives back exactly that file, number or range (range ends beyond the field saturate at its largest value), and never reads as another form or as detached; invalid numbers are refused. "
     "Choosing between spans always prefers the first one that is not detached.",
     ["inputs"], "all files, numbers and ranges; explored: windows around every field boundary, all pairs of small and boundary range ends, all short lists of spans",
     "the tests encode four values",
     [S + "span.go"], [("bit packing", S + "span.go")],
     "exhaustive enumeration of boundary windows, round-trip oracle",
     "values away from the field boundaries are represented by the windows; the encoding is bitwise.")
prop("C09", "Operators group by the language's precedence table",
     "Every expression of operators, written with parentheses only where Typst's precedence and associativity table demands them, parses without error to the tree the table prescribes: multiplication before addition before comparison and membership (`in`, `not in`) before `not` before `and` before `or` before assignment, unary signs binding tightest, assignment right-associative, the rest left-associative. "
     "This holds in code, with any spacing, and inside parentheses or across lines within them.",
     ["inputs"], "all operator expressions; explored: every operator tree up to 3 operators (representatives up to 4 or 5), every trivia style, 3 contexts",
     "no test parses an operator expression",
     [S + "parser.go", S + "ast.go", S + "set.go"], [("precedence climbing", S + "parser.go"), ("precedence and associativity of operators", S + "ast.go")],
     "exhaustive enumeration of reference-grammar derivations printed and replayed against the parser",
     "trusts the precedence table transcribed in the harness from the Typst reference.")
prop("C10", "Markup has the block and inline structure its lines and indentation give it",
     "Every text of pure markup parses to exactly the structure the language defines. Markers make headings, list, enum and term items only where a line (or item, or content block) starts; an item holds everything up to the first line not indented deeper than its marker; a heading ends with its line or at a label; a term ends at a colon. "
     "Strong and emphasized text ends at its closing mark, else is reported unclosed at the paragraph break, bracket or end; brackets nest as text; a reference takes a directly following content block. "
     "Spaces and comments stay between nodes, never dangling inside items and headings; deviations are reported with the documented message and hint.",
     ["inputs"], "all markup texts without embedded code, raw text and math; explored: all words over the structural tokens, all documents of a few indented lines",
     "no existing test parses a document with nested items, unclosed emphasis or a term list",
     [S + "parser.go", S + "lexer.go"], [("newline modes and columns", S + "parser.go"), ("markup expressions", S + "parser.go")],
     "bounded exhaustive enumeration of documents against the real parser, compared node by node with a reference parser",
     "the reference parser shares nothing with the code under test but the syntax kinds; embedded code is C11 and C12, raw text C15." + MATH)
prop("C11", "Every derivation of the code grammar parses to its tree",
     "Valid Typst code - literals, calls, field access, arrays, dictionaries, closures, patterns and destructuring, let/set/show/context/if/while/for/import/include/return and code or content blocks, nested in any way and with any whitespace, newlines and comments where the language allows them - parses without error to exactly the tree its derivation describes. "
     "Apart from markup and code sequences no node starts or ends with whitespace or comments.",
     ["inputs", "programs"], "all derivations; explored: every atom in every pair of about 125 one-hole contexts, every triple around one atom, 5 trivia styles, 4 documents",
     "the tests parse a few fixed snippets",
     [S + "parser.go", S + "lexer.go"], [("recursive descent with newline modes and backtracking", S + "parser.go")],
     "exhaustive enumeration of reference-grammar derivations (model traces) replayed against the parser",
     "trusts the reference grammar written in the harness from the Typst reference." + MATH)
prop("C12", "Statements and embedded expressions end where they should",
     "An expression embedded in markup with `#` ends exactly where the language says: it takes directly attached calls, content arguments and field accesses, an optional semicolon, and nothing else; what follows is markup again, with its spaces. "
     "In code, statements are separated by semicolons or newlines, continue across a newline only where an `else` or a method dot follows, and two statements on one line without a separator are an error.",
     ["inputs", "programs"], "all pairs of an expression and a continuation; explored: all grammar expressions against 33 continuations, and pairs of statements in code with all separators",
     "the tests contain one or two embedded expressions",
     [S + "parser.go", S + "lexer.go"], [("embedded code expression", S + "parser.go"), ("newline modes", S + "parser.go")],
     "exhaustive enumeration of expression/continuation products of the reference grammar replayed against the parser",
     "trusts the reference grammar of the harness." + MATH)
prop("C13", "Exactly the invalid programs are rejected, with errors in the right places",
     "Parsing code reports at least one error exactly when the code does not follow the language's grammar: every valid program parses without errors to the tree the grammar gives it, every other one is flagged erroneous and its errors can be listed, in text order, each with a message. "
     "Repeated parameters, bindings, named arguments and dictionary keys, second sinks, and keywords used as names are reported at exactly the offending item with the documented message; unclosed and unexpected delimiters are reported at exactly the unmatched brackets. "
     "An error inside a closed block stays inside it: what surrounds the block parses as if it were correct.",
     ["inputs"], "all code texts; explored: all token words up to the bounds, every derivation of the reference grammar with one token edited, all bracket words, all short item lists, erroneous blocks in every grammar context",
     "the tests check that a few valid texts parse; no invalid program is ever parsed",
     [S + "parser.go", S + "node.go", S + "set.go"], [("expect, unexpected and recovery", S + "parser.go"), ("error nodes", S + "node.go")],
     "bounded exhaustive enumeration of programs against the real parser, compared with a strict reference parser",
     "the reference parser accepts and builds trees for valid code only, so for invalid code the check decides that errors exist, and their exact text only for the listed families." + MATH)
prop("C14", "Every text splits into the tokens of the language reference",
     "In markup, code and math mode, every text is split completely into the tokens the Typst reference defines - longest match, with the right kind for identifiers, keywords, numbers with units, strings, labels, references, links, escapes, comments, shorthands, operators and markers - each token being exactly its slice of the text. "
     "Malformed tokens (unterminated comments and strings, bad numbers, bad escapes, stray characters) become error tokens covering their text.",
     ["inputs"], "all texts and the three lexer modes; explored: all strings over about 50 characters up to length 3, token-specific alphabets up to length 5-9, and every character of Unicode in 39 places (thorough 65)",
     "no test calls the lexer directly",
     [S + "lexer.go", "internal/scanner/scanner.go"], [("lexer", S + "lexer.go"), ("scanner", "internal/scanner/scanner.go")],
     "exhaustive enumeration of texts, token-by-token comparison with a reference lexer",
     "trusts the reference lexer written in the harness; raw text content is C15's.")
prop("C15", "Raw text is split into delimiters, language, lines and trimmed parts",
     "A raw element starts with one or at least three backticks and ends at the next run of as many (two backticks are an empty one); without an end it is an error covering the rest. "
     "Inline raw text keeps every character, one text per line. A raw block takes an identifier right behind its opening as language tag, drops a blank first and last line, strips one space before the rest of the first line and one behind a final backtick, and dedents the other lines by their smallest indentation in characters, counting the last line and no blank one; all that is dropped is kept in the tree as trimmed text.",
     ["inputs"], "all raw elements; explored: all contents up to the bound over 14 characters, longer ones over 4, and all blocks of up to 4 or 5 line forms",
     "no test parses raw text with more than one line",
     [S + "lexer.go"], [("raw blocks and inline raw text", S + "lexer.go")],
     "exhaustive enumeration of raw elements against a reference splitter",
     "the reference splitter follows the documentation of raw blocks; identifiers follow Unicode classes for the explored characters.")
prop("C16", "The typed view gives exactly the parts of every construct",
     "A node of a kind casts to the typed node of that kind, to the sum types it belongs to (expression, pattern, argument, parameter, item) and to nothing else, and leads back to the same node. "
     "For a text without syntax errors the accessors of a typed node give exactly the parts of the construct, wherever spaces and comments stand: bodies, operands, operators, names, keys, arguments, parameters, patterns with the names they bind, initializers, conditions, branches, selectors, import sources, items and names, heading depths, list numbers, raw lines and languages. "
     "Literals have the value they denote: integers in every base (0 beyond 64 bits), floats and numbers with units rounded once and infinite when out of range, strings and escapes with every escape sequence resolved and sequences that name no character left as they are. For any text at all the accessors return without a panic.",
     ["inputs"], "all texts and all kinds; explored: every kind against every typed node, all grammar derivations of depth 2 (thorough 3), short words over markup and argument lists, short numbers and strings, boundary values",
     "the one test casts one default expression",
     [S + "ast.go", S + "ast_node.go"], [("accessors", S + "ast.go"), ("casts", S + "ast_node.go")],
     "exhaustive enumeration of derivations, literals and kinds against a positional reference view",
     "math nodes are also built by hand, where an accessor needs a shape the parser does not give.")
prop("C17", "Highlighting tags every node by kind and context and keeps the text",
     "Highlighting any tree to HTML yields the source text, escaped, with each node wrapped in exactly the class its kind prescribes (comment, punctuation, escape, keyword, operator, number, string, markup elements); nodes without class, errors, and the star, equals or underscore that merely delimit strong content or headings are not wrapped. "
     "An identifier is a function directly before an argument list, parameter list or content block and beside a show rule's colon, interpolated (with its fields) behind a hash, and otherwise as the identifier before its dot; a hash is tagged like the first leaf of the expression it introduces, a term like a term if its colon follows.",
     ["inputs"], "all trees; explored: the trees of all bounded texts and grammar derivations, every kind below every kind, all short sequences around identifiers",
     "the tests highlight three texts and never produce HTML",
     [S + "highlight.go", S + "node.go"], [("tag by kind, parent, sibling and neighbouring leaves", S + "highlight.go")],
     "exhaustive enumeration of trees against a reference highlighter working on a flat node list",
     "trusts the class table transcribed from the Typst reference." + MATH)
prop("C18", "Navigating a parsed tree gives true positions and neighbours",
     "From the root, children iterated in either direction, parents, siblings and leaves are the tree's own nodes with their true byte range, index and parent. "
     "Previous and next sibling skip exactly whitespace and comments; previous, next, leftmost and rightmost leaf are the nearest leaf nodes that are no whitespace, comment or error; the leaf before (after) a position inside the text holds the byte before (after) it, and beyond the text there is none. "
     "Finding a span below a node gives the node carrying it if it lies there, and nothing otherwise.",
     ["inputs"], "all trees, nodes, positions and spans; explored: every node, position and span of the tree of every text of the bounded families",
     "no test navigates a tree",
     [S + "node.go"], [("linked nodes computed from parent, index and offset", S + "node.go")],
     "exhaustive enumeration of trees, and of every navigation step from every node, against a reference pre-order list",
     "the leaf before position 0 is left open (upstream's answer depends on empty nodes)." + MATH)
prop("C19", "Package specifications and versions parse and print consistently",
     "A text is accepted as a package specification exactly if it reads @namespace/name:major.minor.patch with identifiers and three 32-bit decimal numbers, and as a versionless one exactly if it reads @namespace/name; anything else is an error, not a panic. "
     "The parsed parts are those of the text, and printing a specification and parsing it again gives the same one.",
     ["inputs"], "all texts; explored: all words over the relevant characters and all combinations of edge-case namespaces, names, separators and versions",
     "the tests parse a handful of versions only",
     [S + "package.go", "internal/scanner/scanner.go"], [("specification and version parsers", S + "package.go")],
     "exhaustive enumeration of texts against a reference recogniser, round trip",
     "identifiers follow the Unicode identifier rules for the explored characters.")
prop("C20", "Version bounds and package manifests are judged by version order",
     "A version compares with a bound component by component, ignoring components the bound omits: for every version and bound exactly one of equal, greater and less holds, and greater-or-equal and less-or-equal are their unions. "
     "A manifest is accepted for a package exactly if name and version agree and the current compiler satisfies its compiler bound, and a manifest text yields exactly the package and template fields it states or an error.",
     ["inputs"], "all versions, bounds and manifests; explored: all component combinations over boundary values, all name/version/bound combinations, all short version texts",
     "the tests compare a dozen pairs",
     [S + "package.go"], [("bound matching", S + "package.go"), ("manifest validation", S + "package.go")],
     "exhaustive enumeration over boundary values against a reference order",
     "TOML syntax itself is the library's business.")
prop("C21", "File ids name package and path one to one, from any goroutine",
     "For every package and normalised path there is exactly one file id, whoever asks for it, how often and in which order; different packages or paths have different ids, and an id made for an unnamed (fake) file is never handed out again, not even for the same path. "
     "An id stands for its package and path for ever, also through joining and changing the extension, and whatever the caller does with the values it passed in or got back. When all 65535 ids are used, asking for a new one panics while existing ids and files stay usable. "
     "All of this holds for concurrent callers: no schedule yields two ids for one file, one id for two files, a wrong lookup, a deadlock or an access to the table that no lock orders.",
     ["inputs", "histories", "schedules"], "all histories and schedules; explored: all histories of up to 3 operations over 52 and up to 5 (thorough 6) over 15, every schedule of 2 or 3 goroutines with at most 2 or 3 (thorough 3 or 4) preemptions at statement granularity, exhaustion of all ids",
     "no test makes two ids of one file or runs two goroutines",
     [S + "file.go"], [("interner", S + "file.go")],
     "stateless exploration of all preemption-bounded schedules of the real code under a controlled scheduler, and exhaustive histories against a reference map",
     "mutexes are modelled, statements are atomic, and a happens-before check over the modelled locks covers what happens inside them.")
prop("C22", "Virtual paths are absolute, normalised and never leave the root",
     "Every virtual path is absolute and normalised: no empty, `.` or `..` segments, whatever it was made from, and never outside the root. "
     "Resolving a path relative to a file starts at the file's directory, a rooted path starts at the root of the same project or package, and changing the extension changes nothing else (leading dots start no extension, and the root has none); file identifiers and spans resolve the same way.",
     ["inputs"], "all paths; explored: all pairs of paths up to 4 segments over names, `.`, `..` and empty segments",
     "no test touches virtual paths",
     [S + "path.go", S + "file.go", S + "span.go"], [("path normalisation and joining", S + "path.go")],
     "exhaustive enumeration of pairs of paths against a reference segment stack",
     "slash-separated paths only.")
prop("C23", "The tree walker visits every node once and prunes exactly",
     "Walking a tree calls the visitor for every node exactly once, parents before children and siblings in source order, whatever form the root is given in. "
     "If the visitor returns false, exactly the descendants of that node are left out, and the walk goes on behind it.",
     ["inputs", "histories"], "all trees and all sets of pruned nodes; explored: all token words up to the bound, every single node, every pair, every subset of small trees, 5 root forms at every node, every node shared",
     "no test walks a tree",
     ["typst/cstwalk/cstwalk.go"], [("recursive walk", "typst/cstwalk/cstwalk.go")],
     "exhaustive enumeration of trees and pruning choices against a reference pre-order",
     "trees come from the parser.")
prop("C24", "Syntax sets contain exactly what was put in, and kinds are classified exactly",
     "A set of syntax kinds built by any sequence of construction, insertion, union and cloning contains exactly the kinds put into it, for every kind, and making a set never changes the sets it was made from. "
     "The predefined sets (statements, code and atomic expressions, primaries, unary and binary operators, arguments, parameters, patterns and so on) contain exactly the kinds that can start or form those constructs in the language. "
     "Each kind has the name of its construct or token and is a keyword, trivia, grouping, a terminator, a block, a statement or an error exactly if its nodes are.",
     ["inputs", "histories"], "all histories of set operations; explored: every pair of kinds, every history of up to 3 or 4 operations on all sets made so far over boundary kinds, every kind, the nodes of all words of up to 3 tokens in markup and code",
     "the one test checks a few memberships of one set",
     [S + "set.go", S + "kind.go"], [("bit set with copies", S + "set.go")],
     "exhaustive exploration of operation histories against plain maps",
     "the contents of the predefined sets are transcribed from the Typst reference.")
prop("C29", "Math groups scripts, fractions, roots, delimiters and calls as the language does",
     "An equation parses without error exactly when it is well-formed, to the structure the language gives it: sub- and superscripts and primes bind tighter than roots, and roots tighter than fractions, which associate to the left; a script takes the other script of the same base, and a nested one of its own kind; a factorial and primes belong to what they directly follow. "
     "Parentheses around a whole operand of a fraction, root or script only group. Delimiters pair with the next closing one of any kind and stay ordinary characters where unmatched; a letter, identifier or string directly before one forms a unit with it. "
     "An identifier or field access directly before a parenthesis is a call, whose arguments are separated by commas, merged to rows by semicolons, named by an identifier and colon (once each) or spread by two dots; whitespace and comments change nothing but adjacency.",
     ["inputs"], "all equations with embedded identifiers; explored: all words over 45 math tokens up to length 3 (thorough 4), over 14 smaller alphabets up to length 5 or 6 (7 or 8), and 24 one-hole contexts nested up to 3 (4) times, and every character of Unicode that stands alone",
     "no test can parse math: the character class table it needs is a stub in the test build",
     [S + "parser.go", S + "lexer.go"], [("precedence climbing over math operators", S + "parser.go"), ("math arguments", S + "parser.go"), ("math tokens", S + "lexer.go")],
     "bounded exhaustive enumeration of equations against the real parser, compared with a strict reference parser",
     "embedded code beyond a single name is out of scope, and so are cases the language reference does not lay down (a root as a script, a factorial of primes); attachments that attach nothing are taken as their base." + MATH)
prop("C28", "Separate texts, trees and sources never affect each other",
     "The result of parsing, editing, replacing, highlighting, converting positions or reading errors depends on nothing but the operation's own inputs: after any sequence of other operations on other texts it is what it is alone, and results obtained earlier stay as they were. "
     "The same holds when the operations run in different goroutines: no schedule changes a result, panics, deadlocks or touches package-level state without a lock that orders the accesses.",
     ["histories", "schedules", "inputs"], "all histories and schedules of operations on separate values; explored: all pairs of 90 operations and all short sequences of 12 in order, and pairs in two goroutines with one preemption at every function entry",
     "every test runs one operation on one text in one goroutine",
     [S + "parser.go", S + "lexer.go", S + "reparser.go", S + "highlight.go", S + "node.go"], [("parser and lexer state", S + "parser.go"), ("package-level tables", S + "kind.go")],
     "stateless exploration of all preemption-bounded schedules of the real code under a controlled scheduler, and exhaustive histories compared with each operation alone",
     "preemption points are function entries and statements that touch package variables; the happens-before check covers accesses in between." + MATH)
prop("C25", "parse-typ prints exactly the tree of every file",
     "For every list of files parse-typ prints, file by file in the order given, one line per node of the file's syntax tree in preorder, indented by depth, with the kind and the quoted text of a leaf, the kind of an inner node, the text and message of an error. "
     "The output can be read back without ambiguity: the texts joined are the file, and no two kinds share a name. At a file that cannot be read it stops with a message and a failure status, after the complete output of the files before; it changes no file.",
     ["inputs"], "all lists of files; explored: all texts of the bounded families, in batches, and all lists of up to 4 (thorough 5) files that are good, empty, erroneous, missing or directories",
     "no test runs a command",
     ["cmd/parse-typ/main.go", S + "node.go", S + "kind.go"], [("tree printing", S + "node.go")],
     "bounded exhaustive enumeration of inputs to the real program, its output read back and compared with the tree",
     "the tree itself is judged by the other properties." + MATH)
prop("C26", "update-typ changes exactly the outdated package imports",
     "After update-typ the project's files are as before except that each package import or include names the newest installed version, where that is newer than the one named; nothing else in them changes, however the import is written, and comments, strings and other expressions that look like imports stay. "
     "With an output directory exactly the main file and the local files reachable from it by imports and includes of literal paths are written there and the project is left alone; in place, only they change. Packages are never changed, but each outdated import in the files of the packages used, directly or not, is reported. "
     "The tool ends for every import graph, cycles included, without a panic; it fails exactly when a file or package in use is missing.",
     ["inputs", "histories"], "all projects and package collections; explored: all sets of 6 (thorough 8) installed versions, all pairs of import statements and of other entries, graphs of 3 files and of 5 packages",
     "no test runs a command",
     ["cmd/update-typ/main.go", "typst/cstwalk/cstwalk.go", S + "package.go"], [("import rewriting", "cmd/update-typ/main.go")],
     "bounded exhaustive enumeration of projects and package collections, the real program run on each and the file system compared with a model",
     "each package name is in one namespace only (what happens across namespaces is not laid down), paths stay inside the root or fail, and files are written as this check's statements." + MATH)
prop("C27", "offline-typ makes a complete copy that uses no package",
     "After offline-typ the output directory holds exactly the main file, the local files reachable from it by imports and includes of literal paths, the files that image, read, plugin and bibliography (or its set rule, its style included) name by a literal path, the given font directories, and the same of every package used, directly or not, below /libs/<name>/<version>. "
     "Typst files in it are as the originals except that each package import or include names the entry file of the package's copy, that an import of a package gets the package's name unless it has one already, and that absolute paths within a package point into its copy; all other files are the same byte for byte. "
     "The project and the packages are left alone; the tool ends for every import graph, cycles included, without a panic, and fails exactly when a file, package or font directory in use is missing or outside of the root.",
     ["inputs", "histories"], "all projects and package collections; explored: all pairs of statements, graphs of 3 files and of 4 packages, all pairs of font directories",
     "no test runs a command",
     ["cmd/offline-typ/main.go", "typst/cstwalk/cstwalk.go", S + "package.go"], [("offline copies", "cmd/offline-typ/main.go")],
     "bounded exhaustive enumeration of projects and package collections, the real program run on each and the file system compared with a model",
     "no two namespaces have the same name and version of a package (their copies would be one), font directories are relative, and files are written as this check's statements." + MATH)
prop("C30", "Scanner, containers and character helpers keep their contracts",
     "A scanner's cursor is always at a character boundary of its text; each query gives what its documentation says of the characters around the cursor and does not move it, each eating operation consumes exactly the text it returns or matches, an offset past the end stands for the end and one within a character for its start, and a clone moves on its own. "
     "Stacks and vectors behave as sequences under every history of operations, and a slice drained from or appended to a vector is a copy; an option holds the value it was made of or none; ranges, powers of two, character classes and the overrides of math classes are as documented.",
     ["histories", "inputs"], "all texts, cursors and operation histories; explored: all texts of up to 4 (thorough 6) characters of 1 to 4 bytes with every reachable cursor, all operation sequences up to the bounds in the evidence, every code point",
     "only the stack has tests, a few fixed calls; most of the scanner's operations are never called on characters of several bytes or at the limits of the text",
     ["internal/scanner/scanner.go", "internal/stack/stack.go", "internal/vector/vector.go", "internal/option/option.go", "internal/ranges/ranges.go", "internal/mathx/mathx.go", "internal/stdx/stdx.go", "internal/typutil/typutil.go"],
     [("cursor and boundary checks", "internal/scanner/scanner.go"), ("sequences", "internal/vector/vector.go")],
     "exhaustive exploration of all reachable scanner states and of all bounded operation sequences on the real code against reference models",
     "eating while an empty pattern matches is left out (it has no end by definition), as is inserting, draining or truncating outside of a vector.")
prop("C31", "Edits reparse locally and leave the other nodes alone",
     "An edit strictly within a code or content block that stays well-formed reparses nothing outside that block. As long as brackets stay paired, the markup expressions reparsed are bounded in proportion to those that the edit changes, wherever it happens and however long the text around them is. "
     "In texts that are not nested so deep that span numbers run short, every node before, behind or around the reported range keeps its span, so that spans held by the caller still name the same nodes.",
     ["inputs", "histories"], "all texts and edits; explored: every edit of every short text and document, and every small text at the start, in the middle, at the end and in a block of long texts",
     "the tests check for a few edits whether the reparse was incremental; none counts what was reparsed or compares spans",
     [S + "reparser.go", S + "node.go", S + "source.go"], [("reparse of the smallest safe block or markup range", S + "reparser.go"), ("renumbering of replaced children only", S + "node.go")],
     "exhaustive enumeration of edits and short edit histories on the real source; trees before and after compared node by node",
     "bound checked: at most 3 times the changed expressions plus 12, trivia, errors and separators not counted; texts with unpaired brackets and trees more than 20 levels deep are exempt from the respective part." + MATH)
