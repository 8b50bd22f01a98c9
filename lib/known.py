#!/usr/bin/env python3
"""Rewrites the fixed entries of known-findings.txt (commit ids from /repo's
log); entries with a case stay as they are."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = [
 ("treat U+FFFD as a code point", "C04", "a replacement with U+FFFD at a boundary of the common prefix or suffix was cut inside or rejected as no character boundary"),
 ("keep the source text when an inner node becomes", "C01", "an inner node turned into an error node lost its text: `#(a) = ` and the like no longer reproduced the source"),
 ("lex a lone minus in code", "C14", "`-` in code was lexed as `-=`"),
 ("casting a node that is no expression", "C02", "a node that is no expression cast to Expr: nil dereference"),
 ("incrementally reparse markup only at the top", "C03", "editing inside strong, emphasis, headings or items reparsed them as plain markup: tree differed from a fresh parse"),
 ("accept a reparsed block only when", "C03", "the result of replacing a reparsed block was interpreted the wrong way round"),
 ("stop renumbering replaced children", "C07", "children were renumbered again after renumbering had succeeded, numbers left the parent's range"),
 ("recompute erroneous from the children", "C03", "erroneous flag stayed stale after children were replaced"),
 ("report when a subtree cannot be numbered", "C07", "numbering a subtree in a range too small panicked or left nodes without numbers"),
 ("never cut a reparsed segment between a hash", "C03", "an edit behind `#` cut the segment between the hash and its expression"),
 ("end the common prefix and suffix", "C04", "replacing a text by one of which it is a prefix or suffix looked beyond the end"),
 ("snap the common suffix", "C04", "the common suffix cut a multi-byte character"),
 ("reject out-of-bounds indices", "C06", "an index beyond the signed range converted to a position instead of being rejected"),
 ("saturate range spans", "C08", "ranges beyond the field saturated to 2^23 and overflowed into the neighbouring field"),
 ("keep line starts right when an edit joins", "C05", "an edit joining or parting CR and LF left a stale line start"),
 ("keep the result of a union", "C24", "the union of two sets was computed and dropped: unary operators could not start expressions (also C09)"),
 ("eat a single character where", "C14", "number suffixes and raw language tags: a character-class pattern ate the whole run"),
 ("lex a number with a trailing dot", "C14", "`1.` at the end of the text was an integer and a stray dot"),
 ("accept float literals that are out of range", "C14", "`1e999` was an invalid number"),
 ("return the kind of math identifiers", "C14", "math identifiers and field accesses were returned with the wrong kind"),
 ("intern files by package and path", "C21", "two identifiers of the same file were never equal; files of the project were never found again"),
 ("normalise virtual paths", "C22", "virtual paths kept `..` and relative forms, rooted paths resolved relative to the file, identifiers printed as pointers"),
 ("give the start offset of children visited in reverse", "C18", "children visited in reverse carried the offset of their end: previous and rightmost leaves had wrong ranges"),
 ("refer to the tree's own node when cloning", "C18", "navigation returned deep copies of the nodes instead of the nodes, at a cost quadratic in the siblings"),
 ("highlight a hash that no expression follows", "C17", "highlighting `#` followed by an error or anything but an expression panicked"),
 ("dedent and trim the lines of raw blocks", "C15", "raw blocks kept their indentation, their first and last blank line and the space behind a language tag"),
 ("report duplicate empty dictionary keys", "C13", "duplicate dictionary keys \"\" were not reported"),
 ("convert syntax nodes to typed AST nodes", "C16", "casting to any typed node but Expr panicked or recursed without end; missing parts were nil instead of placeholders"),
 ("parse the value of decimal integer", "C16", "decimal integers evaluated to 0"),
 ("value and unit of numeric literals", "C16", "floats out of range evaluated to 0; `1e5pt` was split at the wrong place"),
 ("recognize the operator of not-in", "C16", "`a not in b` had the operator `in`"),
 ("detect trailing comma of arguments", "C16", "a trailing comma was reported for any argument list with a comma"),
 ("skip trivia between a keyword", "C16", "conditions of set rules, selectors, iterables and new import names were lost behind the space that follows or precedes the keyword"),
 ("let bindings without initializer", "C16", "`let x` was initialized with x"),
 ("invalid codepoints of unicode escape", "C16", "escapes that name no character evaluated to U+FFFD or worse"),
 ("reject package manifests without", "C20", "a manifest without package section was accepted and its use dereferenced nil"),
 ("ignore syntax errors in import and include", "C26", "update-typ and offline-typ panicked on a syntax error within an import or include statement"),
 ("update-typ keeps versions when no newer", "C26", "update-typ failed or downgraded imports when no newer version of the package is installed"),
 ("update-typ finds linked versions", "C26", "update-typ overlooked versions that are symbolic links, and nested or other directories stopped it"),
 ("update-typ checks the dependencies of the version in use", "C26", "after an update the dependencies of the old version were checked"),
 ("resolve the escape sequences of Typst strings in paths", "C26", "paths and package names with Typst escapes were unquoted by Go's rules: a failure or another file"),
 ("reports a missing package as an error", "C27", "offline-typ panicked on an import of a package that is not installed"),
 ("reports a missing font directory", "C27", "offline-typ panicked on a font directory that does not exist"),
 ("finds the style of a bibliography after", "C27", "offline-typ left out a bibliography's style unless it was the first named argument"),
 ("keeps rewritten files that are also read", "C27", "a file both imported and read was copied over its rewritten version, package imports stayed in the copy"),
 ("keeps absolute paths within a package inside", "C27", "absolute paths in a package's files pointed outside of its copy"),
 ("give multi-character math text no math class", "C29", "a grapheme cluster that starts with a delimiter, such as a parenthesis with an accent, paired like a delimiter; one that starts with a letter formed a unit with a parenthesis behind it"),
 ("treat all characters with the Alphabetic property", "C14", "letter numbers and dependent vowel signs did not count as alphabetic: `*` and `_` within words of many scripts started strong and emphasized text (also C29)"),
 ("find the primes of an attachment directly", "C16", "primes in a script, as in `a_'`, were reported as attached to the base, and those behind a base ended by a semicolon were not"),
 ("an empty equation was not deparenthesized", "C16", "asking an equation without content whether it was in parentheses panicked"),
 ("reparse everything when replaced children cannot", "C07", "after a replacement that found no free numbers, deep in nested blocks, an outer block took the half-replaced tree over: nodes without spans"),
 ("never share interned file specifications", "C21", "an identifier stood for another package or path after the caller changed the specification it had passed in or got back"),
 ("locate the cursor itself", "C30", "the byte position zero characters from the cursor was given as the end of the text"),
 ("a leading dot of a file name", "C22", "changing the extension of `/d/.x` to nothing gave `/d`, and of the root `/.pdf`"),
 ("an include may name a package", "C26", "`#include \"@preview/p:0.1.0\"`: update-typ and offline-typ (C27) took the package for a local file and failed"),
 ("named by way of another directory", "C27", "a package with the entry file `src/../lib.typ` could not be copied"),
]
EXTRA = os.path.join(V, "lib", "known_extra.json")
if os.path.exists(EXTRA):
    WHAT += [tuple(x) for x in json.load(open(EXTRA))]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
p = os.path.join(V, "known-findings.txt")
keep = []
if os.path.exists(p):
    keep = [l for l in open(p) if l.startswith("{")]
used = set()
out = []
for key, prop, what in WHAT:
    hit = [h for h, s in log if s.startswith("fix:") and key in s]
    assert len(hit) == 1, (key, hit)
    used.add(hit[0])
    out.append("fixed: property=%s %s %s\n" % (prop, hit[0], what))
miss = [l for l in log if l[1].startswith("fix:") and l[0] not in used]
assert not miss, miss
open(p, "w").writelines(keep + out)
