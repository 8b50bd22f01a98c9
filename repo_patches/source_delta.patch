From 6fe249ff3ff8318eb9e0dc735ee72b9ae323fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 01/56] fix: treat U+FFFD as a code point in IsCharBoundary

---
 internal/stdx/stdx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..7f5f128 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -22,8 +22,9 @@ func IsCharBoundary(str string, index uint) bool {
 	if index == 0 || index == uint(len(str)) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	// NOTE: an encoded U+FFFD (3 bytes) is a proper code point.
+	c, size := utf8.DecodeRuneInString(str[index:])
+	return c != utf8.RuneError || size > 1
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From b656175c0b5b4abc44536f85e00483175faba6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 02/56] fix: keep the source text when an inner node becomes an
 error node

---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From b5f26dd69ab290db512257114b2d66b51aaaee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 03/56] fix: lex a lone minus in code as minus, not as -=

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..5443436 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From 909356b6360580a36511b07d8425f2dab4a8fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 04/56] fix: casting a node that is no expression to Expr
 yields none instead of a nil dereference

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..13ed6c2 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -134,6 +134,7 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 		if expr, ok := Expr_from_untyped(node).Get(); ok {
 			return option.Some[T](expr.(T))
 		}
+		return option.None[T]()
 	}
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
-- 
2.43.0


From bebfb093a5b2ea4c5864ac9a3b5c4f74a869ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 05/56] fix: incrementally reparse markup only at the top level
 and in content blocks

---
 typst/syntax/reparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..0d4750d 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -111,7 +111,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
-- 
2.43.0


From 0058faee995d188d70425f152f8556f784abe511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 06/56] fix: accept a reparsed block only when its replacement
 succeeded

---
 typst/syntax/reparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 0d4750d..3c940ad 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -80,7 +80,7 @@ func try_reparse(
 			// If the child is a block, try to reparse the block.
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
-					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
+					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err == nil {
 						return option.Some(new_range)
 					}
 				}
-- 
2.43.0


From 56699d383aae206599691905bd4b19e2bbf26137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 07/56] fix: stop renumbering replaced children once it
 succeeded

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..4f176ea 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -713,7 +713,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
-- 
2.43.0


From 3a9fb01ba2ead0b9354d60e75fc4c4b924d39c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 08/56] fix: recompute erroneous from the children that stay
 when children are replaced

---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 4f176ea..8da8c1a 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -655,12 +655,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
-- 
2.43.0


From 9cd9f8b7a491823ad74e7747408060cee5a12dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 09/56] fix: report when a subtree cannot be numbered

---
 typst/syntax/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 8da8c1a..ade0ec1 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,7 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		return repr.numberize(id, option.None[ranges.Range](), within)
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
@@ -568,7 +568,9 @@ func (node *InnerNode) numberize(id FileID, _range option.Option[ranges.Range],
 	}
 	for _, child := range node.Children[_range_start:_range_end] {
 		end := start + uint64(child.descendants())*stride
-		child.numberize(id, ranges.NewRange(start, end))
+		if err := child.numberize(id, ranges.NewRange(start, end)); err != nil {
+			return err
+		}
 		start = end
 	}
 
-- 
2.43.0


From de74c2a8caf52ec7d4ccec9c295433a375c0c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 10/56] fix: never cut a reparsed segment between a hash and
 its expression

---
 typst/syntax/reparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 3c940ad..bb07136 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -131,8 +131,8 @@ func try_reparse(
 		}
 
 		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
-			end++
+		for end < uint(len(children)) && (expand(children[end]) || children[end-1].kind() == SyntaxKindHash) {
+			end++ // A hash is never separated from its expression.
 		}
 
 		// Also take hash.
-- 
2.43.0


From e3e5b9278802d37650dc9c15d18c03b85d547ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 11/56] fix: end the common prefix and suffix of a replacement
 at the first difference

---
 typst/syntax/lines.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..1b91def 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -229,9 +229,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	n := min(len(old), len(new))
 	prefix := 0
 	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
+		if old[i] != new[i] {
+			break
 		}
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -240,9 +241,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	suffix := 0
 	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
+		if old[i] != new[j] {
+			break
 		}
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-- 
2.43.0


From 4fd8aa7f042d4fdc60dc4619ec4765663140115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 12/56] fix: snap the common suffix of a replacement inwards to
 a character boundary

---
 typst/syntax/lines.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 1b91def..1328048 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -248,7 +248,7 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From 099512ba7451207ca6f48a28e7687ee85cd891ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 13/56] fix: reject out-of-bounds indices beyond the signed
 range

---
 typst/syntax/lines.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 1328048..3fc7399 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -184,7 +184,7 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 	}
 	line := l.Text[r.Start:r.End]
 	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
+	if columnIdx > uint(len(chars)) {
 		return 0, false
 	}
 	head := string(chars[:columnIdx])
-- 
2.43.0


From d305183b351afd9188169116091a23a89b5840ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 14/56] fix: saturate range spans at the largest value that
 fits their field

---
 typst/syntax/span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/span.go b/typst/syntax/span.go
index e478289..fb757eb 100644
--- a/typst/syntax/span.go
+++ b/typst/syntax/span.go
@@ -36,7 +36,7 @@ const (
 	rangePartShift = rangePartBits
 	rangePartMask  = (uint64(1) << rangePartBits) - 1
 	spanDetached   = 1
-	maxRangePart   = uint64(1) << rangePartBits
+	maxRangePart   = (uint64(1) << rangePartBits) - 1
 )
 
 var (
-- 
2.43.0


From b1be15c204f50489c90050ee132ffdae7afba21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 15/56] fix: keep line starts right when an edit joins or parts
 a carriage return and a line feed

---
 typst/syntax/lines.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 3fc7399..5980951 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -262,6 +262,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 // The method panics if the replace range is out of bounds.
 func (l *Lines) Edit(replace ranges.Range, with string) {
 	startByte := uint(replace.Start)
+	// Handle adjoining and parting of \r and \n by rescanning from the \r.
+	if strings.HasSuffix(l.Text[:startByte], "\r") {
+		startByte--
+	}
 	startUtf16, ok := l.ByteToUtf16(startByte)
 	if !ok {
 		panic("invalid byte index in replace range")
@@ -277,11 +281,6 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
-	}
-
 	// Recalculate the line starts after the edit.
 	newLines := linesFrom(startByte, startUtf16, l.Text[startByte:])
 	l.Lines = append(l.Lines, newLines...)
-- 
2.43.0


From 5fa71071d56cb68d6083b886a80b85d98495c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 16/56] fix: keep the result of a union of syntax sets

---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From f8174a0b7debe993f31345c8b6499bce808de830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 17/56] fix: eat a single character where the pattern is a
 character class

---
 internal/scanner/scanner.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..30931d0 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -227,28 +227,20 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the given pattern (a character that satisfies cond) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := 0
-	for _, c := range after {
-		if !cond(c) {
-			break
-		}
-		n += utf8.RuneLen(c)
-	}
-	if n == 0 {
+	if !s.AtFunc(cond) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.Eat()
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the given pattern (any of the given characters) if that's
+// what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
-- 
2.43.0


From c428f07620d1ac1195184b7ca3e2cce9f1ace341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 18/56] fix: lex a number with a trailing dot at the end of the
 text as a float

---
 typst/syntax/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 5443436..a2b5510 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,12 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
+			if c, ok := lexer.s.Scout(1); !ok || !is_id_start(c) {
+				if lexer.s.EatIf(".") {
+					is_float = true
+					lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 				}
 			}
 		}
-- 
2.43.0


From 0902c689712d323da7fbd17d4686a5df7097625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 19/56] fix: accept float literals that are out of range

---
 typst/syntax/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a2b5510..65a98b9 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1436,7 +1436,8 @@ func GraphemeLen(str string) (int, bool) {
 
 func valid_float(str string) bool {
 	_, err := strconv.ParseFloat(str, 64)
-	return err == nil
+	// An out-of-range number is infinite, not malformed.
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func valid_uint(str string) bool {
-- 
2.43.0


From 50f64a2f63085efcf2a813365e15685ee1a427ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 20/56] fix: return the kind of math identifiers and field
 accesses from the lexer

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 65a98b9..8af0cc4 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -133,7 +133,7 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
+					return k, node
 				} else {
 					kind = k
 				}
-- 
2.43.0


From 961885fe342e4ae3d2115359ae8da5cf5bc9b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 21/56] fix: intern files by package and path instead of by
 pointer

---
 typst/syntax/file.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..e7212c3 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,23 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey identifies a Pair by value.
+type pairKey struct {
+	hasSpec bool
+	spec    PackageSpec
+	path    string
+}
+
+// key returns the identity of the pair.
+func (pair Pair) key() pairKey {
+	key := pairKey{path: pair.VPath.Path}
+	if spec, ok := pair.Spec.Get(); ok {
+		key.hasSpec = true
+		key.spec = *spec
+	}
+	return key
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -43,10 +60,14 @@ func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
 	pair := Pair{Spec: spec, VPath: vpath}
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	key := pair.key()
+	if id, ok := interner.toID[key]; ok {
 		return id
 	}
-	return pushPair(pair)
+	// NOTE: "fake" file specifications are not added to the map.
+	id := pushPair(pair)
+	interner.toID[key] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -58,11 +79,6 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
 	interner.fromID = append(interner.fromID, pair)
 	return id
 }
-- 
2.43.0


From 00498d6ae44087c62678eef6ab421214e53d8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 22/56] fix: normalise virtual paths and resolve rooted paths
 from the root

---
 typst/syntax/path.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..68ffe22 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -14,12 +14,15 @@ type VirtualPath struct {
 // starting from the root.
 func NewVirtualPath(path string) *VirtualPath {
 	return &VirtualPath{
-		Path: path,
+		Path: filepath.Clean("/" + path),
 	}
 }
 
 // Join resolves a path relative to this virtual path.
 func (vpath *VirtualPath) Join(path string) *VirtualPath {
+	if filepath.IsAbs(path) {
+		return NewVirtualPath(path) // relative to the root of the project or package
+	}
 	dir := filepath.Dir(vpath.Path)
 	new_path := filepath.Join(dir, path)
 	return NewVirtualPath(new_path)
@@ -32,3 +35,8 @@ func (vpath *VirtualPath) WithExtension(extension string) *VirtualPath {
 	new_path := name + extension
 	return NewVirtualPath(new_path)
 }
+
+// String returns a string representation of the virtual path.
+func (vpath *VirtualPath) String() string {
+	return vpath.Path
+}
-- 
2.43.0


From 8021c07aadf4fc6265703e9007ede5b16596544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 23/56] fix: reject package manifests without a package section

---
 typst/syntax/package.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 329f1a6..9c83cd3 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -35,6 +35,9 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if err := toml.Unmarshal([]byte(content), manifest); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil {
+		return nil, errors.New("package manifest is missing field `package`")
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From 0800c022650dbf18dfc6f91787db6be5e8700fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 24/56] fix: give the start offset of children visited in
 reverse

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index ade0ec1..a19b93b 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1199,8 +1199,8 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
+			offset := l.back
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
-- 
2.43.0


From 54702047910935760d0c35cadf8b57894d291227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 25/56] fix: refer to the tree's own node when cloning a linked
 node

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index a19b93b..318e686 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -939,7 +939,7 @@ func (link *LinkedNode) find(span Span) (*LinkedNode, bool) {
 
 func (link *LinkedNode) clone() *LinkedNode {
 	return &LinkedNode{
-		node:   link.node.clone(),
+		node:   link.node,
 		parent: link.parent.Clone(), // TODO: implement deep clone?
 		index:  link.index,
 		offset: link.offset,
-- 
2.43.0


From fd1343f431b894e9d8ac3459631625cb6f1e738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 26/56] fix: highlight a hash that no expression follows

---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From 4e83f54127f9604b185977499fdde05e880594f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 27/56] fix: dedent and trim the lines of raw blocks

---
 typst/syntax/lexer.go | 121 ++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 70 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 8af0cc4..b038976 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -421,82 +421,63 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	lines := split_newlines(lexer.s.To(inner_end))
 
 	// Determine dedent level.
-	// TODO: figure out how to handle.
-	const dedent = 0 // TODO: remove
-	/*
-		dedent := lines
-			.iter()
-			.skip(1)
-			.filter(|line| !line.chars().all(stdx.IsWhitespace))
-			// The line with the closing ``` is always taken into account
-			.chain(lines.last())
-			.map(|line| line.chars().take_while(|c| c.is_whitespace()).count())
-			.min()
-			.unwrap_or(0);
-	*/
-
-	// TODO: figure out how to handle.
-	/*
-		// Trim whitespace from the last line. Will be added as a `RawTrimmed`
-		// kind by the check for `lexer.s.cursor() != inner_end` below.
-		if lines.last().is_some_and(|last| last.chars().all(stdx.IsWhitespace)) {
-			lines.pop();
-		} else if let Some(last) = lines.last_mut() {
-			// If last line ends in a backtick, try to trim a single space. This
-			// check must happen before we add the first line since the last and
-			// first lines might be the same.
-			if last.trim_end().ends_with('`') {
-				*last = last.strip_suffix(' ').unwrap_or(last);
-			}
+	//
+	// The line with the closing ``` is always taken into account.
+	last := len(lines) - 1
+	dedent := -1
+	for i, line := range lines {
+		trimmed := strings.TrimLeftFunc(line, stdx.IsWhitespace)
+		if i != last && (i == 0 || len(trimmed) == 0) {
+			continue
 		}
+		n := utf8.RuneCountInString(line[:len(line)-len(trimmed)])
+		if dedent < 0 || n < dedent {
+			dedent = n
+		}
+	}
 
-		let mut lines = lines.into_iter();
+	// Trim whitespace from the last line. Will be added as a `RawTrimmed`
+	// kind by the check for `lexer.s.Cursor() < inner_end` below.
+	if trimmed := strings.TrimRightFunc(lines[last], stdx.IsWhitespace); len(trimmed) == 0 {
+		lines = lines[:last]
+	} else if strings.HasSuffix(trimmed, "`") {
+		// If last line ends in a backtick, try to trim a single space. This
+		// check must happen before we add the first line since the last and
+		// first lines might be the same.
+		lines[last] = strings.TrimSuffix(lines[last], " ")
+	}
 
-		// Handle the first line: trim if all whitespace, or trim a single space
-		// at the start. Note that the first line does not affect the dedent
-		// value.
-		if let Some(first_line) = lines.next() {
-			if first_line.chars().all(stdx.IsWhitespace) {
-				scanner_advance(lexer.s, first_line.len())
+	for i, line := range lines {
+		if i == 0 {
+			// Handle the first line: trim if all whitespace, or trim a single
+			// space at the start. Note that the first line does not affect the
+			// dedent value.
+			line_end := lexer.s.Cursor() + uint(len(line))
+			if len(strings.TrimLeftFunc(line, stdx.IsWhitespace)) == 0 {
 				// This is the only spot we advance the scanner, but don't
-				// immediately call `push_raw`. But the rest of the function
-				// ensures we will always add this text to a `RawTrimmed` later.
-				debug_assert!(lexer.s.cursor() != inner_end);
-				// A proof by cases follows:
-				// # First case: The loop runs
-				// If the loop runs, there must be a newline following, so
-				// `cursor != inner_end`. And if the loop runs, the first thing
-				// it does is add a trimmed element.
-				// # Second case: The final if-statement runs.
-				// To _not_ reach the loop from here, we must have only one or
-				// two lines:
-				// 1. If one line, we cannot be here, because the first and last
-				//    lines are the same, so this line will have been removed by
-				//    the check for the last line being all whitespace.
-				// 2. If two lines, the loop will run unless the last is fully
-				//    whitespace, but if it is, it will have been popped, then
-				//    the final if-statement will run because the text removed
-				//    by the last line must include at least a newline, so
-				//    `cursor != inner_end` here.
-			} else {
-				let line_end = lexer.s.cursor() + first_line.len();
-				if lexer.s.EatIf(" ") {
-					// Trim a single space after the lang tag on the first line.
-					push_raw(SyntaxKindRawTrimmed, &lexer.s);
-				}
-				// We know here that the rest of the line is non-empty.
-				lexer.s.jump(line_end);
-				push_raw(SyntaxKindText, &lexer.s);
+				// immediately call `push_raw`. This text is added to the next
+				// `RawTrimmed`.
+				lexer.s.Jump(line_end)
+				continue
+			}
+			if lexer.s.EatIf(" ") {
+				// Trim a single space after the lang tag on the first line.
+				push_raw(SyntaxKindRawTrimmed, lexer.s)
+			}
+			// We know here that the rest of the line is non-empty.
+			lexer.s.Jump(line_end)
+			push_raw(SyntaxKindText, lexer.s)
+			continue
+		}
+		// Add inner lines.
+		offset, n := uint(len(line)), 0
+		for pos := range line {
+			if n == dedent {
+				offset = uint(pos)
+				break
 			}
+			n++
 		}
-	*/
-	// Add lines.
-	for _, line := range lines {
-		// TODO: figure out how to handle.
-		const offset = 0 // TODO: remove
-		/*
-			offset := line.chars().take(dedent).map(char::len_utf8).sum()
-		*/
 		eat_newline(lexer.s)
 		scanner_advance(lexer.s, offset)
 		push_raw(SyntaxKindRawTrimmed, lexer.s)
-- 
2.43.0


From 93a5ff64d340fc5738a9cf9845911db865341391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 28/56] fix: report duplicate empty dictionary keys

---
 typst/syntax/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..831ce88 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1304,16 +1304,16 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 			pair_kind = SyntaxKindKeyed
 		}
 
-		var key string
+		key := option.None[string]()
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key = option.Some(expr.get())
 			case *Str:
-				key = expr.get()
+				key = option.Some(expr.get())
 			}
 		}
-		if len(key) > 0 {
+		if key, ok := key.Get(); ok {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From f0a901d1de270d983e7102f1ce0147bd974b6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 29/56] fix: convert syntax nodes to typed AST nodes

---
 typst/syntax/ast.go      | 92 +++++++++++++++++++++++++++++++--------
 typst/syntax/ast_node.go | 93 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 156 insertions(+), 29 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 13ed6c2..98d619a 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -82,6 +82,7 @@ package syntax
 import (
 	"fmt"
 	"path/filepath"
+	"reflect"
 	"slices"
 	"strconv"
 	"strings"
@@ -123,24 +124,67 @@ func SyntaxNode_is[T AstNode](node *SyntaxNode) bool {
 //
 // cast
 func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
-	var zero T
-	//if _, ok := zero.(Expr); ok {
-	//	return Expr_from_untyped(node)
-	//}
-	// HACK: unable to use type assertion with type parameter, so using string
-	// representation hack instead :)
-	type_name := fmt.Sprintf("%T", new(T))
-	if type_name == "*syntax.Expr" {
-		if expr, ok := Expr_from_untyped(node).Get(); ok {
-			return option.Some[T](expr.(T))
-		}
+	n, ok := astFromUntyped[T](node).Get()
+	if !ok {
 		return option.None[T]()
 	}
-	if _n, ok := zero.from_untyped(node).Get(); ok {
-		n := _n.(T)
-		return option.Some[T](n)
+	return option.Some(n.(T))
+}
+
+// astFromUntyped converts the node to the AST type `T`, which is either one of
+// the sum types (interfaces) or a pointer to a node type.
+func astFromUntyped[T AstNode](node *SyntaxNode) option.Option[AstNode] {
+	switch any((*T)(nil)).(type) {
+	case *Expr:
+		if expr, ok := Expr_from_untyped(node).Get(); ok {
+			return option.Some[AstNode](expr)
+		}
+		return option.None[AstNode]()
+	case *ArrayItem:
+		return ArrayItem_from_untyped(node)
+	case *DictItem:
+		return DictItem_from_untyped(node)
+	case *Arg:
+		return Arg_from_untyped(node)
+	case *Param:
+		return Param_from_untyped(node)
+	case *Pattern:
+		return Pattern_from_untyped(node)
+	case *DestructuringItem:
+		return DestructuringItem_from_untyped(node)
+	}
+	// The `from_untyped` methods of node types have value receivers; invoke them
+	// on an allocated value.
+	zero := reflect.New(reflect.TypeFor[T]().Elem()).Interface().(AstNode)
+	return zero.from_untyped(node)
+}
+
+// astDefault returns the placeholder of the AST type `T`.
+func astDefault[T AstNode]() T {
+	var n AstNode
+	switch any((*T)(nil)).(type) {
+	case *Expr:
+		n = Expr_default()
+	case *Pattern:
+		n = Pattern_Normal_default()
+	case **Markup:
+		n = Markup_default()
+	case **Math:
+		n = Math_default()
+	case **Ident:
+		n = Ident_default()
+	case **Code:
+		n = Code_default()
+	case **Args:
+		n = Args_default()
+	case **Params:
+		n = Params_default()
+	case **ImportItemPath:
+		n = ImportItemPath_default()
+	default:
+		panic(fmt.Sprintf("support for default value of %v not yet implemented", reflect.TypeFor[T]()))
 	}
-	return option.None[T]()
+	return n.(T)
 }
 
 // Find the first child that can cast to the AST type `T`.
@@ -175,8 +219,7 @@ func SyntaxNode_cast_first[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_first[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return astDefault[T]() // default value (placeholder).
 }
 
 // Get the last child of AST type `T` or a placeholder if none.
@@ -186,8 +229,7 @@ func SyntaxNode_cast_last[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_last[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return astDefault[T]() // default value (placeholder).
 }
 
 // TODO: move ast_node.go to here.
@@ -1535,6 +1577,10 @@ type DictItem interface {
 	isDictItem()
 }
 
+func (*DictItem_Named) isDictItem()  {}
+func (*DictItem_Keyed) isDictItem()  {}
+func (*DictItem_Spread) isDictItem() {}
+
 // A named pair: `thickness: 3pt`.
 //
 // Named
@@ -2107,6 +2153,10 @@ type Arg interface {
 	isArg()
 }
 
+func (*Arg_Pos) isArg()    {}
+func (*Arg_Named) isArg()  {}
+func (*Arg_Spread) isArg() {}
+
 // A positional argument: `12`.
 //
 // Pos
@@ -2180,6 +2230,10 @@ type Param interface {
 	isParam()
 }
 
+func (*Param_Pos) isParam()    {}
+func (*Param_Named) isParam()  {}
+func (*Param_Spread) isParam() {}
+
 // A positional parameter: `x`.
 //
 // Pos
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 7ba62b2..b89728d 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -1478,12 +1478,22 @@ func FuncReturn_default() *FuncReturn {
 
 // === [ ArrayItem ] ===========================================================
 
+// from_untyped
+func ArrayItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindSpread:
+		return ArrayItem_Spread{}.from_untyped(node)
+	default:
+		return ArrayItem_Pos{}.from_untyped(node)
+	}
+}
+
 // --- [ ArrayItem_Pos ] -------------------------------------------------------
 
 // from_untyped
 func (ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&ArrayItem_Pos{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1509,6 +1519,19 @@ func (node *ArrayItem_Spread) to_untyped() *SyntaxNode {
 
 // === [ DictItem ] ============================================================
 
+// from_untyped
+func DictItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return DictItem_Named{}.from_untyped(node)
+	case SyntaxKindKeyed:
+		return DictItem_Keyed{}.from_untyped(node)
+	case SyntaxKindSpread:
+		return DictItem_Spread{}.from_untyped(node)
+	}
+	return option.None[AstNode]()
+}
+
 // --- [ DictItem_Named ] ------------------------------------------------------
 
 // from_untyped
@@ -1556,6 +1579,18 @@ func (node *DictItem_Spread) to_untyped() *SyntaxNode {
 
 // === [ Arg ] =================================================================
 
+// from_untyped
+func Arg_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return Arg_Named{}.from_untyped(node)
+	case SyntaxKindSpread:
+		return Arg_Spread{}.from_untyped(node)
+	default:
+		return Arg_Pos{}.from_untyped(node)
+	}
+}
+
 // --- [ Arg_Named ] -----------------------------------------------------------
 
 // from_untyped
@@ -1590,8 +1625,8 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Arg_Pos{arg: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1602,6 +1637,18 @@ func (node *Arg_Pos) to_untyped() *SyntaxNode {
 
 // === [ Param ] ===============================================================
 
+// from_untyped
+func Param_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return Param_Named{}.from_untyped(node)
+	case SyntaxKindSpread:
+		return Param_Spread{}.from_untyped(node)
+	default:
+		return Param_Pos{}.from_untyped(node)
+	}
+}
+
 // --- [ Param_Named ] ---------------------------------------------------------
 
 // from_untyped
@@ -1636,8 +1683,8 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&Param_Pos{param: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1648,12 +1695,26 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 
 // === [ Pattern ] ===============================================================
 
+// from_untyped
+func Pattern_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindUnderscore:
+		return Pattern_Placeholder{}.from_untyped(node)
+	case SyntaxKindParenthesized:
+		return Pattern_Parenthesized{}.from_untyped(node)
+	case SyntaxKindDestructuring:
+		return Pattern_Destructuring{}.from_untyped(node)
+	default:
+		return Pattern_Normal{}.from_untyped(node)
+	}
+}
+
 // --- [ Pattern_Normal ] ------------------------------------------------------
 
 // from_untyped
 func (Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Pattern_Normal{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1738,12 +1799,24 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 
 // === [ DestructuringItem ] ===================================================
 
+// from_untyped
+func DestructuringItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return DestructuringItem_Named{}.from_untyped(node)
+	case SyntaxKindSpread:
+		return DestructuringItem_Spread{}.from_untyped(node)
+	default:
+		return DestructuringItem_Pattern{}.from_untyped(node)
+	}
+}
+
 // --- [ DestructuringItem_Pattern ] -------------------------------------------
 
 // from_untyped
 func (DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&DestructuringItem_Pattern{pattern: n})
 	}
 	return option.None[AstNode]()
 }
-- 
2.43.0


From 75a71c12137e00857bc62df1baade53a38cf4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 30/56] fix: parse the value of decimal integer literals

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 98d619a..9e59fbb 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1260,6 +1260,7 @@ func (node *Int) get() int64 {
 		s = strings.TrimPrefix(text, "0b")
 		base = 2
 	default:
+		s = text
 		base = 10
 	}
 	x, err := strconv.ParseInt(s, base, 64)
-- 
2.43.0


From 9757b2cc3b2f0a71d0e462635ed0dc822bbdde10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 31/56] fix: value and unit of numeric literals

---
 typst/syntax/ast.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 9e59fbb..6686bd3 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1282,11 +1282,11 @@ type Float struct {
 func (node *Float) get() float64 {
 	text := node.SyntaxNode.text()
 	x, err := strconv.ParseFloat(text, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		return 0.0 // default
 	}
-	return x
+	return x // ±Inf if out of range.
 }
 
 // --- [ Numeric ] -------------------------------------------------------------
@@ -1299,18 +1299,12 @@ type Numeric struct {
 // Get the numeric value and unit.
 func (node *Numeric) get() (float64, Unit) {
 	text := node.SyntaxNode.text()
-	chars := []rune(text)
-	count := 0
-	for _, c := range slices.Backward(chars) {
-		if stdx.IsAsciiLowercase(c) || c == '%' {
-			count++
-		}
-	}
-	split := len(text) - count
-	value_str := text[:split]
-	unit_str := text[split:]
+	value_str := strings.TrimRightFunc(text, func(c rune) bool {
+		return stdx.IsAsciiLowercase(c) || c == '%'
+	})
+	unit_str := text[len(value_str):]
 	value, err := strconv.ParseFloat(value_str, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		value = 0.0 // default
 	}
-- 
2.43.0


From dd93ec46db271786cd6d36658c54a900656011f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 32/56] fix: recognize the operator of not-in operations

---
 typst/syntax/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 6686bd3..eaf6a2b 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1766,7 +1766,7 @@ type Binary struct {
 func (node *Binary) op() BinOp {
 	not := false
 	for _, child := range node.children() {
-		switch node.kind() {
+		switch child.kind() {
 		case SyntaxKindNot:
 			not = true
 			continue
-- 
2.43.0


From 220ebe89b183591bb76fddf1a310b8810ed3fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 33/56] fix: detect trailing comma of arguments

---
 typst/syntax/ast.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index eaf6a2b..de1e4aa 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2126,17 +2126,14 @@ func (node *Args) items() []Arg {
 func (node *Args) trailing_comma() bool {
 	children := node.children()
 	for i, child := range slices.Backward(children) {
-		if i == 0 {
-			continue // skip first
+		if i == len(children)-1 {
+			continue // skip last (closing parenthesis).
 		}
 		kind := child.kind()
-		// TODO: double-check that conversion from Rust to Go is correct.
 		if kind.IsTrivia() {
 			continue
 		}
-		if kind == SyntaxKindComma {
-			return true
-		}
+		return kind == SyntaxKindComma
 	}
 	return false
 }
-- 
2.43.0


From 0c0e63c6eca00159590114101ed1a4640194cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 34/56] fix: skip trivia between a keyword and the part it
 introduces

---
 typst/syntax/ast.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index de1e4aa..4078688 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1092,7 +1092,9 @@ func (node *MathAttach) bottom() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindUnderscore {
 			found = true
@@ -1106,7 +1108,9 @@ func (node *MathAttach) top() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindHat {
 			found = true
@@ -2503,7 +2507,9 @@ func (node *SetRule) condition() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindIf {
 			found = true
@@ -2525,7 +2531,9 @@ func (node *ShowRule) selector() option.Option[Expr] {
 	found := false
 	for _, child := range slices.Backward(children) {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindColon {
 			found = true
@@ -2631,8 +2639,6 @@ func (node *ForLoop) iterable() Expr {
 		if found {
 			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
 				return expr
-			} else {
-				return Expr_default() // default value
 			}
 		}
 		if child.kind() == SyntaxKindIn {
@@ -2720,7 +2726,9 @@ func (node *ModuleImport) new_name() option.Option[*Ident] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			SyntaxNode_cast[*Ident](child)
+			if ident, ok := SyntaxNode_cast[*Ident](child).Get(); ok {
+				return option.Some(ident)
+			}
 		}
 		if child.kind() == SyntaxKindAs {
 			found = true
-- 
2.43.0


From b76c13bcbfb10e57040ba5d35e1a2990cd9bb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 35/56] fix: let bindings without initializer have no
 initializer

---
 typst/syntax/ast.go | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 4078688..f01d482 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2433,39 +2433,23 @@ func (node *LetBinding) kind() LetBindingKind {
 
 // The expression the binding is initialized with.
 func (node *LetBinding) init() option.Option[Expr] {
-	let := node.kind()
-	switch let := let.(type) {
-	case *LetBindingKind_Normal:
-		pattern := let.pattern
-		switch pattern.(type) {
-		case *Pattern_Normal:
-			// TODO: double-check translation from Rust to Go.
-			var exprs []Expr
+	if let, ok := node.kind().(*LetBindingKind_Normal); ok {
+		switch let.pattern.(type) {
+		case *Pattern_Normal, *Pattern_Parenthesized:
+			// The pattern itself is an expression; locate the second one.
+			i := 0
 			for _, child := range node.children() {
 				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
-					exprs = append(exprs, expr)
+					if i == 1 {
+						return option.Some(expr)
+					}
+					i++
 				}
 			}
-			if len(exprs) > 1 {
-				return option.Some(exprs[1])
-			}
-		case *Pattern_Parenthesized:
-			// TODO: double-check translation from Rust to Go.
-			var exprs []Expr
-			for _, child := range node.children() {
-				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
-					exprs = append(exprs, expr)
-				}
-			}
-			if len(exprs) > 1 {
-				return option.Some(exprs[1])
-			}
+			return option.None[Expr]()
 		}
-		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
-	case *LetBindingKind_Closure:
-		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 	}
-	return option.None[Expr]()
+	return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 }
 
 // --- [ DestructAssignment ] --------------------------------------------------
-- 
2.43.0


From 75d14314a3a6c5855d16cd6fff478a67bec45f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:18 +0000
Subject: [PATCH 36/56] fix: invalid codepoints of unicode escape sequences

---
 typst/syntax/ast.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index f01d482..d7aa4ad 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -86,6 +86,8 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/scanner"
@@ -606,9 +608,10 @@ func (node *Escape) get() rune {
 		if err != nil {
 			return 0 // default value.
 		}
-		r := rune(x)
-		// TODO: handle invalid rune and return default value (i.e. 0)?
-		return r
+		if x > unicode.MaxRune || !utf8.ValidRune(rune(x)) {
+			return 0 // default value.
+		}
+		return rune(x)
 	} else {
 		if c, ok := s.Eat(); ok {
 			return c
@@ -1431,13 +1434,12 @@ func (node *Str) get() string {
 			sequence := s.EatWhileFunc(stdx.IsAsciiHexdigit)
 			s.EatIf("}")
 			x, err := strconv.ParseUint(sequence, 16, 32)
-			if err != nil {
+			if err != nil || x > unicode.MaxRune || !utf8.ValidRune(rune(x)) {
 				// TODO: report warning?
 				out.WriteString(s.From(start))
 				continue
 			}
-			r := rune(x) // TODO: handle invalid rune (using `out.WriteString(s.From(start))`)?
-			out.WriteRune(r)
+			out.WriteRune(rune(x))
 		default:
 			out.WriteString(s.From(start))
 		}
-- 
2.43.0


From b8d4310fb1068d065d1df0db16b6758b5b329363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 37/56] fix: ignore syntax errors in import and include
 statements

---
 cmd/offline-typ/main.go | 2 ++
 cmd/update-typ/main.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..a47c0c3 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -234,6 +234,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue // syntax error
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..a41d5e6 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -221,6 +221,8 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue // syntax error
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
-- 
2.43.0


From 393666e0420a3dc081ab56d7227858210d5665fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 38/56] fix: update-typ keeps versions when no newer one is
 installed

---
 cmd/update-typ/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index a41d5e6..c7ba500 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -418,9 +418,8 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 // latestSpec returns the latest version of the given package. The boolean
 // return value indicates that a new version was available.
 func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
-	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+	latestSpec := spec
+	for _, verSpec := range findVersions(spec) {
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
-- 
2.43.0


From 2b73fb8d2c7ecf54091a0e0cb040229538543e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 39/56] fix: update-typ finds linked versions and skips other
 directory entries

---
 cmd/update-typ/main.go | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index c7ba500..3f01679 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -454,31 +454,24 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 	for _, packagesDir := range packagesDirs {
 		namespace := filepath.Base(packagesDir)
 		packageDir := filepath.Join(packagesDir, spec.Name)
-		visit := func(path string, info fs.FileInfo, err error) error {
+		entries, err := os.ReadDir(packageDir)
+		if err != nil {
+			continue // TODO: report warning?
+		}
+		for _, entry := range entries {
+			if !entry.IsDir() && entry.Type()&fs.ModeSymlink == 0 {
+				continue
+			}
+			version, err := syntax.ParsePackageVersion(entry.Name())
 			if err != nil {
-				return err
+				continue // not a version.
 			}
-			if info.IsDir() || info.Mode()&fs.ModeSymlink != 0 {
-				if path != packageDir {
-					versionRaw := info.Name()
-					version, err := syntax.ParsePackageVersion(versionRaw)
-					if err != nil {
-						return errors.WithStack(err)
-					}
-					verSpec := &syntax.PackageSpec{
-						Namespace: namespace,
-						Name:      spec.Name,
-						Version:   version,
-					}
-					verSpecs = append(verSpecs, verSpec)
-					// don't traverse into subdirectories.
-					return filepath.SkipDir
-				}
+			verSpec := &syntax.PackageSpec{
+				Namespace: namespace,
+				Name:      spec.Name,
+				Version:   version,
 			}
-			return nil
-		}
-		if err := filepath.Walk(packageDir, visit); err != nil {
-			// TODO: report warning?
+			verSpecs = append(verSpecs, verSpec)
 		}
 	}
 	return verSpecs
-- 
2.43.0


From 9117b16974685f966c4e18bad69dd60f95a96b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 40/56] fix: update-typ checks the dependencies of the version
 in use

---
 cmd/update-typ/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 3f01679..a70efab 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -241,16 +241,18 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					localTypPaths = append(localTypPaths, localTypPath)
 					return true // done with inner node
 				}
-				specs = append(specs, spec)
+				usedSpec := spec
 				if newSpec, ok := latestSpec(spec); ok {
 					if len(libName) > 0 {
 						clog.Infof("in library %q, update needed for %q:\n\tnew version %q\n\told version %q", libName, relTypPath, newSpec, spec)
 					} else {
 						clog.Infof("updated %q:\n\tnew version %q\n\told version %q", relTypPath, newSpec, spec)
 						leaf.Text = strconv.Quote(newSpec.String())
+						usedSpec = newSpec
 					}
 					updated = true
 				}
+				specs = append(specs, usedSpec)
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
 				path := str
-- 
2.43.0


From d63fcd2e15f1cf08b322d43795fdaac6e7e97895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 41/56] fix: resolve the escape sequences of Typst strings in
 paths

---
 cmd/offline-typ/main.go | 12 ++----------
 cmd/update-typ/main.go  |  5 +----
 typst/syntax/ast.go     |  7 ++++++-
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index a47c0c3..cad8752 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -240,10 +240,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -489,12 +486,7 @@ func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
 	if !ok {
 		return "", false
 	}
-	text, err := strconv.Unquote(leaf.Text)
-	if err != nil {
-		// TODO: report error?
-		return "", false
-	}
-	return text, true
+	return syntax.UnquoteStr(leaf.Text), true
 }
 
 // findFirst returns the first node of the given kind.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index a70efab..c1fb183 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -227,10 +227,7 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index d7aa4ad..230fa94 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1393,7 +1393,12 @@ type Str struct {
 
 // Get the string value with resolved escape sequences.
 func (node *Str) get() string {
-	text := node.SyntaxNode.text()
+	return UnquoteStr(node.SyntaxNode.text())
+}
+
+// UnquoteStr returns the value of a string literal with resolved escape
+// sequences.
+func UnquoteStr(text string) string {
 	unquoted := text[1 : len(text)-1]
 	if !strings.ContainsRune(unquoted, '\\') {
 		return unquoted
-- 
2.43.0


From ff0623eebca8947cd6b7b04c93f4bcda0b6c1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 42/56] fix: offline-typ reports a missing package as an error

---
 cmd/offline-typ/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index cad8752..3fcb25f 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -204,6 +204,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		localTypPaths []string
 		// local resource paths to copy for offline use (e.g. images).
 		localResourcePaths []string
+		// first error locating a package.
+		pkgErr error
 	)
 
 	// walk CST tree.
@@ -254,7 +256,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				specs = append(specs, spec)
 				newPkgPath, err := getNewPkgPath(spec)
 				if err != nil {
-					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
+					if pkgErr == nil {
+						pkgErr = errors.Wrapf(err, "unable to get new package path for package %q", spec.String())
+					}
+					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
@@ -269,6 +274,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
+	if pkgErr != nil {
+		return nil, pkgErr
+	}
 
 	visitResourceFunc := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
-- 
2.43.0


From efe58723d7ab6d7367be12ae33263723ed88c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 43/56] fix: offline-typ reports a missing font directory as an
 error

---
 cmd/offline-typ/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 3fcb25f..6d472a6 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -695,6 +695,9 @@ func exist(root *os.Root, path string) bool {
 // copyDir copies the given directory to the root file system.
 func copyDir(root *os.Root, dir string) error {
 	visit := func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return errors.WithStack(err)
+		}
 		if info.IsDir() {
 			if err := root.MkdirAll(path, 0o755); err != nil {
 				return errors.WithStack(err)
-- 
2.43.0


From 141a30c79cc124763346afe69cd9c36ec040ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 44/56] fix: offline-typ finds the style of a bibliography
 after other named arguments

---
 cmd/offline-typ/main.go | 68 +++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 6d472a6..6bb2edb 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -318,13 +318,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if kv, ok := findNamed(args.Children, "style"); ok {
+						cslPath := kv.Value
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -368,13 +366,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if kv, ok := findNamed(args.Children, "style"); ok {
+						cslPath := kv.Value
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -446,29 +442,29 @@ type KeyValuePair struct {
 	Value string
 }
 
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	inner, ok := node.Repr.(*syntax.InnerNode)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	key, ok := findFirstIdent(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	value, ok := findFirstStr(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	kv := KeyValuePair{
-		Key:   key,
-		Value: value,
+// findNamed returns the key-value pair of the first named pair node with the
+// given key and a string value.
+func findNamed(nodes []*syntax.SyntaxNode, name string) (KeyValuePair, bool) {
+	for _, node := range nodes {
+		inner, ok := node.Repr.(*syntax.InnerNode)
+		if !ok || inner.Kind != syntax.SyntaxKindNamed {
+			continue
+		}
+		key, ok := findFirstIdent(inner.Children)
+		if !ok || key != name {
+			continue
+		}
+		value, ok := findFirstStr(inner.Children)
+		if !ok {
+			continue
+		}
+		kv := KeyValuePair{
+			Key:   key,
+			Value: value,
+		}
+		return kv, true
 	}
-	return kv, true
+	return KeyValuePair{}, false
 }
 
 // findFirstIdent returns the name of the first identifier node.
-- 
2.43.0


From 178eb871fba9bdc1c90afeff7d179ae2efc427f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 45/56] fix: offline-typ keeps rewritten files that are also
 read

---
 cmd/offline-typ/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 6bb2edb..8b6460d 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -392,7 +392,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	// Copy local resources.
 	for _, localResourcePath := range localResourcePaths {
 		absResourcePath := filepath.Join(projectRoot.Name(), localResourcePath)
-		if resDone[absResourcePath] {
+		if resDone[absResourcePath] || typDone[absResourcePath] {
 			if verbose {
 				log.Printf("skipping %q (already copied)", absResourcePath)
 			}
-- 
2.43.0


From 1f93af52134cff2b8a10c64a3c2d49c3e18ff850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 46/56] fix: offline-typ keeps absolute paths within a package
 inside of it

---
 cmd/offline-typ/main.go | 64 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 8b6460d..97454da 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -98,7 +98,7 @@ func main() {
 	}
 
 	// rewrite Typst files for offline use.
-	specs, err := rewrite(outRoot, projectRoot, typPath)
+	specs, err := rewrite(outRoot, projectRoot, typPath, "")
 	if err != nil {
 		log.Fatalf("%+v", err)
 	}
@@ -171,8 +171,10 @@ var (
 	resDone = make(map[string]bool)
 )
 
-// rewrite rewrites the given Typst file for offline use.
-func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.PackageSpec, error) {
+// rewrite rewrites the given Typst file for offline use. Absolute paths used in
+// the file are prefixed by libDir, the project-rooted offline path of the
+// package that the file belongs to; or empty for files of the project.
+func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*syntax.PackageSpec, error) {
 	absTypPath := filepath.Join(projectRoot.Name(), relTypPath)
 	if typDone[absTypPath] {
 		if verbose {
@@ -251,6 +253,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					path := str
 					localTypPath := getRelLocalPath(relTypDir, path)
 					localTypPaths = append(localTypPaths, localTypPath)
+					prefixPath(leaf, libDir)
 					return true // done with inner node
 				}
 				specs = append(specs, spec)
@@ -268,6 +271,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				path := str
 				localTypPath := getRelLocalPath(relTypDir, path)
 				localTypPaths = append(localTypPaths, localTypPath)
+				prefixPath(leaf, libDir)
 				return true // done with inner node
 			}
 		}
@@ -313,16 +317,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, ok := findFirstStr(args.Children); ok {
+					path := syntax.UnquoteStr(leaf.Text)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
+					prefixPath(leaf, libDir)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findNamed(args.Children, "style"); ok {
-						cslPath := kv.Value
+					if leaf, ok := findNamedStr(args.Children, "style"); ok {
+						cslPath := syntax.UnquoteStr(leaf.Text)
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
 						if exist(projectRoot, localResourcePath) {
 							localResourcePaths = append(localResourcePaths, localResourcePath)
+							prefixPath(leaf, libDir)
 						}
 					}
 				}
@@ -361,16 +368,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, ok := findFirstStr(args.Children); ok {
+					path := syntax.UnquoteStr(leaf.Text)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
+					prefixPath(leaf, libDir)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findNamed(args.Children, "style"); ok {
-						cslPath := kv.Value
+					if leaf, ok := findNamedStr(args.Children, "style"); ok {
+						cslPath := syntax.UnquoteStr(leaf.Text)
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
 						if exist(projectRoot, localResourcePath) {
 							localResourcePaths = append(localResourcePaths, localResourcePath)
+							prefixPath(leaf, libDir)
 						}
 					}
 				}
@@ -382,7 +392,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
-		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath)
+		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath, libDir)
 		if err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -437,14 +447,17 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
-type KeyValuePair struct {
-	Key   string
-	Value string
+// prefixPath prefixes the path of the given string literal by libDir if the
+// path is absolute.
+func prefixPath(leaf *syntax.LeafNode, libDir string) {
+	if len(libDir) > 0 && filepath.IsAbs(syntax.UnquoteStr(leaf.Text)) {
+		leaf.Text = `"` + libDir + leaf.Text[len(`"`):]
+	}
 }
 
-// findNamed returns the key-value pair of the first named pair node with the
+// findNamedStr returns the string literal of the first named pair node with the
 // given key and a string value.
-func findNamed(nodes []*syntax.SyntaxNode, name string) (KeyValuePair, bool) {
+func findNamedStr(nodes []*syntax.SyntaxNode, name string) (*syntax.LeafNode, bool) {
 	for _, node := range nodes {
 		inner, ok := node.Repr.(*syntax.InnerNode)
 		if !ok || inner.Kind != syntax.SyntaxKindNamed {
@@ -458,13 +471,9 @@ func findNamed(nodes []*syntax.SyntaxNode, name string) (KeyValuePair, bool) {
 		if !ok {
 			continue
 		}
-		kv := KeyValuePair{
-			Key:   key,
-			Value: value,
-		}
-		return kv, true
+		return value, true
 	}
-	return KeyValuePair{}, false
+	return nil, false
 }
 
 // findFirstIdent returns the name of the first identifier node.
@@ -480,17 +489,14 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
-// findFirstStr returns the unquoted version of the first string literal node.
-func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
+// findFirstStr returns the first string literal node.
+func findFirstStr(nodes []*syntax.SyntaxNode) (*syntax.LeafNode, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
 	if !ok {
-		return "", false
+		return nil, false
 	}
 	leaf, ok := node.Repr.(*syntax.LeafNode)
-	if !ok {
-		return "", false
-	}
-	return syntax.UnquoteStr(leaf.Text), true
+	return leaf, ok
 }
 
 // findFirst returns the first node of the given kind.
@@ -546,7 +552,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint, "/"+libTypDir)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 8a22354970e9ac8f1b90dd24faf7a7da8b3bda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 47/56] fix: give multi-character math text no math class

---
 typst/syntax/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 831ce88..e04ba31 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -527,10 +528,12 @@ func math_class(text string) option.Option[stdx.MathClass] {
 		return option.Some(stdx.MathClass_Fence)
 	}
 
-	for _, c := range text {
-		return typutil.DefaultMathClass(c)
+	// A grapheme cluster of several characters has no class of its own.
+	c, size := utf8.DecodeRuneInString(text)
+	if size == 0 || size != len(text) {
+		return option.None[stdx.MathClass]()
 	}
-	return option.None[stdx.MathClass]()
+	return typutil.DefaultMathClass(c)
 }
 
 // Parse an argument list in math: `(a, b; c, d; size: #50%)`.
-- 
2.43.0


From d742fae9566e87715d8decf8a861f6072767bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 48/56] fix: treat all characters with the Alphabetic property
 as alphabetic

---
 internal/stdx/stdx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index 7f5f128..b68e3bd 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -69,9 +69,12 @@ func IsAsciiHexdigit(c rune) bool {
 	return IsAsciiDigit(c) || strings.ContainsRune(hex, c)
 }
 
+// IsAlphabetic reports whether the given character has the Alphabetic property,
+// which includes letter numbers and most dependent vowel signs besides letters.
+//
 // is_alphabetic
 func IsAlphabetic(c rune) bool {
-	return unicode.IsLetter(c)
+	return unicode.IsLetter(c) || unicode.In(c, unicode.Nl, unicode.Other_Alphabetic)
 }
 
 // is_numeric
-- 
2.43.0


From a5f15938ad7a12560761c48cf650a173d42a2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 49/56] fix: find the primes of an attachment directly behind
 its base

---
 typst/syntax/ast.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 230fa94..c920949 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1124,18 +1124,17 @@ func (node *MathAttach) top() option.Option[Expr] {
 
 // Extract attached primes if present.
 func (node *MathAttach) primes() option.Option[*MathPrimes] {
-	var expr_children []*SyntaxNode
-	// TODO: double-check conversion from Rust to Go.
+	base := false
 	for _, child := range node.children() {
-		_, ok := SyntaxNode_cast[Expr](child).Get()
-		if ok {
-			expr_children = append(expr_children, child)
+		switch {
+		case !base:
+			base = SyntaxNode_cast[Expr](child).IsPresent()
+		case child.kind() == SyntaxKindUnderscore || child.kind() == SyntaxKindHat:
+			return option.None[*MathPrimes]() // primes from here on are a script
+		case child.kind() == SyntaxKindMathPrimes:
+			return SyntaxNode_cast[*MathPrimes](child)
 		}
 	}
-	if len(expr_children) > 1 {
-		expr_child := expr_children[1]
-		return SyntaxNode_cast[*MathPrimes](expr_child)
-	}
 	return option.None[*MathPrimes]()
 }
 
-- 
2.43.0


From 924ec53e47fbb3ccaf093b7843bd6fbd6dc36652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 50/56] fix: an empty equation was not deparenthesized

---
 typst/syntax/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index c920949..9d7d3fc 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -930,6 +930,9 @@ func (node *Math) exprs() []Expr {
 // Whether this `Math` node was originally parenthesized.
 func (node *Math) was_deparenthesized() bool {
 	children := node.children()
+	if len(children) < 2 {
+		return false
+	}
 	first := children[0]
 	last := children[len(children)-1]
 	return first.kind() == SyntaxKindLeftParen && last.kind() == SyntaxKindRightParen
-- 
2.43.0


From 71f4d630beb8cffe7588516cf1e9e09f46a51762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 51/56] fix: locate the cursor itself at distance zero

---
 internal/scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 30931d0..f84bf5e 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -158,7 +158,10 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 // - `locate(-1)` is the byte position of the character before the cursor.
 // - `locate(0)` is the same as `cursor()`.
 func (s *Scanner) Locate(n int) uint {
-	if n >= 0 {
+	if n == 0 {
+		return s.Cursor()
+	}
+	if n > 0 {
 		chars := []rune(s.After()) // TODO: optimize?
 		i := 0
 		length := 0
-- 
2.43.0


From 898a196fed35e8ea25f23801bfa4b4c23022fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 52/56] fix: reparse everything when replaced children cannot
 be numbered

---
 typst/syntax/reparser.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index bb07136..2a5702e 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -22,8 +22,10 @@ func reparse(
 	replaced ranges.Range,
 	replacement_len uint,
 ) ranges.Range {
-	if r, ok := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0).Get(); ok {
-		return r
+	if r, err := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0); err == nil {
+		if r, ok := r.Get(); ok {
+			return r
+		}
 	}
 	id, ok := root.span().ID()
 	*root = *Parse(text)
@@ -36,6 +38,9 @@ func reparse(
 }
 
 // Try to reparse inside the given node.
+//
+// If it returns an error, the replacement of children failed and may have left
+// the tree in an inconsistent state; everything has to be reparsed then.
 func try_reparse(
 	text string,
 	replaced ranges.Range,
@@ -43,7 +48,7 @@ func try_reparse(
 	parent_kind option.Option[SyntaxKind],
 	node *SyntaxNode,
 	offset uint,
-) option.Option[ranges.Range] {
+) (option.Option[ranges.Range], error) {
 	// The range of children which overlap with the edit.
 	overlap := ranges.NewRange(math.MaxUint64, 0)
 	cursor := offset
@@ -61,28 +66,31 @@ func try_reparse(
 			new_range := ranges.NewRange(uint64(cursor), uint64(cursor+new_len))
 
 			// Try to reparse within the child.
-			if _range, ok := try_reparse(
+			reparsed, err := try_reparse(
 				text,
 				replaced,
 				replacement_len,
 				option.Some(node_kind),
 				child,
 				cursor,
-			).Get(); ok {
+			)
+			if err != nil {
+				return reparsed, err
+			}
+			if _range, ok := reparsed.Get(); ok {
 				if child.len() != new_len {
 					panic(fmt.Errorf("length mismatch; expected %v, got %v", child.len(), new_len))
 				}
 				new_desc := child.descendants()
 				node.update_parent(prev_len, new_len, prev_desc, new_desc)
-				return option.Some(_range)
+				return option.Some(_range), nil
 			}
 
 			// If the child is a block, try to reparse the block.
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
-					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err == nil {
-						return option.Some(new_range)
-					}
+					err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn})
+					return option.Some(new_range), err
 				}
 			}
 		}
@@ -106,13 +114,13 @@ func try_reparse(
 	// contained in things like headings or lists because too much can go wrong
 	// with indent and line breaks.
 	if overlap.IsEmpty() {
-		return option.None[ranges.Range]()
+		return option.None[ranges.Range](), nil
 	}
 	if node.kind() != SyntaxKindMarkup {
-		return option.None[ranges.Range]()
+		return option.None[ranges.Range](), nil
 	}
 	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
-		return option.None[ranges.Range]()
+		return option.None[ranges.Range](), nil
 	}
 
 	children := node.children()
@@ -180,9 +188,8 @@ func try_reparse(
 			// Similarly, if we children follow or we not top-level the nesting
 			// must match its previous value.
 			if (at_end || at_start == prev_at_start_after) && ((at_end && !parent_kind.IsPresent()) || nesting == prev_nesting_after) {
-				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err == nil {
-					return option.Some(new_range)
-				}
+				err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns)
+				return option.Some(new_range), err
 			}
 		}
 
@@ -195,7 +202,7 @@ func try_reparse(
 		expansion *= 2
 	}
 
-	return option.None[ranges.Range]()
+	return option.None[ranges.Range](), nil
 }
 
 // Whether the inner range is fully contained in the outer one (no touching).
-- 
2.43.0


From 4add030eb0d07aadf9bb6629a62c289a124b0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 53/56] fix: never share interned file specifications with
 callers

---
 typst/syntax/file.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index e7212c3..4d3996a 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -47,6 +47,16 @@ func (pair Pair) key() pairKey {
 	return key
 }
 
+// clone returns a deep copy of the pair. The interned pairs are never shared
+// with callers, who are free to modify what they passed in or got back.
+func (pair Pair) clone() Pair {
+	spec := option.None[*PackageSpec]()
+	if s, ok := pair.Spec.Get(); ok {
+		spec = option.Some(s.Clone())
+	}
+	return Pair{Spec: spec, VPath: &VirtualPath{Path: pair.VPath.Path}}
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -79,7 +89,7 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	interner.fromID = append(interner.fromID, pair)
+	interner.fromID = append(interner.fromID, pair.clone())
 	return id
 }
 
@@ -137,7 +147,7 @@ func (id FileID) Uint16() uint16 {
 func (id FileID) pair() Pair {
 	interner.RLock()
 	defer interner.RUnlock()
-	return interner.fromID[id-1]
+	return interner.fromID[id-1].clone()
 }
 
 // String returns a string representation of the FileID.
-- 
2.43.0


From 5abc8542658848ef61d9a10f807d75f10a922a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 54/56] fix: a leading dot of a file name does not start its
 extension

---
 typst/syntax/path.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 68ffe22..3cabdd2 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -1,6 +1,9 @@
 package syntax
 
-import "path/filepath"
+import (
+	"path/filepath"
+	"strings"
+)
 
 // VirtualPath is an absolute path in the virtual file system of a project or
 // package.
@@ -32,6 +35,12 @@ func (vpath *VirtualPath) Join(path string) *VirtualPath {
 func (vpath *VirtualPath) WithExtension(extension string) *VirtualPath {
 	ext := filepath.Ext(vpath.Path)
 	name := vpath.Path[:len(vpath.Path)-len(ext)]
+	if _, stem := filepath.Split(name); len(strings.Trim(stem, ".")) == 0 {
+		if vpath.Path == "/" {
+			return NewVirtualPath(vpath.Path) // the root has no extension.
+		}
+		name = vpath.Path // leading dots do not start an extension.
+	}
 	new_path := name + extension
 	return NewVirtualPath(new_path)
 }
-- 
2.43.0


From ff5cd603df849ce2be6f99f89cf3880452310709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 55/56] fix: an include may name a package

---
 cmd/offline-typ/main.go | 12 ++++--------
 cmd/update-typ/main.go  |  7 +------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 97454da..b25495f 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -246,7 +246,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 			}
 			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
-			case syntax.SyntaxKindModuleImport:
+			case syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
 				spec, err := syntax.ParsePackageSpec(str)
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
@@ -265,13 +265,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
-				insertPkgRename(inner, i+1, spec.Name)
-				return true // done with inner node
-			case syntax.SyntaxKindModuleInclude:
-				path := str
-				localTypPath := getRelLocalPath(relTypDir, path)
-				localTypPaths = append(localTypPaths, localTypPath)
-				prefixPath(leaf, libDir)
+				if inner.Kind == syntax.SyntaxKindModuleImport {
+					insertPkgRename(inner, i+1, spec.Name)
+				}
 				return true // done with inner node
 			}
 		}
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index c1fb183..438d51c 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -229,7 +229,7 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			}
 			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
-			case syntax.SyntaxKindModuleImport:
+			case syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
 				spec, err := syntax.ParsePackageSpec(str)
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
@@ -251,11 +251,6 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 				}
 				specs = append(specs, usedSpec)
 				return true // done with inner node
-			case syntax.SyntaxKindModuleInclude:
-				path := str
-				localTypPath := getRelLocalPath(relTypDir, path)
-				localTypPaths = append(localTypPaths, localTypPath)
-				return true // done with inner node
 			}
 		}
 		return true
-- 
2.43.0


From ba4644c81873c3fab0d8f4756c8da210f4a799e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 56/56] fix: offline-typ accepts an entry file named by way of
 another directory

---
 cmd/offline-typ/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index b25495f..28491f5 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -548,7 +548,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint, "/"+libTypDir)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, filepath.Clean(pkgInfo.Entrypoint), "/"+libTypDir)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0

