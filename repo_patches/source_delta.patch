From 33189dcd40c3ea267455e04eb4cdfc8f97f0eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/62] fix: prefix every line of a code block inside a
 blockquote

---
 plugin/commonmark/render_blockquote.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..3d04634 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -21,6 +22,13 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
+	// The newlines inside a code block are still represented by a marker,
+	// but those lines are also part of the blockquote.
+	content = bytes.ReplaceAll(
+		content,
+		marker.BytesMarkerCodeBlockNewline,
+		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
+	)
 
 	w.WriteRune('\n')
 	w.WriteRune('\n')
-- 
2.43.0


From f2a7971c1ccf0a681513d901bd27cf2c96295e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 02/62] fix: pad inline code on both sides when it starts or
 ends with a backtick

---
 plugin/commonmark/render_code.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..0613429 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -49,13 +49,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 
 	fence := strings.Repeat(string(fenceChar), maxCount)
 
-	// Code contains a backtick as first character
-	if strings.HasPrefix(code, "`") {
-		code = " " + code
-	}
-	// Code contains a backtick as last character
-	if strings.HasSuffix(code, "`") {
-		code = code + " "
+	// If the code starts or ends with a backtick, the content needs to be separated
+	// from the fence. A space is only stripped if there is one on *both* sides.
+	if strings.HasPrefix(code, "`") || strings.HasSuffix(code, "`") {
+		code = " " + code + " "
 	}
 
 	w.WriteString(fence)
-- 
2.43.0


From 99a91ec22a059ff49fe11e59a9ca8e4d3cf3767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 03/62] fix: keep a horizontal rule at the start of a list item
 distinguishable from the list marker

---
 plugin/commonmark/render_list.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..9bc1d99 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -42,6 +43,18 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 	}
 }
 
+// isThematicBreak checks if the list marker together with the
+// first line of the item would be recognized as a horizontal rule.
+func isThematicBreak(prefix string, item []byte) bool {
+	firstLine, _, _ := bytes.Cut(item, []byte("\n"))
+
+	line := strings.Join(strings.Fields(prefix+string(firstLine)), "")
+	if line[0] != '*' && line[0] != '-' {
+		return false
+	}
+	return len(line) >= 3 && strings.Count(line, line[:1]) == len(line)
+}
+
 func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int) {
 	lines := bytes.Split(content, []byte("\n"))
 	indent := bytes.Repeat([]byte(" "), indentCount)
@@ -91,12 +104,24 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 	w.WriteString("\n\n")
 	for i, item := range items {
-		w.WriteString(getPrefix(i))
+		prefix := getPrefix(i)
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
 		item = ctx.UnEscapeContent(item)
 
+		if isThematicBreak(prefix, item) {
+			// E.g. "* " and "* * *" would together be one horizontal rule. As "_" is
+			// never used as a list marker, the rule inside the item can be told apart.
+			firstLine, _, _ := bytes.Cut(item, []byte("\n"))
+			for j, char := range firstLine {
+				if char == prefix[0] {
+					firstLine[j] = '_'
+				}
+			}
+		}
+		w.WriteString(prefix)
+
 		// An item might have different lines that each
 		// must be indented with the correct count of spaces.
 		renderMultiLineListItem(w, item, indentCount)
-- 
2.43.0


From 01462286d23fd166b61285994ebab47efb7ecdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/62] fix: restart ordered lists whose numbers cannot be
 represented in markdown

---
 plugin/commonmark/render_list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 9bc1d99..2ed1cd3 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -24,8 +24,15 @@ func getStartAt(node *html.Node) int {
 	return startAt
 }
 
+// In commonmark the number of an ordered list can have at most nine digits (and no sign).
+const maxListNumber = 999999999
+
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
 	startAt := getStartAt(n)
+	if startAt < 0 || startAt > maxListNumber-(sliceLength-1) {
+		// These numbers would not be recognized as a list
+		startAt = 1
+	}
 
 	return func(sliceIndex int) string {
 		if n.Data == "ul" {
-- 
2.43.0


From 91646418b95b964c6f9a4ac60b42c37bd6ea4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/62] fix: do not sort the shared tag types while only
 holding the read lock

---
 converter/register.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/register.go b/converter/register.go
index d200ded..eea4d2b 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -204,8 +204,8 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 	conv.m.RLock()
 	defer conv.m.RUnlock()
 
-	types, ok := conv.tagTypes[tagName]
-	if !ok || len(types) == 0 {
+	registered, ok := conv.tagTypes[tagName]
+	if !ok || len(registered) == 0 {
 
 		if dom.NameIsBlockNode(tagName) {
 			return TagTypeBlock, true
@@ -215,6 +215,9 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
+	// Only the read lock is held, so the shared slice can't be sorted in-place.
+	types := make(prioritizedSlice[tagType], len(registered))
+	copy(types, registered)
 	types.Sort()
 	firstType := types[0].Value
 
-- 
2.43.0


From 81dc859fcff5e093e243823e89067242c3c5c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/62] fix: read the registered plugins while holding the lock

---
 converter/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
-- 
2.43.0


From 9a1871544ca8e62672f69ce9a9c773e1b38c5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 07/62] fix: place the cells of a table with multiple spans in
 the correct column and limit the spans

---
 plugin/table/2_collect.go | 50 +++++++++++++++++++++++++++------------
 plugin/table/utils.go     | 29 ++++++++++++++++-------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..410cb21 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -156,12 +156,15 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	for _, cellNode := range cellNodes {
 		align := dom.GetAttributeOr(cellNode, "align", "")
 
-		alignments = append(alignments, align)
+		// A cell that spans over multiple columns is responsible for all of them.
+		for range getColSpan(cellNode) {
+			alignments = append(alignments, align)
+		}
 	}
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex, rowCount int, rowNode *html.Node, occupied map[position]bool) ([][]byte, []modification) {
 	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -170,7 +173,14 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	colIndex := 0
+	for _, cellNode := range cellNodes {
+		// The cell is placed in the next column that is
+		// not already covered by another (spanning) cell.
+		for occupied[position{y: rowIndex, x: colIndex}] {
+			colIndex++
+		}
+
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -184,26 +194,36 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
-		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
-
-		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
-
-		modifications = append(modifications, mods...)
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), max(rowCount-rowIndex, maxSpan))
+		colSpan := getColSpan(cellNode)
+
+		mods := calculateModifications(rowIndex, colIndex, rowSpan, colSpan, p.getContentForMergedCell(content))
+		for _, mod := range mods {
+			pos := position{y: mod.y, x: mod.x}
+			if occupied[pos] {
+				continue
+			}
+			occupied[pos] = true
+			modifications = append(modifications, mod)
+		}
+		colIndex++
 	}
 
 	return cellContents, modifications
 }
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
-	groupedModifications := make([][]modification, 0)
+	modifications := make([]modification, 0)
+
+	rowCount := len(rowNodes) + 1
+	occupied := make(map[position]bool)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode)
+		cells, mods := p.collectCellsInRow(ctx, 0, rowCount, headerRowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	} else {
 		// There needs to be *header* row so that the table is recognized.
 		// So it is better to have an empty header row...
@@ -212,16 +232,16 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowCount, rowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	}
 
 	// Sometimes a cell wants to *span* over multiple columns or/and rows.
 	// We collected these modifications and are now applying it,
 	// by shifting the cells around.
-	rowContents = applyGroupedModifications(rowContents, groupedModifications)
+	rowContents = applySortedModifications(rowContents, modifications)
 
 	if p.skipEmptyRows {
 		rowContents = removeEmptyRows(rowContents)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..749fb58 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"cmp"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -60,6 +61,14 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	return num
 }
 
+// The HTML standard limits "colspan" to this number. It is also used as the limit
+// for how many rows a "rowspan" can add to the table, so that the output stays reasonable.
+const maxSpan = 1000
+
+func getColSpan(node *html.Node) int {
+	return min(getNumberAttributeOr(node, "colspan", 1), maxSpan)
+}
+
 type modification struct {
 	y    int
 	x    int
@@ -101,16 +110,20 @@ func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan i
 	return mods
 }
 
-func applyGroupedModifications(contents [][][]byte, groupedMods [][]modification) [][][]byte {
-	// By applying the modifications in reverse we correctly
-	// handle overlapping modifications.
-	slices.Reverse(groupedMods)
+// position is a slot in the grid of the table.
+type position struct {
+	y int
+	x int
+}
 
-	for _, mods := range groupedMods {
-		contents = applyModifications(contents, mods)
-	}
+func applySortedModifications(contents [][][]byte, mods []modification) [][][]byte {
+	// By applying the modifications from left to right, the cells
+	// (of that row) always end up in the correct column.
+	slices.SortFunc(mods, func(a, b modification) int {
+		return cmp.Or(cmp.Compare(a.y, b.y), cmp.Compare(a.x, b.x))
+	})
 
-	return contents
+	return applyModifications(contents, mods)
 }
 
 func applyModifications(contents [][][]byte, mods []modification) [][][]byte {
-- 
2.43.0


From 1fa7636e7e62d4aa760fc0231245fd3d498ea99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 08/62] fix: escape every pipe inside a table cell (e.g. in
 inline code or an alt text)

---
 plugin/table/2_collect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 410cb21..5167379 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -188,8 +188,10 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex, rowCoun
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
-		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
+		// That applies everywhere inside a cell (e.g. also inside of inline code).
+		content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte{'|'})
 		content = ctx.UnEscapeContent(content)
+		content = bytes.ReplaceAll(content, []byte{'|'}, []byte(`\|`))
 
 		cellContents = append(cellContents, content)
 
-- 
2.43.0


From e48e9d642c933d3e9e81137260badae12afd247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 09/62] fix: keep code blocks on one line when newlines are
 preserved in table cells

---
 plugin/table/2_collect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 5167379..514294b 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -104,6 +104,7 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
 					// Replace newlines with <br /> tags
+					cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("\n"))
 					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
 					continue
 				}
-- 
2.43.0


From 101df92bd66ce41dd8d3d2534e04af817664a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 10/62] fix: do not turn the character U+F002 (used by icon
 fonts) into a newline

---
 marker/marker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marker/marker.go b/marker/marker.go
index 7150e5e..a6cbcca 100644
--- a/marker/marker.go
+++ b/marker/marker.go
@@ -11,15 +11,15 @@ const (
 
 	// - - - - //
 
-	// Marker0                rune = '\uF000' // 61440
-	// Marker1                rune = '\uF001' // 61441
-	MarkerCodeBlockNewline rune = '\uF002' // 61442
+	// The "private use area" is used by icon fonts (e.g. "\uF002" is a magnifying glass).
+	// So we are using a noncharacter, which is reserved for such an internal use.
+	MarkerCodeBlockNewline rune = '\uFDD0' // 64976
 )
 
 var (
 	BytesMarkerEscaping = []byte{7}
 
-	BytesMarkerCodeBlockNewline = []byte{239, 128, 130}
+	BytesMarkerCodeBlockNewline = []byte{239, 183, 144}
 )
 
 func init() {
-- 
2.43.0


From bf120d10009d44d9d612695e9b1f29a1d3423599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 11/62] fix: heading ending with a pound sign while the
 escaping is disabled

---
 plugin/commonmark/render_heading.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..400944d 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -87,6 +87,11 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		// so there is no work to do...
 		return s
 	}
+	if len(s) < 2 || s[len(s)-2] != marker.BytesMarkerEscaping[0] {
+		// There is no placeholder (e.g. because the escaping is disabled),
+		// so there is nothing to override...
+		return s
+	}
 	if len(s) >= 3 && s[len(s)-3] == '\\' {
 		// It is already escaped,
 		// so there is no work to do...
-- 
2.43.0


From 5631f63ed9ee74c8da3014d5ea560a705fb2be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 12/62] fix: validate the delimiters and the horizontal rule
 strictly

---
 plugin/commonmark/validation.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..a22d4b6 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -38,15 +38,26 @@ func (e *ValidateConfigError) Error() string {
 	return fmt.Sprintf("invalid value for %s must be %s", e.KeyWithValue, e.patternDescription)
 }
 
+// isHorizontalRule checks that the rule consists of three or more matching
+// "*", "_" or "-" characters, which can be separated by spaces.
+func isHorizontalRule(rule string) bool {
+	chars := strings.NewReplacer(" ", "", "\t", "").Replace(rule)
+	if len(chars) < 3 || !strings.Contains("*_-", chars[:1]) {
+		return false
+	}
+
+	return strings.Count(chars, chars[:1]) == len(chars)
+}
+
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if !contains([]string{"*", "_"}, cfg.EmDelimiter) {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if !contains([]string{"**", "__"}, cfg.StrongDelimiter) {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +65,7 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	if !isHorizontalRule(cfg.HorizontalRule) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From 426a79e815a08bbe6e26f72ee948fd8fee4c0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 13/62] fix: escape text at the start of a line inside a
 blockquote

---
 plugin/commonmark/render_blockquote.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 3d04634..d7bdb19 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -21,6 +21,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+	// The prefix would hide from the escaping that e.g. a "#" is at the start of the line.
+	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 	// The newlines inside a code block are still represented by a marker,
 	// but those lines are also part of the blockquote.
-- 
2.43.0


From 9a0317bb7ff4685bf6d64986b781ce09992144cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 14/62] fix: escape the delimiter characters inside bold and
 italic text

---
 plugin/commonmark/render_bold_italic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 50586fc..fe220ac 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -28,6 +29,15 @@ func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer,
 	delimiter := c.getDelimiter(n)
 	content := buf.Bytes()
 
+	// A delimiter that is just text could (by accident) close the bold or italic too early.
+	// So inside of them the escaping is always necessary.
+	char := delimiter[:1]
+	content = bytes.ReplaceAll(
+		content,
+		append(bytes.Clone(marker.BytesMarkerEscaping), char...),
+		append([]byte{'\\'}, char...),
+	)
+
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
 	// OR on _every_ line we put start & end delimiters.
-- 
2.43.0


From f435c41fc8796d90e749b92db5c66cccc712fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 15/62] fix: escape the delimiter character inside
 strikethrough text

---
 plugin/strikethrough/strikethrough.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 961212f..85ae6e3 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -9,6 +9,7 @@ import (
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/escape"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -95,6 +96,13 @@ func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w conver
 
 	content := buf.Bytes()
 
+	// A "~" that is just text could (by accident) close the strikethrough too early.
+	content = bytes.ReplaceAll(
+		content,
+		append(bytes.Clone(marker.BytesMarkerEscaping), '~'),
+		[]byte(`\~`),
+	)
+
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
 	// OR on _every_ line we put start & end delimiters.
-- 
2.43.0


From 25b46c0fc2c1c5a11a20cd36937e1b7e79a69a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 16/62] fix: escape a bracket when the link text would continue
 on the next line

---
 internal/escape/elem_image.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index e1d9b5d..82061b1 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -22,12 +22,21 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 }
 
 func isImageOrLinkStartBracket(chars []byte, index int) int {
+	isMultiline := false
 	for i := index + 1; i < len(chars); i++ {
 		if chars[i] == '\n' {
-			return -1
+			if i+1 < len(chars) && chars[i+1] == '\n' {
+				// The paragraph ends here
+				return -1
+			}
+			isMultiline = true
+			continue
 		}
 
 		if chars[i] == ']' {
+			if isMultiline && getNext(chars, i) != '(' {
+				continue
+			}
 			return 1
 		}
 	}
-- 
2.43.0


From 5cfabb6cd9dd74b73d9671e143153258062d8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 17/62] fix: escape text that looks like the delimiter row of a
 table

---
 plugin/table/table.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/plugin/table/table.go b/plugin/table/table.go
index 9d79617..7bdbb7f 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -186,13 +187,52 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 		return err
 	}
 
-	conv.Register.EscapedChar('|')
+	conv.Register.EscapedChar('|', ':')
+	conv.Register.UnEscaper(isDelimiterRow, converter.PriorityStandard)
 
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
 
 	return nil
 }
 
+// isDelimiterRow checks whether this character starts a line that looks like the delimiter
+// row of a table (e.g. "|---|:-:|"), since that would turn the text above into a table.
+func isDelimiterRow(chars []byte, index int) int {
+	if chars[index] != '|' && chars[index] != ':' {
+		return -1
+	}
+
+	isIgnored := func(char byte) bool {
+		return char == ' ' || char == '\t' || char == byte(marker.MarkerEscaping)
+	}
+
+	start := index
+	for start > 0 && isIgnored(chars[start-1]) {
+		start--
+	}
+	if start == 0 || chars[start-1] != '\n' || (start > 1 && chars[start-2] == '\n') {
+		// It is not the first character of the line OR there is no line above.
+		return -1
+	}
+
+	containsDash := false
+	for _, char := range chars[index:] {
+		if char == '\n' {
+			break
+		}
+		if char == '-' {
+			containsDash = true
+		} else if char != '|' && char != ':' && !isIgnored(char) {
+			return -1
+		}
+	}
+	if !containsDash {
+		return -1
+	}
+
+	return 1
+}
+
 func (s *tablePlugin) handleRender(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	name := dom.NodeName(n)
 	switch name {
-- 
2.43.0


From 59dd0cd16b72b9aba4a2641acba68d3169516426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 18/62] fix: escape a bracket when a link reference label would
 continue on the next line

---
 internal/escape/elem_image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index 82061b1..f398dd8 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -34,7 +34,7 @@ func isImageOrLinkStartBracket(chars []byte, index int) int {
 		}
 
 		if chars[i] == ']' {
-			if isMultiline && getNext(chars, i) != '(' {
+			if next := getNext(chars, i); isMultiline && next != '(' && next != ':' {
 				continue
 			}
 			return 1
-- 
2.43.0


From b7f1c7fb32a7b7561cf404890a804a0fdb912d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 19/62] fix: escape text that would form a horizontal rule
 together with the list marker

---
 plugin/commonmark/render_list.go | 35 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 2ed1cd3..2ae31e0 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
-	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -50,16 +49,25 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 	}
 }
 
-// isThematicBreak checks if the list marker together with the
-// first line of the item would be recognized as a horizontal rule.
-func isThematicBreak(prefix string, item []byte) bool {
+// keepApartFromListMarker changes the content if the list marker together with the
+// first line of the item would be recognized as a horizontal rule. E.g. "* " and "* * *"
+func keepApartFromListMarker(prefix string, item []byte) []byte {
 	firstLine, _, _ := bytes.Cut(item, []byte("\n"))
 
-	line := strings.Join(strings.Fields(prefix+string(firstLine)), "")
-	if line[0] != '*' && line[0] != '-' {
-		return false
+	line := bytes.ReplaceAll(append([]byte(prefix), firstLine...), marker.BytesMarkerEscaping, nil)
+	line = bytes.Join(bytes.Fields(line), nil)
+	if (line[0] != '*' && line[0] != '-') || len(line) < 3 || bytes.Count(line, line[:1]) != len(line) {
+		return item
 	}
-	return len(line) >= 3 && strings.Count(line, line[:1]) == len(line)
+
+	if bytes.Contains(firstLine, marker.BytesMarkerEscaping) {
+		// It is actually just a text
+		return bytes.Replace(item, marker.BytesMarkerEscaping, []byte{'\\'}, 1)
+	}
+
+	// As "_" is never used as a list marker, the rule inside the item can be told apart.
+	rule := bytes.ReplaceAll(firstLine, line[:1], []byte{'_'})
+	return append(rule, item[len(firstLine):]...)
 }
 
 func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int) {
@@ -115,18 +123,9 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
+		item = keepApartFromListMarker(prefix, item)
 		item = ctx.UnEscapeContent(item)
 
-		if isThematicBreak(prefix, item) {
-			// E.g. "* " and "* * *" would together be one horizontal rule. As "_" is
-			// never used as a list marker, the rule inside the item can be told apart.
-			firstLine, _, _ := bytes.Cut(item, []byte("\n"))
-			for j, char := range firstLine {
-				if char == prefix[0] {
-					firstLine[j] = '_'
-				}
-			}
-		}
 		w.WriteString(prefix)
 
 		// An item might have different lines that each
-- 
2.43.0


From ddada4487180089de694c6fae6a7c356c90557a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 20/62] fix: do not mix backticks and tildes when detecting a
 code fence

---
 internal/escape/elem_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 65adaaa..377bd1d 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -22,7 +22,7 @@ func IsFencedCode(chars []byte, index int) int {
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if chars[i] == '`' || chars[i] == '~' {
+		if chars[i] == chars[index] {
 			count++
 			continue
 		}
-- 
2.43.0


From ab3db5a8bd1cda8e3e780c33c33c26215f28e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 21/62] fix: run handlers with the same priority always in the
 order of their registration

---
 converter/prioritized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..6384da1 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,7 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0


From 8b4d4b538d977dc529f315749bcd46eecdcadf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 22/62] fix: escape every backtick of text that looks like a
 code fence

---
 plugin/commonmark/commonmark.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/commonmark.go b/plugin/commonmark/commonmark.go
index d9ef9be..047d45d 100644
--- a/plugin/commonmark/commonmark.go
+++ b/plugin/commonmark/commonmark.go
@@ -170,8 +170,10 @@ func (cm *commonmark) Init(conv *converter.Converter) error {
 	conv.Register.UnEscaper(escape.IsOrderedList, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsUnorderedList, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsImageOrLink, converter.PriorityStandard)
-	conv.Register.UnEscaper(escape.IsFencedCode, converter.PriorityStandard)
+	// Note: Every backtick needs to be escaped, even those at the start of a line. Otherwise
+	// the remaining backticks of a code fence could be recognized as the start of inline code.
 	conv.Register.UnEscaper(escape.IsInlineCode, converter.PriorityStandard)
+	conv.Register.UnEscaper(escape.IsFencedCode, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsBackslash, converter.PriorityStandard)
 
 	conv.Register.Renderer(cm.handleRender, converter.PriorityStandard)
-- 
2.43.0


From 4f82d3bc0933737cd4d2e61859ee3e3f6f8933ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 23/62] fix: split the class names of a code block by any
 whitespace

---
 plugin/commonmark/render_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 0613429..81f7623 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -90,7 +90,8 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	// The class names can be separated by any whitespace (also by newlines).
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From 2dd1c4cf260dfe8801651f884e2c9c0c1c37816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:39 +0000
Subject: [PATCH 24/62] fix: keep the space after inline code elements (e.g.
 kbd) whose content ends with a space

---
 plugin/base/base.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/base/base.go b/plugin/base/base.go
index de50a8e..b05df68 100644
--- a/plugin/base/base.go
+++ b/plugin/base/base.go
@@ -95,6 +95,15 @@ func (b *base) preRenderCollapse(ctx converter.Context, doc *html.Node) {
 
 			return dom.NameIsBlockNode(tagName)
 		},
+		IsPreformattedNode: func(node *html.Node) bool {
+			switch dom.NodeName(node) {
+			case "pre", "code", "var", "samp", "kbd", "tt":
+				// Whitespace at the end of inline code is going to be trimmed. If it had been
+				// collapsed together with the text *afterwards*, there would be no space left.
+				return true
+			}
+			return false
+		},
 	})
 }
 
-- 
2.43.0


From 5fad59a05b186333cdf9688b253c820258ff3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 25/62] fix: drop a code block language that contains the fence
 character

---
 plugin/commonmark/render_code.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 81f7623..b8c1b17 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -71,6 +71,11 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 	fenceChar, _ := utf8.DecodeRuneInString(c.CodeBlockFence)
 	fence := textutils.CalculateCodeFence(fenceChar, string(code))
 
+	if strings.ContainsRune(infoString, fenceChar) {
+		// The fence would not be recognized anymore
+		infoString = ""
+	}
+
 	// We want to keep the original content inside the code block untouched.
 	// Because multiple newlines would be trimmed, we temporarily replace it with another character.
 	code = bytes.ReplaceAll(code, []byte("\n"), marker.BytesMarkerCodeBlockNewline)
-- 
2.43.0


From a3d60dbbdb06f6876030700e6bd16dce18ff70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 26/62] fix: trim the content of a setext heading (e.g. a block
 element inside the heading)

---
 plugin/commonmark/render_heading.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 400944d..68a1819 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -122,6 +122,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	if c.HeadingStyle == HeadingStyleSetext && level < 3 {
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
+		content = bytes.TrimSpace(content)
 		content = textutils.TrimConsecutiveNewlines(content)
 		content = textutils.EscapeMultiLine(content)
 
-- 
2.43.0


From 34ad0ad160c7dea1dbef0548e02c8bd14e76117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 27/62] fix: no backslash inside an ATX heading for a link with
 multiple lines

---
 plugin/commonmark/render_heading.go |  8 +++++++-
 plugin/commonmark/render_link.go    | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 68a1819..f2277b1 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -110,6 +110,12 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	// ctx = context.WithValue(ctx, "is_inside_heading", true)
 
 	level := getHeadingLevel(dom.NodeName(n))
+	isSetext := c.HeadingStyle == HeadingStyleSetext && level < 3
+
+	if !isSetext {
+		// The whole content is going to be placed on one line
+		ctx = ctx.WithValue("is_inside_atx_heading", true)
+	}
 
 	var buf bytes.Buffer
 	ctx.RenderChildNodes(ctx, &buf, n)
@@ -119,7 +125,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 		return converter.RenderSuccess
 	}
 
-	if c.HeadingStyle == HeadingStyleSetext && level < 3 {
+	if isSetext {
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
 		content = bytes.TrimSpace(content)
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..a60cd01 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -85,10 +85,15 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 
 	leftExtra, trimmed, rightExtra := textutils.SurroundingSpaces(content)
 
-	// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
-	// since `EscapeMultiLine` also takes care of newlines.
-	trimmed = textutils.TrimConsecutiveNewlines(trimmed)
-	trimmed = textutils.EscapeMultiLine(trimmed)
+	if isEnabled, ok := ctx.Value("is_inside_atx_heading").(bool); ok && isEnabled {
+		// The heading is going to be on one line, so there are no newlines to escape.
+		trimmed = bytes.ReplaceAll(trimmed, []byte("\n"), []byte(" "))
+	} else {
+		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
+		// since `EscapeMultiLine` also takes care of newlines.
+		trimmed = textutils.TrimConsecutiveNewlines(trimmed)
+		trimmed = textutils.EscapeMultiLine(trimmed)
+	}
 
 	l.before = leftExtra
 	l.content = trimmed
-- 
2.43.0


From 47f1ffe1e59d279b3ef2f0c02aa1a30412d7788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 28/62] fix: escape the backslashes inside the title of a link
 or an image

---
 internal/textutils/quote.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..055a6cd 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,8 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	content = escapeBackslashes(content)
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
@@ -37,3 +39,28 @@ func SurroundByQuotes(content []byte) []byte {
 	// so we can safely surround it by double quotes.
 	return SurroundBy(content, []byte(`"`))
 }
+
+// escapeBackslashes makes sure that a backslash is not recognized
+// as an escape for the next character or for the closing quote.
+func escapeBackslashes(content []byte) []byte {
+	if bytes.IndexByte(content, '\\') == -1 {
+		return content
+	}
+
+	output := make([]byte, 0, len(content)+2)
+	for i, char := range content {
+		if char == '\\' && (i+1 == len(content) || isPunctuation(content[i+1])) {
+			output = append(output, '\\')
+		}
+		output = append(output, char)
+	}
+	return output
+}
+
+// isPunctuation checks for the characters that can be escaped in markdown.
+func isPunctuation(char byte) bool {
+	return (char >= '!' && char <= '/') ||
+		(char >= ':' && char <= '@') ||
+		(char >= '[' && char <= '`') ||
+		(char >= '{' && char <= '~')
+}
-- 
2.43.0


From aa95314d8102e576096ba85c1bed8e7d60e8d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 29/62] fix: escape the alt description of an image like any
 other text

---
 plugin/commonmark/render_image.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..44d18e5 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -7,14 +7,27 @@ import (
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
-func escapeAlt(altString string) string {
-	alt := []byte(altString)
+var altEntityReplacer = strings.NewReplacer(
+	"<", "&lt;",
+	">", "&gt;",
+)
+
+func escapeAlt(ctx converter.Context, altString string) string {
+	// The alt description can contain other inline content,
+	// so it needs to be escaped in the same way as the other texts.
+	altString = altEntityReplacer.Replace(altString)
+	alt := ctx.EscapeContent([]byte(altString))
 
 	var buf bytes.Buffer
 	for i := range alt {
+		if alt[i] == marker.BytesMarkerEscaping[0] && i+1 < len(alt) && (alt[i+1] == '[' || alt[i+1] == ']') {
+			// We always escape the square brackets
+			continue
+		}
 		if alt[i] == '[' || alt[i] == ']' {
 			prevIndex := i - 1
 			if prevIndex < 0 || alt[prevIndex] != '\\' {
@@ -44,7 +57,7 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
-	alt = escapeAlt(alt)
+	alt = escapeAlt(ctx, alt)
 
 	w.WriteRune('!')
 	w.WriteRune('[')
-- 
2.43.0


From afd3a2c0fa77c435cada0bb418b0703706e9ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 30/62] fix: percent-encode the backslash in urls that cannot
 be parsed

---
 converter/url.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..a8f801d 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -13,6 +13,8 @@ var percentEncodingReplacer = strings.NewReplacer(
 	")", "%29",
 	"<", "%3C",
 	">", "%3E",
+	// It would be recognized as the escape of the next character
+	"\\", "%5C",
 )
 
 func parseBaseDomain(rawDomain string) *url.URL {
-- 
2.43.0


From 709e8517014cacae2814bd5165f66501f6da68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 31/62] fix: do not lose the content of a table that is neither
 in a cell nor in the (first) caption

---
 plugin/table/2_collect.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 514294b..c74c71b 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
@@ -42,6 +43,29 @@ func hasProblematicChildNode(node *html.Node) bool {
 	return problematicNode != nil
 }
 
+// hasContentOutsideOfCells checks for content that has no place in a markdown table,
+// since it is neither part of a cell nor part of the caption.
+func hasContentOutsideOfCells(node *html.Node) bool {
+	for child := node.FirstChild; child != nil; child = child.NextSibling {
+		switch name := dom.NodeName(child); name {
+		case "td", "th", "caption":
+			continue
+		case "#text":
+			if strings.TrimSpace(child.Data) != "" {
+				return true
+			}
+		case "img":
+			return true
+		}
+
+		if hasContentOutsideOfCells(child) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func hasProblematicParentNode(node *html.Node) bool {
 	p := node.Parent
 
@@ -85,6 +109,11 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 		return nil
 	}
 
+	if hasContentOutsideOfCells(node) {
+		// The content would be lost, so we unfortunately cannot convert the table.
+		return nil
+	}
+
 	if hasProblematicParentNode(node) {
 		// There are certain parent nodes (e.g. <a>) that cannot contain a table.
 		// We would break the rendering of the link, so we unfortunately cannot convert the table.
@@ -257,15 +286,15 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 }
 
 func collectCaption(ctx converter.Context, node *html.Node) []byte {
-	captionNode := dom.FindFirstNode(node, func(node *html.Node) bool {
+	captionNodes := dom.FindAllNodes(node, func(node *html.Node) bool {
 		return node.DataAtom == atom.Caption
 	})
-	if captionNode == nil {
+	if len(captionNodes) == 0 {
 		return nil
 	}
 
 	var buf bytes.Buffer
-	ctx.RenderNodes(ctx, &buf, captionNode)
+	ctx.RenderNodes(ctx, &buf, captionNodes...)
 
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
-- 
2.43.0


From 7b0b5b2cdd7abd8b54cb8b92df0c89bcb7e8b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 32/62] fix: separate the content before and after an empty
 heading

---
 plugin/commonmark/render_heading.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index f2277b1..388afed 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -122,6 +122,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From a2ff931c5c6c2616141116c83c898978c0ee0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 33/62] fix: separate the content of list items inside an
 inline element

---
 internal/domutils/alternatives.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index a3da350..8963a7f 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -55,6 +55,29 @@ func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	newAfter := &html.Node{Type: html.TextNode, Data: `" `}
 	node.Parent.InsertBefore(newAfter, node.NextSibling)
 }
+func listAlternative(ctx context.Context, node *html.Node) {
+	node.Data = "span"
+
+	if isInsideCode(node) {
+		// Whitespace would change the code
+		return
+	}
+
+	// Without the list the content of the items still needs to be separated.
+	newBefore := &html.Node{Type: html.TextNode, Data: " "}
+	node.Parent.InsertBefore(newBefore, node)
+
+	newAfter := &html.Node{Type: html.TextNode, Data: " "}
+	node.Parent.InsertBefore(newAfter, node.NextSibling)
+}
+func isInsideCode(node *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if name := dom.NodeName(p); name == "pre" || name == "code" {
+			return true
+		}
+	}
+	return false
+}
 func preAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "code"
 }
@@ -73,6 +96,9 @@ var alternatives = map[string]func(ctx context.Context, node *html.Node){
 	"blockquote": blockquoteAlternative,
 	"pre":        preAlternative,
 	"hr":         hrAlternative,
+	"ul":         listAlternative,
+	"ol":         listAlternative,
+	"li":         listAlternative,
 }
 
 func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
-- 
2.43.0


From 308d94a6c84fb439ccf72754485cb98e4e73b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 34/62] fix: separate the content before and after a divider
 inside an inline element

---
 internal/domutils/alternatives.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 8963a7f..133f94e 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -82,6 +82,13 @@ func preAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "code"
 }
 func hrAlternative(ctx context.Context, node *html.Node) {
+	isLastInBlock := node.NextSibling == nil && getMarkdownStructure(dom.NodeName(node.Parent)) == "leaf_block"
+	if !isLastInBlock && !isInsideCode(node) {
+		// Without the divider the content before and after still needs to be separated.
+		newSpace := &html.Node{Type: html.TextNode, Data: " "}
+		node.Parent.InsertBefore(newSpace, node)
+	}
+
 	dom.RemoveNode(node)
 }
 
-- 
2.43.0


From 3960ee4c44e20cb95e2b6f9986978133c326d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 35/62] fix: separate the content before and after an empty
 list or blockquote

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index d7bdb19..8b58d87 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -16,6 +16,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 2ae31e0..5c77e4f 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -111,6 +111,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From 99a49ea00df993792e67ab68d9d378637b502803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 36/62] fix: separate multiple captions of a table

---
 plugin/table/2_collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index c74c71b..82eae98 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -294,7 +294,10 @@ func collectCaption(ctx converter.Context, node *html.Node) []byte {
 	}
 
 	var buf bytes.Buffer
-	ctx.RenderNodes(ctx, &buf, captionNodes...)
+	for _, captionNode := range captionNodes {
+		buf.WriteString("\n\n")
+		ctx.RenderNodes(ctx, &buf, captionNode)
+	}
 
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
-- 
2.43.0


From f73bc6aa2b92aecefc28c835f89b83956dc15dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 37/62] fix: do not merge adjacent nodes across the border of a
 block

---
 internal/domutils/adjacent.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..ae8270c 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,6 +5,22 @@ import (
 	"golang.org/x/net/html"
 )
 
+// nextInsideSpans returns the next node, without leaving the surrounding block.
+// Only the borders of a span are crossed, since a span has no special meaning.
+func nextInsideSpans(node *html.Node) *html.Node {
+	for node != nil {
+		if node.NextSibling != nil {
+			return node.NextSibling
+		}
+
+		node = node.Parent
+		if node == nil || dom.NodeName(node) != "span" {
+			return nil
+		}
+	}
+	return nil
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
@@ -13,10 +29,14 @@ func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*h
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			if node.FirstChild != nil {
+				node = node.FirstChild
+			} else {
+				node = nextInsideSpans(node)
+			}
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+			node = nextInsideSpans(node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
-- 
2.43.0


From 72a7cf112048159bb3a1ab30e1ea82397e486bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 38/62] fix: don't duplicate the content of a table cell inside
 another cell

---
 plugin/table/2_collect.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 82eae98..a7d0554 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -66,6 +66,29 @@ func hasContentOutsideOfCells(node *html.Node) bool {
 	return false
 }
 
+// hasNestedCells checks for cells, rows or captions that are *inside* of another cell or caption.
+// Such content (e.g. from inside an <svg>) would be rendered multiple times.
+func hasNestedCells(node *html.Node) bool {
+	isCell := func(n *html.Node) bool {
+		switch dom.NodeName(n) {
+		case "td", "th", "caption":
+			return true
+		}
+		return false
+	}
+
+	for _, cellNode := range dom.FindAllNodes(node, isCell) {
+		nestedNode := dom.FindFirstNode(cellNode, func(n *html.Node) bool {
+			return n != cellNode && (isCell(n) || dom.NodeName(n) == "tr")
+		})
+		if nestedNode != nil {
+			return true
+		}
+	}
+
+	return false
+}
+
 func hasProblematicParentNode(node *html.Node) bool {
 	p := node.Parent
 
@@ -109,6 +132,11 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 		return nil
 	}
 
+	if hasNestedCells(node) {
+		// The content would be duplicated, so we unfortunately cannot convert the table.
+		return nil
+	}
+
 	if hasContentOutsideOfCells(node) {
 		// The content would be lost, so we unfortunately cannot convert the table.
 		return nil
-- 
2.43.0


From ad16fce62b9702bfa4ad478d708c3397db8fc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:05 +0000
Subject: [PATCH 39/62] fix: no blank line inside inline code that only
 contains whitespace

---
 plugin/commonmark/render_code.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index b8c1b17..2de3325 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -30,7 +30,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 	}
 
 	if bytes.TrimSpace(codeContent) == nil {
-		// No stripping occurs if the code span contains _only_ spaces:
+		// No stripping occurs if the code span contains _only_ spaces.
+		// But a blank line would mean that it is not recognized as a code span anymore.
+		codeContent = bytes.ReplaceAll(codeContent, []byte{'\n'}, []byte{' '})
+
 		w.WriteRune(fenceChar)
 		w.Write(codeContent)
 		w.WriteRune(fenceChar)
-- 
2.43.0


From 47880d912a3b43cf6499f1881763a2615bb8446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 40/62] fix: do not glue the content of table cells together
 that cannot be rendered as a table

---
 internal/domutils/table_cells.go | 39 ++++++++++++++++++++++++++++++++
 plugin/base/base.go              |  5 ++++
 2 files changed, 44 insertions(+)
 create mode 100644 internal/domutils/table_cells.go

diff --git a/internal/domutils/table_cells.go b/internal/domutils/table_cells.go
new file mode 100644
index 0000000..4b000bf
--- /dev/null
+++ b/internal/domutils/table_cells.go
@@ -0,0 +1,39 @@
+package domutils
+
+import (
+	"github.com/JohannesKaufmann/dom"
+	"golang.org/x/net/html"
+)
+
+func nameIsTablePart(name string) bool {
+	switch name {
+	case "td", "th", "tr", "caption", "thead", "tbody", "tfoot":
+		return true
+	}
+	return false
+}
+
+// SeparateTableCells adds a space between the cells (and rows) that directly follow each other.
+// Otherwise the content would be joined together if the table cannot be rendered as a markdown table.
+func SeparateTableCells(doc *html.Node) {
+	var finder func(node *html.Node)
+	finder = func(node *html.Node) {
+		switch name := dom.NodeName(node); {
+		case name == "pre" || name == "code":
+			// Whitespace would change the code
+			return
+
+		case nameIsTablePart(name):
+			next := node.NextSibling
+			if next != nil && next.Type == html.ElementNode {
+				newSpace := &html.Node{Type: html.TextNode, Data: " "}
+				node.Parent.InsertBefore(newSpace, next)
+			}
+		}
+
+		for child := node.FirstChild; child != nil; child = child.NextSibling {
+			finder(child)
+		}
+	}
+	finder(doc)
+}
diff --git a/plugin/base/base.go b/plugin/base/base.go
index b05df68..6388a8c 100644
--- a/plugin/base/base.go
+++ b/plugin/base/base.go
@@ -46,6 +46,7 @@ func (b *base) Init(conv *converter.Converter) error {
 	// conv.Register.TagType("tr", converter.BlockTagType, converter.PriorityStandard)
 
 	conv.Register.PreRenderer(b.preRenderRemove, converter.PriorityEarly)
+	conv.Register.PreRenderer(b.preRenderTableCells, converter.PriorityLate)
 	// Note: The priority is low, so that collapse runs _after_ all the other functions
 	conv.Register.PreRenderer(b.preRenderCollapse, converter.PriorityLate)
 
@@ -84,6 +85,10 @@ func (b *base) preRenderRemove(ctx converter.Context, doc *html.Node) {
 	domutils.MergeAdjacentTextNodes(doc)
 }
 
+func (b *base) preRenderTableCells(ctx converter.Context, doc *html.Node) {
+	domutils.SeparateTableCells(doc)
+}
+
 func (b *base) preRenderCollapse(ctx converter.Context, doc *html.Node) {
 	collapse.Collapse(doc, &collapse.DomFuncs{
 		IsBlockNode: func(node *html.Node) bool {
-- 
2.43.0


From 2c4030172108344359493e582eedfa976a1e0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 41/62] fix: do not change text at the start of a list item
 while the escaping is disabled

---
 plugin/commonmark/render_list.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 5c77e4f..9fa00c4 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -51,7 +52,7 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 
 // keepApartFromListMarker changes the content if the list marker together with the
 // first line of the item would be recognized as a horizontal rule. E.g. "* " and "* * *"
-func keepApartFromListMarker(prefix string, item []byte) []byte {
+func (c commonmark) keepApartFromListMarker(prefix string, item []byte) []byte {
 	firstLine, _, _ := bytes.Cut(item, []byte("\n"))
 
 	line := bytes.ReplaceAll(append([]byte(prefix), firstLine...), marker.BytesMarkerEscaping, nil)
@@ -65,6 +66,11 @@ func keepApartFromListMarker(prefix string, item []byte) []byte {
 		return bytes.Replace(item, marker.BytesMarkerEscaping, []byte{'\\'}, 1)
 	}
 
+	if string(bytes.TrimSpace(firstLine)) != strings.TrimSpace(c.HorizontalRule) {
+		// Without any escaping, it can also be a text
+		return item
+	}
+
 	// As "_" is never used as a list marker, the rule inside the item can be told apart.
 	rule := bytes.ReplaceAll(firstLine, line[:1], []byte{'_'})
 	return append(rule, item[len(firstLine):]...)
@@ -125,7 +131,7 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
-		item = keepApartFromListMarker(prefix, item)
+		item = c.keepApartFromListMarker(prefix, item)
 		item = ctx.UnEscapeContent(item)
 
 		w.WriteString(prefix)
-- 
2.43.0


From 1d47ece87703f8aa1aec8987b3cc4d04bbf35221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 42/62] fix: a backslash at the end of a table cell without
 padding does not escape the pipe

---
 plugin/table/3_render.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/table/3_render.go b/plugin/table/3_render.go
index 2fdbb25..b9725d2 100644
--- a/plugin/table/3_render.go
+++ b/plugin/table/3_render.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"bytes"
 	"strings"
 	"unicode/utf8"
 
@@ -110,6 +111,9 @@ func (s *tablePlugin) writeRow(w converter.Writer, counts []int, cells [][]byte)
 
 		if s.cellPaddingBehavior == CellPaddingBehaviorAligned || s.cellPaddingBehavior == CellPaddingBehaviorMinimal {
 			w.WriteString(" ")
+		} else if bytes.HasSuffix(cell, []byte(`\`)) {
+			// Otherwise the backslash would escape the pipe.
+			w.WriteString(" ")
 		}
 
 		w.WriteString("|")
-- 
2.43.0


From 110c63414c4c4e4b573a1adf8fb16756dbc18b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 43/62] fix: keep nested matches of the include selector at
 their place

---
 cli/html2markdown/cmd/cmd_convert.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..79ab32c 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,6 +33,15 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
+func hasAncestor(n *html.Node, ancestor *html.Node) bool {
+	for p := n.Parent; p != nil; p = p.Parent {
+		if p == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 	if len(cli.config.includeSelector) == 0 {
 		return doc, nil
@@ -41,6 +50,10 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	root := &html.Node{}
 	for _, n := range nodes {
+		if hasAncestor(n, root) {
+			// It is already included as part of another match.
+			continue
+		}
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
-- 
2.43.0


From e551d6c8dc65315aed6d7011151ee563dc3008cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 44/62] fix: match the exclude selector before removing nodes

---
 cli/html2markdown/cmd/cmd_convert.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 79ab32c..17e9bf1 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -65,21 +65,11 @@ func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
 		return nil
 	}
 
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
+	// First all the matches, as removing a node changes whether
+	// other nodes match (e.g. "p:last-child").
+	for _, n := range cascadia.QueryAll(doc, cli.config.excludeSelector) {
+		dom.RemoveNode(n)
 	}
-	finder(doc)
 
 	return nil
 }
-- 
2.43.0


From 800e836a9f83747e01ace51b272bf1d640c3df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:12 +0000
Subject: [PATCH 45/62] fix: report when the output cannot be written to stdout

---
 cli/html2markdown/cmd/io_output.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..a10714e 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -170,7 +170,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From 805ba353cf2d04ab53369268c462bfc3200d58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 46/62] fix: read all inputs before replacing files

---
 cli/html2markdown/cmd/exec.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..9d453d2 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -169,18 +169,23 @@ func (cli *CLI) run() ([]error, error) {
 		return nil, err
 	}
 
-	for _, input := range inputs {
+	// Only write once everything is converted, since an output
+	// could replace one of the following inputs.
+	markdowns := make([][]byte, len(inputs))
+	for i, input := range inputs {
 		data, err := cli.readInput(input)
 		if err != nil {
 			return nil, err
 		}
 
-		markdown, err := cli.convert(data)
+		markdowns[i], err = cli.convert(data)
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
+	for i, input := range inputs {
+		err = cli.writeOutput(outputType, input.outputFullFilepath, markdowns[i])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e5191d80212e5a9f7b87e223b061e7cce4583db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 47/62] fix: never write two outputs to the same file

---
 cli/html2markdown/cmd/io_output.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index a10714e..3fd8a32 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	allFilenames := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		filename := basename + ".md"
+
+		if allFilenames[filename] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -105,11 +104,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 			// Bonus: It makes testing easier as the temporary folder does not matter.
 			hash := hashFilepath(relativePath)
 
-			// -> The filename for duplicates
-			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+			// -> The filename for duplicates. An input can already have that name
+			//    (e.g. if it is itself such an output), then we need more of the hash.
+			for length := 10; allFilenames[filename] && length <= len(hash); length++ {
+				filename = basename + "." + hash[:length] + ".md"
+			}
 		}
 
-		allBasenames[basename]++
+		input.outputFullFilepath = filename
+		allFilenames[filename] = true
 	}
 
 	return nil
-- 
2.43.0


From 42c3c750bdfe57b8890ab8340d88e78d2779fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 48/62] fix: control characters in an address break the link

---
 converter/url.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/converter/url.go b/converter/url.go
index a8f801d..aad5e64 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -1,6 +1,7 @@
 package converter
 
 import (
+	"fmt"
 	"net/url"
 	"strings"
 )
@@ -46,8 +47,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	}
 
 	// Increase the chance that the url will be parsed
-	rawURL = strings.ReplaceAll(rawURL, "\n", "%0A")
-	rawURL = strings.ReplaceAll(rawURL, "\t", "%09")
+	rawURL = encodeControlChars(rawURL)
 
 	u, err := url.Parse(rawURL)
 	if err != nil {
@@ -80,6 +80,25 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 
 // - - - - //
 
+// encodeControlChars percent-encodes the control characters (e.g. "\n" and "\t").
+// They are neither allowed in an url nor in the destination of a markdown link.
+func encodeControlChars(rawURL string) string {
+	isControlChar := func(r rune) bool { return r < ' ' || r == 0x7f }
+	if !strings.ContainsFunc(rawURL, isControlChar) {
+		return rawURL
+	}
+
+	var buf strings.Builder
+	for i := 0; i < len(rawURL); i++ {
+		if isControlChar(rune(rawURL[i])) {
+			fmt.Fprintf(&buf, "%%%02X", rawURL[i])
+		} else {
+			buf.WriteByte(rawURL[i])
+		}
+	}
+	return buf.String()
+}
+
 func decodeAndEncode(original string) string {
 	s, err := url.QueryUnescape(original)
 	if err != nil {
-- 
2.43.0


From b9b9a5a4e6499faf0a655b4d5d4957733130c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 49/62] fix: a carriage return in a title or description breaks
 the line

---
 plugin/commonmark/render_image.go | 11 +++++++++--
 plugin/commonmark/render_link.go  |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 44d18e5..9e5fa22 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -16,6 +16,13 @@ var altEntityReplacer = strings.NewReplacer(
 	">", "&gt;",
 )
 
+// A carriage return is also recognized as the end of the line.
+var lineBreakReplacer = strings.NewReplacer(
+	"\r\n", " ",
+	"\n", " ",
+	"\r", " ",
+)
+
 func escapeAlt(ctx converter.Context, altString string) string {
 	// The alt description can contain other inline content,
 	// so it needs to be escaped in the same way as the other texts.
@@ -50,10 +57,10 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = lineBreakReplacer.Replace(title)
 
 	alt := dom.GetAttributeOr(n, "alt", "")
-	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = lineBreakReplacer.Replace(alt)
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index a60cd01..fee59ba 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -59,7 +59,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	}
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = lineBreakReplacer.Replace(title)
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From 7779271bb82f4f4f7398a25ceb9b19e05a7385ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:53 +0000
Subject: [PATCH 50/62] fix: carriage returns in code are line breaks

---
 plugin/commonmark/render_code.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 2de3325..d11b1eb 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -151,5 +151,10 @@ func getCodeWithoutTags(startNode *html.Node) ([]byte, string) {
 
 	f(startNode)
 
-	return buf.Bytes(), infoString
+	// The line endings can also be written as "\r\n" or "\r" (e.g. through "&#13;").
+	// Otherwise these lines would not get the prefix of the surrounding block.
+	code := bytes.ReplaceAll(buf.Bytes(), []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
+	return code, infoString
 }
-- 
2.43.0


From 929de385737b14bcffe88e2926cabbdb61a2704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 51/62] fix: a hard line break after more than two spaces stays
 before a blank line

---
 internal/textutils/consecutive_newlines.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/textutils/consecutive_newlines.go b/internal/textutils/consecutive_newlines.go
index 8f395c6..433739e 100644
--- a/internal/textutils/consecutive_newlines.go
+++ b/internal/textutils/consecutive_newlines.go
@@ -1,17 +1,15 @@
 package textutils
 
 import (
-	"bytes"
+	"regexp"
 	"unicode/utf8"
 )
 
-func TrimUnnecessaryHardLineBreaks(content []byte) []byte {
-	content = bytes.ReplaceAll(content, []byte("  \n\n"), []byte("\n\n"))
-	content = bytes.ReplaceAll(content, []byte("  \n  \n"), []byte("\n\n"))
-	content = bytes.ReplaceAll(content, []byte("  \n \n"), []byte("\n\n"))
-	// out = bytes.ReplaceAll(out, []byte("\n  \n"), []byte("\n\n"))
+// There can be even more than two spaces (e.g. if there was already a space before).
+var unnecessaryHardLineBreakR = regexp.MustCompile(`  +\n *\n`)
 
-	return content
+func TrimUnnecessaryHardLineBreaks(content []byte) []byte {
+	return unnecessaryHardLineBreakR.ReplaceAll(content, []byte("\n\n"))
 }
 
 func TrimConsecutiveNewlines(input []byte) []byte {
-- 
2.43.0


From c9ae196e8bcb0c13a9c703b6fbd7f22a989bcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 52/62] fix: two lists are not separated when whitespace is
 between them

---
 internal/domutils/list_end_comment.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index e401736..108546a 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -2,6 +2,7 @@ package domutils
 
 import (
 	"context"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -33,6 +34,18 @@ func insertComment(listNode *html.Node) {
 	listNode.Parent.InsertBefore(comment, listNode.NextSibling)
 }
 
+func isIgnorableWhitespace(node *html.Node) bool {
+	if strings.Trim(node.Data, " \t\n\f\r") != "" {
+		return false
+	}
+
+	switch dom.NodeName(node.Parent) {
+	case "pre", "code", "var", "samp", "kbd", "tt":
+		return false
+	}
+	return true
+}
+
 func nextNameIsList(startNode *html.Node) bool {
 	node := dom.GetNextNeighborNodeExcludingOwnChild(startNode)
 
@@ -50,7 +63,8 @@ func nextNameIsList(startNode *html.Node) bool {
 
 		// If there is any text between two lists
 		// they are automatically not connected anymore.
-		if node.Type == html.TextNode {
+		// But whitespace (e.g. next to an image without source) is not rendered.
+		if node.Type == html.TextNode && !isIgnorableWhitespace(node) {
 			return false
 		}
 
-- 
2.43.0


From ad1bcb15df13223c67d60b928d86c47b0f7aec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 53/62] fix: an unknown behavior for empty links is accepted
 and ignored

---
 plugin/commonmark/validation.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index a22d4b6..c70a918 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -106,5 +106,21 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
+	possibleLinkBehaviors := []string{string(LinkBehaviorRender), string(LinkBehaviorSkip)}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyHrefBehavior",
+			Value:              string(cfg.LinkEmptyHrefBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyContentBehavior",
+			Value:              string(cfg.LinkEmptyContentBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From a3a7934c716e275c565cd364f19c8a5d54c933d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:01 +0000
Subject: [PATCH 54/62] fix: a code language that contains "lang-" is cut

---
 plugin/commonmark/render_code.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index d11b1eb..b61c4f7 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -101,14 +101,13 @@ func getCodeLanguage(n *html.Node) string {
 	// The class names can be separated by any whitespace (also by newlines).
 	parts := strings.Fields(class)
 	for _, part := range parts {
-		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
-			continue
+		// Only the start of the class name is a prefix, the name of the language
+		// itself can also contain "lang-" (e.g. "language-erlang-repl").
+		for _, prefix := range []string{"language-", "lang-"} {
+			if lang, ok := strings.CutPrefix(part, prefix); ok {
+				return lang
+			}
 		}
-
-		part = strings.Replace(part, "language-", "", 1)
-		part = strings.Replace(part, "lang-", "", 1)
-
-		return part
 	}
 
 	return ""
-- 
2.43.0


From 8552a4375485e69d1e92f162aad6465640e6e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:14 +0000
Subject: [PATCH 55/62] fix: a plus sign in a mailto address becomes a space

---
 converter/url.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index aad5e64..4621626 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -60,6 +60,11 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 		return percentEncodingReplacer.Replace(rawURL)
 	}
 
+	if u.Opaque != "" {
+		// In the query of a "http" url the "+" is a space, but in a "mailto" it is just a "+".
+		u.RawQuery = strings.ReplaceAll(u.RawQuery, "+", "%2B")
+	}
+
 	// The default Query().Encode() encodes the query parameters "sorted by key".
 	// Instead we want to keep the original order, but still encode the parameters.
 	u.RawQuery = ParseAndEncodeQuery(u.RawQuery)
-- 
2.43.0


From 4c3cde573e20fc9e523e094a57221262d702c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:34 +0000
Subject: [PATCH 56/62] fix: ConvertNode takes nothing from what follows the
 node and leaves it alone

The pre-render steps went on to the rest of the tree, so that
converting the first of two adjacent <b> elements moved the second
one into it, and spaces and list-end comments were added outside.
---
 internal/domutils/add_space.go        |  6 +++---
 internal/domutils/adjacent.go         | 18 ++++++++++-------
 internal/domutils/domutils.go         | 28 +++++++++++++++++++++++++++
 internal/domutils/empty_code.go       |  4 ++--
 internal/domutils/list_end_comment.go | 10 +++++-----
 5 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..8201c75 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -47,7 +47,7 @@ func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
-				if prev != nil {
+				if prev != nil && isInside(doc, prev) {
 					prev.Data = prev.Data + " "
 				}
 			}
@@ -55,12 +55,12 @@ func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func
 			lastChild := getLastChildNode(node, isInnerNode)
 			if lastChild != nil {
 				next := getNextTextNode(node)
-				if next != nil {
+				if next != nil && isInside(doc, next) {
 					next.Data = " " + next.Data
 				}
 			}
 		}
 
-		node = dom.GetNextNeighborElement(node)
+		node = nextNodeInside(doc, node)
 	}
 }
diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index ae8270c..8f6c521 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -7,8 +7,8 @@ import (
 
 // nextInsideSpans returns the next node, without leaving the surrounding block.
 // Only the borders of a span are crossed, since a span has no special meaning.
-func nextInsideSpans(node *html.Node) *html.Node {
-	for node != nil {
+func nextInsideSpans(doc, node *html.Node) *html.Node {
+	for node != nil && node != doc {
 		if node.NextSibling != nil {
 			return node.NextSibling
 		}
@@ -21,9 +21,13 @@ func nextInsideSpans(node *html.Node) *html.Node {
 	return nil
 }
 
-func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
+func collectAdjacentNodes(doc, node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
+	if node == doc {
+		return nil
+	}
+
 	node = node.NextSibling
 	for node != nil {
 		name := dom.NodeName(node)
@@ -32,11 +36,11 @@ func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*h
 			if node.FirstChild != nil {
 				node = node.FirstChild
 			} else {
-				node = nextInsideSpans(node)
+				node = nextInsideSpans(doc, node)
 			}
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = nextInsideSpans(node)
+			node = nextInsideSpans(doc, node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
@@ -63,12 +67,12 @@ func MergeAdjacent(doc *html.Node, matchFn func(*html.Node) bool) {
 
 	for node != nil {
 		if matchFn(node) {
-			nextNodes := collectAdjacentNodes(node, matchFn)
+			nextNodes := collectAdjacentNodes(doc, node, matchFn)
 
 			mergeChildren(node, nextNodes...)
 		}
 
-		node = dom.GetNextNeighborElement(node)
+		node = nextNodeInside(doc, node)
 	}
 }
 
diff --git a/internal/domutils/domutils.go b/internal/domutils/domutils.go
index e0766c7..b309711 100644
--- a/internal/domutils/domutils.go
+++ b/internal/domutils/domutils.go
@@ -5,6 +5,34 @@ import (
 	"golang.org/x/net/html"
 )
 
+// isInside reports whether the node is a descendant of the root.
+func isInside(root, node *html.Node) bool {
+	for node = node.Parent; node != nil; node = node.Parent {
+		if node == root {
+			return true
+		}
+	}
+	return false
+}
+
+// nextNodeInside returns the next node in document order. What comes after
+// the root is not part of the conversion.
+func nextNodeInside(root, node *html.Node) *html.Node {
+	if node.FirstChild != nil {
+		return node.FirstChild
+	}
+	return nextNodeInsideExcludingOwnChild(root, node)
+}
+func nextNodeInsideExcludingOwnChild(root, node *html.Node) *html.Node {
+	for node != nil && node != root {
+		if node.NextSibling != nil {
+			return node.NextSibling
+		}
+		node = node.Parent
+	}
+	return nil
+}
+
 func getNextTextNode(startNode *html.Node) *html.Node {
 	node := dom.GetNextNeighborNodeExcludingOwnChild(startNode)
 
diff --git a/internal/domutils/empty_code.go b/internal/domutils/empty_code.go
index d6d81d1..ff107ef 100644
--- a/internal/domutils/empty_code.go
+++ b/internal/domutils/empty_code.go
@@ -29,7 +29,7 @@ func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
 		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) {
-			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
+			next := nextNodeInsideExcludingOwnChild(doc, node)
 
 			dom.RemoveNode(node)
 
@@ -37,6 +37,6 @@ func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 			continue
 		}
 
-		node = dom.GetNextNeighborNode(node)
+		node = nextNodeInside(doc, node)
 	}
 }
diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index 108546a..b0c2d78 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -13,11 +13,11 @@ var ListEndCommentData = "THE END"
 func AddListEndComments(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
-		if nameIsList(node) && nextNameIsList(node) {
+		if nameIsList(node) && nextNameIsList(doc, node) {
 			insertComment(node)
 		}
 
-		node = dom.GetNextNeighborElement(node)
+		node = nextNodeInside(doc, node)
 	}
 }
 
@@ -46,8 +46,8 @@ func isIgnorableWhitespace(node *html.Node) bool {
 	return true
 }
 
-func nextNameIsList(startNode *html.Node) bool {
-	node := dom.GetNextNeighborNodeExcludingOwnChild(startNode)
+func nextNameIsList(doc, startNode *html.Node) bool {
+	node := nextNodeInsideExcludingOwnChild(doc, startNode)
 
 	for node != nil {
 		name := dom.NodeName(node)
@@ -81,7 +81,7 @@ func nextNameIsList(startNode *html.Node) bool {
 		// TODO: look in the KeepRemoveMap?
 		// e.g. ul then script then ul
 
-		node = dom.GetNextNeighborNode(node)
+		node = nextNodeInside(doc, node)
 		continue
 	}
 	return false
-- 
2.43.0


From 655cf2166f092098cae90d458adb269c2d644dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 57/62] fix: merge bold or italic elements also if the first
 one is inside of a span

---
 internal/domutils/adjacent.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 8f6c521..b20194c 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -24,11 +24,7 @@ func nextInsideSpans(doc, node *html.Node) *html.Node {
 func collectAdjacentNodes(doc, node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
-	if node == doc {
-		return nil
-	}
-
-	node = node.NextSibling
+	node = nextInsideSpans(doc, node)
 	for node != nil {
 		name := dom.NodeName(node)
 		if name == "span" {
-- 
2.43.0


From 15c1a33afded0d4bc391256810fe69eef9911995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:59 +0000
Subject: [PATCH 58/62] fix: add the space around inline code in bold or italic
 to the text that is next to it

---
 internal/domutils/add_space.go |  4 ++--
 internal/domutils/domutils.go  | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index 8201c75..d31d773 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -13,7 +13,7 @@ func getFirstChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *h
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			node = nextNodeInside(startNode, node)
 		} else if matchFn(node) {
 			return node
 		} else {
@@ -30,7 +30,7 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			node = prevNodeInside(startNode, node)
 		} else if matchFn(node) {
 			return node
 		} else {
diff --git a/internal/domutils/domutils.go b/internal/domutils/domutils.go
index b309711..a23a5fc 100644
--- a/internal/domutils/domutils.go
+++ b/internal/domutils/domutils.go
@@ -33,6 +33,21 @@ func nextNodeInsideExcludingOwnChild(root, node *html.Node) *html.Node {
 	return nil
 }
 
+// prevNodeInside returns what comes directly before the end of the node:
+// Its last child or (if it is empty) what comes before the node.
+func prevNodeInside(root, node *html.Node) *html.Node {
+	if node.LastChild != nil {
+		return node.LastChild
+	}
+	for node != nil && node != root {
+		if node.PrevSibling != nil {
+			return node.PrevSibling
+		}
+		node = node.Parent
+	}
+	return nil
+}
+
 func getNextTextNode(startNode *html.Node) *html.Node {
 	node := dom.GetNextNeighborNodeExcludingOwnChild(startNode)
 
@@ -61,7 +76,7 @@ func getPrevTextNode(startNode *html.Node) *html.Node {
 
 		if dom.NodeName(node) == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			node = prevNodeInside(nil, node)
 			continue
 		}
 
-- 
2.43.0


From 18e0f5587529a737f86dcc9d6fcf2f7ca8668d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 59/62] fix: the content of a table cell has no unnecessary
 line breaks

---
 plugin/table/2_collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index a7d0554..b2b2261 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 	"golang.org/x/net/html/atom"
@@ -243,6 +244,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex, rowCoun
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
 		content := buf.Bytes()
+		content = textutils.TrimConsecutiveNewlines(content)
+		content = textutils.TrimUnnecessaryHardLineBreaks(content)
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
-- 
2.43.0


From 0d24248148fecf5f782591b8e0c4bbdca1390c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 60/62] fix: the alignment of a table cell does not depend on
 upper and lower case

---
 plugin/table/2_collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index b2b2261..ca4ab11 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -213,7 +213,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	var alignments []string
 	for _, cellNode := range cellNodes {
-		align := dom.GetAttributeOr(cellNode, "align", "")
+		align := strings.ToLower(dom.GetAttributeOr(cellNode, "align", ""))
 
 		// A cell that spans over multiple columns is responsible for all of them.
 		for range getColSpan(cellNode) {
-- 
2.43.0


From ecf2bc03d591574ee519795b4aee0f6e3ae1bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 61/62] fix: numbers in attributes are parsed by the rules of
 the HTML standard

---
 internal/domutils/attribute.go   | 26 ++++++++++++++++++++++++++
 plugin/commonmark/render_list.go |  5 +++--
 plugin/table/utils.go            |  9 +++------
 3 files changed, 32 insertions(+), 8 deletions(-)
 create mode 100644 internal/domutils/attribute.go

diff --git a/internal/domutils/attribute.go b/internal/domutils/attribute.go
new file mode 100644
index 0000000..4684bcb
--- /dev/null
+++ b/internal/domutils/attribute.go
@@ -0,0 +1,26 @@
+package domutils
+
+import (
+	"errors"
+	"strconv"
+	"strings"
+)
+
+// ParseInteger parses the number in an attribute by the rules of the HTML standard: White space
+// before the number and everything after it is ignored. (E.g. " 2px" is the same as "2")
+func ParseInteger(val string) (int, bool) {
+	val = strings.TrimLeft(val, " \t\n\f\r")
+
+	end := 0
+	for end < len(val) && (val[end] >= '0' && val[end] <= '9' || end == 0 && (val[end] == '+' || val[end] == '-')) {
+		end++
+	}
+
+	// Note: If the number is too big, we get the biggest possible number.
+	num, err := strconv.Atoi(val[:end])
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		return 0, false
+	}
+
+	return num, true
+}
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 9fa00c4..61d6816 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
@@ -16,8 +17,8 @@ import (
 
 func getStartAt(node *html.Node) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
-	startAt, err := strconv.Atoi(startVal)
-	if err != nil {
+	startAt, ok := domutils.ParseInteger(startVal)
+	if !ok {
 		startAt = 1
 	}
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 749fb58..708c139 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -3,10 +3,10 @@ package table
 import (
 	"cmp"
 	"slices"
-	"strconv"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/domutils"
 	"golang.org/x/net/html"
 )
 
@@ -50,11 +50,8 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	if !ok {
 		return fallback
 	}
-	num, err := strconv.Atoi(val)
-	if err != nil {
-		return fallback
-	}
-	if num < 1 {
+	num, ok := domutils.ParseInteger(val)
+	if !ok || num < 1 {
 		return fallback
 	}
 
-- 
2.43.0


From 1d38692e2e8feb400112cbf711440f8b5cab9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:56 +0000
Subject: [PATCH 62/62] fix: merge struck elements also before bold and italic
 elements are merged

---
 plugin/strikethrough/strikethrough.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 85ae6e3..59082f7 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -43,6 +43,9 @@ func (s *strikethroughPlugin) Name() string {
 	return "strikethrough"
 }
 func (s *strikethroughPlugin) Init(conv *converter.Converter) error {
+	// Merging can bring (e.g. bold) elements next to each other and the other way round.
+	// So it is done before and after the merging in the commonmark plugin.
+	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard-10)
 	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard)
 
 	conv.Register.EscapedChar('~')
-- 
2.43.0

