From ac1b92019fa083cf796ff183d6ef1df8148e7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 1/8] fix: count escape sequences in characters, U+009B takes 2
 bytes

---
 width.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..fc9a4c1 100644
--- a/width.go
+++ b/width.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ilius/go-lru"
 	"github.com/ilius/go-table/runewidth"
@@ -49,7 +50,8 @@ func countMatchesLength(re *regexp.Regexp, s string) int {
 		// loc[0] is the start index of the match,
 		// loc[1] is the end index (exclusive)
 		start += loc[1]
-		total += loc[1] - loc[0] - 1
+		// count characters, not bytes: U+009B takes 2 bytes
+		total += utf8.RuneCountInString(remaining[loc[0]:loc[1]]) - 1
 	}
 	return total
 }
-- 
2.43.0


From 1f974c3dc0d7cfe778a85e2e8393c181190f0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 2/8] fix: make the shared width cache safe for concurrent use

---
 width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/width.go b/width.go
index fc9a4c1..be3a817 100644
--- a/width.go
+++ b/width.go
@@ -17,7 +17,7 @@ var ansiEscapeRE = regexp.MustCompile(
 	"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]",
 )
 
-var widthCache = lru.New[string, uint16](lru.WithCapacity(10000))
+var widthCache = lru.NewSync[string, uint16](lru.WithCapacity(10000))
 
 // runewidth.FillLeft(str, width) or runewidth.FillRight(str, width) do not work
 
-- 
2.43.0


From bd687ea3402e5b362da646d59f415f6ee006c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 3/8] fix: compare header titles by display width, not bytes

---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..bdb3952 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0


From c21d3b827ddd52705ad758da487152d641953910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 4/8] fix: width of a table without columns is zero

---
 table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table.go b/table.go
index bdb3952..9007003 100644
--- a/table.go
+++ b/table.go
@@ -159,6 +159,9 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
+	if t.ColumnCount() == 0 {
+		return 0
+	}
 	width := (uint16(t.ColumnCount()) - 1) * margin
 	for _, col := range t.Columns {
 		width += t.Width(col.Name)
-- 
2.43.0


From 619370c580fd85cffcb5c8874347babde98d0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 5/8] fix: merging an empty list writes no line

---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..9c03520 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -36,7 +36,7 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
diff --git a/vertical.go b/vertical.go
index a64518e..a475000 100644
--- a/vertical.go
+++ b/vertical.go
@@ -36,7 +36,7 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
-- 
2.43.0


From b943e2ae84be959414e2de26bdc6638f886da962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 6/8] fix: compact horizontal merging stops at one line

---
 horizontal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 9c03520..c11fdfb 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -75,6 +75,9 @@ func (t *Table) compactCalcH(
 	colN := uint16(t.ColumnCount())
 	for {
 		groupCount := groupCountInit + extra + 1
+		if groupCount > items.Len() {
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
 		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
 		for _, w := range cellWidthNew {
-- 
2.43.0


From c9d17b6d7ce04da9d42e3c29926d932a6a5a982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 7/8] fix: compute merged line widths without 16-bit overflow
 or division by zero

---
 horizontal.go | 45 +++++++++++++++++++++++++++++++++------------
 table.go      |  2 +-
 vertical.go   | 19 +++++++------------
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index c11fdfb..a1667aa 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,21 +13,17 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
-	if groupCount < 1 {
-		groupCount = 1
-	}
+	groupCount := t.mergeGroupCount(maxWidthArg, margin)
 	getWidth := func(colI int, _ int) uint16 {
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcH(items, maxWidth, margin, groupCount)
+		extra, cellWidth := t.compactCalcH(items, maxWidthArg, margin, groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
@@ -68,20 +64,19 @@ func (t *Table) MergeRowsHorizontal(
 
 func (t *Table) compactCalcH(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
 	for {
 		groupCount := groupCountInit + extra + 1
 		if groupCount > items.Len() {
 			return
 		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + t.mergeInnerWidth()*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
@@ -112,3 +107,29 @@ func (t *Table) mergedRowsWidthH(
 	}
 	return width
 }
+
+// mergeInnerWidth is the total width of separators between cells of an item
+func (t *Table) mergeInnerWidth() int {
+	colN := t.ColumnCount()
+	if colN < 2 {
+		return 0
+	}
+	return innerMargin * (colN - 1)
+}
+
+// mergeGroupCount is the number of items that fit on a line, at least 1,
+// when all items are laid out by recorded column widths
+func (t *Table) mergeGroupCount(maxWidth int, margin int) int {
+	itemWidth := t.mergeInnerWidth()
+	for _, col := range t.Columns {
+		itemWidth += int(t.Width(col.Name))
+	}
+	if itemWidth+margin == 0 {
+		return 1
+	}
+	groupCount := (maxWidth + margin) / (itemWidth + margin)
+	if groupCount < 1 {
+		return 1
+	}
+	return groupCount
+}
diff --git a/table.go b/table.go
index 9007003..2998019 100644
--- a/table.go
+++ b/table.go
@@ -7,7 +7,7 @@ import (
 
 const (
 	innerSep    = " "
-	innerMargin = uint16(len(innerSep))
+	innerMargin = len(innerSep)
 	MAX_WIDTH   = 65535 // 2^16 - 1
 )
 
diff --git a/vertical.go b/vertical.go
index a475000..f0cecde 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,21 +13,17 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
 	}
-	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
-	if groupCount < 1 {
-		groupCount = 1
-	}
+	groupCount := t.mergeGroupCount(maxWidthArg, margin)
 	getWidth := func(colI int, _ int) uint16 {
 		return t.columnWidth[t.Columns[colI].Name]
 	}
 	if compact {
-		extra, cellWidth := t.compactCalcV(items, maxWidth, margin, groupCount)
+		extra, cellWidth := t.compactCalcV(items, maxWidthArg, margin, groupCount)
 		if extra > 0 {
 			groupCount += extra
 			getWidth = func(colI int, groupI int) uint16 {
@@ -68,20 +64,19 @@ func (t *Table) MergeRowsVertical(
 
 func (t *Table) compactCalcV(
 	items FormattedItemList,
-	maxWidth uint16,
-	margin uint16,
+	maxWidth int,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + t.mergeInnerWidth()*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
 		if totalWidth > maxWidth {
 			return
-- 
2.43.0


From 82b1f6a7b422577335304a9f1950d293e44c1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:31 +0000
Subject: [PATCH 8/8] fix: limit the width of very long texts to MAX_WIDTH
 instead of wrapping around

---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index be3a817..7908fb1 100644
--- a/width.go
+++ b/width.go
@@ -32,7 +32,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	width := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0

