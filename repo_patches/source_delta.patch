From c01be787f3f60cb7e0c73dc7cacc5f625cc02897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 1/7] fix: let an emoji flag begin after any other prefix in
 the state machine

A regional indicator arriving while the machine was tracking a pictograph or
conjunct prefix put it into StateBase, so the flag's second half was then
reported as a separate cluster when the machine is driven across a boundary
without being restarted.
---
 textseg/internal/machine/state.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..c0cb4e9 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -153,14 +153,15 @@ func (s State) nextState(next charprops.CharProperties) State {
 	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
+	// An emoji flag can also begin after anything except the first half of
+	// another flag, so this is independent of any other prefix that might have
+	// been in progress.
+	if gcbProp == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		return StateAwaitEmojiFlag
+	}
 	switch s {
 	case StateBase:
-		switch gcbProp {
-		case charprops.GCBRegionalIndicator:
-			return StateAwaitEmojiFlag
-		default:
-			return StateBase
-		}
+		return StateBase
 	case StateAwaitEmojiFlag:
 		return StateBase
 	case StateGB11BeforeZWJ:
-- 
2.43.0


From 9a52d7deb10a8a9632a67228d75b407f8243e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 2/7] fix: copy the tokens AllTokens returns

bufio.Scanner.Bytes returns a slice of the scanner's buffer that later calls
to Scan may overwrite, so for inputs longer than that buffer the returned
tokens had the wrong content.
---
 autoversion/textseg/version_agnostic.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..084ea2d 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -2,11 +2,12 @@ package textseg
 
 // The functions in this file are not currently specific to a given version of
 // go-textseg, and have actually been removed in later major versions of the
-// main module so this will just continue calling into v15's implementation
-// for now, for backward-compatibility.
+// main module so except where noted this will just continue calling into
+// v15's implementation for now, for backward-compatibility.
 
 import (
 	"bufio"
+	"bytes"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -31,5 +32,14 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// v15's implementation retains slices of the scanner's internal buffer,
+	// which the scanner overwrites once the input is larger than that buffer,
+	// so here we must copy each token.
+	scanner := bufio.NewScanner(bytes.NewReader(buf))
+	scanner.Split(splitFunc)
+	var ret [][]byte
+	for scanner.Scan() {
+		ret = append(ret, bytes.Clone(scanner.Bytes()))
+	}
+	return ret, scanner.Err()
 }
-- 
2.43.0


From 8d4b7056ea604c0ef0b0f43d81d8200e8a1606f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 3/7] fix: do not share the first ASCII property block

A property block of three-byte characters with the same content as the block
for U+0000 through U+003F, such as an empty one when none of those has any
properties, was given block index zero, which the consistency check in Compact
then rejected.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..95b16c1 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -177,8 +177,8 @@ func (t *treeInProgress) Compact() RawPropertyTree {
 	indexBlockIdxs := make(map[string]uint16)
 
 	// The first 128 property values are fixed in place to represent the
-	// properties for the ASCII characters.
-	propBlockIdxs[propertyBlockKey(t.rawProps[:blockSize])] = 0
+	// properties for the ASCII characters. Block zero cannot also be used for
+	// other characters, because a zero in the index table means "no block".
 	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1
 	props = append(props, t.rawProps[:128]...)
 
-- 
2.43.0


From 072ab1d3b7d125b5d361a6b066293166eebb368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 4/7] fix: find source blocks beyond the first 1024 when
 compacting

The offset of a block was calculated in sixteen bits, so once 1024 blocks were
in use the content of a different block was copied instead.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 95b16c1..0330130 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -246,7 +246,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -280,7 +280,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From 47905f74b0cbf9914667c7f0a9764997c40bbcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 5/7] fix: reject code points beyond U+10FFFF

These were accepted as ranges of characters that do not exist, and became
negative once large enough for the conversion to rune to overflow.
---
 .../internal/charprops/ucdparse/ucd_scan.go   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..1a286e2 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode"
 )
 
 type Scanner struct {
@@ -37,17 +38,17 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		fieldsRaw = bytes.TrimSpace(fieldsRaw)
 		startHex, endHex, isRange := bytes.Cut(rng, rangeSeparator)
 		var start, end rune
-		startInt, err := strconv.ParseUint(string(startHex), 16, 32)
+		startInt, err := parseCodePoint(startHex)
 		if err != nil {
 			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
 		}
-		start = rune(startInt)
+		start = startInt
 		if isRange {
-			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
+			endInt, err := parseCodePoint(endHex)
 			if err != nil {
 				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
 			}
-			end = rune(endInt)
+			end = endInt
 		} else {
 			end = start
 		}
@@ -59,6 +60,19 @@ func (sc Scanner) NextEntry() (Entry, error) {
 	}
 }
 
+// parseCodePoint parses a hexadecimal code point, which must not be greater
+// than the largest one Unicode has.
+func parseCodePoint(hex []byte) (rune, error) {
+	v, err := strconv.ParseUint(string(hex), 16, 32)
+	if err != nil {
+		return 0, err
+	}
+	if v > unicode.MaxRune {
+		return 0, fmt.Errorf("beyond the last code point")
+	}
+	return rune(v), nil
+}
+
 type Entry struct {
 	// Start is inclusive, while End is exclusive, as is typical for Go slicing.
 	Start, End rune
-- 
2.43.0


From 96505ffebcb54ec116d976d9278fef2324670f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 6/7] fix: keep a parsed entry's fields when the next line is
 read

The fields were a slice of the line scanner's buffer, and so changed under the
entry once that was refilled.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 1a286e2..68ee37e 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -55,7 +55,7 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		return Entry{
 			Start:  start,
 			End:    end + 1,
-			Fields: Fields(fieldsRaw),
+			Fields: Fields(bytes.Clone(fieldsRaw)), // the line scanner reuses its buffer
 		}, nil
 	}
 }
-- 
2.43.0


From 1e100611b8fdc6fc49a6a6f49ee60ad49b0cc86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 7/7] fix: let the sequence of an entry's fields be ranged over
 again

The position was shared by all uses of one sequence, so the second loop over it
began at the last field that the first had reached.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 68ee37e..5cd1680 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -90,8 +90,8 @@ func (e Entry) AllFields() iter.Seq[string] {
 type Fields []byte
 
 func (f Fields) Strings() iter.Seq[string] {
-	remain := []byte(f)
 	return func(yield func(string) bool) {
+		remain := []byte(f)
 		for {
 			before, after, foundSep := bytes.Cut(remain, fieldSeparator)
 			val := bytes.TrimSpace(before)
-- 
2.43.0

