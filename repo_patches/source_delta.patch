From dfa342ff88aa4d7b413cbe0fed73fcf089f2252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 01/36] fix: reject loca tables with decreasing offsets instead
 of panicking

---
 table_loca.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index 9940b6b..08fcd9a 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -73,6 +73,12 @@ func (f *font) parseLoca(r *byteReader) (*locaTable, error) {
 		if err != nil {
 			return nil, err
 		}
+		for i := 0; i < numGlyphs; i++ {
+			if loca.offsetsShort[i+1] < loca.offsetsShort[i] {
+				logrus.Debug("Invalid length")
+				return nil, errors.New("invalid indexToLoca len")
+			}
+		}
 		return loca, nil
 	}
 
@@ -81,17 +87,10 @@ func (f *font) parseLoca(r *byteReader) (*locaTable, error) {
 		return nil, err
 	}
 	for i := 0; i < numGlyphs; i++ {
-		offset := loca.offsetsLong[i]
-		len := loca.offsetsLong[i+1] - loca.offsetsLong[i]
-		if offset < 0 {
-			logrus.Debug("Invalid offset")
-			return nil, errors.New("invalid indexToLoca offset")
-		}
-		if len < 0 {
+		if loca.offsetsLong[i+1] < loca.offsetsLong[i] {
 			logrus.Debug("Invalid length")
 			return nil, errors.New("invalid indexToLoca len")
 		}
-
 	}
 
 	return loca, nil
-- 
2.43.0


From a59ca1799892e96a9ec73b1575638a992413da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 02/36] fix: read the length of post glyph names as an unsigned
 byte

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..b95005b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From d754fd7ec9da0b6f306736c9e687a0b060fa98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 03/36] fix: load every custom post name an index refers to,
 also when names are shared

---
 table_post.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_post.go b/table_post.go
index b95005b..d2c5474 100644
--- a/table_post.go
+++ b/table_post.go
@@ -111,8 +111,8 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		newGlyphs := 0
 		for _, ni := range t.glyphNameIndex {
-			if ni >= 258 && ni <= 32767 {
-				newGlyphs++
+			if ni >= 258 && ni <= 32767 && int(ni)-257 > newGlyphs {
+				newGlyphs = int(ni) - 257
 			}
 		}
 		logrus.Tracef("newGlyphs: %d", newGlyphs)
-- 
2.43.0


From 63fb8e48869d0026b5cb5afa0af3a49e72d87335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 04/36] fix: accept post version 1.0 tables of fonts with the
 258 standard glyphs

---
 table_post.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index d2c5474..0e3bb17 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,6 +84,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
+		t.numGlyphs = f.maxp.numGlyphs
 		if t.numGlyphs != 258 {
 			logrus.Debug("Should have the mac number of glyph names")
 			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
@@ -209,7 +210,7 @@ func (f *font) writePost(w *byteWriter) error {
 
 	// TODO(gunnsth): Write out with v1.0 or v2.0.
 	version := t.version
-	if version != 0x00010000 {
+	if version != 0x00010000 || f.maxp == nil || f.maxp.numGlyphs != 258 {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-- 
2.43.0


From 92fc48789cbcae67a4c37b1dba6d01e55a98d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 05/36] fix: read post version 2.5 offsets and apply them to
 the glyph index

---
 byte_reader.go | 8 ++++++++
 table_post.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..049b057 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -81,6 +81,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]int16:
 		for i := 0; i < length; i++ {
 			val, err := r.readInt16()
diff --git a/table_post.go b/table_post.go
index 0e3bb17..5f643b5 100644
--- a/table_post.go
+++ b/table_post.go
@@ -184,7 +184,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From 7fe15b1b9dc022f1ea754a910b71cf73b5bf17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 06/36] fix: accept empty custom names in post version 2.0
 tables

---
 table_post.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/table_post.go b/table_post.go
index 5f643b5..f768029 100644
--- a/table_post.go
+++ b/table_post.go
@@ -129,10 +129,6 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 			if err != nil {
 				return nil, err
 			}
-			if numChars == 0 {
-				break
-			}
-
 			name := make([]byte, numChars)
 			err = r.readBytes(&name, int(numChars))
 			if err != nil {
-- 
2.43.0


From 69caf6bee8689fc46d08b83c0dba09aebf4aa709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 07/36] fix: do not loop forever or index out of range in cmap
 format 4 segments

---
 table_cmap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..0e7ce38 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -287,15 +287,16 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		logrus.Debugf("Segment %d/%d, c1: %d, c2: %d, d: %d, rangeOffset: %d", i+1, segCount, c1, c2, d, rangeOffset)
 
-		for c := c1; c <= c2; c++ {
+		for cc := int(c1); cc <= int(c2); cc++ {
+			c := uint16(cc)
 			var gid uint16
 
 			if rangeOffset == 0 {
 				gid = (c + d) & 0xFFFF
 			} else {
-				index := int(rangeOffset/2 + (c - c1) + uint16(i) - uint16(len(st.idRangeOffset)))
+				index := int(rangeOffset/2) + int(c-c1) + i - len(st.idRangeOffset)
 
-				if index >= len(st.glyphIDArray) {
+				if index < 0 || index >= len(st.glyphIDArray) {
 					logrus.Debugf("c1=%d c=%d c2=%d", c1, c, c2)
 					logrus.Debugf("ERROR: index outside bounds (%d/%d)", index, len(st.glyphIDArray))
 					return nil, errors.New("outside bounds")
-- 
2.43.0


From 2ed17ce30acbc13c8bce9839226f42682a5ff644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 08/36] fix: detect cmap format 4 lengths too short for the
 segments

---
 table_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 0e7ce38..fc36bf7 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -259,7 +259,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 		return nil, err
 	}
 
-	glyphIDArrLen := int(st.length-uint16(2*8+2*4*segCount)) / 2
+	glyphIDArrLen := (int(st.length) - (2*8 + 2*4*segCount)) / 2
 	logrus.Debugf("Parsing cmap format 4, segCount: %d", segCount)
 	logrus.Debugf("Table len: %d", st.length)
 	logrus.Debugf("glyphIDArrLen: %d", glyphIDArrLen)
-- 
2.43.0


From b92127433d78f6bb026fdeaaee004595897b269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 09/36] fix: load the last cmap format 4 segment

---
 table_cmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index fc36bf7..5fca58a 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -279,7 +279,7 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, int(f.maxp.numGlyphs))
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	logrus.Debugf("Number of glyphs in font: %d\n", f.maxp.numGlyphs)
-	for i := 0; i < segCount-1; i++ {
+	for i := 0; i < segCount; i++ {
 		c1 := st.startCode[i]
 		c2 := st.endCode[i]
 		d := st.idDelta[i]
@@ -289,6 +289,10 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 
 		for cc := int(c1); cc <= int(c2); cc++ {
 			c := uint16(cc)
+			if c == 0xFFFF && i == segCount-1 {
+				// Marks the end of the segments, not a character.
+				break
+			}
 			var gid uint16
 
 			if rangeOffset == 0 {
-- 
2.43.0


From b1931339c19066a7ea39463c108e7c2efb245b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 10/36] fix: write the number of cmap format 4 segments there
 are

---
 table_cmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/table_cmap.go b/table_cmap.go
index 5fca58a..1869c7c 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -351,6 +351,7 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 		format uint16
 	)
 	format = 4
+	subt.segCountX2 = uint16(2 * len(subt.endCode))
 	// TODO(gunnsth): Not the place to generate this?  Somewhere else should have ability to generate
 	//       based on character codes.
 	subt.length = 7*2 + subt.segCountX2 + 2 + 3*subt.segCountX2 + 2*uint16(len(subt.glyphIDArray))
-- 
2.43.0


From 3dcad94a2ca5629df262716e19bf7bf1f9d4e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 11/36] fix: index the cmap format 0 array by character code

---
 table_cmap.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 1869c7c..1f1f9de 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -166,12 +166,15 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
-		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
+	for code, glyphID := range st.glyphIDArray {
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if glyphID == 0 {
+			continue
+		}
+		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From 87a6d1532e0c2c5d1dbdd2c850fe046a9f6bd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 12/36] fix: range check cmap format 12 glyph indices and
 character codes before truncating

---
 table_cmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table_cmap.go b/table_cmap.go
index 1f1f9de..e8dc045 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/sirupsen/logrus"
 )
@@ -503,7 +504,7 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
 		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
 			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
@@ -522,6 +523,9 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 				cmap[r] = gid
 			}
 			gid++
+			if charcode == math.MaxUint32 {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From f53769eafc411782e8314c2ddf99c5024393a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 13/36] fix: write the number of cmap subtables actually
 written

---
 table_cmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index e8dc045..8b35876 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -570,8 +570,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -615,7 +613,12 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
+	if err != nil {
+		return err
+	}
+
+	err = w.write(t.version, uint16(len(encodingRecords)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f1a3abc79784d170a4cfe741b4b26bb694005955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 14/36] fix: keep all cmap subtables of the same format and
 encoding

---
 table_cmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_cmap.go b/table_cmap.go
index 8b35876..0d0f67b 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -103,6 +103,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Same format and encoding, e.g. for another language.
+				key = fmt.Sprintf("%s,%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From bfa56b82849a9998c9bd6e06007093e076cd48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 15/36] fix: always return the first cmap matching the platform
 and encoding

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 72b111b..40bee15 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From 055d2e24ca391c3f8f8b1ee99d5409f78d9bf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 16/36] fix: decode full repertoire Unicode platform cmaps as
 UCS-4

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..ca5c98d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		if encodingID == 4 || encodingID == 6 {
+			// Full Unicode repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From b4feffb3dc80ab145971a3443d952fa97ee60658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 17/36] fix: derive the offset table search fields from the
 number of tables written

---
 font.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index c8b6bff..09665b5 100644
--- a/font.go
+++ b/font.go
@@ -207,12 +207,18 @@ func (f *font) numTablesToWrite() int {
 func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
+	// Binary search fields: based on the largest power of 2 not exceeding the number of tables.
+	maxPow2, entrySelector := 1, 0
+	for 2*maxPow2 <= numTables {
+		maxPow2 *= 2
+		entrySelector++
+	}
 	otTable := &offsetTable{
 		sfntVersion:   f.ot.sfntVersion,
 		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		searchRange:   uint16(16 * maxPow2),
+		entrySelector: uint16(entrySelector),
+		rangeShift:    uint16(16*numTables - 16*maxPow2),
 	}
 	trec := &tableRecords{}
 
-- 
2.43.0


From 7c4e1f6b19d6605af159384cec1d47ec945cd73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 18/36] fix: do not change the font while writing it

---
 font.go       | 10 ++++++----
 table_post.go |  3 +--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index 09665b5..a65a472 100644
--- a/font.go
+++ b/font.go
@@ -222,8 +222,6 @@ func (f *font) write(w *byteWriter) error {
 	}
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -243,9 +241,13 @@ func (f *font) write(w *byteWriter) error {
 		bufw := newByteWriter(&buf)
 
 		// head.
-		f.head.checksumAdjustment = 0
+		if f.head == nil {
+			return errRequiredField
+		}
+		head := *f.head
+		head.checksumAdjustment = 0
 		offset := startOffset
-		err := f.writeHead(bufw)
+		err := (&font{head: &head}).writeHead(bufw)
 		if err != nil {
 			return err
 		}
diff --git a/table_post.go b/table_post.go
index f768029..ffdfe20 100644
--- a/table_post.go
+++ b/table_post.go
@@ -210,10 +210,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2a4f11920ce365dc481aeece3f56af98f541e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 19/36] fix: write loca offsets relative to the first glyph,
 where the written glyf table starts

---
 table_loca.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index 08fcd9a..175b49e 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -103,12 +103,25 @@ func (f *font) writeLoca(w *byteWriter) error {
 	numGlyphs := int(f.maxp.numGlyphs)
 	isShort := f.head.indexToLocFormat == 0
 
+	// The glyph data is written from the start of the glyf table.
 	t := f.loca
 	if isShort {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		for _, offset := range t.offsetsShort {
+			err := w.write(offset - t.offsetsShort[0])
+			if err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	for _, offset := range t.offsetsLong {
+		err := w.write(offset - t.offsetsLong[0])
+		if err != nil {
+			return err
+		}
 	}
-	return w.writeSlice(t.offsetsLong)
+	return nil
 }
-- 
2.43.0


From 9e8d116c5a58c85674e52a5c2a1e13d227a6d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 20/36] fix: do not truncate the length of large glyphs in the
 loca table of subset fonts

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 40bee15..6b9a8c0 100644
--- a/export.go
+++ b/export.go
@@ -219,7 +219,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -346,7 +346,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From 93e1dd924c4f1e3ea5affa9ecabf3021396f0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 21/36] fix: fail to write name tables whose strings are out of
 reach of the record offsets

---
 table_name.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index dfa7be2..492fffe 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 	"unicode/utf8"
@@ -263,6 +264,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	{
 		bufw := newByteWriter(&buf)
 		for _, nr := range t.nameRecords {
+			if bufw.bufferedLen() > math.MaxUint16 {
+				logrus.Debug("name string data too long")
+				return errRangeCheck
+			}
 			nr.offset = offset16(bufw.bufferedLen())
 			nr.length = uint16(len(nr.data))
 			err := bufw.writeSlice(nr.data)
@@ -271,6 +276,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 			}
 		}
 		for _, ltr := range t.langTagRecords {
+			if bufw.bufferedLen() > math.MaxUint16 {
+				logrus.Debug("name string data too long")
+				return errRangeCheck
+			}
 			ltr.offset = offset16(bufw.bufferedLen())
 			ltr.length = uint16(len(ltr.data))
 			err := bufw.writeSlice(ltr.data)
@@ -289,7 +298,11 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	t.count = uint16(len(t.nameRecords))
 	t.langTagCount = uint16(len(t.langTagRecords))
 
-	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
+	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*4
+	if 6+len(t.nameRecords)*12+2+len(t.langTagRecords)*4 > math.MaxUint16 {
+		logrus.Debug("too many name records")
+		return errRangeCheck
+	}
 	t.stringOffset = 6 + offset16(t.count)*12
 	if t.format == 1 {
 		t.stringOffset += 2 + offset16(t.langTagCount)*4
-- 
2.43.0


From 9f83acfea2459dc2c0ec85e69f35193e4cf3704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 22/36] fix: GetNameRecords of fonts without a name table

---
 table_name.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_name.go b/table_name.go
index 492fffe..ef099f3 100644
--- a/table_name.go
+++ b/table_name.go
@@ -70,6 +70,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From f40a31ef56c8283b7b8e977629363f4987593154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 23/36] fix: Optimize fonts without an hmtx table

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..26f8cd2 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From 26f21a0abc3f308aebf2eac0421c525bea77ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 24/36] fix: subset fonts without a glyf table

---
 table_glyf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..2d189de 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -245,6 +245,9 @@ func (f compositeGlyphFlag) IsSet(flag compositeGlyphFlag) bool {
 
 // Returns list of glyphs that `gid` depends on (other than itself).
 func (glyf *glyfTable) GetComponents(gid GlyphIndex) ([]GlyphIndex, error) {
+	if glyf == nil {
+		return nil, nil
+	}
 	if int(gid) >= len(glyf.descs) {
 		logrus.Debugf("GID not accessible (%d > %d)", gid, len(glyf.descs))
 		return nil, nil
-- 
2.43.0


From 44238ffd27c7db11ffeb96809f8a539f6fa636a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 25/36] fix: report a negative number of glyphs to SubsetFirst
 as an error

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 6b9a8c0..d37897c 100644
--- a/export.go
+++ b/export.go
@@ -286,6 +286,10 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
 	}
+	if numGlyphs < 0 {
+		logrus.Debugf("Negative number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	newfnt := font{}
 
 	newfnt.ot = &offsetTable{}
-- 
2.43.0


From a06343032e8dd3a47385235da5deca0d11576515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 26/36] fix: report a broken composite glyph each time it is
 needed

---
 table_glyf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index 2d189de..45fd844 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -120,7 +120,12 @@ func (gd *glyphDescription) parse() error {
 		return nil
 	}
 
-	return gd.parseComposite(r)
+	err = gd.parseComposite(r)
+	if err != nil {
+		// Not loaded.
+		gd.header = nil
+	}
+	return err
 }
 
 func (gd *glyphDescription) parseHeader(r *byteReader) error {
-- 
2.43.0


From 3917cab569c4e95bd8f0e19fe37108a85c823b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 27/36] fix: decode names of the Unicode platform and of
 Windows full Unicode as UTF-16BE

---
 table_name.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/table_name.go b/table_name.go
index ef099f3..e4360a4 100644
--- a/table_name.go
+++ b/table_name.go
@@ -10,7 +10,6 @@ import (
 	"math"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -115,18 +114,8 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// Strings of the Unicode platform are encoded in UTF-16BE.
+		return makePrintable(strutils.UTF16ToString(nr.data))
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
@@ -148,7 +137,7 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From 724d1d2ca0048ff550da3f16c72bf85bdecc0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 28/36] fix: do not overwrite the data following an odd length
 UTF-16 string

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..587dc95 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0)
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 691e91e3605a0b5c03368f4251a48f2d9145114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 29/36] fix: do not change the counts of the name table while
 writing it

---
 table_name.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index e4360a4..92f02d9 100644
--- a/table_name.go
+++ b/table_name.go
@@ -250,7 +250,9 @@ func (f *font) writeNameTable(w *byteWriter) error {
 		logrus.Debug("name is nil")
 		return nil
 	}
-	t := f.name
+	// Work on a copy, counts and offsets are updated.
+	t := &nameTable{}
+	*t = *f.name
 
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
-- 
2.43.0


From 097a61193de7efacf3bf7bc2a18d72855dd2b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 30/36] fix: SubsetKeepIndices no longer removes the glyph data
 of the original font

---
 export.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/export.go b/export.go
index d37897c..0cc537c 100644
--- a/export.go
+++ b/export.go
@@ -197,15 +197,13 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
 
 		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
-			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
-				continue
+		for i, desc := range f.font.glyf.descs {
+			if _, has := gidIncludedMap[GlyphIndex(i)]; !has {
+				desc = &glyphDescription{}
 			}
-
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs = append(newfnt.glyf.descs, desc)
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From 4a4ca3a7fc3f5db7517f0f17e6844f5387737d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 31/36] fix: SubsetFirst limits the character maps of the
 subset, not those of the original font

---
 export.go     | 20 +++++++++++++-------
 table_cmap.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/export.go b/export.go
index 0cc537c..dac15f4 100644
--- a/export.go
+++ b/export.go
@@ -405,14 +405,17 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].subsetFirst(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
-				for i := range t.glyphIDArray {
-					if i > numGlyphs {
-						t.glyphIDArray[i] = 0
+				glyphIDArray := make([]uint8, len(t.glyphIDArray))
+				for i, gid := range t.glyphIDArray {
+					if int(gid) < numGlyphs {
+						glyphIDArray[i] = gid
 					}
 				}
+				t.glyphIDArray = glyphIDArray
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -469,11 +472,14 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
-				for i := range t.glyphIDArray {
-					if int(t.glyphIDArray[i]) >= numGlyphs {
-						t.glyphIDArray[i] = 0
+				glyphIDArray := make([]uint16, len(t.glyphIDArray))
+				for i, gid := range t.glyphIDArray {
+					if int(gid) < numGlyphs {
+						glyphIDArray[i] = gid
 					}
 				}
+				t.glyphIDArray = glyphIDArray
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index 0d0f67b..d2c8de5 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -132,6 +132,38 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// subsetFirst returns a copy of `st` with only the mappings to the first `numGlyphs` glyphs.
+// The specific subtable data (ctx) is shared with `st`.
+func (st *cmapSubtable) subsetFirst(numGlyphs int) *cmapSubtable {
+	newst := &cmapSubtable{}
+	*newst = *st
+
+	newst.cmap = map[rune]GlyphIndex{}
+	for r, gid := range st.cmap {
+		if int(gid) < numGlyphs {
+			newst.cmap[r] = gid
+		}
+	}
+	newst.charcodeToGID = map[CharCode]GlyphIndex{}
+	for cc, gid := range st.charcodeToGID {
+		if int(gid) < numGlyphs {
+			newst.charcodeToGID[cc] = gid
+		}
+	}
+	switch st.format {
+	case 4, 12:
+		// Indexed by GID.
+		if len(st.runes) > numGlyphs {
+			newst.runes = st.runes[:numGlyphs:numGlyphs]
+		}
+		if len(st.charcodes) > numGlyphs {
+			newst.charcodes = st.charcodes[:numGlyphs:numGlyphs]
+		}
+	}
+
+	return newst
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From 84aa0800011bf2d4e137102a8ae545898c03b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 32/36] fix: write the final cmap format 4 segment also when no
 character is left

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index dac15f4..a40d680 100644
--- a/export.go
+++ b/export.go
@@ -456,7 +456,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
+				if segments == 0 || newt.endCode[segments-1] < 65535 {
 					newt.endCode = append(newt.endCode, 65535)
 					newt.startCode = append(newt.startCode, 65535)
 					newt.idDelta = append(newt.idDelta, 1)
-- 
2.43.0


From d24c090ce72bd8165e6f6036eb6c954f5caca1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 33/36] fix: keep the required loca table when subsetting fonts
 without a glyf table

---
 export.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/export.go b/export.go
index a40d680..7eb3394 100644
--- a/export.go
+++ b/export.go
@@ -222,6 +222,9 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
 		}
+	} else if f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
 	}
 
 	if f.font.prep != nil {
@@ -353,6 +356,15 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
 		}
+	} else if f.font.loca != nil {
+		newfnt.loca = &locaTable{}
+		*newfnt.loca = *f.font.loca
+		if len(newfnt.loca.offsetsShort) > numGlyphs+1 {
+			newfnt.loca.offsetsShort = newfnt.loca.offsetsShort[:numGlyphs+1]
+		}
+		if len(newfnt.loca.offsetsLong) > numGlyphs+1 {
+			newfnt.loca.offsetsLong = newfnt.loca.offsetsLong[:numGlyphs+1]
+		}
 	}
 
 	if f.font.prep != nil {
-- 
2.43.0


From 61961c2fb41b9ebb8cce10fca57eebcf3505372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 34/36] fix: report incomplete writes

---
 byte_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..2e53f33 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -36,6 +36,9 @@ func (w *byteWriter) flush() error {
 		return err
 	}
 	w.flushedLen += int64(n)
+	if n < len(b) {
+		return io.ErrShortWrite
+	}
 
 	w.buffer.Reset()
 	return nil
-- 
2.43.0


From 3189eba50e7249e2ca536fa761e3640e012897f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 35/36] fix: truecli: exit with an error when the font cannot
 be written back

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..f448262 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0


From f9cb4da96646a16c15be2ca8c25c217938a9da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 36/36] fix: truecli: reject glyph indices that do not fit 16
 bits

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index f448262..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0

