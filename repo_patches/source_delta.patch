From 6a6f0b1b3ad845fb427eacadd08c15fff02dc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 01/64] fix: font header texts are read with wrapped offsets
 when they are long

---
 font.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..9176fc6 100644
--- a/font.go
+++ b/font.go
@@ -113,24 +113,24 @@ func (self *FontHeader) MinorVersionDate() Date {
 	return Date{ Year: y, Month: m, Day: d }
 }
 func (self *FontHeader) Name() string {
-	nameLen := self.Data[28]
+	nameLen := int(self.Data[28])
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 5ad096a64c7afc14e56c049fc5efe8795a7ff06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 02/64] fix: glyph name search compares names in a different
 order than they are stored

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 9176fc6..ae8775c 100644
--- a/font.go
+++ b/font.go
@@ -496,11 +496,10 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
+		if i >= len(str) { return false } // str is a prefix of bytes
+		if bytes[i] != str[i] { return bytes[i] < str[i] }
 	}
-	if len(bytes) == len(str) { return false } // equal
-	return true // smaller
+	return len(bytes) < len(str)
 }
 
 func bytesEqStr(bytes []byte, str string) bool {
-- 
2.43.0


From 3c5864f9a1d849c673a553f122679d99556b90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 03/64] fix: mapping cases after a range group are read from a
 wrong offset

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index ae8775c..a2fb6cd 100644
--- a/font.go
+++ b/font.go
@@ -834,7 +834,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -905,7 +905,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 6cf34289bf4cd395a69f2dc721d3b66c42865c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 04/64] fix: glyph groups report the wrong animation flags and
 list glyphs

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index a2fb6cd..8ecaae9 100644
--- a/font.go
+++ b/font.go
@@ -706,7 +706,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
@@ -732,7 +732,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From 505780e72f8016e298c0de319453ea8fa574e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 05/64] fix: rewrite rule outputs are not all reported

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 8ecaae9..97af769 100644
--- a/font.go
+++ b/font.go
@@ -1123,7 +1123,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1161,7 +1161,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From ce0aec322eb9e18cd5b60b83755bdc5129e31930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 06/64] fix: code point set ranges are reported with wrong ends

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 97af769..e5078c8 100644
--- a/font.go
+++ b/font.go
@@ -1241,9 +1241,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 340949fd58c5086bdcb2db839e4bc5d61a74f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 07/64] fix: rewrite conditions can't be evaluated

---
 font.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index e5078c8..e0ba936 100644
--- a/font.go
+++ b/font.go
@@ -958,9 +958,9 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions - 1 + (uint32(conditionKey) << 1) : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
 	endOffset -= 1 // we will evaluate from last to first
@@ -970,7 +970,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-	if endDataIndex != maxDataIndex { panic(brokenCode) }
+	if endDataIndex != maxDataIndex + 1 { panic(brokenCode) }
 	return satisfied
 
 	// - 0b000X_XXXX: `OR` condition group. The X's indicate the number of terms in the expression (can't be < 2).
-- 
2.43.0


From 857f7e9c77936bdeba7c9c4c1e94a15e82d2acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 08/64] fix: condition groups skip too many terms and panic on
 the last one

---
 font.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index e0ba936..ad99009 100644
--- a/font.go
+++ b/font.go
@@ -989,12 +989,11 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1006,12 +1005,11 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
@@ -1070,7 +1068,7 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0010_0000: // AND
@@ -1078,7 +1076,7 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-- 
2.43.0


From 6e89aadb8f0770c48e3b7e4e0cf614bc7b30953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 09/64] fix: comparison conditions compare the setting index
 instead of its value

---
 font.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index ad99009..86af48b 100644
--- a/font.go
+++ b/font.go
@@ -1024,12 +1024,12 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, settings[setting] == operand
+		case 0b001: return dataIndex + 3, settings[setting] != operand
+		case 0b010: return dataIndex + 3, settings[setting]  < operand
+		case 0b011: return dataIndex + 3, settings[setting]  > operand
+		case 0b100: return dataIndex + 3, settings[setting] <= operand
+		case 0b101: return dataIndex + 3, settings[setting] >= operand
 		default:
 			panic(invalidFontData)
 		}
-- 
2.43.0


From 2f8714dbe9d3447fa599d25ac05dcac851927201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 10/64] fix: parsing depends on the signature being delivered
 in a single read

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 37537b5..d55e4da 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From e4b2dee76af9d5fb1a5945983208c3c4f1b0dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 11/64] fix: fonts truncated at kerning or rule sizes are
 parsed without errors

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index d55e4da..7ce1c3f 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From d16e761c3429915515258b6808d07e3870f66d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 12/64] fix: trailing font data is accepted or makes parsing
 panic

---
 internal/parsing_buffer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..d96d813 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,14 +38,13 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
+	for !self.eof && len(self.Bytes) <= self.Index {
+		err := self.readMore()
+		if err != nil { return err }
+	}
+	if len(self.Bytes) > self.Index {
 		return errors.New("file continues beyond the expected end")
 	}
-	if !self.eof { panic("broken code") }
 	return nil
 }
 
-- 
2.43.0


From 001520b9c50eb2b688545c20a09c2a5bfce1d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 13/64] fix: fonts with 254 mapping switches can be built but
 not parsed

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7ce1c3f..8de7369 100644
--- a/parse.go
+++ b/parse.go
@@ -273,7 +273,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 483aefa908527960fb2721f65f1c025218ae94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 14/64] fix: fonts with glyph masks above 255 bytes can be
 built but not parsed

---
 parse.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parse.go b/parse.go
index 8de7369..c449b22 100644
--- a/parse.go
+++ b/parse.go
@@ -196,9 +196,6 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 1954b7b032f2936ff00a20588443cd338a5df8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 15/64] fix: fonts with long rewrite rules can be built but not
 parsed

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index c449b22..b138cc1 100644
--- a/parse.go
+++ b/parse.go
@@ -385,7 +385,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -406,7 +406,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From df57fbd78d87cd582306cdd7fdd82c3471c28ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 16/64] fix: fonts with empty rewrite sets can be built but not
 parsed

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index b138cc1..4efd9fe 100644
--- a/parse.go
+++ b/parse.go
@@ -346,7 +346,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -364,7 +364,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From 8ca620fea7d91733ae23c4ffdfca5c0aae0a1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 17/64] fix: ParseFromFS leaves the file open on stat errors
 and oversized files

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4efd9fe..27b1f96 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From 87c2e4db8ce6ca300d02649a7772d3ff5ac59703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 18/64] fix: names with consecutive hyphens are accepted

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index d96d813..28ec85c 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -198,7 +198,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From 0ed179e9c021e816b1d8803c1246bb4237234340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 19/64] fix: checking a date without month panics

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..dda1166 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Month == 0 { return true } // no month implies no day
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From 73f882bdfa6af84af4f688bc66b1fe5d54cad7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 20/64] fix: shrinking an empty circular buffer may leave its
 head out of range

---
 internal/circular_buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..c2c213b 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -117,6 +117,7 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 	
 	// see if we are growing or shrinking
 	if capacity < self.capacity { // shrinking
+		if self.numElements == 0 { self.headIndex = 0 }
 		lenReduction := self.capacity - capacity
 		if self.numElements > (self.capacity - self.headIndex) {
 			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
-- 
2.43.0


From 077a3c9c0e5ffff66500c58a4e6e57e6370d142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 21/64] fix: big circular buffers compute a wrong last element
 when wrapping

---
 internal/circular_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index c2c213b..1977275 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -149,7 +149,7 @@ func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
 	index := self.headIndex + self.numElements - 1
 	
 	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
+		return self.numElements - 1 - (self.capacity - self.headIndex)
 	} else if index < self.capacity { // simple case
 		return index
 	} else { // wrap case
-- 
2.43.0


From fe402c9356bf81058dd12c83408801a75a33b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 22/64] fix: custom words of settings are numbered differently
 than they are stored

---
 builder/font_builder.go          |  5 ++-
 builder/font_builder_settings.go | 59 +++++++++++++++-----------------
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..26c7093 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -376,17 +376,16 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		for word, index := range words {
 			wordsList[index] = word
 		}
-		slices.Sort(wordsList)
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..67f004f 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -22,45 +23,39 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 func organizeWords(builtinWords, words map[string]int16) error {
 	if len(words) > 255 { return errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
+	// sort words so the encoding is stable
+	sortedWords := make([]string, 0, len(words))
 	for word, _ := range words {
-		builtinIndex, isBuiltIn := builtinWords[word]
-		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
-		} else {
-			words[word] = int16(customWordIndex)
-			customWordIndex += 1
-		}
+		sortedWords = append(sortedWords, word)
 	}
+	slices.Sort(sortedWords)
 
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
-				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
-			}
+	// custom words take the first indices, so builtin words on those
+	// indices have to be redefined (index 255 can't be used either)
+	var numCustomWords int
+	isCustomWord := func(word string) bool {
+		index, isBuiltin := builtinWords[word]
+		return !isBuiltin || index == 255 || int(index) < numCustomWords
+	}
+	for {
+		var count int
+		for _, word := range sortedWords {
+			if isCustomWord(word) { count += 1 }
 		}
+		if count == numCustomWords { break }
+		numCustomWords = count
 	}
 
-	// delete built-in words
-	for word, index := range words {
-		if index < 0 { delete(words, word) }
+	// set custom word indices and delete built-in words
+	var customWordIndex int16
+	for _, word := range sortedWords {
+		if isCustomWord(word) {
+			words[word] = customWordIndex
+			customWordIndex += 1
+		} else {
+			delete(words, word)
+		}
 	}
-	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
 
 	return nil
 }
-- 
2.43.0


From 7a98396aea898e9c5ddb4d8c30c2b2e8629ce1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 23/64] fix: glyph groups are stored in a different order than
 requested

---
 builder/font_builder_mapping.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..4aac63b 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,5 @@
 package builder
 
-import "slices"
 import "errors"
 import "fmt"
 
@@ -99,8 +98,7 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
+	// consecutive glyphs can be encoded as a range (the order matters)
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 8b7262676c5be6708e801e5c16d92f81d57b1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 24/64] fix: mapping with a switch panics if it has single
 glyph groups

---
 builder/font_builder_mapping.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 4aac63b..efbe4a6 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -216,7 +216,10 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) == 1 {
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
-- 
2.43.0


From 197ff1c02d12ca54a6ec3adadd22db0cecbce9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 25/64] fix: invalid mapping requests with switches panic or
 are accepted until building panics

---
 builder/font_builder_mapping.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index efbe4a6..c9df39e 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -175,7 +175,7 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return errors.New("can't map code points before ' ' (space)")
 	}
 	if mapSwitch >= 254 {
-		panic("MapWithSwitch expects a map switch < 254")
+		return errors.New("mapping with a switch requires a map switch < 254")
 	}
 	if int(mapSwitch) >= len(self.mappingSwitches) {
 		return errors.New("can't map with undefined switch")
@@ -185,6 +185,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -203,7 +206,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 		return errors.New("can't map code points before ' ' (space)")
 	}
 	if mapSwitch >= 254 {
-		panic("MapWithSwitch expects a map switch < 254")
+		return errors.New("mapping with a switch requires a map switch < 254")
 	}
 	if int(mapSwitch) >= len(self.mappingSwitches) {
 		return errors.New("can't map with undefined switch")
@@ -215,7 +218,10 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	finalAnimFlags := make([]ggfnt.AnimationFlags, 0, len(glyphUIDs))
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
-		if len(group) == 0 { panic("glyph groups can't be empty") }
+		if len(group) == 0 { return errors.New("glyph groups can't be empty") }
+		if len(group) > 128 { return errors.New("glyph groups can't exceed 128 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
 		if len(group) == 1 {
 			finalAnimFlags = append(finalAnimFlags, 0)
 			continue
-- 
2.43.0


From b836dee1d4d00be148fbbc634c8f8114cc5b8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 26/64] fix: builder keeps references to slices and masks owned
 by the caller

---
 builder/font_builder_mapping.go       | 5 +++--
 builder/font_builder_props.go         | 9 ++++++++-
 builder/font_builder_rewrite_rules.go | 5 +++--
 builder/font_builder_settings.go      | 2 +-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index c9df39e..f7cacc0 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,5 +1,6 @@
 package builder
 
+import "slices"
 import "errors"
 import "fmt"
 
@@ -154,7 +155,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -236,7 +237,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..353377e 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -195,6 +195,13 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 		//       post offsets add to the relevant value. unclear how valuable that is
 	}
 
+	// copy the mask, the caller might keep using it for something else
+	maskCopy := image.NewAlpha(glyphMask.Rect)
+	for y := glyphMask.Rect.Min.Y; y < glyphMask.Rect.Max.Y; y++ {
+		rowIndex := maskCopy.PixOffset(maskCopy.Rect.Min.X, y)
+		copy(maskCopy.Pix[rowIndex : rowIndex + maskCopy.Stride], glyphMask.Pix[glyphMask.PixOffset(glyphMask.Rect.Min.X, y) : ])
+	}
+
 	const MaxRerolls = 4
 	for i := 1; i <= MaxRerolls; i++ {
 		glyphUID, err := internal.CryptoRandUint64()
@@ -209,7 +216,7 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: maskCopy,
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..a0d417d 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt/internal"
 
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -273,7 +274,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 67f004f..f4f6a20 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -96,6 +96,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From 5f4781d45cbe263a7f86606b6155f90c03c5fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 27/64] fix: vertical kerning values are looked up among the
 horizontal pairs

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 26c7093..c36799c 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -651,7 +651,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From df92456ba98c659a44102cd39bf6217aeadd56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 28/64] fix: building panics if a kerning pair uses an
 undefined glyph

---
 builder/font_builder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c36799c..dca072a 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -605,9 +605,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.horzKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair is using an undefined glyph") }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair is using an undefined glyph") }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
@@ -636,9 +636,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.vertKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair is using an undefined glyph") }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair is using an undefined glyph") }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
-- 
2.43.0


From 7c2821d51098cfa43778023c44880cd2bbc3b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 29/64] fix: edition data with undefined kerning classes or
 glyphs panics or is accepted until building panics

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index dca072a..0d0be8f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -756,6 +756,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair uses an undefined glyph")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
@@ -779,6 +785,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair uses an undefined glyph")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
-- 
2.43.0


From 70a01615d122b5e8dc015d2147c65db6cd37fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 30/64] fix: clearing edition data leaves the pairs that it had
 added

---
 builder/font_builder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 0d0be8f..54b0914 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -834,11 +834,17 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair only existed due to its class
+			delete(self.horzKerningPairs, key)
+		}
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair only existed due to its class
+			delete(self.vertKerningPairs, key)
+		}
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From 89b2560759da42ea9d8cd2e7c4269e12c4d7a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 31/64] fix: parsing edition data depends on the signature
 being delivered in a single read

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 54b0914..a949159 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -695,8 +695,8 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		return parser.NewError("failed to read file signature")
 	}
 	if !slices.Equal(parser.TempBuff[0 : 6], []byte{'w', 'k', 'g', 'f', 'n', 't'}) {
-- 
2.43.0


From 911693e51431357abc7aaa8cd86d7469ed38261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 32/64] fix: building panics after removing a glyph set

---
 builder/font_builder_rewrite_sets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..b8bc83a 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,8 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	orderIndex := slices.Index(self.glyphSetsOrder, setUID)
+	self.glyphSetsOrder = slices.Delete(self.glyphSetsOrder, orderIndex, orderIndex + 1)
 	return true
 }
 
-- 
2.43.0


From 41fa1f452cd629e3f2f44313be56ddb2096bbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 33/64] fix: removing ranges or elements from rewrite sets
 doesn't remove them

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index b8bc83a..9a8615d 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -112,7 +112,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -152,7 +152,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -222,7 +222,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -259,7 +259,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From a091c2f4894e1cd3e45b4f4fccf6a82adb104575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 34/64] fix: building panics with glyph sets of 255 ranges or
 glyphs

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 9a8615d..26017b3 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From c3c896b04d624e9da46e614737e6e06a30a93089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 35/64] fix: creating a rune set panics

---
 builder/font_builder.go              | 2 +-
 builder/font_builder_rewrite_sets.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index a949159..65324b0 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -517,7 +517,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	data = append(data, 0) // NumUtf8Sets
 	// ... (TODO)
 	if len(self.rewriteRuneSets) > 0 {
-		panic("rune sets encoding unimplemented")
+		return nil, errors.New("rune sets encoding unimplemented")
 	}
 	
 	if len(self.rewriteGlyphSets) > 255 { panic(invalidInternalState) }
diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 26017b3..5d6cd52 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -180,11 +180,13 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
+	self.runeSetsOrder = append(self.runeSetsOrder, uid)
 	return uid, nil
 }
 
@@ -192,6 +194,8 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 	_, found := self.rewriteRuneSets[setUID]
 	if !found { return false }
 	delete(self.rewriteRuneSets, setUID)
+	orderIndex := slices.Index(self.runeSetsOrder, setUID)
+	self.runeSetsOrder = slices.Delete(self.runeSetsOrder, orderIndex, orderIndex + 1)
 	return true
 }
 
-- 
2.43.0


From 4b612fc73a2b0874b5f6faed11bf8a4383bf3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 36/64] fix: invalid block and output lengths of glyph rewrite
 rules are accepted

---
 builder/font_builder_rewrite_rules.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index a0d417d..63f30bd 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -233,16 +233,18 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
-	headBodyLen := headLen + bodyLen
-	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
+	inLen := int(headLen) + int(bodyLen) + int(tailLen)
+	if inLen > 255 {
 		return errors.New("rewrite rule exceeds 255 input elements")
 	}
-	if int(headBodyLen + tailLen) != len(input) {
+	if inLen != len(input) {
 		return errors.New("rewrite rule input block lengths don't match given input")
 	}
 	
 	// validate output glyphs
+	if len(out) == 0 { return errors.New("rewrite rule output can't be empty") }
+	if len(out) > int(bodyLen) { return errors.New("rewrite rule output can't be longer than the body") }
 	for _, glyphUID := range out {
 		_, found := self.glyphData[glyphUID]
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
-- 
2.43.0


From f7b40eec8f6a9aa169777fe5450301528b314fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 37/64] fix: building panics with too many rewrite rules or
 mapping entries

---
 builder/font_builder_mapping.go       | 23 +++++++++++++++++++++--
 builder/font_builder_rewrite_rules.go |  3 +++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index f7cacc0..ae09027 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -116,12 +116,22 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 }
 
 
+var errTooManyMappings = errors.New("reached font mapping entries limit")
+func (self *Font) reachedMappingLimit(newCodePoint rune) bool {
+	if len(self.runeMapping) < ggfnt.MaxGlyphs { return false }
+	_, alreadyMapped := self.runeMapping[newCodePoint]
+	return !alreadyMapped
+}
+
 // --- main mapping API ---
 
 func (self *Font) Map(codePoint rune, glyphUID uint64) error {
 	// validation
 	if codePoint < ' ' {
-		return errors.New("can't map code points before ' ' (space)") 
+		return errors.New("can't map code points before ' ' (space)")
+	}
+	if self.reachedMappingLimit(codePoint) {
+		return errTooManyMappings
 	}
 	_, hasData := self.glyphData[glyphUID]
 	if !hasData {
@@ -139,7 +149,10 @@ func (self *Font) Map(codePoint rune, glyphUID uint64) error {
 func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyphUIDs ...uint64) error {
 	// basic validation
 	if codePoint < ' ' {
-		return errors.New("can't map code points before ' ' (space)") 
+		return errors.New("can't map code points before ' ' (space)")
+	}
+	if self.reachedMappingLimit(codePoint) {
+		return errTooManyMappings
 	}
 	if len(glyphUIDs) < 2 {
 		return errors.New("mapping a glyph group to a code point requires at least 2 glyphs")
@@ -175,6 +188,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 	if codePoint < ' ' {
 		return errors.New("can't map code points before ' ' (space)")
 	}
+	if self.reachedMappingLimit(codePoint) {
+		return errTooManyMappings
+	}
 	if mapSwitch >= 254 {
 		return errors.New("mapping with a switch requires a map switch < 254")
 	}
@@ -206,6 +222,9 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	if codePoint < ' ' {
 		return errors.New("can't map code points before ' ' (space)")
 	}
+	if self.reachedMappingLimit(codePoint) {
+		return errTooManyMappings
+	}
 	if mapSwitch >= 254 {
 		return errors.New("mapping with a switch requires a map switch < 254")
 	}
diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 63f30bd..7567505 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -214,6 +214,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 // --- public API ---
 
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
+	if len(self.utf8Rules) >= 65535 { return errors.New("font can't contain more than 65535 utf8 rewrite rules") }
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
@@ -232,6 +233,8 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
+	if len(self.glyphRules) >= 65535 { return errors.New("font can't contain more than 65535 glyph rewrite rules") }
+
 	// validate input sizes
 	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	inLen := int(headLen) + int(bodyLen) + int(tailLen)
-- 
2.43.0


From 55d4710c0c6b79f6c1412ef0272a7c6f042d75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 38/64] fix: mapping switches can have more cases than the
 format allows

---
 builder/font_builder_mapping.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index ae09027..7cc57b6 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -21,6 +21,7 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))
 	numSettings := uint8(len(self.settings))
 	newSettings := make([]uint8, 0, len(settings))
+	numCases := 1
 	for _, setting := range settings {
 		if setting >= ggfnt.SettingKey(numSettings) {
 			return 0, errors.New("mapping switch contains undefined setting")
@@ -31,6 +32,10 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		}
 		repeated[setting] = struct{}{}
 		newSettings = append(newSettings, uint8(setting))
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
 	}
 
 	key := uint8(len(self.mappingSwitches))
-- 
2.43.0


From b7b5fa97d60b0d34bcfcc7e05b6d1f7e17f85344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 39/64] fix: settings without options are accepted and can't be
 parsed or make switches panic

---
 builder/font_builder_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index f4f6a20..b5d8677 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -81,6 +81,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From 59aeec7e75cc46b0abfa2fede97be7f503c59bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 40/64] fix: iterating dyes or palettes of a builder always
 fails and may panic

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..f856ec2 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -72,8 +73,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 1cae68f414dfffa9d306df05d7e584bde7550f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 41/64] fix: empty dyes and palettes or with empty names are
 accepted but can't be parsed

---
 builder/font_builder_color.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index f856ec2..fd698f5 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -3,6 +3,8 @@ package builder
 import "errors"
 import "image/color"
 
+import "github.com/tinne26/ggfnt/internal"
+
 // --- dyes ---
 
 type dyeSection struct {
@@ -32,8 +34,11 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 }
 
 func (self *Font) AddDye(name string, alphas ...uint8) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// validate name and ensure no name collisions
+	err := internal.ValidateBasicName(name)
+	if err != nil { return err }
+	if len(alphas) == 0 { return errors.New("dye can't be empty") }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(alphas) > 255 {
@@ -82,8 +87,11 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 }
 
 func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// validate name and ensure no name collisions
+	err := internal.ValidateBasicName(name)
+	if err != nil { return err }
+	if len(colors) == 0 { return errors.New("palette can't be empty") }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(colors) > 255 {
-- 
2.43.0


From 5f6dd74e503966ead56e5946e341195579c1b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 42/64] fix: building a font without colors adds a dye to the
 builder

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 65324b0..b46420f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -239,27 +239,27 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// --- colors ---
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
-	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+	dyes := self.dyes
+	if numColorSections == 0 { // use main dye if nothing else exists
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From 7c5fb1c1b91454756a30d98ae879547c9309ecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 43/64] fix: offsets of glyph masks and mappings wrap silently
 when building

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index b46420f..fb8d956 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -349,6 +349,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 {
+			return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB")
+		}
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -481,6 +484,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 {
+				return nil, errors.New("mappings exceed maximum allowed size of 16MiB")
+			}
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From 14b5d9ee575757c98b8e89fdddc12cd504a55bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 44/64] fix: fonts that don't pass validation can be built

---
 builder/font_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index fb8d956..9456640 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -672,6 +672,8 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 	font.Data = data
 	out := ggfnt.Font(font)
+	err = out.Validate(ggfnt.FmtDefault)
+	if err != nil { return nil, err }
 	return &out, nil
 }
 
-- 
2.43.0


From 95ff9bf2afb1c8afdcd1289d6b63912a719cc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 45/64] fix: encoding masks with long distances or draws panics

---
 mask/encoder.go | 68 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..1cd1bc9 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -13,6 +13,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 	// compute mask fragments
 	self.computeMaskFragments(mask)
+	self.splitBigFragments()
 
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
@@ -32,6 +33,15 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	value := uint8(255) // default palette index value
 	var payload [8]byte
 	for i := 0; i < len(self.fragments); i++ {
+		// distances that don't fit in a single pre-move require additional operations
+		for {
+			xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
+			xMove, yMove := max(-128, min(128, xDist)), max(-128, min(128, yDist))
+			if xMove == xDist && yMove == yDist { break }
+			data = appendMoveOp(data, xMove, yMove)
+			x, y = x + xMove, y + yMove
+		}
+
 		// reset payload control code and payload size
 		var payloadSize int = 1
 		payload[0] = 0
@@ -49,7 +59,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 		// encode pre-moves to reach the target
 		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
 		if xDist != 0 {
-			if xDist < -128 || xDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
+			if xDist < -128 || xDist > 128 { panic("broken code") }
 			payload[0] |= 0b0000_0010
 			if xDist > 0 {
 				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion
@@ -63,7 +73,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 				payload[0] |= 0b0000_1000
 			} else {
 				payload[0] |= 0b0000_0100
-				if yDist < -128 || yDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
+				if yDist < -128 || yDist > 128 { panic("broken code") }
 				if yDist > 0 {
 					payload[payloadSize] = uint8(int8(yDist - 1)) // nzint8 conversion
 				} else {
@@ -81,7 +91,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			payload[0] |= 0b0001_0000 // diagonal marker
 			if xDraw > 0 {
 				payload[0] |= 0b0010_0000
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
+				if xDraw > 256 { panic("broken code") }
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
@@ -93,14 +103,14 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			if xDraw > 0 && (xDraw > 1 || yDraw <= 1) {
 				payload[0] |= 0b0010_0000
 				if yDraw == 1 { yDraw = 0 }
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
+				if xDraw > 256 { panic("broken code") }
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
 
 			if yDraw > 0 {
 				payload[0] |= 0b0100_0000
-				if yDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
+				if yDraw > 256 { panic("broken code") }
 				payload[payloadSize] = uint8(yDraw - 1)
 				payloadSize += 1
 			}
@@ -117,6 +127,54 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Appends a raster operation that only moves the drawing position.
+func appendMoveOp(data []byte, xMove, yMove int) []byte {
+	controlIndex := len(data)
+	data = append(data, 0)
+	if xMove != 0 {
+		data[controlIndex] |= ctrlFlagPreHorzMove
+		data = append(data, intAsNzint8(xMove))
+	}
+	if yMove != 0 {
+		data[controlIndex] |= ctrlFlagPreVertMove
+		data = append(data, intAsNzint8(yMove))
+	}
+	return data
+}
+
+func intAsNzint8(value int) uint8 {
+	if value > 0 { value -= 1 }
+	return uint8(int8(value))
+}
+
+// A single raster operation can't draw more than 256 pixels
+// on each axis, so bigger fragments have to be split.
+func (self *Encoder) splitBigFragments() {
+	for i := 0; i < len(self.fragments); i++ { // (also goes through the appended fragments)
+		fragment := &self.fragments[i]
+		rest := *fragment
+		xDraw, yDraw := fragment.GetDrawSizes()
+		switch {
+		case xDraw > 256 && fragment.diagonalType == diagNone:
+			fragment.maxX = fragment.minX + 255
+			rest.minX = fragment.maxX + 1
+		case yDraw > 256 && fragment.diagonalType == diagNone:
+			fragment.maxY = fragment.minY + 255
+			rest.minY = fragment.maxY + 1
+		case xDraw > 256 && fragment.diagonalType == diagDesc:
+			fragment.maxX, fragment.maxY = fragment.minX + 255, fragment.minY + 255
+			rest.minX, rest.minY = fragment.maxX + 1, fragment.maxY + 1
+		case xDraw > 256: // ascending diagonal
+			fragment.maxX, fragment.minY = fragment.minX + 255, fragment.maxY - 255
+			rest.minX, rest.maxY = fragment.maxX + 1, fragment.minY - 1
+		default:
+			continue
+		}
+		self.fragments = append(self.fragments, rest)
+		i -= 1 // both axes might need splits
+	}
+}
+
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
 	copy(maskCopy.Pix, mask.Pix)
-- 
2.43.0


From eeaa9bde84c1327b58c359ebb11830f33fc6a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 46/64] fix: encoding sub-image masks panics

---
 mask/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 1cd1bc9..46c5a1d 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -177,9 +177,9 @@ func (self *Encoder) splitBigFragments() {
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	for y := mask.Rect.Min.Y; y < mask.Rect.Max.Y; y++ { // (mask.Stride can be bigger on sub-images)
+		rowIndex := maskCopy.PixOffset(maskCopy.Rect.Min.X, y)
+		copy(maskCopy.Pix[rowIndex : rowIndex + maskCopy.Stride], mask.Pix[mask.PixOffset(mask.Rect.Min.X, y) : ])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From 45fd6e930a3372d9aa37e39b11243033c96e22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 47/64] fix: parsing time is quadratic on the size of the font

---
 internal/parsing_buffer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 28ec85c..9ad65e8 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -54,12 +54,10 @@ func (self *ParsingBuffer) readMore() error {
 		// read and process read bytes
 		n, err := self.gzipReader.Read(self.TempBuff)
 		if n > 0 {
-			self.Bytes = GrowSliceByN(self.Bytes, n)
-			if len(self.Bytes) > MaxFontDataSize {
+			if len(self.Bytes) + n > MaxFontDataSize {
 				return self.NewError("font data size exceeds limit")
 			}
-			k := copy(self.Bytes[len(self.Bytes) - n : ], self.TempBuff[ : n])
-			if k != n { panic("broken code") }
+			self.Bytes = append(self.Bytes, self.TempBuff[ : n]...)
 		}
 
 		// handle errors
-- 
2.43.0


From 464bb0d24eec10c9467d766978e8f5097b9bd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 48/64] fix: splitting transition ranges of decision trees
 panics or overlaps ranges

---
 internal/rerules/glyphrule/decision_tree_state.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_state.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..70aab85 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,7 +85,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..47db3c4 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,7 +84,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From 495206ee9f6f152996679e9e20c9887ac20ad64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:55 +0000
Subject: [PATCH 49/64] fix: rules are lost when compiling them makes the list
 of states grow

---
 .../rerules/glyphrule/decision_tree_compiler.go   | 15 ++++++++++++---
 .../rerules/utf8rule/decision_tree_compiler.go    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..323fceb 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -113,19 +113,19 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, glyphRange, matchRule)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -144,6 +144,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 
 // ---- unexported ----
 
+// Notice: linking states can grow self.states and leave pointers to the previous
+// elements outdated, so the state is modified separately and stored back.
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange ggfnt.GlyphRange, matchRule RuleIndex) error {
+	state := self.states[stateIndex]
+	err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..6b505c5 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -113,7 +113,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, runeRange, matchRule)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -121,12 +121,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -145,6 +145,15 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 
 // ---- unexported ----
 
+// Notice: linking states can grow self.states and leave pointers to the previous
+// elements outdated, so the state is modified separately and stored back.
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, runeRange RuneRange, matchRule RuleIndex) error {
+	state := self.states[stateIndex]
+	err := state.AppendRange(runeRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
-- 
2.43.0


From a572c30d8db45026bf020a7bee6a1b63a2e0e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 50/64] fix: states of decision trees still in use are
 repurposed for other rules

---
 .../glyphrule/decision_tree_compiler.go       | 56 +++++++++----------
 .../rerules/glyphrule/decision_tree_state.go  | 16 +++---
 .../glyphrule/decision_tree_transition.go     |  4 +-
 .../utf8rule/decision_tree_compiler.go        | 56 +++++++++----------
 .../rerules/utf8rule/decision_tree_state.go   | 16 +++---
 .../utf8rule/decision_tree_transition.go      |  4 +-
 6 files changed, 74 insertions(+), 78 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 323fceb..0fb31b3 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -154,15 +154,28 @@ func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange
 }
 
 func (self *DecisionTreeCompiler) freeUnusedStates() {
-	if self.run.Depth == 0 { return } // no state at depth 0
+	depth := int(self.run.Depth) // should be + 1, but TrackerStatesByDepth begins at 1
+	if depth >= len(self.run.TrackerStatesByDepth) { return }
+
+	// recount the uses of the states reached at this point. they are only linked from
+	// the states at the previous depth level, which can't change anymore for this rule.
+	// (copied states and split transitions share their next states with the originals)
+	for _, state := range self.run.TrackerStatesByDepth[depth] {
+		self.run.TrackerStateUses[state - 1] = 0
+	}
+	if depth == 0 {
+		self.countNextStateUses(0)
+	} else {
+		for _, state := range self.run.TrackerStatesByDepth[depth - 1] {
+			self.countNextStateUses(state)
+		}
+	}
 
 	// the main idea of this little snippet is to iterate the states
 	// at the target depth to see if they can be removed, and while
 	// we are at it, we also keep "compacting" the slice by moving
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
@@ -182,8 +195,15 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+func (self *DecisionTreeCompiler) countNextStateUses(stateIndex StateIndex) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.run.TrackerStateUses[nextState - 1] += 1 }
+	}
+}
+
+type StateLinkerFn = func(StateIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex) (StateIndex, error) {
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -204,12 +224,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
-	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
-	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-	}
 
 	// return resulting state
 	return resultStateIndex, nil
@@ -283,6 +297,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
 		self.states = internal.GrowSliceByOne(self.states)
+		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
 		return resultStateIndex, nil
 	}
 }
@@ -291,23 +306,6 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
-// The state can't be 0, as 0 is the root, which is treated separately.
-func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
-	if stateIndex == 0 { panic(PreViolation) }
-	stateIndex -= 1
-
-	var result int
-	if len(self.run.TrackerStateUses) <= int(stateIndex) {
-		if len(self.run.TrackerStateUses) != int(stateIndex) { panic(BrokenCode) }
-		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
-		result = delta
-	} else {
-		result = int(self.run.TrackerStateUses[stateIndex]) + delta
-	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
-}
-
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 70aab85..27c8647 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -62,7 +62,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		splitResult, splitRange := self.confrontRanges(candidateRange, glyphRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
@@ -72,22 +72,22 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
@@ -102,7 +102,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if glyphRange.First > glyphRange.Last { return nil }
-	return self.insertNewTransition(glyphRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(glyphRange, ruleMatchIndex, stateLinker)
 }
 
 // ---- internal helper methods ----
@@ -143,7 +143,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 	}
 }
 
-func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
 	// insert new transition (only glyphRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(glyphRange)
 	if err != nil { return err }
@@ -151,7 +151,7 @@ func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchInd
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..b41f66b 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -13,7 +13,7 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
@@ -21,7 +21,7 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		return nil
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker(self.NextState)
 		return err
 	}
 }
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 6b505c5..0ea2a39 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -155,15 +155,28 @@ func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, runeRange R
 }
 
 func (self *DecisionTreeCompiler) freeUnusedStates() {
-	if self.run.Depth == 0 { return } // no state at depth 0
+	depth := int(self.run.Depth) // should be + 1, but TrackerStatesByDepth begins at 1
+	if depth >= len(self.run.TrackerStatesByDepth) { return }
+
+	// recount the uses of the states reached at this point. they are only linked from
+	// the states at the previous depth level, which can't change anymore for this rule.
+	// (copied states and split transitions share their next states with the originals)
+	for _, state := range self.run.TrackerStatesByDepth[depth] {
+		self.run.TrackerStateUses[state - 1] = 0
+	}
+	if depth == 0 {
+		self.countNextStateUses(0)
+	} else {
+		for _, state := range self.run.TrackerStatesByDepth[depth - 1] {
+			self.countNextStateUses(state)
+		}
+	}
 
 	// the main idea of this little snippet is to iterate the states
 	// at the target depth to see if they can be removed, and while
 	// we are at it, we also keep "compacting" the slice by moving
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
@@ -183,8 +196,15 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+func (self *DecisionTreeCompiler) countNextStateUses(stateIndex StateIndex) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.run.TrackerStateUses[nextState - 1] += 1 }
+	}
+}
+
+type StateLinkerFn = func(StateIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex) (StateIndex, error) {
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -205,12 +225,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
-	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
-	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-	}
 
 	// return resulting state
 	return resultStateIndex, nil
@@ -284,6 +298,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
 		self.states = internal.GrowSliceByOne(self.states)
+		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
 		return resultStateIndex, nil
 	}
 }
@@ -292,23 +307,6 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
-// The state can't be 0, as 0 is the root, which is treated separately.
-func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
-	if stateIndex == 0 { panic(PreViolation) }
-	stateIndex -= 1
-
-	var result int
-	if len(self.run.TrackerStateUses) <= int(stateIndex) {
-		if len(self.run.TrackerStateUses) != int(stateIndex) { panic(BrokenCode) }
-		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
-		result = delta
-	} else {
-		result = int(self.run.TrackerStateUses[stateIndex]) + delta
-	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
-}
-
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 47db3c4..7216ba3 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -61,7 +61,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		splitResult, splitRange := self.confrontRanges(candidateRange, runeRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
@@ -71,22 +71,22 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
@@ -101,7 +101,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if runeRange.First > runeRange.Last { return nil }
-	return self.insertNewTransition(runeRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(runeRange, ruleMatchIndex, stateLinker)
 }
 
 // ---- internal helper methods ----
@@ -142,7 +142,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 	}
 }
 
-func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
 	// insert new transition (only runeRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(runeRange)
 	if err != nil { return err }
@@ -150,7 +150,7 @@ func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleI
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..712ffbb 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -11,7 +11,7 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
@@ -19,7 +19,7 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		return nil
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker(self.NextState)
 		return err
 	}
 }
-- 
2.43.0


From 515016280362a13d9dd0351da27ebc083c5cbf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:39 +0000
Subject: [PATCH 51/64] fix: compiling rules with overlapping ranges in their
 sets panics

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 8 +++++---
 internal/rerules/utf8rule/decision_tree_compiler.go  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 0fb31b3..88a3a68 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -249,9 +249,11 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			// if the rule is already there, the state was reached before with the same
+			// rule (e.g. overlapping ranges in a set), and there's nothing to add to it
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex }
+			comparisonRulePosition += 1
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 0ea2a39..0d47df7 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -250,9 +250,11 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			// if the rule is already there, the state was reached before with the same
+			// rule (e.g. overlapping ranges in a set), and there's nothing to add to it
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex }
+			comparisonRulePosition += 1
 		}
 	}
 
-- 
2.43.0


From dab5700ff76b696b5883382670175700ac044e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:40 +0000
Subject: [PATCH 52/64] fix: rules with 255 elements can't be compiled

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 2 +-
 internal/rerules/utf8rule/decision_tree_compiler.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 88a3a68..204c5a2 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -294,7 +294,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 		resultStateIndex := self.run.TrackerFreedStates[freedCount - 1]
 		self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : freedCount - 1]
 		return resultStateIndex, nil
-	case len(self.states) >= 254: // compiler limit reached
+	case len(self.states) >= int(StateNone): // compiler limit reached
 		return StateNone, ErrCompilerHitLimits
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 0d47df7..14a7ae2 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -295,7 +295,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 		resultStateIndex := self.run.TrackerFreedStates[freedCount - 1]
 		self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : freedCount - 1]
 		return resultStateIndex, nil
-	case len(self.states) >= 254: // compiler limit reached
+	case len(self.states) >= int(StateNone): // compiler limit reached
 		return StateNone, ErrCompilerHitLimits
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
-- 
2.43.0


From 399bdbe7936ed935b37ab5f389bb8d7f847cee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 53/64] fix: malformed or truncated rules can panic or be
 accepted

---
 internal/rerules/glyphrule/rule_scanner.go | 18 +++++++++---------
 internal/rerules/utf8rule/rule_scanner.go  | 16 ++++++++--------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..1f5f294 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -139,6 +140,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -150,7 +152,9 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
 			return rerules.ErrInvalidReRule
 		}
+		if self.HasNext() { return rerules.ErrInvalidReRule } // can only be an empty tail, nothing can follow
 	} else {
+		if !self.HasNext() { return rerules.ErrInvalidReRule }
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
@@ -173,12 +177,8 @@ func (self *RuleScanner) checkTermination() error {
 	}
 
 	switch self.block {
-	case RuleHead:
-		return rerules.ErrInvalidReRule 
-	case RuleBody:
-		if self.rule.Data[3] != 0 {
-			return rerules.ErrInvalidReRule
-		}
+	case RuleHead, RuleBody: // the tail control must be present even if it's empty
+		return rerules.ErrInvalidReRule
 	case RuleTail:
 		if self.rule.Data[3] != self.accumulatedBlockSets + self.accumulatedBlockGlyphs {
 			return rerules.ErrInvalidReRule
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..4f0e4bd 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -137,6 +138,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -148,7 +150,9 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
+		if self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // can only be an empty tail, nothing can follow
 	} else {
+		if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) }
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
@@ -171,12 +175,8 @@ func (self *RuleScanner) checkTermination() error {
 	}
 
 	switch self.block {
-	case RuleHead:
+	case RuleHead, RuleBody: // the tail control must be present even if it's empty
 		return rerules.InvalidUtf8RuleErr(self.rule)
-	case RuleBody:
-		if self.rule.Data[3] != 0 {
-			return rerules.InvalidUtf8RuleErr(self.rule)
-		}
 	case RuleTail:
 		if self.rule.Data[3] != self.accumulatedBlockSets + self.accumulatedBlockCodePoints {
 			return rerules.InvalidUtf8RuleErr(self.rule)
-- 
2.43.0


From ed18035afc793d94e39770ef9bee71581d9ec1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 54/64] fix: rules that refer to sets that don't exist panic
 instead of giving an error

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 8 ++++++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 204c5a2..3f7e0a8 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -96,6 +97,11 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 	for self.run.Scanner.HasNext() {
 		glyphIndex, glyphSet, err := self.run.Scanner.Next()
 		if err != nil { return err }
+		if glyphIndex == GlyphNone { // glyph sets must exist
+			if self.run.Font == nil || uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() {
+				return rerules.ErrInvalidReRule
+			}
+		}
 		var matchRule RuleIndex = RuleNone
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
@@ -116,8 +122,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				err := self.appendRange(state, glyphRange, matchRule)
 				if err != nil { return err }
 			} else { // glyph set case
-				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return self.appendRange(state, glyphRange, matchRule)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 14a7ae2..5e3b229 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -96,6 +97,11 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 	for self.run.Scanner.HasNext() {
 		codePoint, utf8Set, err := self.run.Scanner.Next()
 		if err != nil { return err }
+		if codePoint == RuneError { // utf8 sets must exist
+			if self.run.Font == nil || uint8(utf8Set) >= self.run.Font.Rewrites().NumUTF8Sets() {
+				return rerules.InvalidUtf8RuleErr(rule)
+			}
+		}
 		var matchRule RuleIndex = RuleNone
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
@@ -116,8 +122,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				err := self.appendRange(state, runeRange, matchRule)
 				if err != nil { return err }
 			} else { // utf8 set case
-				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-- 
2.43.0


From 10a474c286b8725aef7374b564c5f0786eee0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 55/64] fix: rewriting around rule tails loses or repeats
 elements or panics

---
 .../rerules/glyphrule/decision_tree_state.go  |  2 +-
 internal/rerules/glyphrule/tester.go          | 20 ++++++++++++++++---
 .../rerules/utf8rule/decision_tree_state.go   |  2 +-
 internal/rerules/utf8rule/tester.go           | 20 ++++++++++++++++---
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 27c8647..9b4e390 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..8360fb5 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -251,7 +251,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		previousMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.discardMatchWithinTail(i, previousMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -263,7 +265,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		previousMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(glyphIndex)
+		self.discardMatchWithinTail(i, previousMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -271,6 +275,14 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// Matches that would rewrite glyphs already reported as a tail can't be used.
+func (self *Tester) discardMatchWithinTail(treeIndex int, previousMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != previousMatch && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = previousMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
@@ -286,10 +298,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		glyphIndex := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported as a tail
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(glyphIndex)
 		}
 	}
 
@@ -309,13 +322,14 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			glyphIndex, found := self.accumulator.PeekAhead()
 			if !found { panic(BrokenCode) }
 			fn(glyphIndex)
 		}
-		//self.accumulator.DiscardPeeks()
+		self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated glyphs,
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 7216ba3..30260ba 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..c5025c0 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -251,7 +251,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		previousMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.discardMatchWithinTail(i, previousMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -263,7 +265,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		previousMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(codePoint)
+		self.discardMatchWithinTail(i, previousMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -271,6 +275,14 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// Matches that would rewrite code points already reported as a tail can't be used.
+func (self *Tester) discardMatchWithinTail(treeIndex int, previousMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != previousMatch && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = previousMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
@@ -286,10 +298,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		codePoint := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported as a tail
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(codePoint)
 		}
 	}
 
@@ -309,13 +322,14 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			codePoint, found := self.accumulator.PeekAhead()
 			if !found { panic(BrokenCode) }
 			fn(codePoint)
 		}
-		//self.accumulator.DiscardPeeks()
+		self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated runes,
-- 
2.43.0


From 491eeb6034017842952b746ea2e138229487802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 56/64] fix: feeding testers without rules panics

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 8360fb5..40a922f 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -103,6 +103,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
 
 	return nil
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index c5025c0..ae9ca3c 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -104,6 +104,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
 
 	return nil
-- 
2.43.0


From 595a6935693cc701e55866511026d93dd0f5e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 57/64] fix: kept tails leak after breaking or finishing
 sequences

---
 internal/rerules/glyphrule/tester.go | 6 ++++++
 internal/rerules/utf8rule/tester.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 40a922f..ea29dac 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -145,6 +145,12 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// anything left has already been reported as a tail,
+	// but it must not affect what comes next
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index ae9ca3c..76953d3 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -145,6 +145,12 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// anything left has already been reported as a tail,
+	// but it must not affect what comes next
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
-- 
2.43.0


From 93b3ee649fb2d51d03e11dd3c8ce7f5321e4aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 58/64] fix: testers can't be used again after rule compilation
 errors

---
 internal/rerules/glyphrule/tester.go | 8 ++++++--
 internal/rerules/utf8rule/tester.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index ea29dac..498c534 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
 
@@ -215,7 +215,11 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						// leave the shared compiler ready for its next use
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 76953d3..d0af4dc 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
 
@@ -215,7 +215,11 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						// leave the shared compiler ready for its next use
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From dca801ff10cedf869259a47fefeed899c4170a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 59/64] fix: rule preference depends on the conditions of the
 rules instead of their length

---
 internal/rerules/glyphrule/tester.go | 10 +++++++++-
 internal/rerules/utf8rule/tester.go  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 498c534..ba402a7 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -298,7 +298,15 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone || match == bestMatch { continue }
+		if bestMatch == RuleNone {
+			bestMatch = match
+			continue
+		}
+
+		// the longest match is preferred, like inside each tree
+		matchLen, bestLen := self.rules[match].InLen(), self.rules[bestMatch].InLen()
+		if matchLen > bestLen || (matchLen == bestLen && match < bestMatch) { bestMatch = match }
 	}
 	return bestMatch
 }
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index d0af4dc..e2e0d94 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -298,7 +298,15 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone || match == bestMatch { continue }
+		if bestMatch == RuleNone {
+			bestMatch = match
+			continue
+		}
+
+		// the longest match is preferred, like inside each tree
+		matchLen, bestLen := self.rules[match].InLen(), self.rules[bestMatch].InLen()
+		if matchLen > bestLen || (matchLen == bestLen && match < bestMatch) { bestMatch = match }
 	}
 	return bestMatch
 }
-- 
2.43.0


From 8a7fdeb5a9672af3b9d91a622665caeb5fe78203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 60/64] fix: rules are applied even if their condition isn't
 satisfied

---
 internal/rerules/glyphrule/tester.go | 11 +++++++++++
 internal/rerules/utf8rule/tester.go  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index ba402a7..82ae9ed 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -89,6 +89,11 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+
+	// make the changes effective right away if there's no match in progress
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- glyph sequence operations ---
@@ -102,6 +107,9 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	if settingsCache != nil { // conditions might have changed since the last time
+		self.RefreshConditions(font, settingsCache)
+	}
 	self.isOperating = true
 	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
@@ -362,6 +370,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue { // leave tree inactive
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index e2e0d94..d78f149 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -90,6 +90,11 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+
+	// make the changes effective right away if there's no match in progress
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- utf8 sequence operations ---
@@ -103,6 +108,9 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	if settingsCache != nil { // conditions might have changed since the last time
+		self.RefreshConditions(font, settingsCache)
+	}
 	self.isOperating = true
 	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.treesRestartDetection()
@@ -362,6 +370,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue { // leave tree inactive
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
-- 
2.43.0


From 96aa38a02887897ddcf9bcdd5dc9b6eb88c541ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 61/64] fix: rules that refer to conditions that don't exist
 panic instead of giving an error

---
 internal/rerules/glyphrule/tester.go | 11 ++++++++++-
 internal/rerules/utf8rule/tester.go  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 82ae9ed..6d53006 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -183,9 +183,15 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+func (self *Tester) conditionExists(condition uint8, font *ggfnt.Font) bool {
+	if condition == 255 { return true }
+	return font != nil && condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
+	if !self.conditionExists(condition, font) { return false }
 
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
@@ -222,7 +228,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
-					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					err := rerules.ErrInvalidReRule
+					if self.conditionExists(tree.Condition, font) {
+						err = compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					}
 					if err != nil {
 						// leave the shared compiler ready for its next use
 						tree.DecisionTree.states = compiler.Finish()
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index d78f149..f4b1fe5 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -183,9 +183,15 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+func (self *Tester) conditionExists(condition uint8, font *ggfnt.Font) bool {
+	if condition == 255 { return true }
+	return font != nil && condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
+	if !self.conditionExists(condition, font) { return false }
 
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
@@ -222,7 +228,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
-					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					err := rerules.InvalidUtf8RuleErr(self.rules[ruleIndex])
+					if self.conditionExists(tree.Condition, font) {
+						err = compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					}
 					if err != nil {
 						// leave the shared compiler ready for its next use
 						tree.DecisionTree.states = compiler.Finish()
-- 
2.43.0


From 633381cc397cc802ec2af18b270b92399bdce71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 62/64] fix: edition data with category sizes that don't match
 the font is accepted

---
 builder/font_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 9456640..a600bdb 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -731,10 +731,15 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if err != nil { return err }
 		self.categories = append(self.categories, editionCategory{ Name: categoryName })
 	}
+	var categorizedGlyphs int
 	for i := uint8(0); i < numCategories; i++ {
 		size, err := parser.ReadUint16()
 		if err != nil { return err }
 		(&self.categories[i]).Size = size
+		categorizedGlyphs += int(size)
+	}
+	if numCategories > 0 && categorizedGlyphs != len(self.glyphOrder) {
+		return parser.NewError("category sizes don't add up to the number of glyphs")
 	}
 
 	numKerningClasses, err := parser.ReadUint16()
-- 
2.43.0


From 01326f23e316a8578b9287211d299a350548b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:50 +0000
Subject: [PATCH 63/64] fix: popping from the ring buffer with pending peeks
 misplaces the peek cursor

---
 internal/circular_buffer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index 1977275..c5694b3 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -89,6 +89,9 @@ func (self *CircularBufferU16[T]) PopHead() T {
 	if self.headIndex == self.capacity {
 		self.headIndex = 0
 	}
+	if self.numPeeks > 0 { // keep pointing at the same element
+		self.numPeeks -= 1
+	}
 	return element
 }
 
@@ -99,6 +102,9 @@ func (self *CircularBufferU16[T]) PopTail() T {
 
 	element := self.buffer[self.unsafeLastElemIndex()]
 	self.numElements -= 1
+	if self.numPeeks > 0 && self.numPeeks == self.numElements { // the peeked element is gone
+		self.numPeeks -= 1
+	}
 	return element
 }
 
-- 
2.43.0


From 5fbbfa1f044c5587f605458fd7b9e00a42eea2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:01 +0000
Subject: [PATCH 64/64] fix: reject fonts that declare more than MaxGlyphs
 glyphs

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 86af48b..8ba6d5e 100644
--- a/font.go
+++ b/font.go
@@ -217,6 +217,7 @@ func (self *FontMetrics) VertLineGap() uint8 {
 func (self *FontMetrics) Validate(mode FmtValidation) error {
 	// default checks
 	if self.NumGlyphs() == 0 { return errors.New("font must define at least one glyph") }
+	if self.NumGlyphs() > MaxGlyphs { return errors.New("font can't define more than MaxGlyphs glyphs") }
 	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])
 	if err != nil { return err }
 	if self.Ascent() == 0 { return errors.New("Ascent can't be zero") }
-- 
2.43.0

