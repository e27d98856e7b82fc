From 34733356e434902f3823c2f11f49a63642a20871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 01/23] fix: TransformRange: count initialOffset in characters,
 not bytes

The removed characters at the beginning were skipped by bytes, so removing
leading non-ASCII characters (Filter, Trim, Replace) shifted the alignments of
everything that followed, or panicked.
---
 normalizedstring/normalizedstring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..40a3072 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 0372b456a59870b47fbfef4242b90ff5e319db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 02/23] fix: Append: replace the last character from its byte
 position

The rune index of the last character was used as a byte index, so appending to
a text with multi-byte characters dropped or duplicated characters.
---
 normalizedstring/normalizedstring.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 40a3072..ef209b1 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // NormalizedString takes care of processing an "original" string to modify
@@ -462,9 +463,7 @@ func (ns *NormalizedString) Append(s string) {
 
 	transformations := make([]RuneChange, 0, len(s)+1)
 
-	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune, lastRuneBytesLen := utf8.DecodeLastRuneInString(ns.normalized)
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -472,8 +471,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(ns.Len()-lastRuneBytesLen, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 31ef36ca202e7ce1baaeb4938ef937b042be0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 03/23] fix: StringSplitPattern: an empty pattern covers the
 whole text in bytes

---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From 5d217a202f34b4f3b64274f4adfae4900a7d9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/23] fix: InvertedPattern: do not modify the captures of the
 inner pattern

---
 splitpattern/invertedpattern.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/splitpattern/invertedpattern.go b/splitpattern/invertedpattern.go
index b99919f..1ad73f6 100644
--- a/splitpattern/invertedpattern.go
+++ b/splitpattern/invertedpattern.go
@@ -19,8 +19,10 @@ func (ip *InvertedPattern) FindMatches(s string) ([]Capture, error) {
 	if err != nil {
 		return nil, err
 	}
+	inverted := make([]Capture, len(captures))
 	for i, capture := range captures {
-		captures[i].IsMatch = !capture.IsMatch
+		capture.IsMatch = !capture.IsMatch
+		inverted[i] = capture
 	}
-	return captures, nil
+	return inverted, nil
 }
-- 
2.43.0


From 3e61b60aa59d345b4cb2f605972901fa4c1033c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 05/23] fix: Regexp2SplitPattern: give the captures of
 right-to-left expressions in text order

---
 splitpattern/regexp2.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..70c59d4 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -36,7 +36,23 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		return nil, err
 	}
 
+	matches := make([]*regexp2.Match, 0)
 	for match != nil {
+		matches = append(matches, match)
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	if sp.r.RightToLeft() {
+		// The matches are found from the last one to the first one
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	for _, match := range matches {
 		startByte := len(string(runes[:match.Index]))
 		endByte := startByte + len(match.String())
 
@@ -51,11 +67,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
-- 
2.43.0


From 732936f4c24660f1cda58f2ff2cf4769083c6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 06/23] fix: BytesToRuneOffsetConverter: map bytes to rune
 indices

The mapping held the byte index of each rune, and converting an offset at the
end of the sequence panicked.
---
 strutils/strutils.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..6a2393a 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -51,28 +51,29 @@ type BytesToRuneOffsetConverter struct {
 }
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
-	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
-		for range []byte(string(r)) {
+	// One position for each byte, followed by the end of the sequence
+	mapping := make([]int, 0, len(sequence)+1)
+	runeIndex := -1
+	for byteIndex := range sequence {
+		for len(mapping) < byteIndex {
 			mapping = append(mapping, runeIndex)
 		}
+		runeIndex++
 	}
+	for len(mapping) < len(sequence) {
+		mapping = append(mapping, runeIndex)
+	}
+	mapping = append(mapping, runeIndex+1)
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
 
 func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
-	if len(b.mapping) == 0 {
+	if len(b.mapping) == 1 {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
-
-	var end int
-	if offsets.End == len(b.mapping) {
-		end = b.mapping[offsets.End-1] + 1
-	} else {
-		end = b.mapping[offsets.End]
+	return RuneOffsets{
+		Start: b.mapping[offsets.Start],
+		End:   b.mapping[offsets.End],
 	}
-
-	return RuneOffsets{Start: start, End: end}
 }
-- 
2.43.0


From fad5cc7b76d6c6f8ed712011c5bbf5c0552ac0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 07/23] fix: Prepend: an empty prefix leaves the text and its
 alignments alone

---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index ef209b1..fbac44e 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -432,7 +432,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
-- 
2.43.0


From 38c4cfb3f71cd757c016f6890718f270f316758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 08/23] fix: OriginalAlignments: do not panic when the
 normalized string is empty

---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fbac44e..ceea001 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -240,6 +240,11 @@ func (ns *NormalizedString) Transform(dest []RuneChange, initialOffset int) {
 
 // OriginalAlignments recalculates the original alignments.
 func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
+	if len(ns.alignments) == 0 {
+		// The normalized string is empty: nothing refers to the original one
+		return make([]AlignmentRange, len(ns.original))
+	}
+
 	// (start, end) are in alignments
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
-- 
2.43.0


From 78a0344153d289ab55e876d2275f8810c80b210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 09/23] fix: NormalizedString: lookups and conversions out of
 range are unsuccessful

They panicked, or converted a range beyond the original string.
---
 normalizedstring/normalizedstring.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index ceea001..13619a5 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -325,7 +325,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || !rangeIsWithin(nr, ns.Len()) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -335,7 +335,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || !rangeIsWithin(or, ns.OriginalLen()) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -358,8 +358,8 @@ func (ns *NormalizedString) CoerceRangeToNormalized(r Range) (NormalizedRange, b
 		return NewNormalizedRange(r.Start(), r.End()), true
 	}
 
-	// If the target goes reverse, return invalid status
-	if r.Start() > r.End() {
+	// If the target goes reverse, or out of range, return invalid status
+	if !rangeIsWithin(r, ns.OriginalLen()) {
 		return NewNormalizedRange(0, 0), false
 	}
 
@@ -417,8 +417,8 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(r.Start(), r.End()), true
 	}
 
-	// If the target goes reverse, return invalid status
-	if r.Start() > r.End() {
+	// If the target goes reverse, or out of range, return invalid status
+	if !rangeIsWithin(r, ns.Len()) {
 		return NewOriginalRange(0, 0), false
 	}
 
@@ -819,6 +819,12 @@ func (ns *NormalizedString) TrimLeftRight(left, right bool) {
 	ns.Transform(transforms, leadingSpaces)
 }
 
+// rangeIsWithin reports whether the given range does not go reverse, and lies
+// within a string of the given length.
+func rangeIsWithin(r Range, length int) bool {
+	return r.Start() >= 0 && r.Start() <= r.End() && r.End() <= length
+}
+
 // rangeIsValid validates the given range, to make sure it is on rune boundaries.
 func (ns *NormalizedString) rangeIsValid(r Range) bool {
 	var s string
-- 
2.43.0


From f6f3b30f44db92a7e5fae676357c4bd5e23f0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 10/23] fix: Slice: place empty slices within the original
 string

The position of an empty range of the normalized string was taken for a
position of the original one, which could lie beyond its end and panic. Reversed
ranges are unsuccessful.
---
 normalizedstring/normalizedstring.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 13619a5..40cb6e9 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -642,9 +642,12 @@ func (ns *NormalizedString) Replace(
 // Slice returns a slice of the current NormalizedString. It also returns a flag
 // which reports whether the operation is successful or not.
 func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
-	if !ns.rangeIsValid(rng) {
+	if !ns.rangeIsValid(rng) || rng.Start() > rng.End() {
 		return nil, false
 	}
+	if rng.Len() == 0 {
+		return New("", "", []AlignmentRange{}, ns.originalShift+ns.originalPosition(rng)), true
+	}
 
 	normalizedRange, nrOk := ns.CoerceRangeToNormalized(rng)
 	if !nrOk {
@@ -674,6 +677,16 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 	return New(original, normalized, alignments, originalShift), true
 }
 
+// originalPosition returns the position in the original string of the start of
+// the given range, which must be valid.
+func (ns *NormalizedString) originalPosition(rng Range) int {
+	position := rng.Start()
+	if _, isOriginal := rng.(OriginalRange); isOriginal || position == 0 {
+		return position
+	}
+	return ns.alignments[position-1].end
+}
+
 // Filter applies filtering over the characters of the NormalizedString.
 func (ns *NormalizedString) Filter(keep func(rune) bool) {
 	removed := 0
-- 
2.43.0


From ecbf8f37f7885e184dfc41dd7bb7727e0b345f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 11/23] fix: WordPiece: shorten the candidate by its last whole
 character

The last byte was taken for a character: candidates were cut inside multi-byte
characters, or shortened by two bytes, and words in the vocabulary were missed.
---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..0d6041d 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneBytesLen := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneBytesLen
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From 46769d2f0702f2b3740d57357eac2e40f2e3b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 12/23] fix: BPE: the continuing subword prefix goes on all
 characters but the first

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From a9824d87329a5b3f5c011d7a0b8e1c5d3d4626e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 13/23] fix: MergeMapFromFile: report a right token shorter
 than the prefix instead of panicking

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..c9009c7 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if prefixLength < 0 || prefixLength > len(terms[1]) {
+			return nil, fmt.Errorf("line %d: right merge token cannot have a prefix of length %d", lineCount, prefixLength)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From 735d9e2f548741c87a01d7887f13964a32f00cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 14/23] fix: Vocabulary: AddTerm never takes the ID of another
 term

---
 vocabulary/vocabulary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..a0339b9 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -53,6 +53,13 @@ func (v *Vocabulary) AddTerm(term string) {
 		return
 	}
 	id := v.Size()
+	for {
+		// IDs loaded from a file are not necessarily contiguous
+		if _, taken := v.idToTerm[id]; !taken {
+			break
+		}
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From b2914e53b4fb6bae6794602519d5d9af734106d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 15/23] fix: Vocabulary: FromJSONFile rejects null IDs, and a
 null file is an empty vocabulary

A null ID was loaded as ID 0, and adding a term to the vocabulary of a null
file panicked.
---
 vocabulary/vocabulary.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index a0339b9..ba8b48f 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -6,6 +6,7 @@ package vocabulary
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 )
 
@@ -30,15 +31,20 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
-	var termToID map[string]int
-	err = json.Unmarshal(rawData, &termToID)
+	var terms map[string]*int
+	err = json.Unmarshal(rawData, &terms)
 	if err != nil {
 		return nil, err
 	}
 
-	idToTerm := make(map[int]string, len(termToID))
-	for term, id := range termToID {
-		idToTerm[id] = term
+	termToID := make(map[string]int, len(terms))
+	idToTerm := make(map[int]string, len(terms))
+	for term, id := range terms {
+		if id == nil {
+			return nil, fmt.Errorf("vocabulary: term %q has no ID", term)
+		}
+		termToID[term] = *id
+		idToTerm[*id] = term
 	}
 
 	return &Vocabulary{termToID: termToID, idToTerm: idToTerm}, nil
-- 
2.43.0


From d627eadbc3890cf4ca18a9d7d18bc1e612447ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 16/23] fix: BPE: dropped characters keep their place in the
 token offsets

Without an unknown token, characters out of vocabulary were dropped and all the
following offsets were shifted to the left.
---
 models/bpemodel/bpemodel.go | 9 +++++++++
 models/bpemodel/word.go     | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index be9225b..6d86024 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -132,6 +132,9 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 
 	var unk *Symbol
 
+	// Length in bytes of the characters dropped since the last symbol
+	gap := 0
+
 	runes := []rune(w)
 	lastRuneIndex := len(runes) - 1
 
@@ -153,6 +156,8 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 				unk = nil
 			}
 			word.Add(id, byteLen)
+			(*word)[word.Len()-1].Gap = gap
+			gap = 0
 		} else if m.hasUnknownToken() {
 			if unk != nil {
 				if m.unknownFusionEnabled {
@@ -170,6 +175,9 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 					Length: byteLen,
 				}
 			}
+		} else {
+			// The character is dropped
+			gap += byteLen
 		}
 	}
 
@@ -190,6 +198,7 @@ func (m *BPEModel) wordToTokens(word *Word) ([]models.Token, error) {
 		if !ok {
 			return nil, fmt.Errorf("ID %d not found in vocabulary", wordSymbol.ID)
 		}
+		offsetStart += wordSymbol.Gap
 		offsetEnd := offsetStart + wordSymbol.Length
 		tokens[i] = models.Token{
 			ID:    wordSymbol.ID,
diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..0752a4a 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -22,6 +22,9 @@ type Symbol struct {
 // Word that contains it.
 type WordSymbol struct {
 	Symbol
+	// Gap is the length in bytes of the characters which have been dropped
+	// between the previous symbol and this one.
+	Gap int
 	// Prev is the index of the previous symbol in the Word.
 	// -1 means no previous symbol.
 	Prev int
@@ -35,7 +38,7 @@ type WordSymbol struct {
 // on the left, and other to be the next one on the right.
 func (s *WordSymbol) MergeWith(other *WordSymbol, newSymbolID int) {
 	s.ID = newSymbolID
-	s.Length += other.Length
+	s.Length += other.Gap + other.Length
 	s.Next = other.Next
 }
 
-- 
2.43.0


From 0b44bafcb3096672440651ebf43e1f1d4ead1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 17/23] fix: NormalizedString: invalid UTF-8 bytes are one byte
 long

Each one was counted as the three bytes of the replacement character, so the
alignments did not fit the string and lookups panicked.
---
 normalizedstring/normalizedstring.go | 36 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 40cb6e9..32a9616 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -75,9 +75,8 @@ func FromString(s string) *NormalizedString {
 func alignmentsFromString(s string) []AlignmentRange {
 	alignments := make([]AlignmentRange, 0, len(s))
 
-	for runeIndex, r := range s {
-		strRune := string(r)
-		bytesLen := len(strRune)
+	for runeIndex := range s {
+		_, bytesLen := utf8.DecodeRuneInString(s[runeIndex:])
 		for byteIndex := 0; byteIndex < bytesLen; byteIndex++ {
 			alignments = append(alignments, AlignmentRange{
 				start: runeIndex,
@@ -164,9 +163,8 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	replacedNormalizedRunes := []rune(replacedNormalizedString)
-	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
-	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
+	initialRemoved := runesBytesLen(replacedNormalizedString, initialOffset)
+	replacedNormalizedString = replacedNormalizedString[initialRemoved:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
@@ -192,16 +190,15 @@ func (ns *NormalizedString) TransformRange(
 		// If we are replacing a character, find it and compute the change in size
 		replacedRuneSize := 0
 		if runeChange.Change <= 0 {
-			replacedRune := replacedNormalizedRunes[0]
-			replacedNormalizedRunes = replacedNormalizedRunes[1:]
-			replacedRuneSize = len(string(replacedRune))
+			replacedRuneSize = runesBytesLen(replacedNormalizedString, 1)
+			replacedNormalizedString = replacedNormalizedString[replacedRuneSize:]
 		}
 
 		// If we are removing some characters, find them too
 		totalBytesToRemove := 0
 		if runeChange.Change <= -1 {
-			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
-			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
+			totalBytesToRemove = runesBytesLen(replacedNormalizedString, -runeChange.Change)
+			replacedNormalizedString = replacedNormalizedString[totalBytesToRemove:]
 		}
 
 		// Keep track of the changes for next offsets
@@ -230,6 +227,20 @@ func (ns *NormalizedString) TransformRange(
 	)
 }
 
+// runesBytesLen returns the length in bytes of the first n runes of s. An
+// invalid byte counts as one rune, which is one byte long.
+func runesBytesLen(s string, n int) int {
+	bytesLen := 0
+	for i := 0; i < n; i++ {
+		if bytesLen >= len(s) {
+			panic("runesBytesLen: not enough runes")
+		}
+		_, size := utf8.DecodeRuneInString(s[bytesLen:])
+		bytesLen += size
+	}
+	return bytesLen
+}
+
 // Transform applies transformations to the current normalized version of
 // the string, while updating the alignments.
 //
@@ -451,8 +462,7 @@ func (ns *NormalizedString) Prepend(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: change})
 	}
 
-	firstRune := []rune(ns.normalized)[0]
-	firstRuneBytesLen := len(string(firstRune))
+	firstRune, firstRuneBytesLen := utf8.DecodeRuneInString(ns.normalized)
 	transformations = append(transformations, RuneChange{Rune: firstRune, Change: 1})
 
 	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)
-- 
2.43.0


From a74e60d166e20d4d5e7d59400046bbdb797208d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 18/23] fix: split patterns: invalid UTF-8 bytes are one byte
 long

The captures on a text with invalid bytes went beyond the end of the text.
---
 splitpattern/func.go    |  7 +++++--
 splitpattern/regexp2.go | 12 +++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/splitpattern/func.go b/splitpattern/func.go
index 6a836cf..be09ebe 100644
--- a/splitpattern/func.go
+++ b/splitpattern/func.go
@@ -4,7 +4,10 @@
 
 package splitpattern
 
-import "github.com/nlpodyssey/gotokenizers/strutils"
+import (
+	"github.com/nlpodyssey/gotokenizers/strutils"
+	"unicode/utf8"
+)
 
 type FuncSplitPattern struct {
 	f func(rune) bool
@@ -30,7 +33,7 @@ func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
 	splits := make([]Capture, 0, len(s))
 
 	for i, r := range s {
-		runeBytesLen := len(string(r))
+		_, runeBytesLen := utf8.DecodeRuneInString(s[i:])
 		lastSeen = i + runeBytesLen
 
 		if !sp.f(r) {
diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 70c59d4..4f88642 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -27,7 +27,13 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		}}, nil
 	}
 
-	runes := []rune(s)
+	// Byte position of each rune, followed by the end of the string
+	positions := make([]int, 0, len(s)+1)
+	for i := range s {
+		positions = append(positions, i)
+	}
+	positions = append(positions, len(s))
+
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
@@ -53,8 +59,8 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	}
 
 	for _, match := range matches {
-		startByte := len(string(runes[:match.Index]))
-		endByte := startByte + len(match.String())
+		startByte := positions[match.Index]
+		endByte := positions[match.Index+match.Length]
 
 		if prev != startByte {
 			splits = append(splits, Capture{
-- 
2.43.0


From 2c1c1a4c8d3e73fbfc995ea400970ff6f95c08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 19/23] fix: ByteLevelPreTokenizer: do not read beyond the text
 on invalid UTF-8

---
 .../bytelevelpretokenizer/bytelevelpretokenizer.go         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..2b6ee2b 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ByteLevelPreTokenizer allows the generation of pre-tokens suitable in the
@@ -87,11 +88,9 @@ func (b *ByteLevelPreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
 		s := ns.Get()
 		transformations := make([]normalizedstring.RuneChange, 0, len(s))
-		i := 0
-		for _, r := range s {
-			size := len(string(r))
+		for i := range s {
+			_, size := utf8.DecodeRuneInString(s[i:])
 			bytes := []byte(s[i : i+size])
-			i += size
 
 			for byteIndex, byteVal := range bytes {
 				change := 0
-- 
2.43.0


From 48e26adcbd1f5b1feca0677825d431ff39161e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 20/23] fix: BPE: invalid UTF-8 bytes are one byte long in the
 token offsets

---
 models/bpemodel/bpemodel.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 6d86024..02b7ecd 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -135,17 +136,14 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 	// Length in bytes of the characters dropped since the last symbol
 	gap := 0
 
-	runes := []rune(w)
-	lastRuneIndex := len(runes) - 1
-
-	for i, r := range runes {
+	for i, r := range w {
 		s := string(r)
-		byteLen := len(s)
+		_, byteLen := utf8.DecodeRuneInString(w[i:])
 
 		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
-		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
+		if i+byteLen == len(w) && m.hasEndOfWordSuffix() {
 			s = s + m.endOfWordSuffix
 		}
 
-- 
2.43.0


From d577ca03831de4fa1cdefd75d33a89d1ad37b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 21/23] fix: BPE merge applied at the rank of an expired queue
 entry

A queue entry was taken for valid when the pair now at its position merges
into the same symbol, even if it does so with another rank.
---
 models/bpemodel/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index 0752a4a..063161d 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -125,7 +125,7 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		right := (*w)[nextPos]
 
 		// Make sure we are not processing an expired queue entry
-		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m.ID != top.ID {
+		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m != top.MergeValue {
 			continue
 		}
 
-- 
2.43.0


From 45b72092cfbc929af708e22c8d5f63fbbf6c9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 22/23] fix: BPE: a word's symbols know their neighbours after
 merging

Word.MergeAll removed the merged symbols without renumbering Prev and Next of
those that remain, so that appending to the word or merging it again missed
merges or panicked.
---
 models/bpemodel/word.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index 063161d..65e5c5e 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -165,6 +165,15 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		}
 		i++
 	}
+
+	// The remaining symbols have new positions
+	for i, symbol := range *w {
+		symbol.Prev = i - 1
+		symbol.Next = i + 1
+	}
+	if w.Len() > 0 {
+		(*w)[w.Len()-1].Next = -1
+	}
 }
 
 func (w *Word) removeSymbol(index int) {
-- 
2.43.0


From 1315636786d6cf7eee7931ab2d4b639c188fe43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 23/23] fix: Replace keeps track of the length of malformed
 content

Each invalid byte of the content becomes a replacement character of three
bytes, but the later matches were shifted by the length of the content as
given: the second replacement cut the first one's characters apart.
---
 normalizedstring/normalizedstring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 32a9616..083b811 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -641,7 +641,8 @@ func (ns *NormalizedString) Replace(
 
 		ns.TransformRange(rng, changes, removedRunes)
 
-		newLen := len(content)
+		// Invalid bytes of the content become longer replacement characters
+		newLen := len(string([]rune(content)))
 		oldLen := capture.Offsets.End - capture.Offsets.Start
 		offset += newLen - oldLen
 	}
-- 
2.43.0

