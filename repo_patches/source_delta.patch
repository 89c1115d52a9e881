From d7e0b5d8cef90ee8b5f8bd1af8a3c17f6f37630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 01/26] fix: conv.Bits2Nibbles passes the four bits of each
 nibble to FromBinary and visits every nibble

---
 circuits/gadgets/conv/bits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..bc047f7 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -49,8 +49,8 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
 	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	for i := 0; i < len(bits); i += 4 {
+		bytes = append(bytes, api.FromBinary(bits[i:i+4]...))
 	}
 	return bytes
 }
-- 
2.43.0


From 8b6872d860b34582daf82db55d527443d4e6e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 02/26] fix: RLP field prefix counts an empty list (0xc0) once

RlpFieldPrefix returned isValid=2 for 0xc0, so list checks that sum the
validity flags rejected consistent lists with one empty-list item and
accepted ones whose declared length is wrong. RlpNestArrayCheck made up for
it with an off-by-one in the length sum, which hid every length mismatch
once a list held an empty list.
---
 circuits/gadgets/rlp/rlp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..275e79d 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -265,7 +265,8 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	// an empty list is already counted by isArray
+	isValid = api.Add(isValid, api.Sub(isArray, isEmptyList))
 
 	isBig = api.Add(isBig, isArrayBig)
 
@@ -474,7 +475,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +518,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 8ff0a849a0866478b919c97e9110f5a3d3f39211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 03/26] fix: RLP list checks compare a fixed-size field's
 length with its prefix

With min == max ShiftLeft moves past a field by the fixed size whatever its
RLP prefix says, while the length sum used the prefix, so a list whose
declared length does not match the items laid out could be accepted.
---
 circuits/gadgets/rlp/rlp.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 275e79d..f86ed4c 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -379,6 +379,15 @@ type ArrayCheck struct {
 	FieldMaxHexLen       []int
 }
 
+// fixedLenMatched ShiftLeft steps over a fixed-size field (min == max) whatever its own prefix says, so the
+// length given by the prefix has to be the fixed one. The last field is never stepped over.
+func (a *ArrayCheck) fixedLenMatched(api frontend.API, idx int, fieldHexLen frontend.Variable) frontend.Variable {
+	if idx == a.MaxFields-1 || a.FieldMinHexLen[idx] != a.FieldMaxHexLen[idx] {
+		return 1
+	}
+	return Equal(api, fieldHexLen, a.FieldMaxHexLen[idx])
+}
+
 func (a *ArrayCheck) LeftShiftRlpArrayPrefix(api frontend.API, in []frontend.Variable) (out []frontend.Variable, arrayLen frontend.Variable) {
 	isBig, prefixOrTotalHexLen, isValid := RlpArrayPrefix(api, [2]frontend.Variable{in[0], in[1]})
 	api.AssertIsEqual(isValid, 1)
@@ -514,14 +523,14 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
 		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isZero))
 
-		check = api.Add(check, fieldPrefixIsValid)
-
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
 		fieldHexLens = append(fieldHexLens, fieldHexLen)
+
+		check = api.Add(check, api.Mul(fieldPrefixIsValid, a.fixedLenMatched(api, idx, fieldHexLen)))
 	}
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
@@ -649,7 +658,7 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 		fieldHexLen = api.Mul(fieldHexLen, fieldIsValid)
 		fieldHexLens = append(fieldHexLens, fieldHexLen)
 
-		fieldIsValid = api.Mul(fieldPrefixIsValid, fieldIsValid)
+		fieldIsValid = api.Mul(fieldPrefixIsValid, fieldIsValid, a.fixedLenMatched(api, idx, fieldHexLen))
 
 		check = api.Add(check, fieldIsValid)
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
@@ -770,7 +779,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		fieldHexLen = api.Mul(fieldHexLen, idxLessThanMaxFields)
 		fieldHexLens = append(fieldHexLens, fieldHexLen)
 
-		check = api.Add(check, fieldPrefixIsValid)
+		check = api.Add(check, api.Mul(fieldPrefixIsValid, a.fixedLenMatched(api, idx, fieldHexLen)))
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-- 
2.43.0


From 35646473564f3712c93c38aae0168d9f23f609a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 04/26] fix: MPT inclusion starts at the first key nibble

---
 circuits/gadgets/mpt/mpt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..e0a1fd8 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -71,6 +71,8 @@ func CheckMPTInclusionFixedKeyLength(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.Mul(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -305,6 +307,8 @@ func CheckMPTInclusionNoBranchTermination(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.Mul(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From c15a211440a8db56fac9670934e2381ad6d182f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 05/26] fix: MPT inclusion of depth 1 links the last node to
 the root

---
 circuits/gadgets/mpt/mpt.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index e0a1fd8..071b8cc 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -225,7 +225,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// with depth 1 the last node is the root node
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -437,7 +442,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// with depth 1 the last node is the root node
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 8cf32254739605c3648c104b95cb680d2a8c4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 06/26] fix: CheckMPTInclusionNoBranchTermination requires
 single-nibble fragments of branches, not of extensions

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 071b8cc..3c9d07d 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -291,7 +291,7 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-- 
2.43.0


From 2c75846e95fce034ea8ca6dee5b2dd05230c90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 07/26] fix: storage non-existence needs an empty value, a
 well-formed last node and the key nibble it would consume

---
 circuits/gadgets/mpt/mpt.go      | 16 +++++++++++-----
 circuits/gadgets/mpt/mpt_util.go |  7 +++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 3c9d07d..a285191 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -4,7 +4,6 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
 	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
 	"github.com/brevis-network/zk-utils/common/utils"
-	"github.com/consensys/gnark/std/selector"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/consensys/gnark/frontend"
@@ -100,10 +99,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
+		// the nibble the last node would consume
+		lastNodeKeySelector := leafSelector[0]
 
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
 		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
@@ -112,7 +110,15 @@ func CheckMPTInclusionFixedKeyLength(
 		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
-		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// only the empty value (0x80) can be claimed for a key that does not exist
+		emptyValue := make([]frontend.Variable, maxValueLength)
+		for i := range emptyValue {
+			emptyValue[i] = 0
+		}
+		emptyValue[0] = 8
+		isEmptyValue := rlp.ArrayEqual(api, value, emptyValue, maxValueLength, maxValueLength)
+
+		isNotExist := api.And(isEmptyValue, api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence))
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..7476bdd 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -232,11 +232,10 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 
 	// check key path part
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
+	// the key leaves the path of the extension
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
-
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 271a6309e3d40abb7e3326b23d573ae02adb36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 08/26] fix: MPT inclusion checks the fragments of the layers
 above the last node only

---
 circuits/gadgets/mpt/mpt.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index a285191..5841c8e 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -57,17 +57,15 @@ func CheckMPTInclusionFixedKeyLength(
 
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
-	for i := 0; i < maxDepth-1; i++ {
-		if len(allFragmentsInput) == 0 {
-			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	for i := 0; i < maxDepth; i++ {
+		// the layers above the last node, and the start of the last node
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
+		if i < maxDepth-1 {
+			tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
 		}
-		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
-
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
 	// the path starts at the first nibble of the key
@@ -305,17 +303,15 @@ func CheckMPTInclusionNoBranchTermination(
 
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
-	for i := 0; i < maxDepth-1; i++ {
-		if len(allFragmentsInput) == 0 {
-			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	for i := 0; i < maxDepth; i++ {
+		// the layers above the last node, and the start of the last node
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
+		if i < maxDepth-1 {
+			tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
 		}
-		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
-
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
 	// the path starts at the first nibble of the key
-- 
2.43.0


From 8d600daf8a0dbac6526cf9b05bd56cb0580e491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 09/26] fix: CheckMPTInclusionNoBranchTermination requires
 every check to pass (it required exactly one to fail)

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5841c8e..d911025 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -477,7 +477,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 954371a02ec392367e6898ffe05fb95e7e73cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 10/26] fix: BlkHeaderRlpCheck counts no prefix for absent
 trailing fields

---
 circuits/gadgets/rlp/rlp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index f86ed4c..2bbc12b 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -782,8 +782,9 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		check = api.Add(check, api.Mul(fieldPrefixIsValid, a.fixedLenMatched(api, idx, fieldHexLen)))
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
-		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
+		// an absent field has no prefix either: what follows the header is keccak padding
+		fieldPrefixHexLen := api.Add(api.Sub(2, api.Mul(2, fieldPrefixIsLiteral)), fieldRlpPrefix1HexLen)
+		lenSum = api.Add(lenSum, api.Mul(idxLessThanMaxFields, fieldPrefixHexLen), fieldHexLen)
 	}
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
-- 
2.43.0


From 39f4edf77cd99e62d9fcc6fb9c98aa984820aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 11/26] fix: CheckEthAddressStorageProof accepts a header whose
 block number is encoded as the empty string

---
 circuits/gadgets/mpt/eth_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index ae0f05a..6293230 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -324,7 +324,7 @@ func CheckEthAddressStorageProof(
 		storageProofDepth,
 	)
 
-	blockNumberShift := rlp.ShiftRight(api, 8, 3, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
+	blockNumberShift := rlp.ShiftRight(api, 8, 4, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
 	var blockNumber = frontend.Variable(0)
 	for i := 0; i < 8; i++ {
 		blockNumber = api.Add(blockNumber, api.Mul(blockNumberShift[i], big.NewInt(int64(math.Pow(16, float64(7-i))))))
-- 
2.43.0


From 2f37b363cb0597d5f96036cb9a4920bc5130b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 12/26] fix: limbs.Split range-checks the limbs computed by the
 hint

---
 circuits/gadgets/limbs/limbapi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..0646ff3 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -96,6 +96,10 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		acc = wa.api.Add(acc, out[len(out)-1])
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
+	// the hint outputs are only determined by the sum if each of them fits its size
+	for _, w := range ret {
+		wa.api.ToBinary(w.Val, w.Size)
+	}
 	wa.api.AssertIsEqual(acc, l.Val)
 	return ret
 }
-- 
2.43.0


From 0cf5c8b6588aea43d73c9fd7c71f31577884bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 13/26] fix: limbs.Resplit splits a single limb and handles
 sizes that do not divide the total

---
 circuits/gadgets/limbs/limbapi.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 0646ff3..c718095 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -129,15 +129,15 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	if totalSize < f && newLimbSize <= totalSize {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
-	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
+	// if the total limb size does not fit the field, we cannot merge all the limbs together then
 	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
 	var bits Limbs
 	for _, w := range ws {
@@ -145,7 +145,11 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From cca8bb25869078a0e1cbec34a5e8013e3efdb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 14/26] fix: keccak bit padding of messages one byte short of a
 full round

---
 circuits/gadgets/keccak/pad.go       | 21 +++++++--------------
 circuits/gadgets/keccak/periphery.go | 14 +++++++++-----
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..ba4ead2 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,24 +75,17 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-
-		// populate the rest with dummy zeros
+		// populate the rest (padding zeros and dummy zeros) with zeros
 		for ; j < outBitsLen; j++ {
 			padded[i][j] = 0
 		}
+
+		// insert the padding part: 0x01 right after the data and 0x80 at the end of the round. when only one byte is
+		// missing from the round, both fall on that byte (0x81)
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 	}
 	sel := api.Div(api.Sub(inLen, inLenMin), 8/inBits)
 	out := mux.Multiplex(api, sel, outBitsLen, rows, transpose(padded))
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..95d15f9 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
@@ -246,11 +246,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		padBits = append(padBits, api.ToBinary(0x81, 8)...) // 1000, 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 737db7bf58680db53ec40f499aeae0836b899fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 15/26] fix: bls12-381 FrobeniusCube raises to p^3

---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..3901786 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -687,30 +687,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From d0ec283d0cc14d81c51bede030b2d3580245b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 16/26] fix: GetG2AffineFromG2Jac maps the point at infinity to
 the zero point

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..11940ee 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -605,13 +605,14 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	jacZNotZero := E2NotZero(api, Q.Z)
+	// the point at infinity has Z = 0, which has no inverse
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
 	res2.Y = *et2.Mul(&Q.Y, b)
 	res2.Y = *et2.Mul(&res2.Y, a)
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From 1dfc0b4856e5527f96df633bf8dc4e37677ecde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 17/26] fix: MapElementToCurve2 handles the exceptional case of
 the simplified SWU map

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 11940ee..97405c1 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -172,7 +172,8 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
+	// 7-8. tv4 = A * CMOV(Z, -tv2, tv2 != 0)
+	tv2 = et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &Tv4Z)
 	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
-- 
2.43.0


From 06a3cd6128753cc058a5debac58999c5999ab18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 18/26] fix: g2Sgn0 takes the sign of the second coordinate
 when the first is zero

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 97405c1..d44afd5 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -229,12 +229,13 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 	zero = 1
 	signI = A0Bits[0][0]
 
-	zeroI = 0
+	nonZero := frontend.Variable(0)
 	for _, subBits := range A0Bits {
 		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
+			nonZero = api.Or(nonZero, b)
 		}
 	}
+	zeroI = api.Sub(1, nonZero)
 
 	sign = api.Or(sign, api.And(zero, signI))
 	zero = api.And(zero, zeroI)
-- 
2.43.0


From 6e98e5f3a5a9ba23ce0ed073d7c78cf0d3ab0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 19/26] fix: bls12-381 zero, equality and sign tests decide on
 the canonical representation

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index d44afd5..b2b6521 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -216,6 +216,8 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		A0: *ba.Reduce(&u.A0),
 		A1: *ba.Reduce(&u.A1),
 	}
+	ba.AssertIsInRange(&uu.A0)
+	ba.AssertIsInRange(&uu.A1)
 	var A0Bits [6][]frontend.Variable
 	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
 	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
@@ -527,6 +529,7 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 		log.Fatal(err)
 	}
 	x = *ba.Reduce(&x)
+	ba.AssertIsInRange(&x)
 	bs := ba.ToBits(&x)
 	var isNotZero frontend.Variable
 	isNotZero = 0
@@ -551,6 +554,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	}
 	x = *ba.Reduce(&x)
 	y = *ba.Reduce(&y)
+	ba.AssertIsInRange(&x)
+	ba.AssertIsInRange(&y)
 	xBits := ba.ToBits(&x)
 	yBits := ba.ToBits(&y)
 
-- 
2.43.0


From a0851469774035f2febdbd2b7df43d2ea5d3701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 20/26] fix: emulated MiMC Sum does not hash the same data
 twice

---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 1ab51fc1b0fc4d5c33716e13270b31d8b8fade8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 21/26] fix: ed25519 Verify requires the public key and R to be
 on the curve

---
 circuits/gadgets/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..d834114 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -130,6 +130,10 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	// the encodings fix only y and the parity of x
+	curve.AssertIsOnCurve(pubKey.A)
+	curve.AssertIsOnCurve(sig.R)
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 67e98dbfeb0d34efa6e42174b3dab520b465d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 22/26] fix: Str2Uint64 returned 2^63-1 for every number from
 2^63 to 2^64-1

---
 common/utils/string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..7c8757d 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -17,5 +17,9 @@ func Str2Int(str string) int {
 }
 
 func Str2Uint64(str string) uint64 {
-	return uint64(Str2Int(str))
+	ret, err := strconv.ParseUint(str, 10, 64)
+	if err != nil {
+		return uint64(Str2Int(str))
+	}
+	return ret
 }
-- 
2.43.0


From dd2b208ff9adc7ae619d8d776dc3065679ce642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 23/26] fix: BitsToFrBigInt returned the modulus itself,
 unreduced, when the value hit it

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From eb0ac3f3e53e64af36926d9f3a4c7dd02c394d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 24/26] fix: ChunkProof.EncodeABI encoded block numbers of 2^63
 and more as the negated value

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From 7e7c619ba503e3b350db65298fc673807cc129df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:45 +0000
Subject: [PATCH 25/26] fix: GetTransactionProof and GetReceiptProof returned
 another entry's nodes, or panicked, for an index outside the block

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..39e68e6 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= bk.Transactions().Len() {
+		err = fmt.Errorf("tx index %d out of range, blk: %d", index, bk.NumberU64())
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= receipts.Len() {
+		err = fmt.Errorf("receipt index %d out of range, blk: %d", index, bk.NumberU64())
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From b2fb553ab99227d57ae9e9e4b6e6a58b825921c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:56 +0000
Subject: [PATCH 26/26] fix: GenerateBls12377Hash silently skipped every
 253-bit group not below the BLS12-377 scalar modulus

---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..05c6885 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0

