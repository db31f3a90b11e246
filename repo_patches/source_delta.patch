From 73cfca3c225e3f56112fdc474952ca07758ad580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/71] fix: compiling a nested loop that references an outer
 loop variable panicked

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From 93864e5ad6006ff5441db085565b4bc9d404ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 02/71] fix: comparing a field with one of its own sub-fields
 panicked at compile time

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 64ce1ab..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From d3ec769d3e0e0af8467e6da38e505bcd376a93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 03/71] fix: integer division and modulo by zero panicked at
 match time

---
 fastval_math.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..3338bb9 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -462,7 +462,9 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if valid1 && uint1Check == 0 {
+				return NewInvalidFastVal()
+			} else if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
 			} else {
@@ -475,6 +477,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
 		case FloatValue:
 			fallthrough
@@ -532,7 +538,7 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if !valid1 || uint1Check == 0 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return NewInvalidFastVal()
 			} else {
@@ -545,6 +551,10 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathMod)
 		default:
 			return NewInvalidFastVal()
-- 
2.43.0


From 01af47dcb671d881a3eb9bb9ca15ca09bc2c893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 04/71] fix: FastMatcher.Reset kept the collate status of the
 previous document

---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..4b9fcd8 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From bf5bb145bdd5776986369d54a5ab72446e1ab2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 05/71] fix: matchers running concurrently shared one number
 formatting buffer

---
 fastval.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..9bf82de 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -423,26 +421,19 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
-func (val FastVal) toJsonStringInternal() (FastVal, error) {
+// The following 3 numeric types are formatted into the caller's buffer, which must be private to the
+// comparison being performed as matchers can be running concurrently.
+func (val FastVal) toJsonStringInternal(buffer []byte) (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendUint(buffer[:0], val.GetUint(), 10)), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendInt(buffer[:0], val.GetInt(), 10)), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendFloat(buffer[:0], val.GetFloat(), 'E', -1, 64)), nil
 		}
 	}
 
@@ -581,8 +572,9 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
 	if other.IsString() || other.IsNumeric() {
-		escVal, err := val.toJsonStringInternal()
-		escOval, err1 := other.toJsonStringInternal()
+		var buffer, obuffer [32]byte
+		escVal, err := val.toJsonStringInternal(buffer[:])
+		escOval, err1 := other.toJsonStringInternal(obuffer[:])
 
 		result := strings.Compare(string(escVal.sliceData), string(escOval.sliceData))
 		return result, err == nil && err1 == nil
@@ -904,7 +896,8 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	escVal, err := val.toJsonStringInternal()
+	var buffer [32]byte
+	escVal, err := val.toJsonStringInternal(buffer[:])
 	if err != nil {
 		return false, false
 	}
-- 
2.43.0


From dc54cf2484981171f5224df814702e7c9d329d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 06/71] fix: a string compared with a boolean was neither
 equal, less nor greater

---
 fastval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastval.go b/fastval.go
index 9bf82de..c4ec3a1 100644
--- a/fastval.go
+++ b/fastval.go
@@ -594,7 +594,7 @@ func (val FastVal) compareStrings(other FastVal) (int, bool) {
 			}
 		}
 	}
-	return 0, false
+	return val.Collate(other)
 }
 
 func (val FastVal) compareTime(other FastVal) (int, bool) {
-- 
2.43.0


From be6ff95d90d7a9eb08e4315e956728907d4758cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/71] fix: comparing unsigned with signed integers was wrong
 for zero and for values over MaxInt64

---
 fastval.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fastval.go b/fastval.go
index c4ec3a1..6be8858 100644
--- a/fastval.go
+++ b/fastval.go
@@ -253,7 +253,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -264,7 +264,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
@@ -746,11 +746,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case UintValue:
 			fallthrough
 		case JsonUintValue:
-			intVal, _ := val.AsInt()
+			intVal, valid := val.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// A negative integer is less than any unsigned one
+				return -1, valid
 			}
 		default:
 			return val.compareInt(other)
@@ -762,11 +763,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
-			if intVal >= 0 {
+			intOval, valid := other.AsInt()
+			if intOval >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// Any unsigned integer is greater than a negative one
+				return 1, valid
 			}
 		case FloatValue:
 			fallthrough
-- 
2.43.0


From 2ba2d438ea7068fb4b067e5db94cda3885b6a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 08/71] fix: empty objects and arrays were treated as missing
 fields

---
 fastMatcher.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4b9fcd8..a7f26fa 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -599,17 +599,9 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			m.skipValue(token)
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
-			}
-
 			if shouldReturn {
 				return err
 			}
-
-			if m.buckets.IsResolved(0) {
-				return nil
-			}
 		}
 		objEndPos := m.tokens.Position()
 
@@ -748,7 +740,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From c47512d38db0d93f7f817428d7ea6aaa1a920a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 09/71] fix: a value was stored too late for an expression over
 it and its own sub-fields

---
 fastMatcher.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index a7f26fa..aa9e228 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -673,22 +673,23 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
 	}
 
-	if node.After != nil {
-		m.matchAfter(node.After)
-
-		if m.buckets.IsResolved(0) {
-			return nil
-		}
-	}
-
 	endPos = m.tokens.Position()
 
+	// This must happen before the after node runs, as it can refer to this value
 	if node.StoreId > 0 {
 		slotData := &m.slots[node.StoreId-1]
 		slotData.start = startPos
 		slotData.size = endPos - startPos
 	}
 
+	if node.After != nil {
+		m.matchAfter(node.After)
+
+		if m.buckets.IsResolved(0) {
+			return nil
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3a549b37504c8b1aedf8f3a11db8b9ba719e8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 10/71] fix: a reference to a field which is not in the
 document read the document from its start

---
 fastMatcher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index aa9e228..306b935 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -98,6 +98,11 @@ func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	savePos := m.tokens.Position()
 
 	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored, this field is not part of the document
+		return value
+	}
+
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
@@ -527,6 +532,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// Nothing was stored, there is nothing to loop over
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 3efad6f39df86e7d245ade1cf5c6b575fcfb2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 11/71] fix: fields missing from a loop element took the values
 of the previous element

---
 fastMatcher.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 306b935..4923902 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -391,6 +391,17 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 	}
 }
 
+// resetSlots clears the slots which are stored while executing a node.  The ones
+// of nested loops are cleared by these on each of their own iterations.
+func (m *FastMatcher) resetSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.resetSlots(elem)
+	}
+}
+
 func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNode) error {
 	// Note that this assumes that the tokenizer has already been placed at the target
 	// that referenced the loop node itself...
@@ -458,6 +469,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
 
+		// Neither may the values stored by previous iterations
+		m.resetSlots(loop.Node)
+
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
 		if err != nil {
-- 
2.43.0


From 62a41cb5daecdd86a3f8c77c9a50175d990e82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 12/71] fix: negations inside of a loop did not match elements
 missing the negated field

---
 bintree.go     | 21 +++++++++++++++++++++
 fastMatcher.go |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/bintree.go b/bintree.go
index eee2bcd..b95c32b 100644
--- a/bintree.go
+++ b/bintree.go
@@ -273,6 +273,27 @@ func (state *binTreeState) Resolve() {
 	}
 }
 
+// ResolveNode forces a single node of the tree to be fully resolved, the same
+// way that Resolve does it for the entire tree.
+func (state *binTreeState) ResolveNode(index int) {
+	if state.IsResolved(index) {
+		return
+	}
+
+	defNode := state.tree.data[index]
+	if binTreeNodeTypeHasRight(defNode.NodeType) {
+		state.ResolveNode(defNode.Right)
+	}
+	if binTreeNodeTypeHasLeft(defNode.NodeType) {
+		state.ResolveNode(defNode.Left)
+	}
+
+	// The children may have resolved this node already
+	if !state.IsResolved(index) {
+		state.MarkNode(index, false)
+	}
+}
+
 func (state *binTreeState) Reset() {
 	state.stallIndex = 0
 	for i := range state.data {
diff --git a/fastMatcher.go b/fastMatcher.go
index 4923902..98bfd00 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -478,6 +478,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// As at the end of the document, whatever this element did not resolve
+		// (such as a NOT of a missing field) has to be resolved now.
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From d5e755bb56b36fdf50e55fc2c26d8a64c2fc06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 13/71] fix: array index references to an array which is also
 looped over were ignored

---
 fastMatcher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 98bfd00..5a110a7 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -682,6 +682,15 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 				}
 			}
 
+			if len(node.Elems) > 0 {
+				// There are array indexes being referenced as well as loops
+				m.tokens.Seek(savePos)
+
+				err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
+				if shouldReturn {
+					return err
+				}
+			}
 		}
 		arrayEndPos := m.tokens.Position()
 
-- 
2.43.0


From daf4ad14c953575ae296e2bdb1f3a285719a3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 14/71] fix: TRUE within a larger expression was evaluated as
 FALSE

---
 transform.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transform.go b/transform.go
index 1f1037b..86fb65c 100644
--- a/transform.go
+++ b/transform.go
@@ -544,6 +544,11 @@ func (t *Transformer) transformLike(expr LikeExpr) *ExecNode {
 
 func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
+	case FalseExpr:
+		// Nothing ever marks this bucket, so it always resolves to false
+		return nil
+	case TrueExpr:
+		return t.transformNot(NotExpr{FalseExpr{}})
 	case mergeExpr:
 		return t.transformMerge(expr)
 	case AnyInExpr:
-- 
2.43.0


From 091d578f7337da32bcb0a06b388d07ac4f76a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 15/71] fix: matching expressions which are just TRUE or FALSE
 panicked

---
 fastMatcher.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 5a110a7..aeaf3a1 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -845,6 +845,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, nil
 	}
 
+	// Expressions which are always true or false have no buckets
+	alwaysTrue := false
+	for _, bucket := range m.def.MatchBuckets {
+		if bucket == AlwaysTrueIdent {
+			alwaysTrue = true
+		}
+	}
+	if m.def.ParseNode == nil {
+		return alwaysTrue, nil
+	}
+
 	token, tokenData, tokenDataLen, err := m.tokens.Step()
 	if err != nil {
 		return false, err
@@ -859,7 +870,7 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return alwaysTrue || m.buckets.IsTrue(0), nil
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -873,6 +884,11 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	if binTreeIdx == AlwaysTrueIdent {
+		return true
+	} else if binTreeIdx == AlwaysFalseIdent {
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From 2c47ccb9abed143ec5b13f6a91619b766933ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 16/71] fix: compiling loops containing NOT EXISTS, TRUE or
 FALSE panicked

---
 expression_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..ccb7956 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -43,6 +43,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		}
 
 		fields = append(fields, expr)
+	case TrueExpr:
+	case FalseExpr:
 	case ValueExpr:
 	case RegexExpr:
 	case PcreExpr:
@@ -96,6 +98,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
-- 
2.43.0


From 195bf1506e009cf44772af259e0563de9e2745a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 17/71] fix: malformed documents made the matcher panic or
 ignore the error

---
 fastMatcher.go | 65 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index aeaf3a1..08fd26c 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -63,7 +63,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return ErrUnexpectedEOF
 		}
 	}
 }
@@ -89,7 +89,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return fmt.Errorf("unexpected value: %v", tokenToText(token))
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -417,8 +417,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -453,7 +452,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return fmt.Errorf("expected array element delimiter got %s", tokenToText(token))
 			}
 		}
 
@@ -490,7 +489,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -500,7 +502,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -510,7 +515,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -557,6 +565,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -623,7 +634,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
@@ -706,7 +720,7 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return fmt.Errorf("invalid token read - tokenType: %v data: %v", tokenToText(token), string(tokenData))
 	}
 
 	endPos = m.tokens.Position()
@@ -719,7 +733,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -756,17 +773,15 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			switch token {
-			case tknObjectEnd:
-				return nil, false
-			case tknArrayEnd:
+			case endToken:
 				return nil, false
 			case tknEnd:
-				return nil, true
+				return ErrUnexpectedEOF, true
 			case tknListDelim:
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return fmt.Errorf("expected object field element delimiter, received: %v", tokenToText(token)), true
 			}
 		}
 
@@ -788,14 +803,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			keyBytes = keyLitParse.ParseStringWLen(tokenData, tokenDataLen)
 		case tknEscString:
 			keyBytes = keyLitParse.ParseEscStringWLen(tokenData, tokenDataLen)
-		case tknArrayStart:
-			// Do nothing
-		case tknObjectStart:
-			// Do nothing
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return fmt.Errorf("expected literal, received: %v", tokenToText(token)), true
 			}
 		}
 
@@ -809,7 +820,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return fmt.Errorf("expected object key delimiter: got %v, %v", tokenToText(token), string(tokenData)), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -822,7 +833,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -832,7 +846,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From 7ca6cd43e7148d36fbf7f36ce4940e23fc73463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 18/71] fix: removing items from an object with an array ending
 in a string was rejected as invalid JSON

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..41d8755 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From 53a2c7249c412c7c04389318431a4ea3e65b4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 19/71] fix: removing items into a too small buffer panicked

---
 jsonComposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 41d8755..2e5b973 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,10 +41,10 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
-	if n != len(data) {
+	if len(data) > len(composer.body)-composer.pos {
 		return ErrInsufficientMemory
 	}
+	copy(composer.body[composer.pos:], data)
 	composer.pos += len(data)
 	composer.prevTokenType = tknType
 	return nil
-- 
2.43.0


From d7b648883ad06aad062cf58572ca388567553bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 20/71] fix: removing items failed when the same key was listed
 twice

---
 jsonComposer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 2e5b973..56cbaf7 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+
+			// this item is gone, it can't match any other key
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From 555fd76850e3b3cba5d7f03fb2d595cb9332a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 21/71] fix: items with escape sequences in their key were
 never removed

---
 jsonComposer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 56cbaf7..4837f47 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -103,7 +103,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		tknType = tknType1
 
 		switch tknType1 {
-		case tknString:
+		case tknString, tknEscString:
 			// string token can be a JSON key or a string JSON value
 			// if the next token is ":", then potentialKey is a JSON key
 			tknType2, potentialObjDelimiter, _, err = tokenizer.Step()
@@ -166,7 +166,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		case tknUnknown:
 			return handleError(ErrUnrecognisedToken)
 		default:
-			// can be tknObjectKeyDelim, tknListDelim, tknEscString, tknInteger, tknNumber,
+			// can be tknObjectKeyDelim, tknListDelim, tknInteger, tknNumber,
 			// tknNull, tknTrue, tknFalse
 			err = composer.Write(potentialKey, tknType1)
 			if err != nil {
@@ -179,6 +179,12 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 
 		// strip off the quotes from the string for matching
 		key := potentialKey[1 : tknLen-1]
+		if tknType1 == tknEscString {
+			key, err = unescapeJsonString(key, nil)
+			if err != nil {
+				return handleError(err)
+			}
+		}
 
 		matched := false
 		for _, keyToRemove := range remove {
-- 
2.43.0


From b86263e47d63fb432ac73fd49c879c4f6f95ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 22/71] fix: strings with unpaired surrogate escapes were
 decoded as empty or wrong strings

---
 fastlitescape.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index a752c17..102ba0f 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -73,12 +73,15 @@ func decodeUnicodeEscape(in []byte) (rune, int) {
 	} else if r <= basicMultilingualPlaneOffset && !isUTF16EncodedRune(r) {
 		// Valid Unicode escape in Basic Multilingual Plane
 		return r, 6
+	} else if r >= lowSurrogateOffset || len(in) < 8 || in[6] != '\\' || in[7] != 'u' {
+		// Unpaired surrogate, which has no character of its own
+		return utf8.RuneError, 6
 	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
-		// UTF16 "high surrogate" without manditory valid following Unicode escape for the "low surrogate"
-		return utf8.RuneError, -1
-	} else if r2 < lowSurrogateOffset {
-		// Invalid UTF16 "low surrogate"
+		// Invalid Unicode escape
 		return utf8.RuneError, -1
+	} else if r2 < lowSurrogateOffset || r2 > basicMultilingualPlaneReservedOffset {
+		// UTF16 "high surrogate" without a following "low surrogate"
+		return utf8.RuneError, 6
 	} else {
 		// Valid UTF16 surrogate pair
 		return combineUTF16Surrogates(r, r2), 12
-- 
2.43.0


From 78794ae48f5f257cfa44b9e51adfe3765ec028f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 23/71] fix: integers outside of the int64 range overflowed
 silently

---
 fastlitparse.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..936281f 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -42,6 +42,16 @@ func (p *fastLitParser) ParseInt(bytes []byte) int64 {
 	}
 }
 
+func (p *fastLitParser) parseBigInt(bytes []byte) FastVal {
+	if intVal, err := strconv.ParseInt(string(bytes), 10, 64); err == nil {
+		return NewIntFastVal(intVal)
+	}
+	if uintVal, err := strconv.ParseUint(string(bytes), 10, 64); err == nil {
+		return NewUintFastVal(uintVal)
+	}
+	return NewFloatFastVal(p.ParseNumber(bytes))
+}
+
 func (p *fastLitParser) ParseNumber(bytes []byte) float64 {
 	val, _ := strconv.ParseFloat(string(bytes), 64)
 	return val
@@ -72,6 +82,10 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
+		if len(bytes) > 18 {
+			// This might be outside of the range of an int64
+			return p.parseBigInt(bytes)
+		}
 		return NewIntFastVal(p.ParseInt(bytes))
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
-- 
2.43.0


From 31b1503cb936f5470bc62be5109430fe13921551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 24/71] fix: CompactExpression changed the meaning of loops
 over empty or missing arrays

---
 expression_compact.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..c9e7156 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -42,21 +42,16 @@ func compactExpressionAnd(expr AndExpr) Expression {
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
+	// An `any` over TRUE is still false for empty or missing arrays
 	return expr
 }
 
 func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
+	// An `every` over TRUE is still false for missing arrays, and one
+	// over FALSE is still true for empty ones
 	return expr
 }
 
-- 
2.43.0


From b80e287579984a76cad38c258780f9241c1794e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 25/71] fix: ParseJsonExpression panicked on expressions with
 missing or invalid arguments

---
 expression_json.go | 54 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..caa0863 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -5,8 +5,32 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
+// The number of arguments each of the expression types needs
+var jsonExprNumArgs = map[string]int{
+	"value":         1,
+	"func":          1,
+	"not":           1,
+	"or":            1,
+	"and":           1,
+	"anyin":         3,
+	"everyin":       3,
+	"anyeveryin":    3,
+	"exists":        1,
+	"notexists":     1,
+	"equals":        2,
+	"notequals":     2,
+	"lessthan":      2,
+	"lessequals":    2,
+	"greaterthan":   2,
+	"greaterequals": 2,
+	"like":          2,
+	"regex":         1,
+	"time":          1,
+}
+
 func parseJsonValue(data []interface{}) (Expression, error) {
 	return ValueExpr{
 		data[1],
@@ -16,9 +40,11 @@ func parseJsonValue(data []interface{}) (Expression, error) {
 func parseJsonField(data []interface{}) (Expression, error) {
 	var out FieldExpr
 	pos := 1
-	if dataRoot, ok := data[pos].(float64); ok {
-		out.Root = VariableID(dataRoot)
-		pos++
+	if pos < len(data) {
+		if dataRoot, ok := data[pos].(float64); ok {
+			out.Root = VariableID(dataRoot)
+			pos++
+		}
 	}
 	for ; pos < len(data); pos++ {
 		dataElem, ok := data[pos].(string)
@@ -39,7 +65,10 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		pos++
 	}
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,13 +306,20 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	regexStr, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
+	if _, err := regexp.Compile(regexStr); err != nil {
+		return nil, err
+	}
 	return RegexExpr{
 		data[1],
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	if dateStr, ok := data[1].(string); !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
@@ -292,12 +328,20 @@ func parseJsonTime(data []interface{}) (Expression, error) {
 }
 
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid empty expression")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data)-1 < jsonExprNumArgs[exprType] {
+		return nil, errors.New("missing arguments for " + exprType + " expression")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From 4817b2c4aded3839d57e362383a24c96a0552f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 26/71] fix: ParseJsonExpression accepted function calls on
 which matching panicked

---
 expression_json.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/expression_json.go b/expression_json.go
index caa0863..843cf4f 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -31,6 +31,35 @@ var jsonExprNumArgs = map[string]int{
 	"time":          1,
 }
 
+// The number of parameters each of the known functions needs
+var jsonFuncNumParams = map[string]int{
+	DateFunc:        1,
+	MathFuncAbs:     1,
+	MathFuncAcos:    1,
+	MathFuncAsin:    1,
+	MathFuncAtan:    1,
+	MathFuncAtan2:   2,
+	MathFuncCeil:    1,
+	MathFuncCos:     1,
+	MathFuncDegrees: 1,
+	MathFuncExp:     1,
+	MathFuncFloor:   1,
+	MathFuncLog:     1,
+	MathFuncLn:      1,
+	MathFuncPow:     2,
+	MathFuncRadians: 1,
+	MathFuncRound:   1,
+	MathFuncSin:     1,
+	MathFuncSqrt:    1,
+	MathFuncTan:     1,
+	MathFuncAdd:     2,
+	MathFuncSub:     2,
+	MathFuncMul:     2,
+	MathFuncDiv:     2,
+	MathFuncMod:     2,
+	MathFuncNeg:     1,
+}
+
 func parseJsonValue(data []interface{}) (Expression, error) {
 	return ValueExpr{
 		data[1],
@@ -77,6 +106,12 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		out.Params = append(out.Params, param)
 	}
 
+	if numParams, ok := jsonFuncNumParams[out.FuncName]; !ok {
+		return nil, errors.New("unknown function: " + out.FuncName)
+	} else if len(out.Params) < numParams {
+		return nil, errors.New("missing parameters for function: " + out.FuncName)
+	}
+
 	return out, nil
 }
 
-- 
2.43.0


From bb397e68928239080b608dfb6a4623e5d328c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 27/71] fix: comparisons of function results ignored that a
 field passed to the function was missing

---
 fastMatcher.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 08fd26c..ce59690 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -230,6 +230,21 @@ func (m *FastMatcher) resolveParam(in interface{}, activeLit *FastVal) FastVal {
 	}
 }
 
+// hasEmptySlot returns whether a value depends on a field which was not found.
+func (m *FastMatcher) hasEmptySlot(in DataRef) bool {
+	switch ref := in.(type) {
+	case SlotRef:
+		return m.slots[ref.Slot-1].size == 0
+	case FuncRef:
+		for _, param := range ref.Params {
+			if m.hasEmptySlot(param) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	bucketIdx := int(op.BucketIdx)
 
@@ -239,13 +254,10 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 		return nil
 	}
 
-	var slotNotFound bool
+	slotNotFound := m.hasEmptySlot(op.Lhs) || m.hasEmptySlot(op.Rhs)
 	lhsVal := NewMissingFastVal()
 	if op.Lhs != nil {
 		lhsVal = m.resolveParam(op.Lhs, litVal)
-		if _, ok := op.Lhs.(SlotRef); ok && lhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		lhsVal = *litVal
 	}
@@ -253,9 +265,6 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 	rhsVal := NewMissingFastVal()
 	if op.Rhs != nil {
 		rhsVal = m.resolveParam(op.Rhs, litVal)
-		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {
-			slotNotFound = true
-		}
 	} else if litVal != nil {
 		rhsVal = *litVal
 	}
-- 
2.43.0


From a976bee55b02d03b0bef55fad11e6d7bef61219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 28/71] fix: compiling a loop over a field of the document
 within another loop panicked

---
 transform.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transform.go b/transform.go
index 86fb65c..d260129 100644
--- a/transform.go
+++ b/transform.go
@@ -429,6 +429,16 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 		panic(err)
 	}
 
+	if _, ok := loopTarget.(SlotRef); ok && baseNode.node != nil {
+		// This loops over something outside of the current context, which is
+		// already stored by the time that a value of this context was scanned.
+		context := t.ContextStack[len(t.ContextStack)-1]
+		baseNode = nodeRef{
+			node:  nil,
+			after: t.getAfterNode(context.Node),
+		}
+	}
+
 	baseBucketIdx := t.ActiveBucketIdx
 	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeLoop
 	t.newBucket()
-- 
2.43.0


From e0e3fce3d52dc67f6de07a87b4eba7b70c272fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 29/71] fix: chains of more than one math operation lost all
 but the last operand

---
 filterExprParser.go | 75 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..6fa1765 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -512,9 +512,33 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
+	MathOp     *FEMathArithmeticOp `[ @@`
 	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	OtherField *FEField            `@@ ) ]`
+	Rest       []*FEFieldMathTerm  `{ @@ } )`
+}
+
+// One further operator and operand of a chain of more than one math operation
+type FEFieldMathTerm struct {
+	MathOp     *FEMathArithmeticOp `@@`
+	MathValue  *FEMathValue        `( @@ | `
+	OtherField *FEField            `@@ )`
+}
+
+func (f *FEFieldMathTerm) String() string {
+	if f.MathValue != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.MathValue.String())
+	} else {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.OtherField.String())
+	}
+}
+
+func (f *FEFieldMathTerm) outputOperand() (Expression, error) {
+	if f.MathValue != nil {
+		return f.MathValue.OutputExpression()
+	} else {
+		return f.OtherField.OutputExpression()
+	}
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -530,6 +554,9 @@ func (f *FEFieldWithMathType1) String() string {
 			output = append(output, f.OtherField.String())
 		}
 	}
+	for _, term := range f.Rest {
+		output = append(output, term.String())
+	}
 	return strings.Join(output, " ")
 }
 
@@ -538,7 +565,9 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 		return nil, fmt.Errorf("Invalid FEFieldWithMathType1 %v", f.String())
 	}
 
-	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
+	if len(f.Rest) > 0 {
+		return f.outputChain()
+	} else if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
 		var mathOutExpr FuncExpr
 		mathOpExpr, err := f.MathOp.OutputExpression()
 		if err != nil {
@@ -572,6 +601,46 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 	}
 }
 
+// Outputs a chain of more than one operation: multiplications, divisions and modulos
+// bind tighter than additions and subtractions, and operators of a kind group from the left
+func (f *FEFieldWithMathType1) outputChain() (Expression, error) {
+	fieldExpr, err := f.Field.OutputExpression()
+	if err != nil {
+		return nil, err
+	}
+
+	summands := []Expression{fieldExpr}
+	var sumOps []FuncExpr
+	terms := append([]*FEFieldMathTerm{{f.MathOp, f.MathValue, f.OtherField}}, f.Rest...)
+	for _, term := range terms {
+		opExpr, err := term.MathOp.OutputExpression()
+		if err != nil {
+			return nil, err
+		}
+		operand, err := term.outputOperand()
+		if err != nil {
+			return nil, err
+		}
+
+		op := opExpr.(FuncExpr)
+		if op.FuncName == MathFuncAdd || op.FuncName == MathFuncSub {
+			sumOps = append(sumOps, op)
+			summands = append(summands, operand)
+		} else {
+			last := len(summands) - 1
+			op.Params = []Expression{summands[last], operand}
+			summands[last] = op
+		}
+	}
+
+	outExpr := summands[0]
+	for i, op := range sumOps {
+		op.Params = []Expression{outExpr, summands[i+1]}
+		outExpr = op
+	}
+	return outExpr, nil
+}
+
 type FEField struct {
 	MathNeg *bool        `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
-- 
2.43.0


From c572cb2ad4cc70ab10f9535f4042c054c12b4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 30/71] fix: filter expressions with an invalid regular
 expression panicked when compiled

---
 filterExprParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index 6fa1765..e0e892b 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1256,6 +1257,9 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
+		if _, err := regexp.Compile(f.Argument.String()); err != nil {
+			return nil, err
+		}
 		return RegexExpr{f.Argument.String()}, nil
 	}
 }
-- 
2.43.0


From a7a5eb02f428da6dd6f57472dbdd1dfe4d2a494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 31/71] fix: simple expressions mixing spellings of && and ||
 were grouped differently

---
 simpleParser.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..231f160 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1147,20 +1147,13 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 
 // Enable short circuit if expression is linked by only && or only ||
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
-	var operator string
-	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
-			} else {
-				if ctx.tokens[i] != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
-		}
+	var hasAnd, hasOr bool
+	for _, token := range ctx.tokens {
+		// The operators may not be separated from their operands yet
+		hasAnd = hasAnd || token == TokenOperatorAnd2 || strings.Contains(token, TokenOperatorAnd)
+		hasOr = hasOr || token == TokenOperatorOr2 || strings.Contains(token, TokenOperatorOr)
 	}
+	ctx.shortCircuitEnabled = hasAnd != hasOr
 }
 
 // Main high level portion of the parser
-- 
2.43.0


From 97be315838782b6d882c7fac38f5d2668c41cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 32/71] fix: functions as the second argument of a function
 were replaced by the first argument

---
 simpleParser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 231f160..e106b33 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1698,7 +1698,10 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			err := helper.resolveRecursiveFuncs(subMatches[i], key)
+			if err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
-- 
2.43.0


From 355efd66adb3657738b9230e61544c3c56de39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 33/71] fix: sub-fields of array elements in simple expressions
 repeated the array index

---
 simpleParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index e106b33..b2c69a5 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -936,6 +936,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 
 					// Advance mode to the next, and skip appending if this is the last or is followed by another nest
+					// or by a sub-field, as there is nothing in between
 					mode = cfmNone
 					if !skipAppend {
 						*subTokens = append(*subTokens, token[beginPos:pos+1])
@@ -943,7 +944,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From 6b2456110a65dd712048a6b4e98694c384536bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 34/71] fix: arguments of functions were split at the comma of
 a nested function

---
 simpleParser.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index b2c69a5..3368910 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1693,6 +1693,16 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if _, ok := func2VarsTranslateTable[lastFunc]; ok && len(subMatches) == 3 {
+		// The regex splits at the last comma, which can be the one of a nested function
+		args := token[len(lastFunc)+1 : len(token)-1]
+		comma := findArgSeparator(args)
+		if comma < 0 {
+			return ErrorInvalidFuncArgs
+		}
+		subMatches[1] = args[:comma]
+		subMatches[2] = strings.TrimLeft(args[comma+1:], " ")
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
@@ -1727,6 +1737,35 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// Finds the comma separating the arguments of a function, which is the first one
+// that is not within another function, a string or an escaped field
+func findArgSeparator(args string) int {
+	var depth int
+	var delim byte
+	for i := 0; i < len(args); i++ {
+		c := args[i]
+		if delim != 0 {
+			if c == delim {
+				delim = 0
+			}
+			continue
+		}
+		switch c {
+		case '"', '\'', '`':
+			delim = c
+		case '(':
+			depth++
+		case ')':
+			depth--
+		case ',':
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
+
 func (helper *funcOutputHelper) makeNewFuncLevel() int {
 	helper.lvlMarker = len(helper.args)
 	helper.args = append(helper.args, make([]interface{}, 0))
-- 
2.43.0


From 52d43ea19e67b826e0dfd50c01c10002daca400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 35/71] fix: simple expressions rejected the array index 0

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 3368910..52addd0 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -923,7 +923,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && !strings.HasPrefix(token[pos+1:], fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
-- 
2.43.0


From 1098ff79797e89b0aea66c0a860e235bb31471ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 36/71] fix: strings with parentheses in simple expressions
 were cut or made the parser hang

---
 simpleParser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 52addd0..dea0d63 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -762,10 +762,10 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
 		return ctx.getFuncFieldTokenHelper(token, key)
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
-		return ctx.getCurrentTokenParenHelper(token)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
+	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+		return ctx.getCurrentTokenParenHelper(token)
 	} else if found := ctx.checkPotentialSeparation(token); found {
 		return ctx.getAndSeparateToken()
 	} else {
@@ -774,9 +774,11 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 }
 
 func tokenIsUnfinishedValueType(token string) (string, bool) {
-	if strings.HasPrefix(token, `"`) && !strings.HasSuffix(token, `"`) {
+	// Parentheses after the end of the value are not part of it
+	value := strings.TrimRight(token, ")")
+	if strings.HasPrefix(token, `"`) && (len(value) == 1 || !strings.HasSuffix(value, `"`)) {
 		return `"`, true
-	} else if strings.HasPrefix(token, "'") && !strings.HasSuffix(token, "'") {
+	} else if strings.HasPrefix(token, "'") && (len(value) == 1 || !strings.HasSuffix(value, "'")) {
 		return `'`, true
 	}
 	return "", false
@@ -788,7 +790,8 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		// Parentheses after the end of the value are not part of it
+		if strings.HasSuffix(token, ")") && strings.HasSuffix(strings.TrimRight(token, ")"), delim) {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
-- 
2.43.0


From 759ec73e9a955c3fa2d443aacf7e3765488903db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 37/71] fix: simple expressions with an operator after a
 parenthesized operand were rejected

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index dea0d63..1440551 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1207,6 +1207,11 @@ func (ctx *expressionParserContext) parse() error {
 			if err != nil {
 				break
 			}
+
+			if ctx.advTokenPositionOnly && ctx.subCtx.currentMode == fieldMode {
+				// An end parenthesis does not advance the context, but the merged expression completes the field
+				ctx.subCtx.currentMode = opMode
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From b9bad4d68b1877618d5ee97af79f651020337bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 38/71] fix: simple expressions grouped differently after
 EXISTS, IS NULL and IS MISSING

---
 simpleParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 1440551..ff96d2b 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -534,6 +534,11 @@ func (ctx *expressionParserContext) advanceToken() error {
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
 			// These ops do not have fields
+			if ctx.subCtx.oneLayerMode {
+				// Return as soon as this op is done so we can merge
+				ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+				return NonErrorOneLayerDone
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
-- 
2.43.0


From 2656f9c74d7c6f5e5cb8cc639083d216822237e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 39/71] fix: simple expressions with true or false as an
 operand of && or || panicked or ignored it

---
 simpleParser.go | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index ff96d2b..7cee05f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -515,6 +515,10 @@ func valueCheck(token string) interface{} {
 	return nil
 }
 
+func (ctx *expressionParserContext) nextTokenIsEquivalentType() bool {
+	return ctx.currentTokenIndex < len(ctx.tokens) && tokenIsEquivalentType(ctx.tokens[ctx.currentTokenIndex])
+}
+
 func (ctx *expressionParserContext) advanceToken() error {
 	ctx.currentTokenIndex++
 
@@ -528,6 +532,11 @@ func (ctx *expressionParserContext) advanceToken() error {
 	// context mode transition
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
+		if ctx.subCtx.oneLayerMode && ctx.subCtx.fieldIsTrueOrFalse && !ctx.nextTokenIsEquivalentType() {
+			// True and false are complete by themselves
+			ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+			return NonErrorOneLayerDone
+		}
 		// After the field mode, the next token *must* be an op
 		ctx.subCtx.currentMode = opMode
 	case opMode:
@@ -1029,7 +1038,9 @@ func (ctx *expressionParserContext) checkTokenTypeWithinContext(tokenType ParseT
 		}
 		fallthrough
 	case valueMode:
-		if tokenType.isFieldType() && ctx.subCtx.opTokenContext.isChainOp() {
+		if (tokenType.isFieldType() || tokenType.isBoolType()) && ctx.subCtx.opTokenContext.isChainOp() {
+			// The flag belongs to the new context
+			ctx.subCtx.fieldIsTrueOrFalse = false
 			return ctx.getErrorNeedToStartOneNewCtx()
 		} else if tokenType.isBoolType() {
 			if ctx.subCtx.opTokenContext.isCompareOp() || ctx.subCtx.opTokenContext.isLikeOp() {
@@ -1116,27 +1127,28 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 		return nil
 	}
 
-	// If user enters a true/false and enclosed it in paren, don't merge
-	if !ctx.subCtx.oneLayerMode && olderSubCtx.fieldIsTrueOrFalse {
-		return nil
+	// The newer context is either an expression, or just true/false
+	newSubCtxRoot := ctx.subCtx.lastOpIndex
+	if newSubCtxRoot == -1 && ctx.subCtx.fieldIsTrueOrFalse {
+		newSubCtxRoot = ctx.subCtx.lastSubFieldNode
 	}
 
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if newSubCtxRoot < 0 || newSubCtxRoot >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
 	// Note that the subContext within *ctx is considered newer spawned
 	lastOpNodeOfOlderSubCtx := &ctx.parserTree.data[olderSubCtx.lastOpIndex]
-	lastOpNodeOfNewContext := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
+	lastOpNodeOfNewContext := &ctx.parserTree.data[newSubCtxRoot]
 
 	if lastOpNodeOfOlderSubCtx.Right != -1 {
 		return fmt.Errorf("Merging sub-context should expect value to be unassigned, but currently assigned to: %v", lastOpNodeOfOlderSubCtx.Right)
 	}
-	lastOpNodeOfOlderSubCtx.Right = ctx.subCtx.lastOpIndex
+	lastOpNodeOfOlderSubCtx.Right = newSubCtxRoot
 
 	if lastOpNodeOfNewContext.ParentIdx != -1 {
 		return fmt.Errorf("Merging sub-context should expect parent to be unassigned, but currently assigned to: %v", lastOpNodeOfNewContext.ParentIdx)
@@ -1633,6 +1645,18 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// True and false as the operand of a logical operator are expressions on their own
+func valueToLogicalExpr(expr Expression) Expression {
+	if value, ok := expr.(ValueExpr); ok {
+		if boolVal, ok := value.Value.(bool); ok && boolVal {
+			return TrueExpr{}
+		} else if ok {
+			return FalseExpr{}
+		}
+	}
+	return expr
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
@@ -1648,8 +1672,8 @@ func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Exp
 		return out, err
 	}
 
-	out = append(out, leftSubExpr)
-	out = append(out, rightSubExpr)
+	out = append(out, valueToLogicalExpr(leftSubExpr))
+	out = append(out, valueToLogicalExpr(rightSubExpr))
 
 	return out, nil
 }
@@ -1668,8 +1692,8 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 		return out, err
 	}
 
-	out = append(out, leftSubExpr)
-	out = append(out, rightSubExpr)
+	out = append(out, valueToLogicalExpr(leftSubExpr))
+	out = append(out, valueToLogicalExpr(rightSubExpr))
 
 	return out, nil
 }
-- 
2.43.0


From 0bd0dbc80f3565008ec0a456b5d77aee55c288e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 40/71] fix: simple expressions ending in && or || were
 accepted

---
 simpleParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 7cee05f..29f1756 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1704,6 +1704,12 @@ func (ctx *expressionParserContext) outputExpression() (Expression, error) {
 		return emptyExpression, fmt.Errorf("Error: string expression has not been parsed into internal data structures")
 	}
 
+	for i, node := range ctx.parserDataNodes {
+		if node.tokenType == TokenTypeOperator && tokenIsChainOpType(node.data.(string)) && ctx.parserTree.data[i].Right == -1 {
+			return emptyExpression, fmt.Errorf("Error: Missing operand after %v", node.data)
+		}
+	}
+
 	node := ctx.getThisOutputNode(ctx.treeHeadIndex)
 	if node == emptyParserTreeNode {
 		return emptyExpression, fmt.Errorf("Error: Incorrectly parsed context")
-- 
2.43.0


From 219dfc2f42182a48eeed4a204ebfa2902c8ae767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 41/71] fix: IS NULL and IS MISSING right before a closing
 parenthesis were rejected

---
 simpleParser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 29f1756..d4dd576 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -587,12 +587,16 @@ func (ctx *expressionParserContext) handleParenPrefix(paren string) error {
 }
 
 func (ctx *expressionParserContext) handleParenSuffix(paren string) error {
+	return ctx.handleParenSuffixAt(ctx.currentTokenIndex, paren)
+}
+
+func (ctx *expressionParserContext) handleParenSuffixAt(index int, paren string) error {
 	// Strip the paren from the end of this token and insert into its own element
-	for strings.HasSuffix(ctx.tokens[ctx.currentTokenIndex], paren) {
+	for strings.HasSuffix(ctx.tokens[index], paren) {
 		ctx.tokens = append(ctx.tokens, "")
-		copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
-		ctx.tokens[ctx.currentTokenIndex] = strings.TrimSuffix(ctx.tokens[ctx.currentTokenIndex], paren)
-		ctx.tokens[ctx.currentTokenIndex+1] = paren
+		copy(ctx.tokens[index+1:], ctx.tokens[index:])
+		ctx.tokens[index] = strings.TrimSuffix(ctx.tokens[index], paren)
+		ctx.tokens[index+1] = paren
 	}
 	return nil
 }
@@ -662,6 +666,9 @@ func (ctx *expressionParserContext) handleMultiTokens() (string, ParseTokenType,
 
 outerLoop:
 	for i := 0; ctx.currentTokenIndex+i < len(ctx.tokens); i++ {
+		if ctx.tokens[ctx.currentTokenIndex+i] != ")" {
+			ctx.handleParenSuffixAt(ctx.currentTokenIndex+i, ")")
+		}
 		token := ctx.tokens[ctx.currentTokenIndex+i]
 		retry := true
 		for retry {
-- 
2.43.0


From e59c5e80a0d80d88a7b9a29bd1bd7028f6b9e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 42/71] fix: invalid regular expressions with spaces in simple
 expressions panicked when compiled

---
 simpleParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index d4dd576..866a7de 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -737,6 +737,10 @@ func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, P
 	token = strings.TrimPrefix(token, delim)
 	token = strings.TrimSuffix(token, delim)
 
+	return ctx.checkValueToken(token)
+}
+
+func (ctx *expressionParserContext) checkValueToken(token string) (string, ParseTokenType, error) {
 	if ctx.getTokenValueSubtype() != TokenTypeValue {
 		_, err := regexp.Compile(token)
 		if err != nil {
@@ -832,7 +836,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 		return "", TokenTypeInvalid, ErrorMissingQuote
 	}
 
-	return outputToken, ctx.getTokenValueSubtype(), nil
+	return ctx.checkValueToken(outputToken)
 }
 
 func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
-- 
2.43.0


From 1f9e03bf78b4b03f9fbf9a5ccc448730f17d543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 43/71] fix: ROUND of numbers outside of the int64 range
 returned arbitrary values

---
 fastval_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 3338bb9..e7923fa 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -8,9 +8,9 @@ import (
 // 1.10 which did not have the function... Wat?
 func floatMathRound(val float64) float64 {
 	if val < 0 {
-		return float64(int(val - 0.5))
+		return math.Trunc(val - 0.5)
 	}
-	return float64(int(val + 0.5))
+	return math.Trunc(val + 0.5)
 }
 
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
-- 
2.43.0


From 901e4d7baffe2fa261a73b564c8f7601b86319ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 44/71] fix: ABS of large integers lost precision or overflowed

---
 fastval_math.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index e7923fa..fec5934 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -41,16 +41,23 @@ func FastValMathAbs(val FastVal) FastVal {
 	if val.IsUInt() {
 		// Not gonna do abs on an uint
 		return val
-	} else {
-		floatVal, valid := val.AsFloat()
+	} else if val.IsInt() {
+		intVal, valid := val.AsInt()
 		if !valid {
 			return NewInvalidFastVal()
 		}
-		if val.IsFloat() {
-			return NewFloatFastVal(math.Abs(floatVal))
-		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
+		if intVal == math.MinInt64 {
+			return NewUintFastVal(1 << 63)
+		} else if intVal < 0 {
+			return NewIntFastVal(fastValNegateInt(intVal))
+		}
+		return NewIntFastVal(intVal)
+	} else if val.IsFloat() {
+		floatVal, valid := val.AsFloat()
+		if !valid {
+			return NewInvalidFastVal()
 		}
+		return NewFloatFastVal(math.Abs(floatVal))
 	}
 
 	return NewInvalidFastVal()
-- 
2.43.0


From e0a83f3f2c3b4c23020ed1f6f7d05f5bb00c5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 45/71] fix: regular expressions were matched against the
 escaped form of strings

---
 fastval.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fastval.go b/fastval.go
index 6be8858..4a1e21e 100644
--- a/fastval.go
+++ b/fastval.go
@@ -898,9 +898,8 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	var buffer [32]byte
-	escVal, err := val.toJsonStringInternal(buffer[:])
-	if err != nil {
+	strVal, ok := val.AsString()
+	if !ok {
 		return false, false
 	}
 
@@ -908,7 +907,7 @@ func (val FastVal) matchStrings(other FastVal) (bool, bool) {
 	if !valid {
 		return false, valid
 	} else {
-		return regex.Match(escVal.sliceData), true
+		return regex.Match([]byte(strVal)), true
 	}
 }
 
-- 
2.43.0


From 8a57544ddd279a8555ddc759f511843765d60d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 46/71] fix: loops over missing fields or other values than
 arrays could be true

---
 bintree.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bintree.go b/bintree.go
index b95c32b..d12bd7e 100644
--- a/bintree.go
+++ b/bintree.go
@@ -259,18 +259,7 @@ func (state *binTreeState) Resolve() {
 	}
 
 	// Do depth-first resolution of the entire tree state
-	treeLength := len(state.data)
-	for i := treeLength - 1; i >= 0; i-- {
-		// If this bucket is not resolved, resolve it with false
-		if state.data[i] == binTreeStateUnknown {
-			state.MarkNode(i, false)
-		}
-
-		// Leave as soon as the root has been resolved
-		if state.data[0] != binTreeStateUnknown {
-			break
-		}
-	}
+	state.ResolveNode(0)
 }
 
 // ResolveNode forces a single node of the tree to be fully resolved, the same
@@ -281,6 +270,11 @@ func (state *binTreeState) ResolveNode(index int) {
 	}
 
 	defNode := state.tree.data[index]
+	if defNode.NodeType == nodeTypeLoop {
+		// The array to loop over was missing, its elements decide nothing
+		state.MarkNode(defNode.Left, false)
+		return
+	}
 	if binTreeNodeTypeHasRight(defNode.NodeType) {
 		state.ResolveNode(defNode.Right)
 	}
-- 
2.43.0


From e2987b8c7f4f802e39989e81a27b0f91cadde64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 47/71] fix: references to the array which is looped over
 within the loop were evaluated as missing

---
 expression_utils.go | 14 ++++++++++++++
 transform.go        |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index ccb7956..fdeca52 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -110,6 +110,20 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 	return fields
 }
 
+// exprRefersToField returns whether the body of a loop over varID refers to a field
+func exprRefersToField(body Expression, varID VariableID, field Expression) bool {
+	fieldExpr, ok := field.(FieldExpr)
+	if !ok {
+		return false
+	}
+	for _, ref := range fetchExprFieldRefsRecurse(body, []VariableID{varID}, nil) {
+		if fieldExprMatches(ref, fieldExpr) {
+			return true
+		}
+	}
+	return false
+}
+
 func fetchExprFieldRefs(expr Expression) []FieldExpr {
 	return fetchExprFieldRefsRecurse(expr, nil, nil)
 }
diff --git a/transform.go b/transform.go
index d260129..1ad134c 100644
--- a/transform.go
+++ b/transform.go
@@ -429,6 +429,15 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 		panic(err)
 	}
 
+	if loopTarget == nil && exprRefersToField(subExpr, varID, inExpr) {
+		// The body needs the whole array, which is stored once it was scanned
+		loopTarget = SlotRef{t.storeExecNode(baseNode.node)}
+		baseNode = nodeRef{
+			node:  nil,
+			after: t.getAfterNode(baseNode.node),
+		}
+	}
+
 	if _, ok := loopTarget.(SlotRef); ok && baseNode.node != nil {
 		// This loops over something outside of the current context, which is
 		// already stored by the time that a value of this context was scanned.
-- 
2.43.0


From 19b16146c60d6bd6deb439fb4d6778caeb0ae41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 48/71] fix: loops over an array of an outer context depended
 on a field of the current one

---
 transform.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 1ad134c..677d82f 100644
--- a/transform.go
+++ b/transform.go
@@ -164,6 +164,14 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 	panic("reference to out-of-context variable was encountered")
 }
 
+// isOuterRef returns whether a field is not one of the current context
+func (t *Transformer) isOuterRef(fieldExpr FieldExpr) bool {
+	if len(t.ContextStack) == 0 {
+		return false
+	}
+	return t.getContext(fieldExpr.Root) != t.ContextStack[len(t.ContextStack)-1]
+}
+
 func (t *Transformer) resolveRef(fieldExpr FieldExpr) resolvedFieldRef {
 	return resolvedFieldRef{
 		Context: t.getContext(fieldExpr.Root),
@@ -438,7 +446,7 @@ func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID Va
 		}
 	}
 
-	if _, ok := loopTarget.(SlotRef); ok && baseNode.node != nil {
+	if fieldExpr, ok := inExpr.(FieldExpr); ok && t.isOuterRef(fieldExpr) {
 		// This loops over something outside of the current context, which is
 		// already stored by the time that a value of this context was scanned.
 		context := t.ContextStack[len(t.ContextStack)-1]
-- 
2.43.0


From 54dfa9f8220134188b35e6a75ec7e28bcbfb1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 49/71] fix: printing the definition of constant expressions
 dereferenced nil

---
 fastMatcherDef.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fastMatcherDef.go b/fastMatcherDef.go
index 24178f4..baee607 100644
--- a/fastMatcherDef.go
+++ b/fastMatcherDef.go
@@ -172,10 +172,14 @@ func (def MatchDef) String() string {
 	var out string
 	out += "match tree:\n"
 	out += "  $doc:\n"
-	out += reindentString(def.ParseNode.String(), "    ")
+	if def.ParseNode != nil {
+		out += reindentString(def.ParseNode.String(), "    ")
+	}
 	out += "\n"
 	out += "bin tree:\n"
-	out += reindentString(def.MatchTree.String(), "  ")
+	if len(def.MatchTree.data) > 0 {
+		out += reindentString(def.MatchTree.String(), "  ")
+	}
 	out += "\n"
 	out += "match buckets:\n"
 	for i, bucketID := range def.MatchBuckets {
-- 
2.43.0


From e632b584873184ec1546f44aa03b66f906d6d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 50/71] fix: removing keys missed an opening bracket following
 a string

---
 jsonComposer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 4837f47..4f65061 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,9 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
+				if tknType2 == tknObjectStart || tknType2 == tknArrayStart {
+					depth++
+				} else if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From 436abe1ba6cd808ba754ba2d75c3c596259d9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 51/71] fix: several signs in filter expressions were taken for
 one

---
 filterExprParser.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index e0e892b..0566f49 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -642,8 +642,13 @@ func (f *FEFieldWithMathType1) outputChain() (Expression, error) {
 	return outExpr, nil
 }
 
+// An even number of signs leaves a value as it is
+func isNegated(signs []bool) bool {
+	return len(signs)%2 == 1
+}
+
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
+	MathNeg []bool       `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
 }
 
@@ -653,7 +658,7 @@ func (fef *FEField) String() string {
 		output = append(output, onePath.String())
 	}
 	fieldOutput := strings.Join(output, ".")
-	if fef.MathNeg != nil {
+	if isNegated(fef.MathNeg) {
 		fieldOutput = fmt.Sprintf("%v%v", "-", fieldOutput)
 	}
 	return fieldOutput
@@ -673,7 +678,7 @@ func (f *FEField) OutputExpression() (Expression, error) {
 		}
 	}
 
-	if f.MathNeg != nil {
+	if isNegated(f.MathNeg) {
 		var mathOutExpr FuncExpr
 		// Only thing is a negation of the field value
 		mathOutExpr.FuncName = MathFuncNeg
@@ -832,7 +837,7 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 }
 
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
+	MathNeg    []bool   `{ @"-" }`
 	IntValue   *int     `( @Int |`
 	FloatValue *float64 `@Float )`
 }
@@ -840,13 +845,13 @@ type FEMathValue struct {
 func (f *FEMathValue) String() string {
 	if f.IntValue != nil {
 		outputVal := *f.IntValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return fmt.Sprintf("%v", outputVal)
 	} else if f.FloatValue != nil {
 		outputVal := *f.FloatValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return fmt.Sprintf("%v", outputVal)
@@ -858,13 +863,13 @@ func (f *FEMathValue) String() string {
 func (f *FEMathValue) OutputExpression() (Expression, error) {
 	if f.IntValue != nil {
 		outputVal := *f.IntValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return ValueExpr{outputVal}, nil
 	} else if f.FloatValue != nil {
 		outputVal := *f.FloatValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return ValueExpr{outputVal}, nil
@@ -1105,7 +1110,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          []bool              `{ @"-" }`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
@@ -1113,7 +1118,7 @@ type FEConstFuncExpression struct {
 
 func (f *FEConstFuncExpression) String() string {
 	var output []string
-	if f.MathNeg != nil && *f.MathNeg {
+	if isNegated(f.MathNeg) {
 		output = append(output, "-")
 	}
 	if f.ConstFuncNoArg != nil {
@@ -1144,7 +1149,7 @@ func (f *FEConstFuncExpression) OutputExpression() (Expression, error) {
 		return nil, err
 	}
 
-	if f.MathNeg != nil && *f.MathNeg {
+	if isNegated(f.MathNeg) {
 		var negateExpr FuncExpr
 		negateExpr.FuncName = MathFuncNeg
 		negateExpr.Params = append(negateExpr.Params, constFuncExpr)
-- 
2.43.0


From 6d10eea344ef81d11d0ffb80055e35b478151118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 52/71] fix: filter expressions with negative constants before
 operators and in functions were rejected

---
 filterExprParser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0566f49..3024546 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1588,13 +1588,16 @@ func parserWrapper(parser *participle.Parser, expression string, fe *FilterExpre
 	*err = parser.ParseString(expression, fe)
 }
 
+const filterLookahead = 64
+
 func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterExpression, error) {
 	fe := &FilterExpression{}
 	if len(expression) == 0 {
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe)
+	// Signed constants, fields and functions are only told apart after their signs
+	parser, err := participle.Build(fe, participle.UseLookahead(filterLookahead))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From 40f11dc2c581cf90d901d4d2fd5c77fe1ab2fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 53/71] fix: reject DATE constants which no calendar has, such
 as 2019-02-29

---
 fastval_date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a058fd9..6f80937 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -17,8 +17,8 @@ var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\d\d[- /.](
 var cbSampleDateFormat *regexp.Regexp = regexp.MustCompile(`^((19|20)\d\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])) +(([0-1][0-9]|[2][0-3]):[0-5][0-9]:[0-5][0-9])$`)
 
 func validTimeChecker(s string) bool {
-	_, err := time.Parse(time.RFC3339, s)
-	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
+	_, err := GetNewTimeFastVal(s)
+	return err == nil
 }
 
 func isoToRfc(str string) string {
-- 
2.43.0


From 63e1712dfe2d4376a673656eefe6d6cf4b12c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 54/71] fix: names containing operators were split in simple
 expressions

---
 simpleParser.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 866a7de..4da9bdc 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -57,6 +57,9 @@ var fieldTokenInt *regexp.Regexp = regexp.MustCompile(`[0-9]`)
 // But they cannot have leading zeros
 var fieldIndexNoLeadingZero *regexp.Regexp = regexp.MustCompile(`[^0][0-9]+`)
 
+// Characters of which words consist, including the bytes of the ones outside of ASCII
+var wordCharRegex *regexp.Regexp = regexp.MustCompile(`^([A-Za-z0-9_.]|[^\x00-\x7F])$`)
+
 // Functions patterns
 var funcTranslateTable map[string]string = map[string]string{
 	FuncAbs:   MathFuncAbs,
@@ -221,16 +224,36 @@ func NewOpSeeker(token string) *opSeeker {
 }
 
 func (os *opSeeker) Seek() bool {
+	var inLiteral bool
 	for i := 0; i < len(os.completeToken); i++ {
+		if os.completeToken[i:i+1] == fieldLiteral {
+			inLiteral = !inLiteral
+		}
+		if inLiteral {
+			// Escaped names can contain operators
+			continue
+		}
 		os.idx = i
 		os.seekInternal(i)
 		if os.opFound {
-			return true
+			if !os.isPartOfWord() {
+				return true
+			}
+			os.opFound = false
+			os.opMatched = ""
 		}
 	}
 	return false
 }
 
+// Operators which are words are not operators if they are a part of a longer word
+func (os *opSeeker) isPartOfWord() bool {
+	isWordChar := func(pos int) bool {
+		return pos >= 0 && pos < len(os.completeToken) && wordCharRegex.MatchString(os.completeToken[pos:pos+1])
+	}
+	return isWordChar(os.idx) && (isWordChar(os.idx-1) || isWordChar(os.idx+len(os.opMatched)))
+}
+
 func (os *opSeeker) GetToken() string {
 	return os.opMatched
 }
@@ -1266,7 +1289,12 @@ func (ctx *expressionParserContext) getAndSeparateToken() (string, ParseTokenTyp
 	delim := lastSeeker.GetToken()
 	token := ctx.tokens[ctx.currentTokenIndex]
 
-	tokenSplitSlice := StringSplitFirstInst(token, delim)
+	var tokenSplitSlice []string
+	for _, part := range []string{token[:lastSeeker.idx], delim, token[lastSeeker.idx+len(delim):]} {
+		if part != "" {
+			tokenSplitSlice = append(tokenSplitSlice, part)
+		}
+	}
 	lenSlice := len(tokenSplitSlice)
 	if lenSlice > 1 {
 		numToInsert := lenSlice - 1
-- 
2.43.0


From 37726a813b9c643faa59bf78a69f948e9cb87327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 55/71] fix: escaped names with parentheses were rejected in
 simple expressions

---
 simpleParser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 4da9bdc..9485e3c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -812,7 +812,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getFuncFieldTokenHelper(token, key)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+	} else if strings.ContainsAny(removeLiterals(token), "()") {
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if found := ctx.checkPotentialSeparation(token); found {
 		return ctx.getAndSeparateToken()
@@ -821,6 +821,17 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	}
 }
 
+// Removes the escaped names from a token, the last of which can end in a later token
+func removeLiterals(token string) string {
+	var out []string
+	for i, part := range strings.Split(token, fieldLiteral) {
+		if i%2 == 0 {
+			out = append(out, part)
+		}
+	}
+	return strings.Join(out, "")
+}
+
 func tokenIsUnfinishedValueType(token string) (string, bool) {
 	// Parentheses after the end of the value are not part of it
 	value := strings.TrimRight(token, ")")
-- 
2.43.0


From 5ae90454e07a7cc65a09d7c2e413c07cdb99701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 56/71] fix: parentheses after functions were taken for a part
 of them in simple expressions

---
 simpleParser.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 9485e3c..139dae1 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -615,7 +615,7 @@ func (ctx *expressionParserContext) handleParenSuffix(paren string) error {
 
 func (ctx *expressionParserContext) handleParenSuffixAt(index int, paren string) error {
 	// Strip the paren from the end of this token and insert into its own element
-	for strings.HasSuffix(ctx.tokens[index], paren) {
+	for len(ctx.tokens[index]) > len(paren) && strings.HasSuffix(ctx.tokens[index], paren) {
 		ctx.tokens = append(ctx.tokens, "")
 		copy(ctx.tokens[index+1:], ctx.tokens[index:])
 		ctx.tokens[index] = strings.TrimSuffix(ctx.tokens[index], paren)
@@ -809,7 +809,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	} else if token == "true" || token == "false" {
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
-		return ctx.getFuncFieldTokenHelper(token, key)
+		return ctx.getFuncFieldTokenHelper(ctx.separateParenAfterFunc(token), key)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
 	} else if strings.ContainsAny(removeLiterals(token), "()") {
@@ -884,6 +884,20 @@ func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
 	return helper
 }
 
+// Parentheses after the one which ends the arguments are not part of the function
+func (ctx *expressionParserContext) separateParenAfterFunc(token string) string {
+	begin := strings.Index(token, "(") + 1
+	end := findArgsEnd(token[begin:])
+	if end < 0 || strings.Trim(token[begin+end:], ")") != "" || begin+end == len(token)-1 {
+		return token
+	}
+	ctx.tokens = append(ctx.tokens, "")
+	copy(ctx.tokens[ctx.currentTokenIndex+1:], ctx.tokens[ctx.currentTokenIndex:])
+	ctx.tokens[ctx.currentTokenIndex] = token[:begin+end+1]
+	ctx.tokens[ctx.currentTokenIndex+1] = token[begin+end+1:]
+	return ctx.tokens[ctx.currentTokenIndex]
+}
+
 func (ctx *expressionParserContext) getFuncFieldTokenHelper(token, funcKey string) (string, ParseTokenType, error) {
 	if ctx.subCtx.currentMode == fieldMode || ctx.subCtx.currentMode == valueMode {
 		helper := ctx.NewFuncHelper()
@@ -1833,6 +1847,15 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 // Finds the comma separating the arguments of a function, which is the first one
 // that is not within another function, a string or an escaped field
 func findArgSeparator(args string) int {
+	return findInArgs(args, ',')
+}
+
+// Finds the parenthesis that ends the arguments of a function
+func findArgsEnd(args string) int {
+	return findInArgs(args, ')')
+}
+
+func findInArgs(args string, sought byte) int {
 	var depth int
 	var delim byte
 	for i := 0; i < len(args); i++ {
@@ -1843,6 +1866,9 @@ func findArgSeparator(args string) int {
 			}
 			continue
 		}
+		if c == sought && depth == 0 {
+			return i
+		}
 		switch c {
 		case '"', '\'', '`':
 			delim = c
@@ -1850,10 +1876,6 @@ func findArgSeparator(args string) int {
 			depth++
 		case ')':
 			depth--
-		case ',':
-			if depth == 0 {
-				return i
-			}
 		}
 	}
 	return -1
-- 
2.43.0


From dcfec47b8fc2bf56886462ade4ce4b31694d8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 57/71] fix: escaped names with blanks were rejected after AND
 and OR in simple expressions

---
 simpleParser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 139dae1..9bf5e0c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1247,6 +1247,7 @@ func (ctx *expressionParserContext) parse() error {
 			break
 		}
 
+		tokenIndex := ctx.currentTokenIndex
 		token, tokenType, err = ctx.getCurrentToken()
 		if err != nil {
 			break
@@ -1261,6 +1262,11 @@ func (ctx *expressionParserContext) parse() error {
 				break
 			}
 		} else if needToSpawnNewContext(err) {
+			if tokenType != TokenTypeParen {
+				// The new context starts with this token, which may have consisted of several
+				ctx.currentTokenIndex = tokenIndex
+			}
+
 			// Save current subContext
 			currentSubCtx := NewParserSubContext()
 			*currentSubCtx = *ctx.subCtx
-- 
2.43.0


From 469c4e2655eeb4ed5a4c1f20fdae6bdf1013683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 58/71] fix: operators and parentheses after functions were
 taken for a part of them in simple expressions

---
 simpleParser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 9bf5e0c..259f8fe 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -795,7 +795,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return "", TokenTypeInvalid, ErrorNoMoreTokens
 	}
 
-	token := ctx.tokens[ctx.currentTokenIndex]
+	token := ctx.separateAfterFunc(ctx.tokens[ctx.currentTokenIndex])
 	if ctx.checkIfTokenIsPotentiallyOpType(token) {
 		return ctx.handleMultiTokens()
 	} else if tokenIsOpType(token) {
@@ -809,7 +809,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	} else if token == "true" || token == "false" {
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
-		return ctx.getFuncFieldTokenHelper(ctx.separateParenAfterFunc(token), key)
+		return ctx.getFuncFieldTokenHelper(token, key)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
 	} else if strings.ContainsAny(removeLiterals(token), "()") {
@@ -884,11 +884,14 @@ func (ctx *expressionParserContext) NewFuncHelper() *funcOutputHelper {
 	return helper
 }
 
-// Parentheses after the one which ends the arguments are not part of the function
-func (ctx *expressionParserContext) separateParenAfterFunc(token string) string {
+// What comes after the parenthesis which ends the arguments is not part of the function
+func (ctx *expressionParserContext) separateAfterFunc(token string) string {
 	begin := strings.Index(token, "(") + 1
+	if begin == 0 || getOutputFuncName(token[:begin-1]) == "" {
+		return token
+	}
 	end := findArgsEnd(token[begin:])
-	if end < 0 || strings.Trim(token[begin+end:], ")") != "" || begin+end == len(token)-1 {
+	if end < 0 || begin+end == len(token)-1 {
 		return token
 	}
 	ctx.tokens = append(ctx.tokens, "")
-- 
2.43.0


From dd7642b7a2072c8cc0f446c0d601f7211a444f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 59/71] fix: operators next to functions were rejected in
 simple expressions

---
 simpleParser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 259f8fe..d9dfd0a 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -721,7 +721,10 @@ outerLoop:
 }
 
 func (ctx *expressionParserContext) getCurrentTokenParenHelper(token string) (string, ParseTokenType, error) {
-	if token != "(" && strings.HasPrefix(token, "(") {
+	if !strings.HasPrefix(token, "(") && !strings.HasPrefix(token, ")") && !ctx.tokenIsQuoted(token) && ctx.checkPotentialSeparation(token) {
+		// What is after the operator can be a function
+		return ctx.getAndSeparateToken()
+	} else if token != "(" && strings.HasPrefix(token, "(") {
 		ctx.handleParenPrefix("(")
 		return ctx.getCurrentToken()
 	} else if token != "(" && strings.HasSuffix(token, "(") {
@@ -738,8 +741,6 @@ func (ctx *expressionParserContext) getCurrentTokenParenHelper(token string) (st
 		return token, TokenTypeEndParen, ctx.handleCloseParenBookKeeping()
 	} else if token == "(" {
 		return token, TokenTypeParen, ctx.handleOpenParenBookKeeping()
-	} else if found := ctx.checkPotentialSeparation(token); found {
-		return ctx.getAndSeparateToken()
 	}
 
 	return token, TokenTypeInvalid, ErrorMalformedParenthesis
@@ -812,7 +813,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getFuncFieldTokenHelper(token, key)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
-	} else if strings.ContainsAny(removeLiterals(token), "()") {
+	} else if strings.ContainsAny(removeLiterals(token), "()") || ctx.tokenIsQuoted(token) {
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if found := ctx.checkPotentialSeparation(token); found {
 		return ctx.getAndSeparateToken()
@@ -832,6 +833,11 @@ func removeLiterals(token string) string {
 	return strings.Join(out, "")
 }
 
+// Whether the token is a value, which parentheses can follow
+func (ctx *expressionParserContext) tokenIsQuoted(token string) bool {
+	return ctx.subCtx.currentMode == valueMode && (strings.HasPrefix(token, `"`) || strings.HasPrefix(token, "'"))
+}
+
 func tokenIsUnfinishedValueType(token string) (string, bool) {
 	// Parentheses after the end of the value are not part of it
 	value := strings.TrimRight(token, ")")
-- 
2.43.0


From 9c2c4bfd350e72b1601573d0674edc82f5ef8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 60/71] fix: functions with unbalanced parentheses or unknown
 functions within were accepted in simple expressions

---
 simpleParser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index d9dfd0a..88964b3 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1811,6 +1811,10 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 		return ErrorNotFound
 	}
 
+	if findArgsEnd(token[len(lastFunc)+1:]) != len(token)-len(lastFunc)-2 {
+		return ErrorInvalidFuncArgs
+	}
+
 	// First set the function name
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
@@ -1847,6 +1851,9 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 			helper.args[fxIdx] = append(helper.args[fxIdx], subMatches[i])
 		} else {
 			// Field
+			if strings.ContainsAny(removeLiterals(subMatches[i]), "()") {
+				return ErrorInvalidFuncArgs
+			}
 			var fieldTokens []string
 			_, err := checkAndParseField(subMatches, &i, &fieldTokens)
 			if err != nil {
-- 
2.43.0


From ebf7bff89f9eb539b445f087d25cae108aa955b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 61/71] fix: blanks in values and escaped names were changed or
 split them in simple expressions

---
 simpleParser.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 88964b3..e6d2629 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"unicode"
 )
 
 /**
@@ -43,8 +44,8 @@ import (
  */
 
 // Values by def should be enclosed within double quotes or single quotes
-var valueRegex *regexp.Regexp = regexp.MustCompile(`^\".*\"$`)
-var valueRegex2 *regexp.Regexp = regexp.MustCompile(`^\'.*\'$`)
+var valueRegex *regexp.Regexp = regexp.MustCompile(`(?s)^\".*\"$`)
+var valueRegex2 *regexp.Regexp = regexp.MustCompile(`(?s)^\'.*\'$`)
 
 // Or Values can be int or floats by themselves (w/o alpha char)
 var valueNumRegex *regexp.Regexp = regexp.MustCompile(`^(-?)(0|([1-9][0-9]*))(\.[0-9]+)?$`)
@@ -334,7 +335,7 @@ const (
 func NewExpressionParserCtx(strExpression string) (*expressionParserContext, error) {
 	subCtx := NewParserSubContext()
 	ctx := &expressionParserContext{
-		tokens:            strings.Fields(strExpression),
+		tokens:            splitTokens(strExpression),
 		subCtx:            subCtx,
 		treeHeadIndex:     -1,
 		fieldTokenPaths:   make(map[int][]string),
@@ -356,6 +357,36 @@ func NewExpressionParserCtx(strExpression string) (*expressionParserContext, err
 	return ctx, nil
 }
 
+// Splits the expression at the blanks which are neither in a value nor in an escaped name
+func splitTokens(strExpression string) []string {
+	var tokens []string
+	var delim, last rune
+	begin := -1
+	for i, c := range strExpression {
+		if delim != 0 {
+			if c == delim {
+				delim = 0
+			}
+		} else if unicode.IsSpace(c) {
+			if begin >= 0 {
+				tokens = append(tokens, strExpression[begin:i])
+			}
+			begin, last = -1, 0
+			continue
+		} else if string(c) == fieldLiteral || (c == '"' || c == '\'') && (last == 0 || strings.ContainsRune("=~<>!&|(,", last)) {
+			delim = c
+		}
+		if begin < 0 {
+			begin = i
+		}
+		last = c
+	}
+	if begin >= 0 {
+		tokens = append(tokens, strExpression[begin:])
+	}
+	return tokens
+}
+
 type ParseTokenType int
 
 const (
-- 
2.43.0


From 86c96b47d165ecdf616d0f98449330d864e56439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 62/71] fix: quoted numbers were taken for numbers in simple
 expressions

---
 simpleParser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index e6d2629..f4f757a 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -168,6 +168,9 @@ type parserSubContext struct {
 	// Means that we should return as soon as the one layer of field -> op -> value is done
 	oneLayerMode bool
 
+	// Whether the last value was quoted, quoted numbers are strings
+	valueIsQuoted bool
+
 	// Last seeker found
 	lastSeeker *opSeeker
 }
@@ -394,6 +397,7 @@ const (
 	TokenTypeFunc     ParseTokenType = iota
 	TokenTypeOperator ParseTokenType = iota
 	TokenTypeValue    ParseTokenType = iota
+	TokenTypeString   ParseTokenType = iota
 	TokenTypeRegex    ParseTokenType = iota
 	TokenTypePcre     ParseTokenType = iota
 	TokenTypeParen    ParseTokenType = iota
@@ -411,6 +415,8 @@ func (ptt ParseTokenType) String() string {
 		return "TokenTypeOperator"
 	case TokenTypeValue:
 		return "TokenTypeValue"
+	case TokenTypeString:
+		return "TokenTypeString"
 	case TokenTypeRegex:
 		return "TokenTypeRegex"
 	case TokenTypePcre:
@@ -582,6 +588,7 @@ func (ctx *expressionParserContext) advanceToken() error {
 	}
 
 	ctx.subCtx.funcHelperCtx = nil
+	ctx.subCtx.valueIsQuoted = false
 
 	// context mode transition
 	switch ctx.subCtx.currentMode {
@@ -796,6 +803,7 @@ func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, P
 }
 
 func (ctx *expressionParserContext) checkValueToken(token string) (string, ParseTokenType, error) {
+	ctx.subCtx.valueIsQuoted = true
 	if ctx.getTokenValueSubtype() != TokenTypeValue {
 		_, err := regexp.Compile(token)
 		if err != nil {
@@ -1296,6 +1304,9 @@ func (ctx *expressionParserContext) parse() error {
 		// Context mode should match the token
 		err = ctx.checkTokenTypeWithinContext(tokenType, token)
 		if err == nil {
+			if tokenType == TokenTypeValue && ctx.subCtx.valueIsQuoted {
+				tokenType = TokenTypeString
+			}
 			// Push the token into the correct location into the tree
 			err = ctx.insertNode(NewParserTreeNode(tokenType, token))
 			if err != nil {
@@ -1434,6 +1445,8 @@ func (ctx *expressionParserContext) outputNode(node ParserTreeNode, pos int) (Ex
 		return ctx.outputFalse()
 	case TokenTypeValue:
 		return ctx.outputValue(node)
+	case TokenTypeString:
+		return ValueExpr{node.data}, nil
 	case TokenTypeRegex:
 		return ctx.outputRegex(node)
 	case TokenTypeFunc:
@@ -1527,6 +1540,8 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			var argField FieldExpr
 			argField.Path = fieldTokens
 			out.Params = append(out.Params, argField)
+		} else if strValue, ok := helper.args[curLevel][i].(ValueExpr); ok {
+			out.Params = append(out.Params, strValue)
 		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
 			// value
 			valueExpr, err := outputValueInternal(strArg)
@@ -1874,7 +1889,7 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
 			valueString = strings.TrimSuffix(valueString, delim)
-			helper.args[fxIdx] = append(helper.args[fxIdx], valueString)
+			helper.args[fxIdx] = append(helper.args[fxIdx], ValueExpr{valueString})
 			if lastFunc == FuncDate && !validTimeChecker(valueString) {
 				return ErrorInvalidTimeFormat
 			}
-- 
2.43.0


From 5a5f7204416e3ea79a73df5c5280518b30e2597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 63/71] fix: simple expressions with fields as operands of AND
 and OR were accepted

---
 simpleParser.go | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index f4f757a..1dba25d 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1615,6 +1615,10 @@ func (ctx *expressionParserContext) getComparisonSubExprsNodes(node ParserTreeNo
 		return nil, nil, err
 	}
 
+	if !isOperandOfComparison(leftSubExpr) || !isOperandOfComparison(rightSubExpr) {
+		return nil, nil, fmt.Errorf("Error: Invalid operands of a comparison: %v and %v", leftSubExpr, rightSubExpr)
+	}
+
 	return leftSubExpr, rightSubExpr, err
 }
 
@@ -1626,6 +1630,10 @@ func (ctx *expressionParserContext) getSingleLeftSubExprsNodes(node ParserTreeNo
 		return nil, err
 	}
 
+	if !isOperandOfComparison(leftSubExpr) {
+		return nil, fmt.Errorf("Error: Invalid operand: %v", leftSubExpr)
+	}
+
 	return leftSubExpr, err
 }
 
@@ -1770,16 +1778,27 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
-// True and false as the operand of a logical operator are expressions on their own
-func valueToLogicalExpr(expr Expression) Expression {
+// True and false as the operand of a logical operator are expressions on their own, but no other value, field or function is
+func valueToLogicalExpr(expr Expression) (Expression, error) {
+	if !isOperandOfComparison(expr) {
+		return expr, nil
+	}
 	if value, ok := expr.(ValueExpr); ok {
 		if boolVal, ok := value.Value.(bool); ok && boolVal {
-			return TrueExpr{}
+			return TrueExpr{}, nil
 		} else if ok {
-			return FalseExpr{}
+			return FalseExpr{}, nil
 		}
 	}
-	return expr
+	return nil, fmt.Errorf("Error: Invalid operand of a logical operator: %v", expr)
+}
+
+func isOperandOfComparison(expr Expression) bool {
+	switch expr.(type) {
+	case FieldExpr, ValueExpr, FuncExpr, RegexExpr, PcreExpr:
+		return true
+	}
+	return false
 }
 
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
@@ -1797,8 +1816,13 @@ func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Exp
 		return out, err
 	}
 
-	out = append(out, valueToLogicalExpr(leftSubExpr))
-	out = append(out, valueToLogicalExpr(rightSubExpr))
+	for _, subExpr := range []Expression{leftSubExpr, rightSubExpr} {
+		logicalExpr, err := valueToLogicalExpr(subExpr)
+		if err != nil {
+			return nil, err
+		}
+		out = append(out, logicalExpr)
+	}
 
 	return out, nil
 }
@@ -1817,8 +1841,13 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 		return out, err
 	}
 
-	out = append(out, valueToLogicalExpr(leftSubExpr))
-	out = append(out, valueToLogicalExpr(rightSubExpr))
+	for _, subExpr := range []Expression{leftSubExpr, rightSubExpr} {
+		logicalExpr, err := valueToLogicalExpr(subExpr)
+		if err != nil {
+			return nil, err
+		}
+		out = append(out, logicalExpr)
+	}
 
 	return out, nil
 }
-- 
2.43.0


From 51122906d53d9cc7f4e67fdce8990fddfb25018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 64/71] fix: names next to escaped names and indexes changed
 the field in simple expressions

---
 simpleParser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 1dba25d..985cf48 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1009,6 +1009,10 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					beginPos = pos + 1
 				case fieldLiteral:
+					if beginPos != pos || skipAppend {
+						// Escaped names are not a part of other names
+						return outputToken, ErrorMissingBacktickBracket
+					}
 					mode = cfmBacktick
 					beginPos = pos + 1
 					nextMode = cfmNone
@@ -1041,6 +1045,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					mode = nextMode
 					if pos != len(token)-1 && (string(token[pos+1]) == fieldSeparator || string(token[pos+1]) == fieldNestedStart) || pos == len(token)-1 {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorMissingBacktickBracket
 					}
 				}
 			case cfmNestedNumeric:
@@ -1070,6 +1076,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorMissingBacktickBracket
 					}
 				case fieldSeparator:
 					fallthrough
-- 
2.43.0


From 9e8a5faf4cd0441a88253e95ddb6fb0f138b4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 65/71] fix: operators after the second operand of AND and OR
 were ignored in simple expressions

---
 simpleParser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 985cf48..6fb02bd 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1349,9 +1349,16 @@ func (ctx *expressionParserContext) parse() error {
 				break
 			}
 
-			if ctx.advTokenPositionOnly && ctx.subCtx.currentMode == fieldMode {
-				// An end parenthesis does not advance the context, but the merged expression completes the field
-				ctx.subCtx.currentMode = opMode
+			if currentSubCtx.isUnused() {
+				if ctx.advTokenPositionOnly && ctx.subCtx.currentMode == fieldMode {
+					// An end parenthesis does not advance the context, but the merged expression completes the field
+					ctx.subCtx.currentMode = opMode
+				}
+			} else if ctx.advTokenPositionOnly {
+				ctx.subCtx.currentMode = chainMode
+			} else {
+				// The merged expression is the second operand, so only a chain operator can follow once the context is advanced
+				ctx.subCtx.currentMode = valueMode
 			}
 		} else {
 			break
-- 
2.43.0


From 296c4f88df095e9e7a9ccaaddc05d612f770e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 66/71] fix: unterminated strings were taken for names in
 simple expressions

---
 simpleParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index 6fb02bd..8fde911 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -969,6 +969,10 @@ func (ctx *expressionParserContext) getTokenFieldTokenHelper() (string, ParseTok
 		err = fmt.Errorf("Invalid field: %v - cannot start or end with a period", token)
 	}
 
+	if len(token) > 0 && strings.ContainsAny(token[:1], "\"'") && (len(token) == 1 || token[len(token)-1] != token[0]) {
+		err = ErrorMissingQuote
+	}
+
 	if err != nil {
 		return token, TokenTypeField, err
 	}
-- 
2.43.0


From 492a71b8afc61b87654f10d1de8027d5f9264b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 67/71] fix: definitions of a reused transformer kept the slots
 of earlier ones

---
 transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform.go b/transform.go
index 677d82f..163acc2 100644
--- a/transform.go
+++ b/transform.go
@@ -618,6 +618,7 @@ var AlwaysFalseIdent = -2
 func (t *Transformer) Transform(exprs []Expression) *MatchDef {
 	t.RootExec = &ExecNode{}
 	t.ContextStack = nil
+	t.SlotIdx = 0
 	t.BucketIdx = 1
 	t.ActiveBucketIdx = 0
 	t.RootTree = binTree{[]binTreeNode{
-- 
2.43.0


From c57488f49e92e07870974f1dc3516de80b4f96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 68/71] fix: strings with escaped characters were ordered by
 their escaped form

---
 fastval.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fastval.go b/fastval.go
index 4a1e21e..afb7a47 100644
--- a/fastval.go
+++ b/fastval.go
@@ -570,13 +570,25 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 	}
 }
 
+// compareQuotedStrings compares the texts which two quoted strings stand for
+func compareQuotedStrings(a, b string) int {
+	if strings.IndexByte(a, '\\') >= 0 || strings.IndexByte(b, '\\') >= 0 {
+		rawA, errA := strconv.Unquote(`"` + a + `"`)
+		rawB, errB := strconv.Unquote(`"` + b + `"`)
+		if errA == nil && errB == nil {
+			return strings.Compare(rawA, rawB)
+		}
+	}
+	return strings.Compare(a, b)
+}
+
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
 	if other.IsString() || other.IsNumeric() {
 		var buffer, obuffer [32]byte
 		escVal, err := val.toJsonStringInternal(buffer[:])
 		escOval, err1 := other.toJsonStringInternal(obuffer[:])
 
-		result := strings.Compare(string(escVal.sliceData), string(escOval.sliceData))
+		result := compareQuotedStrings(string(escVal.sliceData), string(escOval.sliceData))
 		return result, err == nil && err1 == nil
 	} else if other.userDefined {
 		// User defined means that this val should try to implicit convert to the other type
-- 
2.43.0


From 00cccffb51c1cc7f54866e25568edc1e155b7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 69/71] fix: the slow matcher panicked on loops over values
 which are not arrays

---
 slowmatcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..11044dc 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -172,7 +172,8 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, nil
 	}
 
-	panic("unexpected any in param type")
+	// Not a collection, there is no element which could match
+	return false, nil
 }
 
 func (m *SlowMatcher) matchEqualsExpr(expr EqualsExpr) (bool, error) {
-- 
2.43.0


From 470e8e7c8c388811c07a177f0b067a217bed726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 70/71] fix: the slow matcher forgot the variable of a loop
 around a loop with the same variable

---
 slowmatcher.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index 11044dc..7625eef 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -131,6 +131,21 @@ func (m *SlowMatcher) compareExprs(lhs Expression, rhs Expression) (int, error)
 	return 0, errors.New("unexpected lhs type")
 }
 
+func (m *SlowMatcher) matchElement(expr AnyInExpr, val interface{}) (bool, error) {
+	// A loop around this one can have the same variable, which is hidden meanwhile
+	outerVal, hides := m.vars[expr.VarId]
+
+	m.vars[expr.VarId] = val
+	res, err := m.matchOne(expr.SubExpr)
+
+	if hides {
+		m.vars[expr.VarId] = outerVal
+	} else {
+		delete(m.vars, expr.VarId)
+	}
+	return res, err
+}
+
 func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 	vals, err := m.resolveParam(expr.InExpr)
 	if err != nil {
@@ -140,9 +155,7 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 	switch vals := vals.(type) {
 	case map[string]interface{}:
 		for _, val := range vals {
-			m.vars[expr.VarId] = val
-			res, err := m.matchOne(expr.SubExpr)
-			delete(m.vars, expr.VarId)
+			res, err := m.matchElement(expr, val)
 
 			if err != nil {
 				return false, err
@@ -156,9 +169,7 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, nil
 	case []interface{}:
 		for _, val := range vals {
-			m.vars[expr.VarId] = val
-			res, err := m.matchOne(expr.SubExpr)
-			delete(m.vars, expr.VarId)
+			res, err := m.matchElement(expr, val)
 
 			if err != nil {
 				return false, err
-- 
2.43.0


From 1fad53e34721142eec83378a9c53be1ecb83ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:05 +0000
Subject: [PATCH 71/71] fix: statistics of expressions panicked on constants,
 NOT, LIKE and dates

---
 expressionstats.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..11b4cb2 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -34,8 +34,18 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	switch expr := expr.(type) {
 	case FieldExpr:
 		stats.NumFields++
+	case TrueExpr:
+	case FalseExpr:
 	case ValueExpr:
 		stats.NumValues++
+	case TimeExpr:
+		stats.NumValues++
+	case RegexExpr:
+		stats.NumValues++
+	case PcreExpr:
+		stats.NumValues++
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
 	case FuncExpr:
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
@@ -93,6 +103,9 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	case GreaterEqualsExpr:
 		stats.scanOne(expr.Lhs, loopDepth)
 		stats.scanOne(expr.Rhs, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	default:
 		panic("unexpected expression type")
 	}
-- 
2.43.0

