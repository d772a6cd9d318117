From c08d5ae3ff9935bf3f27d093a2a79224d5ab9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 01/43] fix: accept exactly JSON's number syntax in events

1e+2 and 1e02 were refused; -, 01, 1. and 1e- were accepted.
---
 flatten_json.go | 109 +++++++++++++++++++++++++++---------------------
 1 file changed, 62 insertions(+), 47 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index 16f14e5..9589921 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -61,9 +61,13 @@ const (
 	fjInArrayState
 	fjAfterValueState
 	fjNumberStartState
+	fjNumberAfterMinusState
+	fjNumberAfterZeroState
 	fjNumberIntegralPartState
+	fjNumberFracStartState
 	fjNumberFracState
 	fjNumberAfterEState
+	fjNumberAfterESignState
 	fjNumberExpState
 	fjTrailerState
 	fjStartEscapeState
@@ -454,65 +458,76 @@ func (fj *flattenJSON) readNumber() ([]byte, error) {
 
 	for i := numStart; i < len(fj.event); i++ {
 		ch := fj.event[i]
+		isDigit := ch >= '0' && ch <= '9'
+
+		// can the number end before this character?
+		switch ch {
+		case ',', ']', '}', ' ', '\t', '\n', '\r':
+			switch state {
+			case fjNumberAfterZeroState, fjNumberIntegralPartState, fjNumberFracState, fjNumberExpState:
+				fj.eventIndex = i - 1
+				return fj.event[numStart:i], nil
+			}
+		}
+
+		where := "in number"
 		switch state {
-		case fjNumberStartState:
-			switch ch {
-			case '-':
-				state = fjNumberIntegralPartState
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		case fjNumberStartState, fjNumberAfterMinusState:
+			switch {
+			case ch == '-' && state == fjNumberStartState:
+				state = fjNumberAfterMinusState
+				continue
+			case ch == '0':
+				// JSON doesn't allow leading zeros
+				state = fjNumberAfterZeroState
+				continue
+			case isDigit:
 				state = fjNumberIntegralPartState
+				continue
 			}
-		case fjNumberIntegralPartState:
-			switch ch {
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-				// no-op
-			case '.':
-				state = fjNumberFracState
-			case 'e', 'E':
+		case fjNumberAfterZeroState, fjNumberIntegralPartState:
+			switch {
+			case isDigit && state == fjNumberIntegralPartState:
+				continue
+			case ch == '.':
+				state = fjNumberFracStartState
+				continue
+			case ch == 'e' || ch == 'E':
 				state = fjNumberAfterEState
-			case ',', ']', '}', ' ', '\t', '\n', '\r':
-				fj.eventIndex = i - 1
-				return fj.event[numStart:i], nil
-			default:
-				fj.eventIndex = i
-				return nil, fj.error(fmt.Sprintf("illegal char '%c' in number", ch))
+				continue
+			}
+		case fjNumberFracStartState:
+			if isDigit {
+				state = fjNumberFracState
+				continue
 			}
 		case fjNumberFracState:
-			switch ch {
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-				// no-op
-			case ',', ']', '}', ' ', '\t', '\n', '\r':
-				fj.eventIndex = i - 1
-				bytes := fj.event[numStart:i]
-				return bytes, nil
-			case 'e', 'E':
+			switch {
+			case isDigit:
+				continue
+			case ch == 'e' || ch == 'E':
 				state = fjNumberAfterEState
-			default:
-				fj.eventIndex = i
-				return nil, fj.error(fmt.Sprintf("illegal char '%c' in number", ch))
+				continue
 			}
 		case fjNumberAfterEState:
-			switch ch {
-			case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-				// no-op
-			default:
-				fj.eventIndex = i
-				return nil, fj.error(fmt.Sprintf("illegal char '%c' after 'e' in number", ch))
+			switch {
+			case ch == '-' || ch == '+':
+				state = fjNumberAfterESignState
+				continue
+			case isDigit:
+				state = fjNumberExpState
+				continue
 			}
-			state = fjNumberExpState
-
-		case fjNumberExpState:
-			switch ch {
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-				// no-op
-			case ',', ']', '}', ' ', '\t', '\n', '\r':
-				fj.eventIndex = i - 1
-				return fj.event[numStart:i], nil
-			default:
-				fj.eventIndex = i
-				return nil, fj.error(fmt.Sprintf("illegal char '%c' in exponent", ch))
+			where = "after 'e' in number"
+		case fjNumberAfterESignState, fjNumberExpState:
+			if isDigit {
+				state = fjNumberExpState
+				continue
 			}
+			where = "in exponent"
 		}
+		fj.eventIndex = i
+		return nil, fj.error(fmt.Sprintf("illegal char '%c' %s", ch, where))
 	}
 	fj.eventIndex = len(fj.event)
 	return nil, fj.error("event truncated in number")
-- 
2.43.0


From aa3099ea240ab07e3b5780842655940ed92cadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 02/43] fix: refuse the byte 0xF5 in events

It is no UTF-8 byte, and quamina uses it to mark the end of a value.
---
 flatten_json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index 9589921..cdcdf19 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -660,7 +660,7 @@ func (fj *flattenJSON) readStringValue() ([]byte, error) {
 			fj.eventIndex = i
 			val, err := fj.readStringValWithEscapes(valStart)
 			return val, err
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			fj.eventIndex = i
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in string value", ch))
 		}
@@ -687,7 +687,7 @@ func (fj *flattenJSON) readStringValWithEscapes(nameStart int) ([]byte, error) {
 				return nil, err
 			}
 			val = append(val, unescaped...)
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in string value", ch))
 		} else {
 			val = append(val, ch)
@@ -717,7 +717,7 @@ func (fj *flattenJSON) readMemberName() ([]byte, error) {
 		} else if ch == '\\' {
 			fj.eventIndex = i
 			return fj.readMemberNameWithEscapes(nameStart)
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			fj.eventIndex = i
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in field name", ch))
 		}
@@ -735,7 +735,7 @@ func (fj *flattenJSON) readMemberNameWithEscapes(nameStart int) ([]byte, error)
 		if ch == '"' {
 			fj.eventIndex = from
 			return memberName, nil
-		} else if ch <= 0x1f || ch >= byte(byteCeiling) {
+		} else if ch <= 0x1f || ch >= valueTerminator {
 			return nil, fj.error(fmt.Sprintf("illegal UTF-8 byte %x in field name", ch))
 		} else if ch == '\\' {
 			var unescaped []byte
-- 
2.43.0


From 438002c90f6becfacc58cad98a5c6678ce5bfa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 03/43] fix: don't store a value found where patterns only
 expect an object

With a pattern on a.b, the event {"a":1} yielded a field with a nil path, and
counted it as one of the fields being looked for, so that reading could stop
before a field that was wanted.
---
 flatten_json.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index cdcdf19..de08d94 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -317,8 +317,11 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 			}
 			if val != nil {
 				if memberIsUsed {
-					fj.storeObjectMemberField(pathNode.PathForSegment(memberName), arrayTrail, val, isNumber)
-					fieldsCount--
+					// the segment may be in use only as a node, in which case a leaf value is not of interest
+					if path := pathNode.PathForSegment(memberName); path != nil {
+						fj.storeObjectMemberField(path, arrayTrail, val, isNumber)
+						fieldsCount--
+					}
 				}
 			}
 			state = fjAfterValueState
@@ -422,7 +425,9 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 			if val != nil {
 				if fj.skipping == 0 {
 					fj.stepOneArrayElement()
-					fj.storeArrayElementField(pathName, val, isNumber)
+					if pathName != nil {
+						fj.storeArrayElementField(pathName, val, isNumber)
+					}
 				}
 			}
 			state = fjAfterValueState
-- 
2.43.0


From cd5289e46e303f1740653bd9b03d2ea4dff2d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 04/43] fix: don't look in an array of a for what patterns want
 beside a

With patterns on a and b, {"a":[{"b":1}]} matched the pattern on b: objects in
an array found at a path that is only a field were read as if they were the
object the array is in.
---
 flatten_json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatten_json.go b/flatten_json.go
index de08d94..9938862 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -49,6 +49,9 @@ var (
 // and so that we don't need to read any more
 var errEarlyStop = errors.New("earlyStop")
 
+// emptySegmentsTree represents a location in the event below which nothing is mentioned in any pattern
+var emptySegmentsTree = newSegmentsIndexNode(false)
+
 // fjState - this is a finite state machine parser, or rather a collection of smaller FSM parsers. Some of these
 // states are used in only one function, others in multiple places
 type fjState int
@@ -271,7 +274,8 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 						//  { "geo": { "coords": [{"coordinates": [1,2,3]}] } }
 						// "coords" is a node.
 						// "coordinates" is a field.
-						arrayPathNode = pathNode
+						// No path in any Pattern goes beyond this segment, so any objects in the array are of no interest.
+						arrayPathNode = emptySegmentsTree
 					}
 
 					err = fj.readArray(pathNode.PathForSegment(memberName), arrayPathNode)
-- 
2.43.0


From 0380d8959ba3339bfab6b7d2d87bc424ef9ec241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 05/43] fix: read an escape such as \n right after a \u escape

Its backslash was swallowed with the \u escape, so that "\u0041\n" was read as
"An", and "\u0041\"" ended early.
---
 flatten_json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 9938862..78c0742 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -795,6 +795,11 @@ func (fj *flattenJSON) readTextWithEscapes(from int) ([]byte, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
+		// readHexUTF16 leaves us pointing at the last character it used, except when some other kind of
+		// \-escape follows the \u escape(s): then, at the \ of that, which has yet to be read
+		if fj.event[from] == '\\' {
+			from--
+		}
 	default:
 		return nil, 0, fj.error("malformed \\-escape in text")
 	}
-- 
2.43.0


From 213200252810320e6c97d1679f191f10e294e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 06/43] fix: refuse an event of nothing but white space

---
 flatten_json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatten_json.go b/flatten_json.go
index 78c0742..81a0cf1 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -137,6 +137,9 @@ func (fj *flattenJSON) Flatten(event []byte, tracker SegmentsTreeTracker) ([]Fie
 		// optimization to avoid calling step() and expensively construct an error object at the end of each event
 		fj.eventIndex++
 		if fj.eventIndex == len(fj.event) {
+			if state == fjStartState {
+				return nil, fj.error("no JSON object in event")
+			}
 			return fj.fields, nil
 		}
 	}
-- 
2.43.0


From 6b232c42f5827ad89fe1b7665fe80f00be69c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 07/43] fix: refuse a comma before the end of an object or
 array in an event

---
 flatten_json.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index 81a0cf1..a0f3b85 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -59,9 +59,11 @@ type fjState int
 const (
 	fjStartState fjState = iota
 	fjInObjectState
+	fjNextMemberState
 	fjSeekingColonState
 	fjMemberValueState
 	fjInArrayState
+	fjNextElementState
 	fjAfterValueState
 	fjNumberStartState
 	fjNumberAfterMinusState
@@ -200,7 +202,7 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 		ch := fj.ch()
 
 		switch state {
-		case fjInObjectState:
+		case fjInObjectState, fjNextMemberState:
 			switch {
 			case fj.isSpace[ch]:
 				// no-op
@@ -214,7 +216,7 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 				segmentIsUsed = pathNode.IsSegmentUsed(memberName)
 				memberIsUsed = (fj.skipping == 0) && segmentIsUsed
 				state = fjSeekingColonState
-			case ch == '}':
+			case ch == '}' && state == fjInObjectState:
 				return nil
 			default:
 				return fj.error(fmt.Sprintf("illegal character %c in JSON object", ch))
@@ -337,7 +339,7 @@ func (fj *flattenJSON) readObject(pathNode SegmentsTreeTracker) error {
 			case fj.isSpace[ch]:
 				// no-op
 			case ch == ',':
-				state = fjInObjectState
+				state = fjNextMemberState
 			case ch == '}':
 				return nil
 			default:
@@ -373,7 +375,7 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 		var val []byte // resets on each loop
 		isNumber := false
 		switch state {
-		case fjInArrayState:
+		case fjInArrayState, fjNextElementState:
 			// bypass space before element value. A bit klunky but allows for immense simplification
 			for fj.isSpace[ch] {
 				if fj.step() != nil {
@@ -420,6 +422,9 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 					return err
 				}
 			case ']':
+				if state == fjNextElementState {
+					return fj.error("illegal character ] after comma in array")
+				}
 				return nil
 			default:
 				return fj.error(fmt.Sprintf("illegal character %c in array", ch))
@@ -445,7 +450,7 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 			case ch == ']':
 				return nil
 			case ch == ',':
-				state = fjInArrayState
+				state = fjNextElementState
 			default:
 				return fj.error(fmt.Sprintf("illegal character %c in array", ch))
 			}
-- 
2.43.0


From fded63d3db6437129d5600c71b9ba7df545867d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 08/43] fix: consider an exists:false that follows an
 exists:true

{"a":[{"exists":true}],"b":[{"exists":false}]} did not match {"a":1}: after the
last field, only states reached by a value were asked for exists:false.
---
 core_matcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core_matcher.go b/core_matcher.go
index 4e0951d..ddf3202 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -223,6 +223,8 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 				tryToMatch(fields, nextIndex, existsTrans, matches, bufs)
 			}
 		}
+		// as below: there may be no more fields, with an exists:false still to be considered
+		checkExistsFalse(existsTrans.fields(), fields, index, matches, bufs)
 	}
 
 	// an exists:false transition is possible if there is no matching field in the event
-- 
2.43.0


From 68a0a9b92f43ed899491548d658adb5f506953e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 09/43] fix: don't overwrite the states a value led to while
 matching the next field

The list of states reached by a value of one field was in a buffer that matching
the next fields re-used, so that when there were several, all but the first
could be lost.
---
 core_matcher.go | 2 +-
 nfa.go          | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core_matcher.go b/core_matcher.go
index ddf3202..ca5612d 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -233,7 +233,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 	// try to transition through the machine
 	tm := bufs.getTransmap()
 	tm.push()
-	nextStates := state.transitionOn(&fields[index], bufs)
+	nextStates := tm.hold(state.transitionOn(&fields[index], bufs))
 
 	// for each state in the possibly-empty list of transitions from this state on fields[index]
 	for _, nextState := range nextStates {
diff --git a/nfa.go b/nfa.go
index c7bcaa0..9215b23 100644
--- a/nfa.go
+++ b/nfa.go
@@ -77,6 +77,13 @@ func (tm *transmap) push() {
 	tm.levels[tm.depth] = tm.levels[tm.depth][:0]
 }
 
+// hold copies a list of states into the buffer at the current depth, and returns it there. The
+// list may be in a buffer that the recursive calls will re-use, or already be in this one.
+func (tm *transmap) hold(states []*fieldMatcher) []*fieldMatcher {
+	tm.levels[tm.depth] = append(tm.levels[tm.depth][:0], states...)
+	return tm.levels[tm.depth]
+}
+
 // pop decrements depth. The buffer at the previous depth remains valid
 // until the next push() at that depth or resetDepth().
 func (tm *transmap) pop() {
-- 
2.43.0


From d05311aab01c7d6921a757f4e5e886bf6749e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 10/43] fix: let a pattern with an empty list of values match
 nothing

Such a field was ignored, so that {"a":[],"b":["x"]} matched whatever b:x did.
---
 core_matcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index ca5612d..99b301f 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -97,9 +97,10 @@ func (m *coreMatcher) addPatternWithPrinter(x X, patternJSON string, printer pri
 	// combo.
 	states := []*fieldMatcher{currentFields.state}
 	for _, field := range patternFields {
-		// if the field has no values, this is a no-op
+		// if the field has no values, there is nothing it could match, so there are no states to be reached
 		if len(field.vals) == 0 {
-			continue
+			states = nil
+			break
 		}
 
 		var nextStates []*fieldMatcher
-- 
2.43.0


From 10f076c3b9e99fdb20ce4d9433bf3d0a39de82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 11/43] fix: return matches in a slice that the next call
 doesn't overwrite

---
 core_matcher.go | 11 +++--------
 match_set.go    |  9 ---------
 nfa.go          |  2 --
 3 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 99b301f..952d05b 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -152,13 +152,7 @@ func (m *coreMatcher) matchesForJSONEvent(event []byte) ([]X, error) {
 func (m *coreMatcher) matchesForJSONWithFlattener(event []byte, f Flattener) ([]X, error) {
 	fields, _ := f.Flatten(event, m.getSegmentsTreeTracker())
 	bufs := nfaBuffersPool.Get().(*nfaBuffers)
-	defer func() {
-		// Detach the result slice from bufs before returning to the pool: the
-		// returned []X aliases bufs.resultBuf's backing array, and a subsequent
-		// pool user must not be able to write through it.
-		bufs.resultBuf = make([]X, 0, 16)
-		nfaBuffersPool.Put(bufs)
-	}()
+	defer nfaBuffersPool.Put(bufs)
 	return m.matchesForFields(fields, bufs)
 }
 
@@ -206,7 +200,8 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	for i := 0; i < len(fields); i++ {
 		tryToMatch(fields, i, cmFields.state, matches, bufs)
 	}
-	return matches.matchesInto(bufs.resultBuf[:0]), nil
+	// the caller owns the result, and may still hold it when bufs is used for the next event
+	return matches.matches(), nil
 }
 
 // tryToMatch tries to match the field at fields[index] to the provided state. If it does match and generate
diff --git a/match_set.go b/match_set.go
index 712d684..1da255e 100644
--- a/match_set.go
+++ b/match_set.go
@@ -46,12 +46,3 @@ func (m *matchSet) matches() []X {
 	}
 	return matches
 }
-
-// matchesInto appends matches to the provided buffer and returns it.
-// This avoids allocating a new slice for the result.
-func (m *matchSet) matchesInto(buf []X) []X {
-	for x := range m.set {
-		buf = append(buf, x)
-	}
-	return buf
-}
diff --git a/nfa.go b/nfa.go
index 9215b23..26dbf5c 100644
--- a/nfa.go
+++ b/nfa.go
@@ -103,7 +103,6 @@ type nfaBuffers struct {
 	buf1, buf2     []*faState
 	matches        *matchSet
 	transitionsBuf []*fieldMatcher
-	resultBuf      []X
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
@@ -112,7 +111,6 @@ type nfaBuffers struct {
 func newNfaBuffers() *nfaBuffers {
 	return &nfaBuffers{
 		transitionsBuf: make([]*fieldMatcher, 0, 16),
-		resultBuf:      make([]X, 0, 16),
 	}
 }
 
-- 
2.43.0


From 678826420a518010d60fa2deda4fb4c43f91fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 12/43] fix: let 0 match -0

---
 numbers.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/numbers.go b/numbers.go
index a4bbf67..ac0d747 100644
--- a/numbers.go
+++ b/numbers.go
@@ -37,7 +37,7 @@ func qNumFromBytes(bytes []byte) (qNumber, error) {
 
 // qNumFromFloat is here mostly to support testing
 func qNumFromFloat(f float64) qNumber {
-	return numbitsFromFloat64(f).toQNumber()
+	return numbitsFromFloat64(withoutNegativeZero(f)).toQNumber()
 }
 
 // qNumFromBytesBuf is like qNumFromBytes but writes to the provided buffer to avoid allocation.
@@ -46,7 +46,16 @@ func qNumFromBytesBuf(bytes []byte, buf *[MaxBytesInEncoding]byte) (qNumber, err
 	if err != nil {
 		return nil, errors.New("not a float")
 	}
-	return numbitsFromFloat64(numeric).toQNumberBuf(buf), nil
+	return numbitsFromFloat64(withoutNegativeZero(numeric)).toQNumberBuf(buf), nil
+}
+
+// withoutNegativeZero exists because 0 and -0 are the same number, but have different bits. JSON allows
+// -0, and -1e-999 is read as that too.
+func withoutNegativeZero(f float64) float64 {
+	if f == 0 {
+		return 0
+	}
+	return f
 }
 
 /*
-- 
2.43.0


From 303d1a585c491e9422c68bfae4ce2bc96b06052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 13/43] fix: exclude both values when one anything-but value is
 the start of another

The values are kept with their quotes, so that happens when a value has a " in
it: {"anything-but":["a","a\"b"]} matched a"b.
---
 anything_but.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anything_but.go b/anything_but.go
index ab57fed..ea43f68 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -122,6 +122,11 @@ func makeOneMultiAnythingButStep(vals [][]byte, index int, success *faState) sma
 	// if you hit the valueTerminator, success for everything else
 	for utf8Byte := range valsEndingHere {
 		failState := &faState{table: newSmallTable()} // note no transitions
+		if _, ok := valsWithBytesRemaining[utf8Byte]; ok {
+			// some other val goes on from here
+			u[utf8Byte].table.addByteStep(valueTerminator, failState)
+			continue
+		}
 		lastTable := makeSmallTable(success, []byte{valueTerminator}, []*faState{failState})
 		u[utf8Byte] = &faState{table: lastTable}
 	}
-- 
2.43.0


From f9180016fd087b5cf9e4885b9a2f351ae1dd4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 14/43] fix: return an error for a pattern such as {"a":[{}]}
 instead of panicking

---
 pattern.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index cfbf314..5cdc8b9 100644
--- a/pattern.go
+++ b/pattern.go
@@ -192,8 +192,12 @@ func readSpecialPattern(pb *patternBuild, valsIn []typedVal) (pathVals []typedVa
 		return
 	}
 
-	// tokenizer will throw an error if it's not a string
-	tt := t.(string)
+	tt, ok := t.(string)
+	if !ok {
+		// tokenizer will throw an error if it's neither a string nor }
+		err = errors.New("empty special pattern")
+		return
+	}
 	switch tt {
 	case "anything-but":
 		containsExclusive = tt
-- 
2.43.0


From 0ad0ad9382b7d4a9aefdef686d64c532ce8791d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 15/43] fix: refuse a pattern that is not UTF-8

The bytes that are not were quietly replaced by U+FFFD.
---
 pattern.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pattern.go b/pattern.go
index 5cdc8b9..30e9dbd 100644
--- a/pattern.go
+++ b/pattern.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 )
 
 type valType int
@@ -52,6 +53,12 @@ type patternBuild struct {
 // patternFromJSON compiles a JSON text provided in jsonBytes into a list of patternField structures.
 // I love naked returns and I cannot lie
 func patternFromJSON(jsonBytes []byte) (fields []*patternField, err error) {
+	// json.Decoder would replace whatever isn't UTF-8 by U+FFFD
+	if !utf8.Valid(jsonBytes) {
+		err = errors.New("pattern is not valid UTF-8")
+		return
+	}
+
 	// we can't use json.Unmarshal because it round-trips numbers through float64 and %f, so they won't end up matching
 	// what the caller actually wrote in the patternField. json.Decoder is kind of slow due to excessive
 	// memory allocation, but I haven't got around to prematurely optimizing the patternFromJSON code path
-- 
2.43.0


From 9e640af680a5bf029457c72e793b647cd3ae0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/43] fix: allow an escape right after * in a wildcard
 pattern

{"wildcard":"*\\\\*x"} (JSON for *\*x) took the \ as the literal, and the * after it as another *.
---
 wildcard.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildcard.go b/wildcard.go
index b25015d..b770027 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -95,6 +95,10 @@ func makeWildCardFA(val []byte, pp printer) (start *faState, nextField *fieldMat
 			spinner.isSpinner = true
 
 			valIndex++
+			if val[valIndex] == '\\' {
+				// the spinner is left on whatever has been escaped
+				valIndex++
+			}
 			spinEscape := &faState{table: newSmallTable()}
 			spinEscape.table.epsilons = []*faState{spinner}
 			spinner.table = makeByteDotFA(spinner, pp)
-- 
2.43.0


From f90bf2e2cadbeac4b7cd93d0b823d59712928998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 17/43] fix: don't lose matches when merging automata for
 wildcards with others

Merging a * with a state of another pattern lost what the other pattern does at
the end of a value, and the match it had reached on that byte, so that for
instance the prefix ab was no longer found with the wildcard a*c present. And a
state with a match but nothing except epsilons was replaced by those. Also, don't
append to slices that belong to the automata being merged.
---
 epsi_closure.go |  8 ++++----
 nfa.go          | 29 ++++++++++++++++++-----------
 small_table.go  |  2 +-
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/epsi_closure.go b/epsi_closure.go
index 0b7f184..fa17dac 100644
--- a/epsi_closure.go
+++ b/epsi_closure.go
@@ -205,10 +205,10 @@ func closureForState(state *faState, bufs *closureBuffers) {
 	}
 
 	// selfWasCollected reports whether `state` itself was added to closureList
-	// below. Only non-epsilon-only states are collected, so when self is
-	// epsilon-only a closureList of length 1 holds some *other* state, not self
+	// below. Only non-pass-through states are collected, so when self is
+	// pass-through a closureList of length 1 holds some *other* state, not self
 	// — the self-only checks must not fire on it.
-	selfWasCollected := !state.table.isEpsilonOnly()
+	selfWasCollected := !state.isPassThrough()
 
 	// Generation-based visited tracking: bufs.states records which gen last
 	// visited each state, so we never clear the map between traversals.
@@ -284,7 +284,7 @@ func traverseEpsilons(start *faState, epsilons []*faState, bufs *closureBuffers)
 			continue
 		}
 		bufs.states[eps] = bufs.closureSetGen
-		if !eps.table.isEpsilonOnly() {
+		if !eps.isPassThrough() {
 			bufs.closureList = append(bufs.closureList, eps)
 		}
 		traverseEpsilons(start, eps.table.epsilons, bufs)
diff --git a/nfa.go b/nfa.go
index 26dbf5c..fd6588e 100644
--- a/nfa.go
+++ b/nfa.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"fmt"
+	"slices"
 	"unsafe"
 )
 
@@ -366,7 +367,13 @@ func makeFaStepKey(s1, s2 *faState) faStepKey {
 	return faStepKey{s2, s1}
 }
 
-// simplifySplices collects all non-epsilon-only states reachable via
+// isPassThrough reports whether the state is there only for the sake of its epsilons, so that being
+// in it amounts to being in those. Thus not if there are fieldTransitions: reaching it means something.
+func (s *faState) isPassThrough() bool {
+	return s.table.isEpsilonOnly() && len(s.fieldTransitions) == 0
+}
+
+// simplifySplices collects all non-pass-through states reachable via
 // epsilon transitions from state1 and state2. This prevents deep nesting of
 // splice states that would otherwise accumulate during repeated merges.
 func simplifySplices(state1, state2 *faState) []*faState {
@@ -386,7 +393,7 @@ func simplifyCollect(s *faState, visited map[*faState]bool, targets []*faState)
 	}
 	visited[s] = true
 
-	if s.table.isEpsilonOnly() {
+	if s.isPassThrough() {
 		for _, eps := range s.table.epsilons {
 			targets = simplifyCollect(eps, visited, targets)
 		}
@@ -463,7 +470,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		return combined
 	}
 
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -513,7 +520,7 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	mKey := makeFaStepKey(spinner, nonSpinner)
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(spinner.fieldTransitions, nonSpinner.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(spinner.fieldTransitions, nonSpinner.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&spinner.table), pp.tableSerial(&nonSpinner.table)))
@@ -532,8 +539,8 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 		switch {
 		case spinnerNext == nil:
-			// illegal UTF-8
-			mergedState = nil
+			// illegal UTF-8, or the end of the value
+			mergedState = nonSpinnernext
 
 		case nonSpinnernext == nil:
 			mergedState = spinnerNext
@@ -545,9 +552,9 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 			mergedTable := smallTable{
 				steps:    nonSpinnernext.table.steps,
 				ceilings: nonSpinnernext.table.ceilings,
-				epsilons: append(nonSpinnernext.table.epsilons, spinner),
+				epsilons: slices.Concat(nonSpinnernext.table.epsilons, []*faState{spinner}),
 			}
-			mergedState = &faState{table: mergedTable, fieldTransitions: spinner.fieldTransitions}
+			mergedState = &faState{table: mergedTable, fieldTransitions: nonSpinnernext.fieldTransitions}
 
 		default:
 			// if spinner's branch isn't a loopback, we need to merge its target with the nonspinner
@@ -580,7 +587,7 @@ func asymmetricSpinnerMerge(spinner, nonSpinner *faState, keyMemo map[faStepKey]
 
 func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp printer) *faState {
 	combined := &faState{table: newSmallTable()}
-	combined.fieldTransitions = append(state1.fieldTransitions, state2.fieldTransitions...)
+	combined.fieldTransitions = slices.Concat(state1.fieldTransitions, state2.fieldTransitions)
 
 	pp.labelTable(&combined.table, fmt.Sprintf("%d∎%d",
 		pp.tableSerial(&state1.table), pp.tableSerial(&state2.table)))
@@ -610,7 +617,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next2.table.ceilings,
 				steps:    next2.table.steps,
-				epsilons: append(state2.table.epsilons, combined),
+				epsilons: slices.Concat(state2.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
@@ -621,7 +628,7 @@ func symmetricSpinnerMerge(state1, state2 *faState, keyMemo map[faStepKey]*faSta
 			table := smallTable{
 				ceilings: next1.table.ceilings,
 				steps:    next1.table.steps,
-				epsilons: append(state1.table.epsilons, combined),
+				epsilons: slices.Concat(state1.table.epsilons, []*faState{combined}),
 			}
 			mergedState = &faState{
 				table:            table,
diff --git a/small_table.go b/small_table.go
index d956fc5..cd4b6bb 100644
--- a/small_table.go
+++ b/small_table.go
@@ -53,7 +53,7 @@ func newSmallTable() smallTable {
 }
 
 func (t *smallTable) isEpsilonOnly() bool {
-	return len(t.epsilons) > 0 && len(t.ceilings) == 1
+	return len(t.epsilons) > 0 && len(t.ceilings) == 1 && t.steps[0] == nil
 }
 
 func (t *smallTable) isJustEpsilons() bool {
-- 
2.43.0


From d23f14f421085dcbd2503b73f4768c1657de9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 18/43] fix: visit each state once to find out whether an
 automaton is nondeterministic
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The time was exponential in the length of regexps such as [ab][ab][ab]…
---
 small_table.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/small_table.go b/small_table.go
index cd4b6bb..1864da2 100644
--- a/small_table.go
+++ b/small_table.go
@@ -201,11 +201,20 @@ func (t *smallTable) addByteStep(utf8Byte byte, step *faState) {
 // FA-building time, but doing so and then sending the status over to the valueMatcher
 // turned out to be complex, as opposed to the following, which is not only simple but fast.
 func (t *smallTable) isNondeterministic() bool {
+	return t.findNondeterminism(make(map[*faState]bool))
+}
+
+// findNondeterminism visits each state just once: there may be very many paths leading to it
+func (t *smallTable) findNondeterminism(visited map[*faState]bool) bool {
 	if len(t.epsilons) > 0 {
 		return true
 	}
 	for _, step := range t.steps {
-		if step != nil && step.table.isNondeterministic() {
+		if step == nil || visited[step] {
+			continue
+		}
+		visited[step] = true
+		if step.table.findNondeterminism(visited) {
 			return true
 		}
 	}
-- 
2.43.0


From 840f87b1e2e5a22b2cfd28cf343e1ecd3d64b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 19/43] fix: don't follow an automaton from the same state more
 than once

With the regexp (a|a)* the list of current states doubled with each byte.
---
 nfa.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/nfa.go b/nfa.go
index fd6588e..a643d44 100644
--- a/nfa.go
+++ b/nfa.go
@@ -1,6 +1,7 @@
 package quamina
 
 import (
+	"cmp"
 	"fmt"
 	"slices"
 	"unsafe"
@@ -317,6 +318,12 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 			}
 		}
 
+		// the same state may have been reached in several ways, and the number of those can be exponential
+		// in the length of the value
+		if len(nextStates) > manyStates {
+			nextStates = dedupStates(nextStates)
+		}
+
 		// re-use these
 		swapStates := currentStates
 		currentStates = nextStates
@@ -355,6 +362,17 @@ func traverseNFA(start *faState, val []byte, transitions []*fieldMatcher, bufs *
 	return buf
 }
 
+// manyStates is the length from which a list of states is worth the cost of looking for duplicates
+const manyStates = 32
+
+// dedupStates removes duplicates, in place
+func dedupStates(states []*faState) []*faState {
+	slices.SortFunc(states, func(a, b *faState) int {
+		return cmp.Compare(uintptr(unsafe.Pointer(a)), uintptr(unsafe.Pointer(b)))
+	})
+	return slices.Compact(states)
+}
+
 type faStepKey struct {
 	step1 *faState
 	step2 *faState
-- 
2.43.0


From 5fb09ff282a56797e916c911a1ef62c5a539543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 20/43] fix: allow U+FFFD in regexps

---
 regexp_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regexp_parse.go b/regexp_parse.go
index afbb942..b67754e 100644
--- a/regexp_parse.go
+++ b/regexp_parse.go
@@ -48,7 +48,8 @@ func (p *regexpParse) nextRune() (rune, error) {
 	}
 	p.lastIndex = p.index
 	c, length := utf8.DecodeRune(p.bytes[p.index:])
-	if c == utf8.RuneError {
+	// U+FFFD itself is fine
+	if c == utf8.RuneError && length <= 1 {
 		return 0, fmt.Errorf("UTF-8 encoding error at offset %d", p.lastOffset())
 	}
 	p.index += length
-- 
2.43.0


From 8bc7661e8953b60644aff6d502fdf057b5eb1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 21/43] fix: refuse malformed regexps, and don't ignore an
 empty last branch

A } in the wrong place was ignored, as was what there was of a construct at the
end, such as the a{2 or ~p{. And a| did not match the empty string.
---
 regexp_reader.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index e005c67..e41c38f 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -177,27 +177,33 @@ func readRegexpWithParse(parse *regexpParse) (*regexpParse, error) {
 
 // branch = *piece
 func readBranches(parse *regexpParse) error {
-	for !parse.isEmpty() {
+	if parse.isEmpty() {
+		return nil
+	}
+	for {
 		branch, err := readBranch(parse)
 		if (err != nil) && !errors.Is(err, errRegexpStuck) {
 			return err
 		}
 		parse.tree = append(parse.tree, branch)
-		if errors.Is(err, errRegexpEOF) {
+		if parse.isEmpty() {
 			return nil
 		}
-		var b rune
-		b, _ = parse.nextRune() // we already know we're not at EOF
-		if b == '|' {
+		b, err := parse.nextRune()
+		if err != nil {
+			return err
+		}
+		switch b {
+		case '|':
+			// on to the next branch, which is an empty one if this is the end
 			parse.features.recordFeature(rxfOrBar)
-			continue
-		} else if b == ')' {
+		case ')':
 			parse.backup1(b)
 			return nil
+		default:
+			return fmt.Errorf("invalid character '%c' at %d", b, parse.lastOffset())
 		}
-		// no else, can't happen
 	}
-	return nil
 }
 
 func readBranch(parse *regexpParse) (regexpBranch, error) {
@@ -218,9 +224,16 @@ func readBranch(parse *regexpParse) (regexpBranch, error) {
 
 // piece = atom [ quantifier ]
 func readPiece(parse *regexpParse) (*quantifiedAtom, error) {
+	// running out of input is how a regexp ends, but only here, not halfway through a piece
+	if parse.isEmpty() {
+		return nil, errRegexpEOF
+	}
 	var err error
 	var nextQA *quantifiedAtom
 	nextQA, err = readAtom(parse)
+	if errors.Is(err, errRegexpEOF) {
+		return nil, fmt.Errorf("regexp ends too early at %d", parse.offset())
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -232,6 +245,9 @@ func readPiece(parse *regexpParse) (*quantifiedAtom, error) {
 	if (err == nil) || errors.Is(err, errRegexpStuck) {
 		return nextQA, nil
 	}
+	if errors.Is(err, errRegexpEOF) {
+		return nil, fmt.Errorf("regexp ends too early at %d", parse.offset())
+	}
 	return nil, err
 }
 
-- 
2.43.0


From eac98dc577adfc033f936c966981c3427ba32ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 22/43] fix: include all the right characters in regexp
 character classes

Characters from U+11000 could not be used in a class. The inverse of a class had
too much in it if one of its ranges was inside another, as can happen with a
hyphen at the end, and lacked U+10FFFF if only that was missing from the class.
---
 regexp_reader.go | 2 +-
 rune_range.go    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index e41c38f..4580de5 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -455,7 +455,7 @@ func isCCchar(r rune) bool {
 	if r >= 0x5e && r <= 0xd7ff {
 		return true
 	}
-	if r >= 0xe000 && r <= 0x10fff {
+	if r >= 0xe000 && r <= 0x10ffff {
 		return true
 	}
 	if r == '\\' {
diff --git a/rune_range.go b/rune_range.go
index 4e9f949..3af50f3 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -129,6 +129,7 @@ func makeRuneRangeNFA(rr RuneRange, next *faState, pp printer) smallTable {
 }
 
 func InvertRuneRange(rr RuneRange) RuneRange {
+	rr = slices.Clone(rr)
 	slices.SortFunc(rr, func(a, b RunePair) int { return cmp.Compare(a.Lo, b.Lo) })
 	var inverted RuneRange
 	var point rune = 0
@@ -136,9 +137,9 @@ func InvertRuneRange(rr RuneRange) RuneRange {
 		if pair.Lo > point {
 			inverted = append(inverted, RunePair{point, pair.Lo - 1})
 		}
-		point = pair.Hi + 1
+		point = max(point, pair.Hi+1)
 	}
-	if point < runeMax {
+	if point <= runeMax {
 		inverted = append(inverted, RunePair{point, runeMax})
 	}
 	return inverted
-- 
2.43.0


From 6b7eeee165459e56b81d479b6733c7e891b5873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 23/43] fix: build the right automata for groups, empty
 branches and {n,} in regexps

Merging the branches of a group copied states that were not finished, such as
the one a * leads back to, so that (ab|a)* could match too little, or panic. An
empty branch in a group wanted a " in the value. And x{2,} matched just an even
number of times, or what followed x{n,} was not reached.
---
 nfa.go        |  6 +++-
 regexp_nfa.go | 83 +++++++++++++++++++++++++++------------------------
 rune_range.go |  2 +-
 3 files changed, 50 insertions(+), 41 deletions(-)

diff --git a/nfa.go b/nfa.go
index a643d44..37a1b1d 100644
--- a/nfa.go
+++ b/nfa.go
@@ -23,6 +23,9 @@ type faState struct {
 	// len 1 is never stored: a {self} result collapses to the sentinel.
 	epsilonClosure []*faState
 	isSpinner      bool
+	// unfinished is true while what goes in the table is not known yet, when building an FA for something like
+	// (ab|a)*, where both branches lead back to a state that is itself made from what they are merged into
+	unfinished bool
 }
 
 /*
@@ -481,7 +484,8 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 
 	// If either of the states to be merged has epsilons we have to do a splice.
 	// To avoid deep nesting of splice states, we flatten the epsilon targets.
-	if len(state1.table.epsilons) != 0 || len(state2.table.epsilons) != 0 {
+	// The same goes for a state that's still being built: we can point to it, but not copy what's in it.
+	if len(state1.table.epsilons) != 0 || len(state2.table.epsilons) != 0 || state1.unfinished || state2.unfinished {
 		pp.labelTable(&combined.table, "Splice")
 		combined.table.epsilons = simplifySplices(state1, state2)
 		keyMemo[mKey] = combined
diff --git a/regexp_nfa.go b/regexp_nfa.go
index bc3d6c3..450c651 100644
--- a/regexp_nfa.go
+++ b/regexp_nfa.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"fmt"
+	"slices"
 )
 
 // In the regular expressions represented by the I-Regexp syntax, the | connector has the lowest
@@ -30,34 +31,35 @@ func makeRegexpNFA(root regexpRoot, pp printer) (*faState, *fieldMatcher) {
 	startTable := makeNFAFromBranches(root, nextStep, true, pp)
 	return &faState{table: startTable}, nextField
 }
+
+// makeNFAFromBranches makes the FA for a whole regexp (in which case addQuoteTransition is true) or for a ()-group.
 func makeNFAFromBranches(root regexpRoot, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
-	// completely empty regexp
+	// completely empty regexp or group
 	if len(root) == 0 {
-		return makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
+		return faFromBranch(regexpBranch{}, nextStep, addQuoteTransition, pp)
 	}
 	var fa smallTable
-	first := true
-	for _, branch := range root {
-		var nextBranch smallTable
-		if len(branch) == 0 {
-			nextBranch = makeSmallTable(nil, []byte{'"'}, []*faState{nextStep})
-			pp.labelTable(&nextBranch, "next on len 0")
+	for i, branch := range root {
+		nextBranch := faFromBranch(branch, nextStep, addQuoteTransition, pp)
+		if i == 0 {
+			fa = nextBranch
 		} else {
-			nextBranch = faFromBranch(branch, nextStep, addQuoteTransition, pp)
-		}
-		if !first {
 			fa = mergeFAs(&fa, &nextBranch, pp)
-		} else {
-			fa = nextBranch
-			first = false
 		}
 	}
 	return fa
 }
 
 func faFromBranch(branch regexpBranch, nextStep *faState, addQuoteTransition bool, pp printer) smallTable {
-	state := faFromQuantifiedAtom(branch, 0, nextStep, pp)
-	table := state.table
+	var table smallTable
+	if len(branch) == 0 {
+		// nothing to match, straight on to the next step
+		table = newSmallTable()
+		table.epsilons = []*faState{nextStep}
+		pp.labelTable(&table, "next on len 0")
+	} else {
+		table = faFromQuantifiedAtom(branch, 0, nextStep, pp).table
+	}
 	if addQuoteTransition {
 		firstState := &faState{table: table}
 		table = makeSmallTable(nil, []byte{'"'}, []*faState{firstState})
@@ -80,21 +82,17 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 	switch {
 	case atom.isPlus():
 		// the + construction requires a loopback state in front of the state table
-		plusLoopback := &faState{table: newSmallTable()}
+		plusLoopback := &faState{table: newSmallTable(), unfinished: true}
 		pp.labelTable(&plusLoopback.table, "PlusLoopback")
 		state = &faState{table: atom.makeFA(plusLoopback, pp)}
 
 		// for the + case, need to loop back to the newly created state
 		plusLoopback.table.epsilons = []*faState{nextState, state}
+		plusLoopback.unfinished = false
 
 	case atom.isStar():
 		// the * construction requires that the generated FA points back to itself
-		state = &faState{}
-		state.table = atom.makeFA(state, pp)
-
-		// the * construct requires an epsilon transition forward, possibly
-		// passing over a multi-step sequence
-		state.table.epsilons = append(state.table.epsilons, nextState)
+		state = faForStar(atom, nextState, pp)
 
 	case atom.hasMinMax():
 		shellTable := atom.makeFA(PlaceholderState, pp)
@@ -107,7 +105,7 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 			// if it's between quantMin & max, we're in optional territory
 			// so it needs an epsilon to allow jumping out
 			if counter > atom.quantMin {
-				stepTable.epsilons = append(stepTable.epsilons, nextState)
+				stepTable.epsilons = slices.Concat(stepTable.epsilons, []*faState{nextState})
 			}
 			state = &faState{table: stepTable}
 			nextMinMaxStep = state
@@ -116,7 +114,7 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 	case atom.isQM():
 		// for the ? case, forward epsilon
 		state = &faState{table: atom.makeFA(nextState, pp)}
-		state.table.epsilons = append(state.table.epsilons, nextState)
+		state.table.epsilons = slices.Concat(state.table.epsilons, []*faState{nextState})
 
 	case atom.isNoOp():
 		// when we see a{0}, which the grammar allows
@@ -126,30 +124,25 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 	case atom.isMinimumOnly():
 		// {0,} has no mandatory steps, so it means the same thing as *
 		if atom.quantMin == 0 {
-			state = &faState{}
-			state.table = atom.makeFA(state, pp)
-			state.table.epsilons = append(state.table.epsilons, nextState)
+			state = faForStar(atom, nextState, pp)
 			break
 		}
 
+		// a chain of the minimum-count steps, of which the last one can be repeated, so has what amounts to a +
 		shellTable := atom.makeFA(PlaceholderState, pp)
-		nextMinMaxStep := nextState
+		plusLoopback := &faState{table: newSmallTable()}
+		pp.labelTable(&plusLoopback.table, "MinLoopback")
+		nextMinStep := plusLoopback
 
-		var lastState *faState
 		for counter := atom.quantMin; counter > 0; counter-- {
-			stepTable := faFromShell(&shellTable, PlaceholderState, nextMinMaxStep)
-			pp.labelTable(&stepTable, fmt.Sprintf("minmax at %d", counter))
+			stepTable := faFromShell(&shellTable, PlaceholderState, nextMinStep)
+			pp.labelTable(&stepTable, fmt.Sprintf("min at %d", counter))
 			state = &faState{table: stepTable}
-
-			// there's a chain of the minimum-count steps, but the last one has to
-			// loop back to the first one, so we have to remember the last one
 			if counter == atom.quantMin {
-				lastState = state
+				plusLoopback.table.epsilons = []*faState{nextState, state}
 			}
-
-			nextMinMaxStep = state
+			nextMinStep = state
 		}
-		lastState.table.epsilons = append(lastState.table.epsilons, state)
 
 	default:
 		state = &faState{table: atom.makeFA(nextState, pp)}
@@ -158,6 +151,18 @@ func faFromQuantifiedAtom(branch regexpBranch, index int, finalStep *faState, pp
 	return state
 }
 
+// faForStar generates an FA that points back to itself
+func faForStar(atom *quantifiedAtom, nextState *faState, pp printer) *faState {
+	state := &faState{unfinished: true}
+	state.table = atom.makeFA(state, pp)
+
+	// the * construct requires an epsilon transition forward, possibly
+	// passing over a multi-step sequence
+	state.table.epsilons = slices.Concat(state.table.epsilons, []*faState{nextState})
+	state.unfinished = false
+	return state
+}
+
 // makeNFATrailer generates the last two steps in every NFA, because all field values end with the
 // valueTerminator marker, so you need the field-matched state and you need another state that branches
 // to it based on valueTerminator
diff --git a/rune_range.go b/rune_range.go
index 3af50f3..79897e7 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -14,7 +14,7 @@ import (
 // Note that FAs are only built during AddPattern calls and this is single-threaded, so we
 // can safely build and update the cachedRRFaShells
 
-var PlaceholderState *faState = &faState{table: newSmallTable()}
+var PlaceholderState *faState = &faState{table: newSmallTable(), unfinished: true}
 var cachedFaShells = make(map[string]smallTable)
 
 func faFromShell(shell *smallTable, oldNext *faState, newNext *faState) smallTable {
-- 
2.43.0


From 3ee3a711323cf262df9583037d24e5ee9676e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 24/43] fix: don't panic on a regexp character class that
 matches no character

---
 quantified_atom.go | 4 +++-
 rune_range.go      | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantified_atom.go b/quantified_atom.go
index 0793778..4c78b2e 100644
--- a/quantified_atom.go
+++ b/quantified_atom.go
@@ -62,7 +62,9 @@ func (qa *quantifiedAtom) makeFA(nextStep *faState, pp printer) smallTable {
 	default:
 		// if it's none of these other things, it has to boil down to a rune range
 		table = makeRuneRangeNFA(qa.runes, nextStep, pp)
-		pp.labelTable(&table, fmt.Sprintf("RR %x/%x, %d-%d", qa.runes[0].Lo, qa.runes[0].Hi, qa.quantMin, qa.quantMax))
+		if len(qa.runes) > 0 {
+			pp.labelTable(&table, fmt.Sprintf("RR %x/%x, %d-%d", qa.runes[0].Lo, qa.runes[0].Hi, qa.quantMin, qa.quantMax))
+		}
 	}
 	return table
 }
diff --git a/rune_range.go b/rune_range.go
index 79897e7..74f3836 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -108,6 +108,10 @@ func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printe
 
 	pp.labelTable(&next.table, "Next")
 	// turn the slice of hi/lo inclusive endpoints into a slice of utf8 encodings
+	if len(rr) == 0 {
+		// an inverted class can be empty: there's no way forward
+		return newSmallTable()
+	}
 	ri, err := newRuneRangeIterator(rr)
 
 	// can't happen I think
-- 
2.43.0


From 6f28cc18b6cd3623c55392aba3031154ae0b1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 25/43] fix: guard what all instances share when building
 automata for properties

Patterns added to two unrelated instances at once could both write to the cache,
and sort the same table.
---
 rune_range.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rune_range.go b/rune_range.go
index 74f3836..b496e80 100644
--- a/rune_range.go
+++ b/rune_range.go
@@ -5,17 +5,18 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync"
 )
 
 // It turns out that makeRuneRangeNFA is an expensive call that burns memory.  So for the big
 // RuneRange FAs, we compute and cache shells. A shell is an FA computed with the "next" value
 // being PlaceholderState.  When you need a rune range FA, you take the shell and build a copy,
 // replacing transitions to PlaceholderState by whatever the "next" value is.
-// Note that FAs are only built during AddPattern calls and this is single-threaded, so we
-// can safely build and update the cachedRRFaShells
+// While AddPattern calls are single-threaded, the cache is shared by all Quamina instances.
 
 var PlaceholderState *faState = &faState{table: newSmallTable(), unfinished: true}
 var cachedFaShells = make(map[string]smallTable)
+var cachedFaShellsLock sync.Mutex
 
 func faFromShell(shell *smallTable, oldNext *faState, newNext *faState) smallTable {
 	return copyShellNode(&faState{table: *shell}, oldNext, newNext, make(map[*faState]*faState)).table
@@ -89,6 +90,8 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 	if len(rr) == 0 {
 		return nil, errors.New("empty range")
 	}
+	// the range may be one of the property tables, which are shared
+	rr = slices.Clone(rr)
 	slices.SortFunc(rr, func(a, b RunePair) int { return cmp.Compare(a.Lo, b.Lo) })
 	return &runeRangeIterator{pairs: rr, whichPair: 0, inPair: rr[0].Lo}, nil
 }
@@ -98,11 +101,13 @@ func newRuneRangeIterator(rr RuneRange) (*runeRangeIterator, error) {
 
 func makeAndCacheRuneRangeFA(rr RuneRange, next *faState, name string, pp printer) smallTable {
 	if name != "" {
+		cachedFaShellsLock.Lock()
 		fa, ok := cachedFaShells[name]
 		if !ok {
 			fa = makeAndCacheRuneRangeFA(rr, PlaceholderState, "", pp)
 			cachedFaShells[name] = fa
 		}
+		cachedFaShellsLock.Unlock()
 		return faFromShell(&fa, PlaceholderState, next)
 	}
 
-- 
2.43.0


From fb90433f94b6a1a061f53ff3370b0612b45a62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 26/43] fix: don't take the numbers 100 and 200 in a regexp
 quantifier for something else

{0,100} was taken to mean the same as *, {1,100} as +, and {200} as {200,}. So
use other values to stand for those. As these can't be just any number that is
read, refuse counts above 1000, for which the automaton would be huge anyhow.
---
 regexp_reader.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/regexp_reader.go b/regexp_reader.go
index 4580de5..b5d7e33 100644
--- a/regexp_reader.go
+++ b/regexp_reader.go
@@ -5,6 +5,7 @@ import (
 	"cmp"
 	"errors"
 	"fmt"
+	"math"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -57,9 +58,12 @@ var implementedRegexpFeatures = map[regexpFeature]bool{
 	rxfRange:           true,
 }
 
-// distinguished values to mark idioms like * and {}
-const regexpQuantifierMax = 100 // TODO: make this into an option
-const regexpMinimumOnly = 200
+// regexpCountMax limits the numbers in {}, because there will be that many copies of whatever they apply to
+const regexpCountMax = 1000 // TODO: make this into an option
+
+// distinguished values to mark idioms like * and {}, which have to be different from any such number
+const regexpQuantifierMax = math.MaxInt32
+const regexpMinimumOnly = math.MaxInt32 - 1
 
 const Escape rune = '~'
 
@@ -671,6 +675,9 @@ func readRangeQuantifier(parse *regexpParse, qa *quantifiedAtom) error {
 	if err != nil {
 		return err
 	}
+	if lo > regexpCountMax {
+		return fmt.Errorf("range quantifier %d is larger than %d", lo, regexpCountMax)
+	}
 	qa.quantMin = int(lo)
 	qa.quantMax = regexpQuantifierMax
 	switch b {
@@ -720,6 +727,9 @@ func readRangeQuantifier(parse *regexpParse, qa *quantifiedAtom) error {
 		if err != nil {
 			return err
 		}
+		if hi > regexpCountMax {
+			return fmt.Errorf("range quantifier %d is larger than %d", hi, regexpCountMax)
+		}
 	}
 	if hi < lo {
 		return fmt.Errorf("invalid range quantifier, top must be greater than bottom")
-- 
2.43.0


From 53e92cc073c0ea88ee89ccdca6abbbed8035a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 27/43] fix: let equals-ignore-case find all the variants of a
 character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The table has just one other character for each, so that for instance the
pattern "μ" matched the micro sign but not "Μ".
---
 monocase.go | 62 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/monocase.go b/monocase.go
index 68a41bf..6e023c5 100644
--- a/monocase.go
+++ b/monocase.go
@@ -3,6 +3,8 @@ package quamina
 import (
 	"errors"
 	"fmt"
+	"slices"
+	"sync"
 	"unicode/utf8"
 )
 
@@ -47,36 +49,23 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 	currentTable := &startState.table
 	var nextStep *faState
 	for index < len(val) {
-		var orig, alt []byte
 		r, width := utf8.DecodeRune(val[index:])
-		orig = val[index : index+width]
-		altRune, ok := caseFoldingPairs[r]
-		if ok {
-			alt = make([]byte, utf8.RuneLen(altRune))
-			utf8.EncodeRune(alt, altRune)
-		}
+		variants := caseVariants(r)
 		nextStep = &faState{table: newSmallTable()}
-		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, alt=%v", val[index], alt))
-		if alt == nil {
+		pp.labelTable(&nextStep.table, fmt.Sprintf("On %d, variants=%v", val[index], variants))
+		if len(variants) == 1 {
 			// easy case, no casefolding issues.  We should maybe try to coalesce these
 			// no-casefolding sections and only call makeFAFragment once for all of them
+			orig := val[index : index+width]
 			origFA := makeFAFragment(orig, nextStep, pp)
 			currentTable.addByteStep(orig[0], origFA)
 		} else {
-			// two paths to next state
-			// but they might have a common prefix
-			var commonPrefix int
-			for commonPrefix = 0; orig[commonPrefix] == alt[commonPrefix]; commonPrefix++ {
-				prefixStep := &faState{table: newSmallTable()}
-				currentTable.addByteStep(orig[commonPrefix], prefixStep)
-				currentTable = &prefixStep.table
-				pp.labelTable(currentTable, fmt.Sprintf("common prologue on %x", orig[commonPrefix]))
+			// two or more paths to next state, which might have a common prefix
+			var runes RuneRange
+			for _, variant := range variants {
+				runes = append(runes, RunePair{variant, variant})
 			}
-			// now build automata for the orig and alt versions of the char
-			origFA := makeFAFragment(orig[commonPrefix:], nextStep, pp)
-			altFA := makeFAFragment(alt[commonPrefix:], nextStep, pp)
-			currentTable.addByteStep(orig[commonPrefix], origFA)
-			currentTable.addByteStep(alt[commonPrefix], altFA)
+			*currentTable = makeRuneRangeNFA(runes, nextStep, pp)
 		}
 		currentTable = &nextStep.table
 		index += width
@@ -85,3 +74,32 @@ func makeMonocaseFA(val []byte, pp printer) (*faState, *fieldMatcher) {
 	nextStep.table.addByteStep(valueTerminator, lastState)
 	return startState, fm
 }
+
+// invertedCaseFoldingPairs is needed because what caseFoldingPairs has for a character is just one of those it is
+// equivalent to. For example, it takes both Ι (U+0399) and ͅ (U+0345) to ι, but ι only to one of those
+var invertedCaseFoldingPairs = sync.OnceValue(func() map[rune][]rune {
+	inverted := make(map[rune][]rune, len(caseFoldingPairs))
+	for from, to := range caseFoldingPairs {
+		inverted[to] = append(inverted[to], from)
+	}
+	return inverted
+})
+
+// caseVariants returns r and all the characters that are the same if case is ignored
+func caseVariants(r rune) []rune {
+	variants := []rune{r}
+	add := func(variant rune) {
+		if !slices.Contains(variants, variant) {
+			variants = append(variants, variant)
+		}
+	}
+	for i := 0; i < len(variants); i++ {
+		if alt, ok := caseFoldingPairs[variants[i]]; ok {
+			add(alt)
+		}
+		for _, alt := range invertedCaseFoldingPairs()[variants[i]] {
+			add(alt)
+		}
+	}
+	return variants
+}
-- 
2.43.0


From 028500459b6aae39fa8e0db03c17ccfa39b09650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 28/43] fix: don't resurrect or lose patterns when deleting and
 rebuilding

An X that was deleted and then added again with another pattern was again
reported for its deleted pattern until the next rebuild. A pattern added
while another goroutine caused a rebuild could be put in the matcher being
replaced, and the Matcher pointer was read without holding the lock.
---
 pruner.go | 111 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 86 insertions(+), 25 deletions(-)

diff --git a/pruner.go b/pruner.go
index dd2d2bb..6838a9b 100644
--- a/pruner.go
+++ b/pruner.go
@@ -2,6 +2,7 @@ package quamina
 
 import (
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -77,6 +78,23 @@ type prunerMatcher struct {
 	// The Matcher pointer is updated after a successful rebuild.
 	// Stats are updated by Add, Delete, and rebuild.
 	lock sync.RWMutex
+
+	// updating must be held by any goroutine that adds or deletes patterns or rebuilds, so that a rebuild sees
+	// all of the patterns, and no pattern is added to a Matcher which is about to be replaced. It is acquired
+	// before lock; goroutines which are just matching don't wait for it.
+	updating sync.Mutex
+
+	// current holds, for each x that has been added and not deleted, what stands for it in Matcher. Protected
+	// by updating.
+	current map[X]*prunerX
+}
+
+// prunerX stands for an X in the underlying Matcher from the time it's added until it's deleted. If it's then added
+// again, there'll be a different prunerX for it, so that patterns from before the deletion, still in the Matcher
+// until the next rebuild, aren't mistaken for live ones.
+type prunerX struct {
+	x       X
+	deleted atomic.Bool
 }
 
 var defaultRebuildTrigger = newTooMuchFiltering(0.2, 1000)
@@ -174,6 +192,7 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 		Matcher:        newCoreMatcher(),
 		live:           s,
 		rebuildTrigger: &trigger,
+		current:        make(map[X]*prunerX),
 	}
 }
 
@@ -181,7 +200,7 @@ func newPrunerMatcher(s LivePatternsState) *prunerMatcher {
 // trigger said to do that.  If rebuildTrigger is nil, no rebuildWhileLocked is
 // executed.
 //
-// This method assumes the caller has a write lock.
+// This method assumes the caller has a write lock, and the updating lock.
 func (m *prunerMatcher) maybeRebuild(added bool) error {
 	if m.rebuildTrigger == nil {
 		return nil
@@ -193,46 +212,66 @@ func (m *prunerMatcher) maybeRebuild(added bool) error {
 	return nil
 }
 
+// prunerXFor finds, or makes, what stands for x in the Matcher. The caller must hold the updating lock
+func (m *prunerMatcher) prunerXFor(x X) *prunerX {
+	px, ok := m.current[x]
+	if !ok {
+		px = &prunerX{x: x}
+		m.current[x] = px
+	}
+	return px
+}
+
 // addPattern calls the underlying quamina.coreMatcher.addPattern
 // method and then maybe rebuilds the index (if the addPattern
 // succeeded).
 func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode) error {
-	var err error
+	m.updating.Lock()
+	defer m.updating.Unlock()
 
 	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
-	if err = m.Matcher.addPattern(x, pat, buildMode); err == nil {
-		m.lock.Lock()
-		m.stats.Added++
-		m.stats.Live++
-		_ = m.maybeRebuild(true)
-		m.lock.Unlock()
-		err = m.live.Add(x, pat, buildMode)
-		// ToDo: Contemplate what do to about an error here
-		// (or if we got an error from addPattern after we did
-		// live.Add.
+	if err := m.Matcher.addPattern(m.prunerXFor(x), pat, buildMode); err != nil {
+		return err
 	}
+	// ToDo: Contemplate what do to about an error here
+	// (or if we got an error from addPattern after we did
+	// live.Add.
+	err := m.live.Add(x, pat, buildMode)
+
+	m.lock.Lock()
+	m.stats.Added++
+	m.stats.Live++
+	_ = m.maybeRebuild(true)
+	m.lock.Unlock()
 
 	return err
 }
 
 // MatchesForJSONEvent calls MatchesForFields with a new Flattener.
 func (m *prunerMatcher) MatchesForJSONEvent(event []byte) ([]X, error) {
-	fs, err := newJSONFlattener().Flatten(event, m.Matcher.fields().segmentsTree)
+	fs, err := newJSONFlattener().Flatten(event, m.getSegmentsTreeTracker())
 	if err != nil {
 		return nil, err
 	}
 	return m.matchesForFields(fs, newNfaBuffers())
 }
 
+// matcher returns the current underlying Matcher
+func (m *prunerMatcher) matcher() *coreMatcher {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	return m.Matcher
+}
+
 func (m *prunerMatcher) getStats() *matcherStats {
-	return m.Matcher.getStats()
+	return m.matcher().getStats()
 }
 
 // MatchesForFields calls the underlying
 // quamina.coreMatcher.matchesForFields and then maybe rebuilds the
 // index.
 func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, error) {
-	xs, err := m.Matcher.matchesForFields(fields, bufs)
+	xs, err := m.matcher().matchesForFields(fields, bufs)
 	if err != nil {
 		return nil, err
 	}
@@ -242,34 +281,54 @@ func (m *prunerMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X,
 	acc := make([]X, 0, len(xs))
 
 	var emitted, filtered int64
-	for _, x := range xs {
-		have, err := m.live.Contains(x)
-		if err != nil {
-			return nil, err
+	for _, found := range xs {
+		px := found.(*prunerX)
+		have := false
+		if !px.deleted.Load() {
+			have, err = m.live.Contains(px.x)
+			if err != nil {
+				return nil, err
+			}
 		}
 		if !have {
 			filtered++
 			continue
 		}
-		acc = append(acc, x)
+		acc = append(acc, px.x)
 		emitted++
 	}
 
 	m.lock.Lock()
 	m.stats.Filtered += filtered
 	m.stats.Emitted += emitted
-	_ = m.maybeRebuild(false)
+	wantRebuild := m.rebuildTrigger != nil && m.rebuildTrigger.rebuild(false, &m.stats)
 	m.lock.Unlock()
 
+	if wantRebuild {
+		m.updating.Lock()
+		m.lock.Lock()
+		// another goroutine may have done it in the meantime, so ask again
+		_ = m.maybeRebuild(false)
+		m.lock.Unlock()
+		m.updating.Unlock()
+	}
+
 	return acc, nil
 }
 
 // DeletePattern removes the pattern from the index and maybe rebuilds
 // the index.
 func (m *prunerMatcher) deletePatterns(x X) error {
+	m.updating.Lock()
+	defer m.updating.Unlock()
+
 	n, err := m.live.Delete(x)
 	if err == nil {
 		if 0 < n {
+			if px, ok := m.current[x]; ok {
+				px.deleted.Store(true)
+				delete(m.current, x)
+			}
 			m.lock.Lock()
 			m.stats.Deleted += n
 			m.stats.Live -= n
@@ -288,15 +347,17 @@ func (m *prunerMatcher) deletePatterns(x X) error {
 //
 // This method resets the prunerStats.
 func (m *prunerMatcher) rebuild(fearlessly bool) error {
+	m.updating.Lock()
+	defer m.updating.Unlock()
 	m.lock.Lock()
 	err := m.rebuildWhileLocked(fearlessly)
 	m.lock.Unlock()
 	return err
 }
 
-// rebuildWhileLocked is rebuild but assumes having the lock.
+// rebuildWhileLocked is rebuild but assumes having the locks.
 func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
-	// We assume we have the lock.
+	// We assume we have the locks, both lock and updating.
 
 	// Nothing fancy here now.
 
@@ -312,7 +373,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 
 	count := 0
 	err := m.live.Iterate(func(x X, p string, buildMode MatcherBuildMode) error {
-		err := m1.addPattern(x, p, buildMode)
+		err := m1.addPattern(m.prunerXFor(x), p, buildMode)
 		if err == nil {
 			count++
 		}
@@ -343,5 +404,5 @@ func (m *prunerMatcher) getPrunerStats() prunerStats {
 }
 
 func (m *prunerMatcher) getSegmentsTreeTracker() SegmentsTreeTracker {
-	return m.Matcher.getSegmentsTreeTracker()
+	return m.matcher().getSegmentsTreeTracker()
 }
-- 
2.43.0


From ecf248a5e3eeb300dc57ddefb885cfbbb4a9caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 29/43] fix: keep the build mode when copying an instance

---
 quamina.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quamina.go b/quamina.go
index 74a8a0e..26462cb 100644
--- a/quamina.go
+++ b/quamina.go
@@ -116,7 +116,7 @@ func New(opts ...Option) (*Quamina, error) {
 // goroutines.  Copy'ed instances share the same underlying data structures, so a pattern added to any instance
 // with AddPattern will be visible in all of them.
 func (q *Quamina) Copy() *Quamina {
-	return &Quamina{matcher: q.matcher, flattener: q.flattener.Copy(), bufs: newNfaBuffers()}
+	return &Quamina{matcher: q.matcher, flattener: q.flattener.Copy(), bufs: newNfaBuffers(), buildMode: q.buildMode}
 }
 
 // X is used in the AddPattern and MatchesForEvent APIs to identify the patterns that are added to
-- 
2.43.0


From 2404d3f815406965907ee113e45860a1c8d3b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 30/43] fix: don't take a field that wasn't looked for as
 absent

While an AddPattern in another goroutine brings a path into use, an event
flattened before that has no field for it, and so matched exists:false
patterns, although the event has such a field.
---
 core_matcher.go  |  4 +++-
 nfa.go           |  2 ++
 quamina.go       |  4 +++-
 segments_tree.go | 13 +++++++++++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/core_matcher.go b/core_matcher.go
index 952d05b..e4c735b 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -268,7 +268,9 @@ func checkExistsFalse(stateFields *fmFields, fields []Field, index int, matches
 				break
 			}
 		}
-		if i == len(fields) {
+		// if the path has come into use since the event was flattened, because of an AddPattern running in
+		// parallel, the flattener wasn't looking for it, so that it's not in fields doesn't tell anything
+		if i == len(fields) && (bufs.tracker == nil || isPathUsed(bufs.tracker, existsFalsePath)) {
 			matches = matches.addXSingleThreaded(existsFalseTrans.fields().matches...)
 			if thisFieldIsAnExistsFalse {
 				tryToMatch(fields, index+1, existsFalseTrans, matches, bufs)
diff --git a/nfa.go b/nfa.go
index 37a1b1d..f3b7a75 100644
--- a/nfa.go
+++ b/nfa.go
@@ -111,6 +111,8 @@ type nfaBuffers struct {
 	transmap       *transmap
 	fieldSet       map[*fieldMatcher]bool
 	qNumBuf        [MaxBytesInEncoding]byte
+	// tracker is the one the event's fields were selected with, if known
+	tracker SegmentsTreeTracker
 }
 
 func newNfaBuffers() *nfaBuffers {
diff --git a/quamina.go b/quamina.go
index 26462cb..ab5f9fa 100644
--- a/quamina.go
+++ b/quamina.go
@@ -144,10 +144,12 @@ func (q *Quamina) DeletePatterns(x X) error {
 // if no patterns match. error can be returned in case that the event is not a valid JSON object or contains
 // invalid UTF-8 byte sequences.
 func (q *Quamina) MatchesForEvent(event []byte) ([]X, error) {
-	fields, err := q.flattener.Flatten(event, q.matcher.getSegmentsTreeTracker())
+	tracker := q.matcher.getSegmentsTreeTracker()
+	fields, err := q.flattener.Flatten(event, tracker)
 	if err != nil {
 		return nil, err
 	}
+	q.bufs.tracker = tracker
 	return q.matcher.matchesForFields(fields, q.bufs)
 }
 
diff --git a/segments_tree.go b/segments_tree.go
index a927330..0c82cb8 100644
--- a/segments_tree.go
+++ b/segments_tree.go
@@ -123,6 +123,19 @@ func (p *segmentsTree) FieldsCount() int {
 	return len(p.fields)
 }
 
+// isPathUsed tells if a tracker is aware of a path, as provided to segmentsTree.add
+func isPathUsed(tracker SegmentsTreeTracker, path string) bool {
+	segment, rest, found := strings.Cut(path, SegmentSeparator)
+	for found {
+		var ok bool
+		if tracker, ok = tracker.Get([]byte(segment)); !ok {
+			return false
+		}
+		segment, rest, found = strings.Cut(rest, SegmentSeparator)
+	}
+	return tracker.PathForSegment([]byte(segment)) != nil
+}
+
 // String used for debugging purposes
 func (p *segmentsTree) String() string {
 	nodeNames := make([]string, 0)
-- 
2.43.0


From 799a563d127dd2a78b344b906f89fe362b861c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 31/43] fix: don't take the last character of a prefix for the
 end of the value

The prefix `ab\"` matched the string ab, because the quotation mark at its
end matched the one which ends the string.
---
 value_matcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value_matcher.go b/value_matcher.go
index 67083f2..5477fec 100644
--- a/value_matcher.go
+++ b/value_matcher.go
@@ -206,6 +206,11 @@ func makeOnePrefixFAStep(val []byte, index int, nextField *fieldMatcher) smallTa
 	var nextState *faState
 	if index == len(val)-2 {
 		nextState = &faState{table: newSmallTable(), fieldTransitions: []*fieldMatcher{nextField}}
+		// if the prefix ends with ", that mustn't be taken for the closing " of a value that is one character
+		// shorter, so something has to follow it
+		if index > 0 && val[index] == '"' {
+			nextState = &faState{table: makeSmallTable(nextState, []byte{valueTerminator}, []*faState{nil})}
+		}
 	} else {
 		nextState = &faState{table: makeOnePrefixFAStep(val, index+1, nextField)}
 	}
-- 
2.43.0


From fac1881c4c69ee5b398d50a14b55670d4c5d755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 32/43] fix: let U+10FFFE and U+10FFFF have the properties Cn
 and C

The table generator dropped the last range of unassigned characters.
---
 character_properties.go          | 7 ++++---
 code_gen/build_unicode_tables.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/character_properties.go b/character_properties.go
index ffd22be..1729ee7 100644
--- a/character_properties.go
+++ b/character_properties.go
@@ -259,6 +259,7 @@ var characterProperties = map[string]RuneRange{
 		{0xe0001, 0xe0001}, {0xe0002, 0xe001f}, {0xe0020, 0xe007f},
 		{0xe0080, 0xe00ff}, {0xe01f0, 0xeffff}, {0xf0000, 0xffffd},
 		{0xffffe, 0xfffff}, {0x100000, 0x10fffd},
+		{0x10fffe, 0x10ffff},
 	},
 	"Cc": {
 		{0x0000, 0x001f}, {0x007f, 0x009f},
@@ -517,7 +518,7 @@ var characterProperties = map[string]RuneRange{
 		{0x2b81e, 0x2b81f}, {0x2ceae, 0x2ceaf}, {0x2ebe1, 0x2ebef},
 		{0x2ee5e, 0x2f7ff}, {0x2fa1e, 0x2ffff}, {0x3134b, 0x3134f},
 		{0x3347a, 0xe0000}, {0xe0002, 0xe001f}, {0xe0080, 0xe00ff},
-		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff},
+		{0xe01f0, 0xeffff}, {0xffffe, 0xfffff}, {0x10fffe, 0x10ffff},
 	},
 	"Co": {
 		{0xe000, 0xf8ff}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
@@ -3105,7 +3106,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x1fb00, 0x1fb92}, {0x1fb94, 0x1fbfa}, {0x20000, 0x2a6df},
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
-		{0x31350, 0x33479}, {0xe0100, 0xe01ef}, {0x10fffe, 0x10ffff},
+		{0x31350, 0x33479}, {0xe0100, 0xe01ef},
 	},
 	"Cc": {
 		{0x0020, 0x007e}, {0x00a0, 0x10ffff},
@@ -3365,7 +3366,7 @@ var negatedProperties = map[string]RuneRange{
 		{0x2a700, 0x2b81d}, {0x2b820, 0x2cead}, {0x2ceb0, 0x2ebe0},
 		{0x2ebf0, 0x2ee5d}, {0x2f800, 0x2fa1d}, {0x30000, 0x3134a},
 		{0x31350, 0x33479}, {0xe0001, 0xe0001}, {0xe0020, 0xe007f},
-		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10ffff},
+		{0xe0100, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10fffd},
 	},
 	"Co": {
 		{0x0000, 0xdfff}, {0xf900, 0xeffff}, {0xffffe, 0xfffff},
diff --git a/code_gen/build_unicode_tables.go b/code_gen/build_unicode_tables.go
index 215ff19..6a1a47f 100644
--- a/code_gen/build_unicode_tables.go
+++ b/code_gen/build_unicode_tables.go
@@ -87,7 +87,7 @@ func buildCharPropsTable() {
 	}
 
 	// let's waste some memory by just making an array for every codepoint
-	var props [runeMax]string
+	var props [runeMax + 1]string
 
 	// Cn means unassigned, which we assume everything is until it isn't
 	for i := range props {
@@ -146,6 +146,7 @@ func buildCharPropsTable() {
 			currentProp = props[i]
 		}
 	}
+	recordPair(currentStartsAt, rune(len(props)-1), currentProp, doubles)
 
 	// now record the single-letter properties
 	singles := make(map[string]quamina.RuneRange)
-- 
2.43.0


From 91ed48eaae881816e269c0288348e4953d00b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 33/43] fix: refuse an object or array in an anything-but list

---
 anything_but.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anything_but.go b/anything_but.go
index ea43f68..c85d694 100644
--- a/anything_but.go
+++ b/anything_but.go
@@ -35,6 +35,7 @@ func readAnythingButSpecial(pb *patternBuild, valsIn []typedVal) (pathVals []typ
 				done = true
 			} else {
 				err = fmt.Errorf("spurious %c in anything-but list", tt)
+				return
 			}
 		case string:
 			fieldCount++
-- 
2.43.0


From 657f716f6522e49309140ac0c7aee8d5e801daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 34/43] fix: refuse a wildcard that ends in * and a lone
 backslash

---
 wildcard.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wildcard.go b/wildcard.go
index b770027..2b56f82 100644
--- a/wildcard.go
+++ b/wildcard.go
@@ -26,14 +26,11 @@ func readWildcardSpecial(pb *patternBuild, valsIn []typedVal) ([]typedVal, error
 	}
 	inBytes := []byte(wcInput)
 	state := wcChilling
-	for i, b := range inBytes {
+	for _, b := range inBytes {
 		switch state {
 		case wcChilling:
 			switch b {
 			case '\\':
-				if i == len(inBytes)-1 {
-					return nil, errors.New("'\\' at end of string not allowed")
-				}
 				state = wcAfterBS
 			case '*':
 				state = wcAfterGlob
@@ -56,6 +53,9 @@ func readWildcardSpecial(pb *patternBuild, valsIn []typedVal) ([]typedVal, error
 			}
 		}
 	}
+	if state == wcAfterBS {
+		return nil, errors.New("'\\' at end of string not allowed")
+	}
 	pathVals = append(pathVals, typedVal{vType: wildcardType, val: `"` + wcInput + `"`})
 
 	t, err = pb.jd.Token()
-- 
2.43.0


From 02d98dbcb2904a353db37946e6b0ff09b2fbbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 35/43] fix: count what is behind single values and exists in
 the statistics

---
 matcher.go     |  1 +
 memory_cost.go | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/matcher.go b/matcher.go
index ac367eb..fb097ab 100644
--- a/matcher.go
+++ b/matcher.go
@@ -14,4 +14,5 @@ type matcherStats struct {
 	fanouts    int64
 	maxFanout  int64
 	seenStates map[*faState]bool
+	seenFields map[*fieldMatcher]bool
 }
diff --git a/memory_cost.go b/memory_cost.go
index 566a795..c66c012 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -11,23 +11,38 @@ var mcFaStateBase = int64(unsafe.Sizeof(faState{}))
 func (m *coreMatcher) getStats() *matcherStats {
 	stats := &matcherStats{
 		seenStates: make(map[*faState]bool),
+		seenFields: make(map[*fieldMatcher]bool),
 	}
 	cmFieldMatcherStats(m.fields().state, stats, nil)
 	return stats
 }
 
 func cmFieldMatcherStats(fm *fieldMatcher, stats *matcherStats, pp printer) {
-	fmTrans := fm.fields().transitions
-	for _, vm := range fmTrans {
-		singleton := vm.fields().singletonMatch
-		if singleton != nil {
-			stats.bytes += int64(cap(singleton))
+	if stats.seenFields[fm] {
+		return
+	}
+	if stats.seenFields == nil {
+		stats.seenFields = make(map[*fieldMatcher]bool)
+	}
+	stats.seenFields[fm] = true
+
+	fields := fm.fields()
+	for _, vm := range fields.transitions {
+		vmFields := vm.fields()
+		if vmFields.singletonMatch != nil {
+			stats.bytes += int64(cap(vmFields.singletonMatch))
+			cmFieldMatcherStats(vmFields.singletonTransition, stats, pp)
 		}
-		start := vm.fields().start
-		if start == nil {
+		if vmFields.start == nil {
 			continue
 		}
-		cmStateStats(start, stats, pp)
+		cmStateStats(vmFields.start, stats, pp)
+	}
+	for _, trans := range fields.existsTrue {
+		cmFieldMatcherStats(trans, stats, pp)
+	}
+	for _, trans := range fields.existsFalse {
+		cmFieldMatcherStats(trans, stats, pp)
 	}
 }
 
-- 
2.43.0


From 122430eaec51351ebd98955929f8d7175b710461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 36/43] fix: don't read statistics while AddPattern is
 computing epsilon closures

---
 memory_cost.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memory_cost.go b/memory_cost.go
index c66c012..b8833c2 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -9,6 +9,10 @@ var mcSmallTableBase = int64(unsafe.Sizeof(smallTable{})) // should include 3* s
 var mcFaStateBase = int64(unsafe.Sizeof(faState{}))
 
 func (m *coreMatcher) getStats() *matcherStats {
+	// addPattern may be computing the epsilon closures of states that are already in use
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	stats := &matcherStats{
 		seenStates: make(map[*faState]bool),
 		seenFields: make(map[*fieldMatcher]bool),
-- 
2.43.0


From 1655c156938ee1711783528e291821fde28cc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:34 +0000
Subject: [PATCH 37/43] fix: don't lock for statistics, which is documented not
 to be done in parallel with AddPattern

Takes back 122430e: GetMatcherStats is said to run without mutex locking.
---
 memory_cost.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/memory_cost.go b/memory_cost.go
index b8833c2..c66c012 100644
--- a/memory_cost.go
+++ b/memory_cost.go
@@ -9,10 +9,6 @@ var mcSmallTableBase = int64(unsafe.Sizeof(smallTable{})) // should include 3* s
 var mcFaStateBase = int64(unsafe.Sizeof(faState{}))
 
 func (m *coreMatcher) getStats() *matcherStats {
-	// addPattern may be computing the epsilon closures of states that are already in use
-	m.lock.Lock()
-	defer m.lock.Unlock()
-
 	stats := &matcherStats{
 		seenStates: make(map[*faState]bool),
 		seenFields: make(map[*fieldMatcher]bool),
-- 
2.43.0


From b6d0b49a119389e2ec0e6b0d22fbefa04b6be689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 38/43] fix: don't run out of stack merging automata for long
 values

---
 nfa.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/nfa.go b/nfa.go
index f3b7a75..2632c40 100644
--- a/nfa.go
+++ b/nfa.go
@@ -504,9 +504,12 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 	var iter1, iter2 stIterator
 	iter1.table = &state1.table
 	iter2.table = &state2.table
-	var uComb unpackedTable
-	var merged *faState
+	var merged, lastStep *faState
+	ceilings := make([]byte, 0, 16)
+	steps := make([]*faState, 0, 16)
 
+	// The combined table is put together as we go. An unpackedTable would make for a large stack frame, and for long
+	// values there are many of those: the recursion is as deep as what the two automata have in common is long.
 	for i := 0; i < byteCeiling; i++ {
 		next1 := iter1.nextState()
 		next2 := iter2.nextState()
@@ -520,19 +523,11 @@ func mergeFAStates(state1, state2 *faState, keyMemo map[faStepKey]*faState, pp p
 		default: // have to recurse & merge
 			merged = mergeFAStates(next1, next2, keyMemo, pp)
 		}
-		uComb[i] = merged
-	}
-
-	ceilings := make([]byte, 0, 16)
-	steps := make([]*faState, 0, 16)
-	lastStep := uComb[0]
-
-	for unpackedIndex, ss := range uComb {
-		if ss != lastStep {
-			ceilings = append(ceilings, byte(unpackedIndex))
+		if i > 0 && merged != lastStep {
+			ceilings = append(ceilings, byte(i))
 			steps = append(steps, lastStep)
 		}
-		lastStep = ss
+		lastStep = merged
 	}
 	ceilings = append(ceilings, byte(byteCeiling))
 	steps = append(steps, lastStep)
-- 
2.43.0


From 6669b7fcf786060b7689db9d4ae057cd2987a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 39/43] fix: don't run out of stack reading arrays nested in
 arrays

---
 flatten_json.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/flatten_json.go b/flatten_json.go
index a0f3b85..0d2b353 100644
--- a/flatten_json.go
+++ b/flatten_json.go
@@ -370,6 +370,7 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 
 	state := fjInArrayState
 	isLeaf := false
+	nested := 0 // how many arrays we're in that are elements of this one, or elements of its elements, etc.
 	for {
 		ch := fj.ch()
 		var val []byte // resets on each loop
@@ -417,15 +418,27 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 				if fj.skipping == 0 {
 					fj.stepOneArrayElement()
 				}
-				err = fj.readArray(pathName, pathNode)
-				if err != nil {
+				// no recursion here: there's no limit to how deep arrays may be nested
+				if err = fj.step(); err != nil {
 					return err
 				}
+				if fj.skipping == 0 {
+					fj.enterArray()
+				}
+				nested++
+				state = fjInArrayState
+				continue
 			case ']':
 				if state == fjNextElementState {
 					return fj.error("illegal character ] after comma in array")
 				}
-				return nil
+				if nested == 0 {
+					return nil
+				}
+				nested--
+				if fj.skipping == 0 {
+					fj.leaveArray()
+				}
 			default:
 				return fj.error(fmt.Sprintf("illegal character %c in array", ch))
 			}
@@ -448,7 +461,13 @@ func (fj *flattenJSON) readArray(pathName []byte, pathNode SegmentsTreeTracker)
 			case fj.isSpace[ch]:
 				// no-op
 			case ch == ']':
-				return nil
+				if nested == 0 {
+					return nil
+				}
+				nested--
+				if fj.skipping == 0 {
+					fj.leaveArray()
+				}
 			case ch == ',':
 				state = fjNextElementState
 			default:
-- 
2.43.0


From 10e49f739065ce98258be796c3509eb2db2a75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 40/43] fix: an AddPattern that is refused leaves nothing
 behind when pattern deletion is on

---
 pruner.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pruner.go b/pruner.go
index 6838a9b..2baac7b 100644
--- a/pruner.go
+++ b/pruner.go
@@ -212,12 +212,12 @@ func (m *prunerMatcher) maybeRebuild(added bool) error {
 	return nil
 }
 
-// prunerXFor finds, or makes, what stands for x in the Matcher. The caller must hold the updating lock
+// prunerXFor finds, or makes, what stands for x in the Matcher. The caller must hold the updating lock, and put it
+// in m.current once a pattern has been added for it.
 func (m *prunerMatcher) prunerXFor(x X) *prunerX {
 	px, ok := m.current[x]
 	if !ok {
 		px = &prunerX{x: x}
-		m.current[x] = px
 	}
 	return px
 }
@@ -230,9 +230,11 @@ func (m *prunerMatcher) addPattern(x X, pat string, buildMode MatcherBuildMode)
 	defer m.updating.Unlock()
 
 	// Do we m.live.Add first or do we m.prunerMatcher.addPattern first?
-	if err := m.Matcher.addPattern(m.prunerXFor(x), pat, buildMode); err != nil {
+	px := m.prunerXFor(x)
+	if err := m.Matcher.addPattern(px, pat, buildMode); err != nil {
 		return err
 	}
+	m.current[x] = px
 	// ToDo: Contemplate what do to about an error here
 	// (or if we got an error from addPattern after we did
 	// live.Add.
@@ -373,8 +375,10 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 
 	count := 0
 	err := m.live.Iterate(func(x X, p string, buildMode MatcherBuildMode) error {
-		err := m1.addPattern(m.prunerXFor(x), p, buildMode)
+		px := m.prunerXFor(x)
+		err := m1.addPattern(px, p, buildMode)
 		if err == nil {
+			m.current[x] = px
 			count++
 		}
 		return err
-- 
2.43.0


From 4d9f00fe7a951429b72ac046b835f33a676643e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 41/43] fix: count the emitted patterns since the last rebuild,
 as documented, so that garbage is noticed however much traffic there has been

---
 pruner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pruner.go b/pruner.go
index 2baac7b..d71fc41 100644
--- a/pruner.go
+++ b/pruner.go
@@ -390,6 +390,7 @@ func (m *prunerMatcher) rebuildWhileLocked(fearlessly bool) error {
 		m.stats.Live = count
 		m.stats.Added = 0
 		m.stats.Deleted = 0
+		m.stats.Emitted = 0
 		m.stats.Filtered = 0
 		m.stats.LastRebuilt = then
 		m.stats.RebuildDuration = time.Since(then)
-- 
2.43.0


From f02abaf686621b61ecf785527ce8a4c8d33f3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 42/43] fix: look for an identifier among the live patterns
 without going through all of them

---
 live_pattern_state.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/live_pattern_state.go b/live_pattern_state.go
index dd35a04..fb06fe6 100644
--- a/live_pattern_state.go
+++ b/live_pattern_state.go
@@ -35,26 +35,32 @@ type memStateEntry struct {
 type memState struct {
 	lock    sync.RWMutex
 	entries []memStateEntry
+
+	// howMany is the count of the entries for each x, so that Contains doesn't have to look at all of them
+	howMany map[X]int
 }
 
 func newMemState() *memState {
-	return &memState{}
+	return &memState{howMany: make(map[X]int)}
 }
 func (s *memState) Add(x X, pattern string, buildMode MatcherBuildMode) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	s.entries = append(s.entries, memStateEntry{x, pattern, buildMode})
+	s.howMany[x]++
 	return nil
 }
 func (s *memState) Delete(x X) (int, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	howMany := 0
+	howMany := s.howMany[x]
+	if howMany == 0 {
+		return 0, nil
+	}
+	delete(s.howMany, x)
 	var newEntries []memStateEntry
 	for _, entry := range s.entries {
-		if entry.x == x {
-			howMany++
-		} else {
+		if entry.x != x {
 			newEntries = append(newEntries, entry)
 		}
 	}
@@ -63,14 +69,9 @@ func (s *memState) Delete(x X) (int, error) {
 }
 
 func (s *memState) Contains(x X) (bool, error) {
-	s.lock.Lock()
-	defer s.lock.Unlock()
-	for _, entry := range s.entries {
-		if entry.x == x {
-			return true, nil
-		}
-	}
-	return false, nil
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.howMany[x] > 0, nil
 }
 func (s *memState) Iterate(f func(x X, pattern string, buildMode MatcherBuildMode) error) error {
 	s.lock.Lock()
-- 
2.43.0


From 0ce02a48b52010e19c0da5790df4af4b9c73a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 43/43] fix: compare the array elements of all matched fields,
 not just of neighbours

Fields in different elements of one array matched together if the field
matched between them, in order of path, was outside of that array.
---
 core_matcher.go | 12 ++++++++++++
 nfa.go          |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/core_matcher.go b/core_matcher.go
index e4c735b..fcb0ee5 100644
--- a/core_matcher.go
+++ b/core_matcher.go
@@ -192,6 +192,7 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 	if tm := bufs.transmap; tm != nil {
 		tm.resetDepth()
 	}
+	bufs.matched = bufs.matched[:0]
 	cmFields := m.fields()
 
 	// for each of the fields, we'll try to match the automaton start state to that field - the tryToMatch
@@ -208,12 +209,20 @@ func (m *coreMatcher) matchesForFields(fields []Field, bufs *nfaBuffers) ([]X, e
 // 1 or more transitions to other states, it calls itself recursively to see if any of the remaining fields
 // can continue the process by matching that state.
 func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSet, bufs *nfaBuffers) {
+	// the caller has seen to it that this field isn't in a different element of the same array as the field
+	// matched last, but that one may be outside the arrays which those matched before it are in
+	for _, matched := range bufs.matched {
+		if !noArrayTrailConflict(fields[matched].ArrayTrail, fields[index].ArrayTrail) {
+			return
+		}
+	}
 	stateFields := state.fields()
 
 	// transition on exists:true?
 	existsTrans, ok := stateFields.existsTrue[string(fields[index].Path)]
 	if ok {
 		matches = matches.addXSingleThreaded(existsTrans.fields().matches...)
+		bufs.matched = append(bufs.matched, index)
 		for nextIndex := index + 1; nextIndex < len(fields); nextIndex++ {
 			if noArrayTrailConflict(fields[index].ArrayTrail, fields[nextIndex].ArrayTrail) {
 				tryToMatch(fields, nextIndex, existsTrans, matches, bufs)
@@ -221,6 +230,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 		}
 		// as below: there may be no more fields, with an exists:false still to be considered
 		checkExistsFalse(existsTrans.fields(), fields, index, matches, bufs)
+		bufs.matched = bufs.matched[:len(bufs.matched)-1]
 	}
 
 	// an exists:false transition is possible if there is no matching field in the event
@@ -232,6 +242,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 	nextStates := tm.hold(state.transitionOn(&fields[index], bufs))
 
 	// for each state in the possibly-empty list of transitions from this state on fields[index]
+	bufs.matched = append(bufs.matched, index)
 	for _, nextState := range nextStates {
 		nextStateFields := nextState.fields()
 		matches = matches.addXSingleThreaded(nextStateFields.matches...)
@@ -249,6 +260,7 @@ func tryToMatch(fields []Field, index int, state *fieldMatcher, matches *matchSe
 		// fields and that in fact such a field does not exist. That state would be left hanging. So…
 		checkExistsFalse(nextStateFields, fields, index, matches, bufs)
 	}
+	bufs.matched = bufs.matched[:len(bufs.matched)-1]
 	tm.pop()
 }
 
diff --git a/nfa.go b/nfa.go
index 2632c40..aba206c 100644
--- a/nfa.go
+++ b/nfa.go
@@ -113,6 +113,8 @@ type nfaBuffers struct {
 	qNumBuf        [MaxBytesInEncoding]byte
 	// tracker is the one the event's fields were selected with, if known
 	tracker SegmentsTreeTracker
+	// matched has the indexes of the event's fields that were matched on the way to the current fieldMatcher
+	matched []int
 }
 
 func newNfaBuffers() *nfaBuffers {
-- 
2.43.0

