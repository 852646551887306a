From f21adcb5a38811408b86c7134a368b0336868e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:12 +0000
Subject: [PATCH 01/61] fix: frame nested nodes by child count when hashing
 field values

FieldValues.ID did not mark where a nested node ends, so {a:{b,c}} and
{a:{b},c} had the same identity and the de-duplicating TestResult encoding
replaced one by the other.
---
 lens/types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..c8f2814 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -643,6 +643,8 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(fv.Children)))
+				hash.Write(lenBuf[:]) // child count so following siblings can't shift into the node
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From 468b34ab1a3d2d46166325e6d4e41d421f27740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:55 +0000
Subject: [PATCH 02/61] fix: do not wait forever for a state message with an
 unknown point id

HandleFuncPointState registered with the wait group before it looked the point
up and returned without Done for an unknown id, so collecting the test result
never finished.
---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..bad8e9f 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -698,8 +698,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -731,6 +729,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		storageKey = *callerIdent
 	}
 
+	t.wait.Add(1) // done in routine
 	lock := t.pointLocks.Lock(storageKey)
 	go func() {
 		defer t.wait.Done()
-- 
2.43.0


From 0faae9cb9e2cde34360d3060573285581a2c069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:55 +0000
Subject: [PATCH 03/61] fix: omit empty test reports for tests without
 pre-update results

CompareTestResults skipped such tests but left a zero TestReport in their
place, which the report listed as a test with no name.
---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..e78c33b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From 878de8ecd19017aca0993166ddfe7489bb28528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:55 +0000
Subject: [PATCH 04/61] fix: report the most significant time change of a
 caller

A small improvement after a large regression (or the reverse) replaced it,
because any negative difference compared as more significant than a positive
one.
---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index e78c33b..db81bd1 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -504,9 +504,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"WARN: %s->%s Performance regression detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant regression (largest positive interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if timeDiff > mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
@@ -520,9 +520,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"%s->%s Performance improvement detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant improvement (largest negative interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if mostSignificantTimeChange.TimeDiff == 0 || timeDiff < mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
-- 
2.43.0


From a183b7f5b32226975f68a6beac7168de91304563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 05/61] fix: load stored values in one transaction and report
 empty values as found

A load running while the value was overwritten combined the marker of one
value with the parts of another, and a saved empty value was reported as
missing.
---
 lens/storage.go | 67 +++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..bcf6d79 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -291,7 +291,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var found bool
+	var stored []byte
+	var decompressedSize int
+	// single transaction so that a concurrent overwrite can't mix the parts of two values
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -300,53 +303,51 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+		found = true // also for an empty value
+		if err := item.Value(func(v []byte) error {
+			stored = append([]byte(nil), v...)
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if raw == nil {
-		return nil, false, nil
-	}
+		}); err != nil {
+			return err
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		m := splitRe.FindSubmatch(stored)
+		if m == nil {
+			return nil // it was stored whole
+		}
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From f3e0242b0393417b60e7e2d219d697bee9f38617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:37 +0000
Subject: [PATCH 06/61] fix: store values that look like a split marker as a
 part

Such a value was stored as is and then misread as a marker on load, overwrite
and delete.
---
 lens/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index bcf6d79..44e2561 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -261,8 +261,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			return err
 		}
 
-		// if small enough, write in one piece
-		if len(storeBlob) <= badgerSplitLimit {
+		// if small enough, write in one piece (unless it would be mistaken for a split marker)
+		if len(storeBlob) <= badgerSplitLimit && !splitRe.Match(storeBlob) {
 			return txn.Set(mainKey, storeBlob)
 		}
 
-- 
2.43.0


From dbd944426900b66d0466c2658d7b4a8794cde3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:39 +0000
Subject: [PATCH 07/61] fix: detect cycles through interfaces and pointers by
 value identity

A pointer or interface that refers to itself was unwrapped forever, a cycle
through interfaces was repeated up to the depth limit at every level, and
empty slices or pointers to a first field were reported as cycles.
---
 lens/astclient.go | 62 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..e1971b0 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -235,7 +235,30 @@ func (lw *lensMsgEncoder) writeStackFrames(frames []lensMonitorStackFrame) {
 	}
 }
 
-func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[uintptr]string, parentPath string) {
+// lensMonitorVisitKey identifies a visited reference. The address alone is ambiguous: a struct and its first field, or
+// slices of different length, may share it.
+type lensMonitorVisitKey struct {
+	addr   uintptr
+	typ    reflect.Type
+	length int
+}
+
+// lensMonitorVisit records the reference as visited, returning the path and true if it was already.
+func lensMonitorVisit(visited map[lensMonitorVisitKey]string, v reflect.Value, valuePath string) (string, bool) {
+	key := lensMonitorVisitKey{addr: v.Pointer(), typ: v.Type()}
+	if v.Kind() == reflect.Slice {
+		if key.length = v.Len(); key.length == 0 {
+			return "", false // can not be part of a cycle, and unrelated empty slices may share their address
+		}
+	}
+	if cycleName, ok := visited[key]; ok {
+		return cycleName, true
+	}
+	visited[key] = valuePath
+	return "", false
+}
+
+func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[lensMonitorVisitKey]string, parentPath string) {
 	var valuePath string
 	if parentPath == "" {
 		valuePath = name
@@ -246,22 +269,6 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	// Write name first (always needed)
 	lw.writeString(name)
 
-	// Cycle detection for pointers BEFORE unwrapping
-	// This catches self-referential pointers like n.Next = n
-	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
-		if visited == nil {
-			visited = make(map[uintptr]string)
-		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
-			lw.writeString(v.Type().String())
-			lw.writeByte(lensTypeTagString)
-			lw.writeString("<cycle:" + cycleName + ">")
-			return
-		}
-		visited[addr] = valuePath
-	}
-
 	// Unwrap interfaces and pointers
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
@@ -269,6 +276,19 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 			lw.writeByte(lensTypeTagNil)
 			return
 		}
+		// Cycle detection for every pointer BEFORE unwrapping it, also when held by an interface or another pointer
+		// This catches self-referential pointers like n.Next = n
+		if v.Kind() == reflect.Pointer {
+			if visited == nil {
+				visited = make(map[lensMonitorVisitKey]string)
+			}
+			if cycleName, ok := lensMonitorVisit(visited, v, valuePath); ok {
+				lw.writeString(v.Type().String())
+				lw.writeByte(lensTypeTagString)
+				lw.writeString("<cycle:" + cycleName + ">")
+				return
+			}
+		}
 		v = v.Elem()
 	}
 	if !v.IsValid() {
@@ -299,16 +319,14 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensMonitorVisitKey]string)
 		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
+		if cycleName, ok := lensMonitorVisit(visited, v, valuePath); ok {
 			lw.writeString(vType.String())
 			lw.writeByte(lensTypeTagString)
 			lw.writeString("<cycle:" + cycleName + ">")
 			return
 		}
-		visited[addr] = valuePath
 	}
 
 	lw.writeString(vType.String())
@@ -411,7 +429,7 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 }
 
 // streamValueSlice handles slice/array encoding with optimized paths for primitive element types.
-func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[uintptr]string, valuePath string) {
+func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[lensMonitorVisitKey]string, valuePath string) {
 	length := v.Len()
 	if length > lensMonitorFieldMaxLen {
 		length = lensMonitorFieldMaxLen
-- 
2.43.0


From b7394a33478cc05d1ffb44a79f71aef6ff7d286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:49 +0000
Subject: [PATCH 08/61] fix: capture the values of NaN map keys

---
 lens/astclient.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index e1971b0..624a736 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -379,20 +379,22 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 
 	case reflect.Map:
 		lw.writeByte(lensTypeTagMap)
-		keys := v.MapKeys()
-		if len(keys) <= lensMonitorFieldMaxLen {
-			// Fast path, size within limit, use undeterministic iteration order
-			lw.writeVarint(uint64(len(keys)))
-			for _, k := range keys {
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
-		} else { // Too many entries, sort keys for deterministic subset (similar to slices)
-			sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
-			lw.writeVarint(uint64(lensMonitorFieldMaxLen))
-			for i := 0; i < lensMonitorFieldMaxLen; i++ {
-				k := keys[i]
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
+		// Collected in one iteration, looking up a key later would not find NaN keys
+		keys := make([]reflect.Value, 0, v.Len())
+		vals := make([]reflect.Value, 0, v.Len())
+		for iter := v.MapRange(); iter.Next(); {
+			keys = append(keys, iter.Key())
+			vals = append(vals, iter.Value())
+		}
+		length := len(keys)
+		if length > lensMonitorFieldMaxLen {
+			// Too many entries, sort keys for deterministic subset (similar to slices)
+			sort.Sort(lensMapEntries{keys: keys, vals: vals})
+			length = lensMonitorFieldMaxLen
+		} // else fast path, size within limit, use undeterministic iteration order
+		lw.writeVarint(uint64(length))
+		for i := 0; i < length; i++ {
+			lw.streamField(fmt.Sprint(keys[i].Interface()), vals[i], depth+1, visited, valuePath)
 		}
 
 	case reflect.Struct:
@@ -535,6 +537,18 @@ func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type,
 	}
 }
 
+// lensMapEntries sorts map entries by key.
+type lensMapEntries struct {
+	keys, vals []reflect.Value
+}
+
+func (e lensMapEntries) Len() int           { return len(e.keys) }
+func (e lensMapEntries) Less(i, j int) bool { return lensCompareReflectValue(e.keys[i], e.keys[j]) < 0 }
+func (e lensMapEntries) Swap(i, j int) {
+	e.keys[i], e.keys[j] = e.keys[j], e.keys[i]
+	e.vals[i], e.vals[j] = e.vals[j], e.vals[i]
+}
+
 // lensCompareReflectValue compares two reflect.Value keys for sorting.
 // Keys in a map are guaranteed to be the same type, so we switch on kind once.
 func lensCompareReflectValue(a, b reflect.Value) int {
-- 
2.43.0


From f453ebd0431c7909dd943267c36a8c3ec5f430f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:49 +0000
Subject: [PATCH 09/61] fix: bound memory and nesting when decoding monitor
 messages

Counts and lengths in a received message were trusted for allocation, and
nested containers were decoded recursively without a limit, so a corrupt
message could exhaust memory or overflow the stack.
---
 lens/astsrv.go | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..e410a2b 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -237,8 +237,14 @@ type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current nesting of containers
 }
 
+const (
+	lensReaderMaxDepth  = 10_000   // limit on the nesting of received containers
+	lensReaderReadChunk = 64 << 10 // string bytes allocated ahead of being received
+)
+
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
 	return &lensReader{r: r, maxFieldLen: maxFieldLen}
 }
@@ -362,8 +368,19 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The count is not trusted, memory is only allocated as fields are received.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	if lr.depth >= lensReaderMaxDepth {
+		return nil, fmt.Errorf("field nesting exceeds maximum %d", lensReaderMaxDepth)
+	}
+	lr.depth++
+	defer func() { lr.depth-- }()
+	fields := make([]LensMonitorField, 0, min(count, 16))
 	for i := uint64(0); i < count; i++ {
+		fields = append(fields, LensMonitorField{})
 		if err := lr.readField(&fields[i]); err != nil {
 			return nil, err
 		}
@@ -465,25 +482,15 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	case lensTypeTagStruct:
 		count, err := lr.readVarint()
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -559,9 +566,16 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
-	buf := make([]byte, length)
-	if _, err := io.ReadFull(lr.r, buf); err != nil {
-		return "", err
+	// The length is not trusted, long strings are only allocated as they are received
+	buf := make([]byte, min(length, lensReaderReadChunk))
+	for read := 0; ; {
+		if _, err := io.ReadFull(lr.r, buf[read:]); err != nil {
+			return "", err
+		}
+		if read = len(buf); uint64(read) == length {
+			break
+		}
+		buf = append(buf, make([]byte, min(length-uint64(read), uint64(read)))...)
 	}
 	// Zero-copy string conversion - safe because buf is not reused after this
 	return unsafe.String(&buf[0], len(buf)), nil
-- 
2.43.0


From 602b4379f96941ee0d38128c129e7aa7810aab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 10/61] fix: do not report functions and channels as cycles

---
 lens/astclient.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 624a736..f1b2ea6 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -315,9 +315,8 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		}
 	}
 
-	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
-		vKind == reflect.Func || vKind == reflect.Chan {
+	// Cycle detection, functions and channels have no content which could form a cycle
+	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice {
 		if visited == nil {
 			visited = make(map[lensMonitorVisitKey]string)
 		}
-- 
2.43.0


From 5d80358a8b9639edf49c5b2da32f43f9156e6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 11/61] fix: count only known module functions as reached

---
 lens/astexec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index bad8e9f..9e808e0 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -693,6 +693,10 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 	}
+	if _, ok := t.moduleEntryPointIdToIdent[msg.PointID]; !ok {
+		log.Printf("%sUnexpected module entry point id: %d", ErrorLogPrefix, msg.PointID)
+		return
+	}
 	// record pointID as reached
 	t.moduleChangesReached.Store(msg.PointID, true)
 }
-- 
2.43.0


From e27a5916a783a9986da294d3b993e2475770e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 12/61] fix: keep the element boundaries of captured string
 slices

---
 lens/astexec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 9e808e0..06ac324 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -866,6 +866,9 @@ func collectFields(dst FieldValues, key string, val interface{}, typ string, chi
 	dst[key] = value
 	if len(children) == 0 {
 		str := fmt.Sprint(val)
+		if elems, ok := val.([]string); ok {
+			str = fmt.Sprintf("%q", elems) // quoted, otherwise the element boundaries would be lost
+		}
 		if !strings.HasSuffix(typ, "string") && len(str) > nonStringHashSizeLimit {
 			sha := sha1.Sum([]byte(str))
 			str = HashFieldValuePrefix + base91.StdEncoding.EncodeToString(sha[:])
-- 
2.43.0


From 5cb105b064454962b44bfa53d7dde9a1ae0f83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 13/61] fix: report performance changes in a consistent order

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..7b25e38 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // sorted for a consistent report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
-- 
2.43.0


From a0ded74c484a1a30d2f9ecfd1a0658b260d415d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 14/61] fix: chart the field changes of a test in a consistent
 order

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 7b25e38..c580133 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -646,7 +646,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) { // sorted for a consistent chart
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From 1d1e438e07f9e6433cd2f48dee525003a2d08c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 15/61] fix: show how much slower a run was as a positive
 percentage

---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index c580133..caf0859 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -623,7 +623,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
-- 
2.43.0


From f06c6d2d607d7986ba2830edc73b228c59699039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 16/61] fix: report the changed function count when no change
 is reachable

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index db81bd1..3613894 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From 8036f3d5587bde1d36c7c2ca0bca6681348ed1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 17/61] fix: recognize file names starting with dots as inside
 their directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 92f93cb..e85ef4c 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -41,8 +41,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If rel is or starts with the ".." element, file is outside the directory (names such as "..foo" are inside)
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From 40ab23c4420ff9abd191b880da3d1b755875e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 18/61] fix: keep the destination when replacing a file fails

---
 lens/file.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index e85ef4c..714660b 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -49,13 +49,7 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 }
 
 func replaceFile(source, destination string) error {
-	if _, err := os.Stat(destination); err == nil {
-		if err = os.Remove(destination); err != nil {
-			return err
-		}
-	}
-
-	// Rename the source to the destination (requires same filesystem)
+	// Rename the source to the destination, replacing it at once (requires same filesystem)
 	return os.Rename(source, destination)
 }
 
-- 
2.43.0


From c18c7be6855458c8aafb6c4de46f4a15bb31abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 19/61] fix: copy the content of a directory given as a symlink

---
 lens/file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lens/file.go b/lens/file.go
index 714660b..af967c0 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -90,9 +90,14 @@ func CopyFile(src, dst string) (err error) {
 
 // CopyDir recursively copies src directory contents into dst.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
+	// filepath.Walk does not follow a symlink root, resolve so that the content is copied instead of the link
+	src, err := filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
+	}
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
-	err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
+	err = filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3acc95f3cb7a514e72311d51d4a3ca538416a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 20/61] fix: wait for started copies when copying a directory
 fails

---
 lens/file.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index af967c0..2298cd1 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -127,10 +127,11 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
+	// always wait, started copies must not continue after returning an error
+	if waitErr := eg.Wait(); waitErr != nil {
+		return waitErr
 	}
-	return eg.Wait()
+	return err
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From bb54df6107d3e53d8854444998289a8afa7d8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 21/61] fix: keep the position of GOMODCACHE within the copied
 GOPATH

---
 lens/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 3613894..09c8065 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1040,7 +1040,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 		}
 		e.Config.Gomodcache = newModCache
 	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+		rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache)
+		if err != nil {
+			return nil, fmt.Errorf("unable to locate GOMODCACHE within GOPATH: %w", err)
+		}
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
-- 
2.43.0


From fe678fd827f8d9a728d4506d14404a304de4c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 22/61] fix: remove the temporary copy when preparing it fails

---
 lens/engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 09c8065..63e507d 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -990,7 +990,7 @@ func (e *AnalysisEngine) parseInitialModules() (*initialModulesResult, error) {
 	}, nil
 }
 
-func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
+func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 	tempRoot, err := os.MkdirTemp("", "patchlens-*")
 	if err != nil {
 		return nil, fmt.Errorf("unable to create temp dir: %w", err)
@@ -1003,6 +1003,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 			log.Printf("%sFailed to remove temp dir %s: %v", ErrorLogPrefix, tempRoot, err)
 		}
 	}
+	defer func() {
+		if err != nil { // the caller only gets the cleanup function on success
+			cleanup()
+		}
+	}()
 
 	fmt.Printf("Copying files for analysis")
 	const logSize = 1024 * 1024 * 200
-- 
2.43.0


From aeeb9e236d1315e46a35edef16face4dde18c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 23/61] fix: accept writes to a TeeWriter without writers

---
 lens/util_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/util_io.go b/lens/util_io.go
index 1b7c282..c5d43a7 100644
--- a/lens/util_io.go
+++ b/lens/util_io.go
@@ -29,6 +29,9 @@ func TeeWriter(writers ...io.Writer) io.WriteCloser {
 		}
 	}
 
+	if last == nil {
+		last = io.Discard // no writers provided
+	}
 	if wc, ok := last.(io.WriteCloser); ok {
 		return wc
 	} else { // wrap in teeWriter to get close interface
-- 
2.43.0


From d6c0c97fae2cf23222618917451711b8be80db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:02 +0000
Subject: [PATCH 24/61] fix: keep the changed functions of a module listed
 twice

---
 lens/module.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..281ed1f 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -116,6 +116,9 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		}
 		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
 
+		if _, repeated := allModuleData[mc.Name]; repeated {
+			continue // a repeated module is only analyzed once, keep that analysis
+		}
 		allModuleData[mc.Name] = cf
 		if len(pkgs) > 0 {
 			newVersionPackages[mc.Name] = pkgs
-- 
2.43.0


From a12803793f2014403bfad13ed6b181b71a65b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:20 +0000
Subject: [PATCH 25/61] fix: list the module changes of a workspace once and in
 a consistent order

---
 lens/module.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 281ed1f..5fe88ad 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -595,7 +595,8 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return nil, err
 	}
 
-	dirSet := bulk.SliceToSet(oldDirs, newDirs)
+	dirs := bulk.MapKeysSlice(bulk.SliceToSet(oldDirs, newDirs))
+	slices.Sort(dirs)
 	newRoot := filepath.Dir(newWorkPath)
 
 	// resolve turns a workspace-relative entry into an absolute go.mod path
@@ -606,8 +607,8 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return filepath.Clean(filepath.Join(root, dir, "go.mod"))
 	}
 
-	all := make([]*ModuleChange, 0, len(dirSet))
-	for dir := range dirSet {
+	all := make([]*ModuleChange, 0, len(dirs))
+	for _, dir := range dirs {
 		oldGM := resolve(projectDir, dir)
 		newGM := resolve(newRoot, dir)
 
@@ -620,7 +621,16 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		if err != nil {
 			return nil, err
 		}
-		all = append(all, changes...)
+		for _, mc := range changes {
+			i := slices.IndexFunc(all, func(o *ModuleChange) bool {
+				return o.Name == mc.Name && o.PriorVersion == mc.PriorVersion && o.NewVersion == mc.NewVersion
+			})
+			if i < 0 {
+				all = append(all, mc)
+			} else if !mc.Indirect {
+				all[i].Indirect = false // direct in at least one module of the workspace
+			}
+		}
 	}
 	return all, nil
 }
-- 
2.43.0


From 7d7118b1e379ed94bec262043c172b1e7e9105bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:38 +0000
Subject: [PATCH 26/61] fix: find the highest required module version in a
 workspace

---
 lens/module.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 5fe88ad..a37c478 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -568,20 +568,31 @@ func ProjectPackagePatterns(projectDir string) ([]string, error) {
 }
 
 // FindModuleVersion searches for modName across all go.mod files in projectDir.
+// In a workspace the highest required version is selected, it is only indirect if no module requires it directly.
 func FindModuleVersion(projectDir, modName string) (string, bool, error) {
 	mods, err := ProjectGoModFiles(projectDir)
 	if err != nil {
 		return "", false, err
 	}
+	var selected string
+	var selectedIndirect bool
 	for _, gm := range mods {
 		ver, indirect, err := FindModuleVersionInGoMod(gm, modName)
 		if err != nil {
 			return "", false, err
-		} else if ver != "" {
-			return ver, indirect, nil
+		} else if ver == "" {
+			continue
+		}
+		if selected == "" {
+			selected, selectedIndirect = ver, indirect
+			continue
 		}
+		if semver.Compare(ver, selected) > 0 {
+			selected = ver
+		}
+		selectedIndirect = selectedIndirect && indirect
 	}
-	return "", false, nil
+	return selected, selectedIndirect, nil
 }
 
 // DiffModulesFromGoWorkFiles returns changed modules across all go.mod files referenced by a go.work workspace.
-- 
2.43.0


From a7adbb6ec2175fd86a6ce764e81b75d33331979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:57 +0000
Subject: [PATCH 27/61] fix: expand go.work wildcards relative to the workspace

---
 lens/module.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index a37c478..d0c7c8d 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -345,11 +345,19 @@ func parseGoWork(workPath string) ([]string, error) {
 
 	// helper to walk a tree for "..."
 	walkEllipsis := func(prefix string) error {
-		start := filepath.Join(workDir, prefix)
+		start := prefix
+		if !filepath.IsAbs(prefix) {
+			start = filepath.Join(workDir, prefix)
+		}
 		return filepath.WalkDir(start, func(path string, d fs.DirEntry, err error) error {
 			if err != nil || !d.IsDir() {
 				return err
 			} else if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
+				if !filepath.IsAbs(prefix) {
+					if path, err = filepath.Rel(workDir, path); err != nil {
+						return err
+					}
+				}
 				add(path)
 			}
 			return nil
-- 
2.43.0


From a57aad442d6de6afef0d7d5c4562e27110281afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:15 +0000
Subject: [PATCH 28/61] fix: do not analyze dependencies which the project
 already has in a newer version

---
 lens/module.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index d0c7c8d..69732e0 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -247,7 +247,7 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 	var recursiveCalls []moduleChangeAnalyzeFunc
 	for dep, newDepVer := range newDeps {
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
-			if projVer, ok := projectDeps[dep]; ok && projVer != newDepVer {
+			if projVer, ok := projectDeps[dep]; ok && semver.Compare(newDepVer, projVer) > 0 {
 				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
 					// Transitive module analysis
 					return analyzeModuleChangesInternal(true,
-- 
2.43.0


From de270b52f02b512e824f319285112bc0d070c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:32 +0000
Subject: [PATCH 29/61] fix: escape the version when locating a module in the
 cache

---
 lens/module.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 69732e0..525da0a 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -293,7 +293,11 @@ func FindModulePathInCache(gomodcache, modPath, version string) (string, error)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVersion, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVersion
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From 6a42005566b9f599d0cef3f26e50d1a456059a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:50 +0000
Subject: [PATCH 30/61] fix: ignore comment and line break differences when
 comparing functions

---
 lens/module.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 525da0a..3a4c77e 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/printer"
+	"go/scanner"
+	"go/token"
 	"io/fs"
 	"log"
 	"os"
@@ -217,7 +219,7 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		for funcKey, newFunc := range newFuncMap {
 			if oldFuncMap == nil {
 				// new functions can be ignored, we will focus on entry points to functions that already existed
-			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && oldFunc.Definition != newFunc.Definition {
+			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && !sameFunctionCode(oldFunc.Definition, newFunc.Definition) {
 				oldFunc.LineChangeBitmap = computeChangeLineBitmap(oldFunc.Definition, newFunc.Definition, false, neighbourRadius)
 				changes = append(changes, oldFunc) // add the old function so that the module can accurately be referenced prior to the update
 			}
@@ -718,6 +720,37 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	return
 }
 
+// sameFunctionCode returns true if the definitions only differ in formatting (for example blank or wrapped lines).
+func sameFunctionCode(oldDef, newDef string) bool {
+	return oldDef == newDef || slices.Equal(functionTokens(oldDef), functionTokens(newDef))
+}
+
+// functionTokens returns the source tokens of the definition without comments and layout dependent punctuation.
+func functionTokens(def string) []string {
+	var s scanner.Scanner
+	fset := token.NewFileSet()
+	s.Init(fset.AddFile("", fset.Base(), len(def)), []byte(def), func(token.Position, string) {}, 0)
+	var tokens []string
+	for {
+		_, tok, lit := s.Scan()
+		switch tok {
+		case token.EOF:
+			return tokens
+		case token.SEMICOLON:
+			lit = ";" // same for explicit and automatic
+		case token.RPAREN, token.RBRACK, token.RBRACE:
+			// a separator before the closing token is only required when it is on its own line
+			if last := len(tokens) - 1; last >= 0 && (tokens[last] == ";" || tokens[last] == ",") {
+				tokens = tokens[:last]
+			}
+		}
+		if lit == "" {
+			lit = tok.String()
+		}
+		tokens = append(tokens, lit)
+	}
+}
+
 // computeChangeLineBitmap compares two versions of a function's source.
 // It returns a []bool where each index corresponds to one line in the chosen definition.
 // If newFunc == true, the bitmap’s indices align with newDef’s lines; if newFunc == false,
-- 
2.43.0


From ed572c0bb13707c8645b37ab9f103a5f7ec2ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:08 +0000
Subject: [PATCH 31/61] fix: compare pre-release Go versions

---
 lens/module.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 3a4c77e..7bd7294 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -503,7 +503,20 @@ func parseProjectDeps(projectDir string, preferNewest bool) (map[string]string,
 // compareGoVersions compares two Go version strings (e.g., "1.12", "1.21").
 // Returns -1 if a < b, 0 if a == b, 1 if a > b.
 func compareGoVersions(a, b string) int {
-	return semver.Compare("v"+a, "v"+b)
+	return semver.Compare(goVersionToSemver(a), goVersionToSemver(b))
+}
+
+// goVersionToSemver converts a Go version (e.g., "1.21", "1.21rc2") to the semver format.
+func goVersionToSemver(v string) string {
+	if i := strings.IndexAny(v, "abr"); i > 0 { // alpha, beta or rc
+		kind := strings.TrimRight(v[i:], "0123456789")
+		base := v[:i]
+		if strings.Count(base, ".") == 1 {
+			base += ".0"
+		}
+		return "v" + base + "-" + kind + "." + v[i+len(kind):]
+	}
+	return "v" + v
 }
 
 // olderGoVersion returns the older version, treating empty as "no constraint".
-- 
2.43.0


From f369863cd39e7c93957d36d2ee6b67712e56be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:54 +0000
Subject: [PATCH 32/61] fix: analyze the highest version of a dependency
 updated by several modules

---
 lens/module.go | 51 +++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 7bd7294..d73a3c7 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -2,6 +2,7 @@ package lens
 
 import (
 	"bytes"
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -105,18 +106,18 @@ func DiffModulesFromGoModFiles(oldGoModPath, newGoModPath string) ([]*ModuleChan
 func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir string, moduleChanges []*ModuleChange,
 	neighbourRadius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
 	visited := make(map[string]bool)
-	var indirectAnalysis []moduleChangeAnalyzeFunc
+	var indirectChanges []*ModuleChange
 
 	allModuleData := make(map[string][]*ModuleFunction, len(moduleChanges))
 	newVersionPackages := make(map[string][]*packages.Package, len(moduleChanges))
 
 	for _, mc := range moduleChanges {
-		cf, pkgs, recursiveCalls, err :=
+		cf, pkgs, depChanges, err :=
 			analyzeModuleChangesInternal(includeTransitive, mc, gomodcache, projectDir, neighbourRadius, visited)
 		if err != nil {
 			return nil, nil, err
 		}
-		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
+		indirectChanges = append(indirectChanges, depChanges...)
 
 		if _, repeated := allModuleData[mc.Name]; repeated {
 			continue // a repeated module is only analyzed once, keep that analysis
@@ -128,15 +129,20 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 	}
 
 	// recursive calls are done in levels; we prefer versions found more directly depended on
-	currentLevel := indirectAnalysis
-	indirectAnalysis = nil
+	currentLevel := indirectChanges
+	indirectChanges = nil
 	for len(currentLevel) > 0 {
-		for _, f := range currentLevel {
-			cf, pkgs, recursiveCalls, err := f()
+		// the highest version is selected if modules of the same level depend on different versions
+		slices.SortStableFunc(currentLevel, func(a, b *ModuleChange) int {
+			return cmp.Or(strings.Compare(a.Name, b.Name), semver.Compare(b.NewVersion, a.NewVersion))
+		})
+		for _, mc := range currentLevel {
+			cf, pkgs, depChanges, err :=
+				analyzeModuleChangesInternal(true, mc, gomodcache, projectDir, neighbourRadius, visited)
 			if err != nil {
 				return nil, nil, err
 			}
-			indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
+			indirectChanges = append(indirectChanges, depChanges...)
 
 			for _, fn := range cf {
 				modName := fn.Module.Name
@@ -147,19 +153,17 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 				}
 			}
 		}
-		currentLevel = indirectAnalysis
-		indirectAnalysis = nil
+		currentLevel = indirectChanges
+		indirectChanges = nil
 	}
 
 	return allModuleData, newVersionPackages, nil
 }
 
-type moduleChangeAnalyzeFunc func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error)
-
 // analyzeModuleChangesInternal does the actual work and uses a visited map to prevent infinite recursion.
-// Returns changed functions (OLD version), NEW version packages, and recursive analysis functions.
+// Returns changed functions (OLD version), NEW version packages, and the dependency changes to analyze.
 func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomodcache, projectDir string,
-	neighbourRadius int, visited map[string]bool) ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
+	neighbourRadius int, visited map[string]bool) ([]*ModuleFunction, []*packages.Package, []*ModuleChange, error) {
 	if visited[mc.Name] {
 		return nil, nil, nil, nil
 	}
@@ -246,25 +250,22 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 	if err != nil {
 		return nil, nil, nil, fmt.Errorf("could not read project dependencies: %w", err)
 	}
-	var recursiveCalls []moduleChangeAnalyzeFunc
+	var depChanges []*ModuleChange
 	for dep, newDepVer := range newDeps {
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
 			if projVer, ok := projectDeps[dep]; ok && semver.Compare(newDepVer, projVer) > 0 {
-				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
-					// Transitive module analysis
-					return analyzeModuleChangesInternal(true,
-						&ModuleChange{
-							Name:         dep,
-							PriorVersion: projVer,
-							NewVersion:   newDepVer,
-							Indirect:     true,
-						}, gomodcache, projectDir, neighbourRadius, visited)
+				// Transitive module analysis
+				depChanges = append(depChanges, &ModuleChange{
+					Name:         dep,
+					PriorVersion: projVer,
+					NewVersion:   newDepVer,
+					Indirect:     true,
 				})
 			}
 		}
 	}
 
-	return changes, newPkgs, recursiveCalls, nil
+	return changes, newPkgs, depChanges, nil
 }
 
 func loadModulePackageFromCache(gomodcache, modName, version string) (string, []*packages.Package, error) {
-- 
2.43.0


From 43ffa7c439ac45407cc081ba76aad481a403f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:27 +0000
Subject: [PATCH 33/61] fix: instrument the returns in else chains, labeled
 statements and select cases

---
 lens/asttweak.go | 130 ++++++++++++++++++++++-------------------------
 1 file changed, 62 insertions(+), 68 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..2f32c84 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -550,80 +550,74 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
 	var foundExplicitReturn bool
-	// helper function that recursively rewrites a *ast.BlockStmt in-place
+	// helper functions that recursively rewrite statements in-place
 	var buf bytes.Buffer
-	var rewriteBlock func(*ast.BlockStmt) error
-	rewriteBlock = func(blk *ast.BlockStmt) error {
-		for i, st := range blk.List {
-			switch s := st.(type) {
-			case *ast.ReturnStmt:
-				foundExplicitReturn = true
-				pointID, err := m.nextPointId()
-				if err != nil {
-					return err
-				}
-				pointIDs = append(pointIDs, pointID)
+	var rewriteList func([]ast.Stmt) error
+	var rewriteStmt func(ast.Stmt) (ast.Stmt, error)
+	rewriteList = func(list []ast.Stmt) error {
+		for i, st := range list {
+			newNode, err := rewriteStmt(st)
+			if err != nil {
+				return err
+			}
+			list[i] = newNode
+		}
+		return nil
+	}
+	rewriteStmt = func(st ast.Stmt) (ast.Stmt, error) {
+		switch s := st.(type) {
+		case *ast.ReturnStmt:
+			foundExplicitReturn = true
+			pointID, err := m.nextPointId()
+			if err != nil {
+				return nil, err
+			}
+			pointIDs = append(pointIDs, pointID)
 
-				decls := visibleDeclsBefore(funcDecl, s.Pos())
-				newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			if err != nil {
+				return nil, err
+			}
+			return newNode, nil // replace old return with block
+		case *ast.LabeledStmt:
+			newNode, err := rewriteStmt(s.Stmt)
+			if err != nil {
+				return nil, err
+			}
+			s.Stmt = newNode
+		case *ast.BlockStmt:
+			return s, rewriteList(s.List)
+		case *ast.IfStmt:
+			if err := rewriteList(s.Body.List); err != nil {
+				return nil, err
+			}
+			if s.Else != nil {
+				newNode, err := rewriteStmt(s.Else) // a block or a further if
 				if err != nil {
-					return err
-				}
-				blk.List[i] = newNode // replace old return with block
-			case *ast.BlockStmt:
-				if err := rewriteBlock(s); err != nil {
-					return err
-				}
-			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
-					}
-				}
-			case *ast.ForStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.RangeStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.SwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.TypeSwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
+					return nil, err
 				}
+				s.Else = newNode
 			}
+		case *ast.ForStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.RangeStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.TypeSwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SelectStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.CaseClause:
+			return s, rewriteList(s.Body)
+		case *ast.CommClause:
+			return s, rewriteList(s.Body)
 		}
-		return nil
+		return st, nil
 	}
 
-	if err := rewriteBlock(funcDecl.Body); err != nil {
+	if err := rewriteList(funcDecl.Body.List); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 	} else if !foundExplicitReturn {
 		pointID, err := m.nextPointId()
@@ -1262,8 +1256,8 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
-			if n.End() < retPos {
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.SelectStmt, *ast.CommClause:
+			if n.End() <= retPos {
 				return false // prune subtree
 			}
 		}
-- 
2.43.0


From 113f0969693ccab2e761dd808b24025e1124670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:47 +0000
Subject: [PATCH 34/61] fix: capture the state when falling off the end of a
 function with early returns

---
 lens/asttweak.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 2f32c84..ce1ce69 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -549,7 +549,10 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
-	var foundExplicitReturn bool
+	var foundExplicitReturn, endsWithReturn bool
+	if n := len(funcDecl.Body.List); n > 0 {
+		_, endsWithReturn = funcDecl.Body.List[n-1].(*ast.ReturnStmt)
+	}
 	// helper functions that recursively rewrite statements in-place
 	var buf bytes.Buffer
 	var rewriteList func([]ast.Stmt) error
@@ -619,15 +622,15 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 
 	if err := rewriteList(funcDecl.Body.List); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || (len(funcResultTypes) == 0 && !endsWithReturn) {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
-- 
2.43.0


From 56a7ca927ac29833cf7c97bcf638cb1b9fc031e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:27 +0000
Subject: [PATCH 35/61] fix: name result types hidden by a variable through an
 alias

---
 lens/asttweak.go | 176 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 124 insertions(+), 52 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index ce1ce69..6ac4b60 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -36,6 +36,7 @@ const (
 	syntheticFieldNamePrefixRecursive = "lenSyntheticRec"
 	syntheticFieldNamePrefixArg       = "lenSyntheticArg"
 	syntheticFieldNamePrefixReceiver  = "lenSyntheticRecv"
+	syntheticFieldNamePrefixType      = "lenSyntheticType"
 	literalNil                        = "nil"
 )
 
@@ -547,6 +548,31 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	// Try to build *types.Info; fall back to nil on any error
 	info := buildTypesInfo(fset, fileNode) // may return nil
 
+	// The temporaries for returned values name the result types, a variable may hide those names
+	var aliasPrefix string
+	declared, typeParams := declaredNames(funcDecl)
+	for i, typ := range funcResultTypes {
+		names := referencedNames(typ)
+		if !names.containsAny(declared) || names.containsAny(typeParams) {
+			continue
+		}
+		if aliasPrefix == "" {
+			id, err := m.nextPointId() // only used to get a unique name
+			if err != nil {
+				return nil, err
+			}
+			aliasPrefix = fmt.Sprintf("%s%d_", syntheticFieldNamePrefixType, id)
+		}
+		alias := ast.NewIdent(aliasPrefix + strconv.Itoa(i))
+		fileNode.Decls = append(fileNode.Decls, &ast.GenDecl{Tok: token.TYPE, TokPos: fileNode.FileEnd, Specs: []ast.Spec{
+			&ast.TypeSpec{Name: &ast.Ident{Name: alias.Name, NamePos: fileNode.FileEnd}, Assign: fileNode.FileEnd, Type: typ},
+		}})
+		if info != nil {
+			info.Types[alias] = info.Types[typ]
+		}
+		funcResultTypes[i] = alias
+	}
+
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
 	var foundExplicitReturn, endsWithReturn bool
@@ -1720,74 +1746,120 @@ func makeReturnTemp(namePrefix string, i int, expr ast.Expr, typ ast.Expr) (retI
 			}}},
 		}
 	} else {
-		// Check if any identifier in expr might shadow a type name used in typ
-		// Examples:
-		// - expr = Ident("deviceFlowResponse"), typ = *deviceFlowResponse
-		// - expr = UnaryExpr(&Ident("deviceFlowResponse")), typ = *deviceFlowResponse
-		// - expr = SelectorExpr(obj.field), typ = *SomeType
-		typeMightBeShadowed := exprContainsTypeShadow(expr, typ)
-
 		tmpId := ast.NewIdent(syntheticFieldNamePrefixTemp + iStr)
-		if typeMightBeShadowed {
-			// Use := to avoid type shadowing issues
-			stmts = []ast.Stmt{
-				// tmpX := expr (use type inference to avoid shadowing)
-				&ast.AssignStmt{
-					Lhs: []ast.Expr{tmpId},
-					Tok: token.DEFINE,
-					Rhs: []ast.Expr{expr},
-				},
-				// retX := tmpX (use type inference)
-				&ast.AssignStmt{
-					Lhs: []ast.Expr{retId},
-					Tok: token.DEFINE,
-					Rhs: []ast.Expr{tmpId},
-				},
-			}
-		} else {
-			// Use var tmpX Type = expr to allow untyped constants to convert to named types
-			stmts = []ast.Stmt{
-				// var tmpX Type = expr (typed temp for monitoring, allows conversion)
-				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
-					&ast.ValueSpec{Names: []*ast.Ident{tmpId}, Type: typ, Values: []ast.Expr{expr}},
-				}}},
-				// var retX Type = tmpX (typed return variable)
-				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
-					&ast.ValueSpec{Names: []*ast.Ident{retId}, Type: typ, Values: []ast.Expr{tmpId}},
-				}}},
-			}
+		// Use var tmpX Type = expr to allow untyped constants to convert to named types
+		stmts = []ast.Stmt{
+			// var tmpX Type = expr (typed temp for monitoring, allows conversion)
+			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
+				&ast.ValueSpec{Names: []*ast.Ident{tmpId}, Type: typ, Values: []ast.Expr{expr}},
+			}}},
+			// var retX Type = tmpX (typed return variable)
+			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
+				&ast.ValueSpec{Names: []*ast.Ident{retId}, Type: typ, Values: []ast.Expr{tmpId}},
+			}}},
 		}
 	}
 	snap = makeSnapshotLit(retId.Name, retId)
 	return
 }
 
-// exprContainsTypeShadow checks if any identifier in expr might shadow a type name in typ.
-// For example, if expr contains identifier "deviceFlowResponse" and typ is "*deviceFlowResponse",
-// then a variable named "deviceFlowResponse" would shadow the type name.
-func exprContainsTypeShadow(expr ast.Expr, typ ast.Expr) bool {
-	// Collect all identifiers from the type expression
-	typeIdents := make(map[string]bool)
+type nameSet map[string]bool
+
+func (s nameSet) add(ids ...*ast.Ident) {
+	for _, id := range ids {
+		s[id.Name] = true
+	}
+}
+
+func (s nameSet) containsAny(other nameSet) bool {
+	for name := range s {
+		if other[name] {
+			return true
+		}
+	}
+	return false
+}
+
+// referencedNames returns the names which need to be resolved in the scope of a type expression.
+func referencedNames(typ ast.Expr) nameSet {
+	names := make(nameSet)
 	ast.Inspect(typ, func(n ast.Node) bool {
-		if ident, ok := n.(*ast.Ident); ok {
-			typeIdents[ident.Name] = true
+		switch v := n.(type) {
+		case *ast.SelectorExpr:
+			names[exprName(v.X)] = true
+			return false
+		case *ast.Ident:
+			names.add(v)
 		}
 		return true
 	})
+	return names
+}
 
-	// Check if any identifier in expr matches a type identifier
-	foundShadow := false
-	ast.Inspect(expr, func(n ast.Node) bool {
-		if ident, ok := n.(*ast.Ident); ok {
-			if typeIdents[ident.Name] {
-				foundShadow = true
-				return false
+func exprName(e ast.Expr) string {
+	if id, ok := e.(*ast.Ident); ok {
+		return id.Name
+	}
+	return ""
+}
+
+// declaredNames returns the names which are declared anywhere within the function, and its type parameters.
+func declaredNames(fn *ast.FuncDecl) (declared, typeParams nameSet) {
+	declared, typeParams = make(nameSet), make(nameSet)
+	if fn.Recv != nil {
+		for _, field := range fn.Recv.List {
+			declared.add(field.Names...)
+			recvType := ast.Unparen(field.Type)
+			if star, ok := recvType.(*ast.StarExpr); ok {
+				recvType = ast.Unparen(star.X)
+			}
+			switch t := recvType.(type) {
+			case *ast.IndexExpr:
+				typeParams[exprName(t.Index)] = true
+			case *ast.IndexListExpr:
+				for _, index := range t.Indices {
+					typeParams[exprName(index)] = true
+				}
+			}
+		}
+	}
+	if fn.Type.TypeParams != nil {
+		for _, field := range fn.Type.TypeParams.List {
+			typeParams.add(field.Names...)
+		}
+	}
+	for _, list := range []*ast.FieldList{fn.Type.Params, fn.Type.Results} {
+		if list != nil {
+			for _, field := range list.List {
+				declared.add(field.Names...)
+			}
+		}
+	}
+	ast.Inspect(fn.Body, func(n ast.Node) bool {
+		switch v := n.(type) {
+		case *ast.ValueSpec:
+			declared.add(v.Names...)
+		case *ast.TypeSpec:
+			declared.add(v.Name)
+		case *ast.AssignStmt:
+			if v.Tok == token.DEFINE {
+				for _, lhs := range v.Lhs {
+					declared[exprName(lhs)] = true
+				}
+			}
+		case *ast.RangeStmt:
+			if v.Tok == token.DEFINE {
+				declared[exprName(v.Key)] = true
+				declared[exprName(v.Value)] = true
 			}
 		}
 		return true
 	})
-
-	return foundShadow
+	for _, ignored := range []string{"", "_"} {
+		delete(declared, ignored)
+		delete(typeParams, ignored)
+	}
+	return declared, typeParams
 }
 
 // isConstantExpr reports whether expr consists only of compile-time constants.
-- 
2.43.0


From 5b170a03f2d74b5fe2e143d8e12cd5743990cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:56 +0000
Subject: [PATCH 36/61] fix: do not capture local constants which overflow
 their default type

---
 lens/asttweak.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ac4b60..f4d1b19 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/build"
+	"go/constant"
 	"go/format"
 	"go/importer"
 	"go/parser"
@@ -15,6 +16,7 @@ import (
 	"go/token"
 	"go/types"
 	"io/fs"
+	"math"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -603,7 +605,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			}
 			pointIDs = append(pointIDs, pointID)
 
-			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			decls := capturableDecls(visibleDeclsBefore(funcDecl, s.Pos()), info)
 			newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
 			if err != nil {
 				return nil, err
@@ -655,7 +657,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		}
 		pointIDs = append(pointIDs, pointID)
 
-		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
+		decls := capturableDecls(visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1), info)
 		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
@@ -1324,6 +1326,50 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 	return result
 }
 
+// capturableDecls removes the constants which can not be used as a value because they overflow their default type.
+func capturableDecls(decls []declInfo, info *types.Info) []declInfo {
+	return slices.DeleteFunc(decls, func(d declInfo) bool {
+		if d.ident.Obj == nil || d.ident.Obj.Kind != ast.Con {
+			return false
+		} else if info != nil {
+			c, ok := info.Defs[d.ident].(*types.Const)
+			return ok && overflowsDefaultType(c.Type(), c.Val())
+		}
+		spec, ok := d.ident.Obj.Decl.(*ast.ValueSpec)
+		i := 0
+		if ok {
+			i = slices.Index(spec.Names, d.ident)
+		}
+		if !ok || spec.Type != nil || i < 0 || i >= len(spec.Values) {
+			return false
+		}
+		tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, types.ExprString(spec.Values[i]))
+		return err == nil && overflowsDefaultType(tv.Type, tv.Value)
+	})
+}
+
+// overflowsDefaultType reports whether an untyped constant does not fit into the type it has as a value.
+func overflowsDefaultType(typ types.Type, val constant.Value) bool {
+	basic, ok := typ.(*types.Basic)
+	if !ok || val == nil {
+		return false
+	}
+	switch basic.Kind() {
+	case types.UntypedInt:
+		v, exact := constant.Int64Val(constant.ToInt(val))
+		return !exact || v != int64(int(v))
+	case types.UntypedRune:
+		v, exact := constant.Int64Val(constant.ToInt(val))
+		return !exact || v != int64(int32(v))
+	case types.UntypedFloat, types.UntypedComplex:
+		re, _ := constant.Float64Val(constant.Real(val))
+		im, _ := constant.Float64Val(constant.Imag(val))
+		return math.IsInf(re, 0) || math.IsInf(im, 0)
+	default:
+		return false
+	}
+}
+
 // buildReturnInstrumentation inserts instrumentation around an explicit return. All nodes that originate
 // in the project source are first cloned with their positions stripped, so the generated block is position-clean.
 func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID uint32, fn *Function,
-- 
2.43.0


From 07f27fc0c8b3b55b9419864f5aa1c2c8233755bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:24 +0000
Subject: [PATCH 37/61] fix: capture a parenthesized call returning several
 results

---
 lens/asttweak.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index f4d1b19..aa20826 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1422,7 +1422,7 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 	}
 	// special-case: one CallExpr returning multiple values
 	if len(ret.Results) == 1 {
-		if call, ok := ret.Results[0].(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
+		if call, ok := ast.Unparen(ret.Results[0]).(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
 			// make temporaries lenSyntheticRet0, lenSyntheticRet1, etc
 			temps := make([]ast.Expr, len(funcResultTypes))
 			for i := range funcResultTypes {
-- 
2.43.0


From 4bd33c8710e46640b59a8101f69646591b3fc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:21 +0000
Subject: [PATCH 38/61] fix: keep comments and compiler directives in place
 when instrumenting

---
 lens/asttweak.go | 109 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 90 insertions(+), 19 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index aa20826..3e6de08 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -117,28 +117,94 @@ func (m *ASTModifier) addCleanupAction(f func() error) {
 }
 
 type parsedFile struct {
-	fset *token.FileSet
-	file *ast.File
+	fset      *token.FileSet
+	file      *ast.File
+	src       []byte
+	origDecls int                         // the count of declarations in src
+	modified  map[*ast.FuncDecl]token.Pos // modified functions with the position where their source starts
+}
+
+// markModified must be called before a function of the file is modified.
+func (pf *parsedFile) markModified(funcDecl *ast.FuncDecl) {
+	if _, ok := pf.modified[funcDecl]; ok {
+		return
+	}
+	start := funcDecl.Pos()
+	if funcDecl.Doc != nil {
+		start = funcDecl.Doc.Pos()
+	}
+	pf.modified[funcDecl] = start
+}
+
+// format writes the source with the modified functions replaced. The remaining source is kept as is, printing the whole
+// file could move comments (and so compiler directives) to an unrelated place because added nodes have no position.
+func (pf *parsedFile) format(buf *bytes.Buffer) error {
+	offset := pf.fset.File(pf.file.Pos()).Offset
+	var copied int
+	for _, decl := range pf.file.Decls[:pf.origDecls] {
+		funcDecl, ok := decl.(*ast.FuncDecl)
+		if !ok {
+			continue
+		}
+		start, ok := pf.modified[funcDecl]
+		if !ok {
+			continue
+		}
+		ast.Inspect(funcDecl, func(n ast.Node) bool {
+			switch v := n.(type) { // comments within the function have the same problem
+			case *ast.GenDecl:
+				v.Doc = nil
+			case *ast.ValueSpec:
+				v.Doc, v.Comment = nil, nil
+			case *ast.TypeSpec:
+				v.Doc, v.Comment = nil, nil
+			case *ast.Field:
+				v.Doc, v.Comment = nil, nil
+			}
+			return true
+		})
+		buf.Write(pf.src[copied:offset(start)])
+		if err := format.Node(buf, pf.fset, funcDecl); err != nil {
+			return err
+		}
+		copied = offset(funcDecl.End())
+	}
+	buf.Write(pf.src[copied:])
+	for _, decl := range pf.file.Decls[pf.origDecls:] {
+		buf.WriteString("\n")
+		if err := format.Node(buf, pf.fset, decl); err != nil {
+			return err
+		}
+		buf.WriteString("\n")
+	}
+	return nil
 }
 
 // loadParsedFileNode provides the currently parsed file.
 // fileLock must be held before invoking, and until fileNode changes are done.
-func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.File, error) {
+func (m *ASTModifier) loadParsedFileNode(filepath string) (*parsedFile, error) {
 	file, ok := m.fileNodeMap.Load(filepath)
 	if ok {
-		pf := file.(*parsedFile)
-		return pf.fset, pf.file, nil
+		return file.(*parsedFile), nil
 	}
 
+	src, err := os.ReadFile(filepath)
+	if err != nil {
+		return nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
+	}
 	fset := token.NewFileSet()
-	fileNode, err := parser.ParseFile(fset, filepath, nil, parser.ParseComments)
+	fileNode, err := parser.ParseFile(fset, filepath, src, parser.ParseComments)
 	if err != nil {
-		return nil, nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
+		return nil, fmt.Errorf("ast parse failure %s: %w", filepath, err)
 	}
-	m.fileNodeMap.Store(filepath, &parsedFile{
-		fset: fset,
-		file: fileNode,
-	})
+	pf := &parsedFile{
+		fset:      fset,
+		file:      fileNode,
+		src:       src,
+		origDecls: len(fileNode.Decls),
+		modified:  make(map[*ast.FuncDecl]token.Pos),
+	}
+	m.fileNodeMap.Store(filepath, pf)
 
 	m.commitLock.Lock()
 	defer m.commitLock.Unlock()
@@ -147,7 +213,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 	}
 	m.commitActions[filepath] = func(buf *bytes.Buffer) error {
 		buf.Reset()
-		if err := format.Node(buf, fset, fileNode); err != nil {
+		if err := pf.format(buf); err != nil {
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
@@ -156,7 +222,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 		}
 		return nil
 	}
-	return fset, fileNode, nil
+	return pf, nil
 }
 
 // CommitFile writes pending edits for a single file.
@@ -423,11 +489,11 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	lock := astFileLock.Lock(filePath)
 	defer lock.Unlock()
 
-	_, fileNode, err := m.loadParsedFileNode(filePath)
+	pf, err := m.loadParsedFileNode(filePath)
 	if err != nil {
 		return 0, err
 	}
-	target := findFuncDecl(fileNode, pkg, funcIdent)
+	target := findFuncDecl(pf.file, pkg, funcIdent)
 	if target == nil {
 		return 0, fmt.Errorf("function %s not found in %s", funcIdent, filePath)
 	} else if target.Body == nil {
@@ -438,6 +504,7 @@ func (m *ASTModifier) injectPoint(filePath, pkg, funcIdent string, modify func(b
 	if err != nil {
 		return 0, err
 	}
+	pf.markModified(target)
 	modify(target.Body, pointID)
 
 	return pointID, nil
@@ -515,10 +582,11 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	lock := astFileLock.Lock(fn.FilePath)
 	defer lock.Unlock()
 
-	fset, fileNode, err := m.loadParsedFileNode(fn.FilePath)
+	pf, err := m.loadParsedFileNode(fn.FilePath)
 	if err != nil {
 		return nil, err
 	}
+	fset, fileNode := pf.fset, pf.file
 	funcDecl := findFuncDecl(fileNode, fn.PackageName, fn.FunctionIdent)
 	if funcDecl == nil {
 		return nil, fmt.Errorf("function %s not found in %s", fn.FunctionIdent, fn.FilePath)
@@ -527,6 +595,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	} else if hasPatchlensMarker(funcDecl, modificationMarker) {
 		return []uint32{}, nil // already inserted
 	}
+	pf.markModified(funcDecl)
 	var funcResultTypes []ast.Expr
 	var funcResultNames []string
 	if funcDecl.Type.Results != nil {
@@ -566,8 +635,8 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			aliasPrefix = fmt.Sprintf("%s%d_", syntheticFieldNamePrefixType, id)
 		}
 		alias := ast.NewIdent(aliasPrefix + strconv.Itoa(i))
-		fileNode.Decls = append(fileNode.Decls, &ast.GenDecl{Tok: token.TYPE, TokPos: fileNode.FileEnd, Specs: []ast.Spec{
-			&ast.TypeSpec{Name: &ast.Ident{Name: alias.Name, NamePos: fileNode.FileEnd}, Assign: fileNode.FileEnd, Type: typ},
+		fileNode.Decls = append(fileNode.Decls, &ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{
+			&ast.TypeSpec{Name: alias, Assign: typ.Pos(), Type: typ},
 		}})
 		if info != nil {
 			info.Types[alias] = info.Types[typ]
@@ -728,16 +797,18 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 	lock := astFileLock.Lock(fn.FilePath)
 	defer lock.Unlock()
 
-	_, fileNode, err := m.loadParsedFileNode(fn.FilePath)
+	pf, err := m.loadParsedFileNode(fn.FilePath)
 	if err != nil {
 		return nil, err
 	}
+	fileNode := pf.file
 	funcDecl := findFuncDecl(fileNode, fn.PackageName, fn.FunctionIdent)
 	if funcDecl == nil {
 		return nil, fmt.Errorf("function %s not found in %s", fn.FunctionIdent, fn.FilePath)
 	} else if funcDecl.Body == nil {
 		return nil, fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
+	pf.markModified(funcDecl)
 	filePackageNames := make(map[string]bool, len(fileNode.Imports))
 	for _, imp := range fileNode.Imports {
 		if imp.Name != nil {
-- 
2.43.0


From 414f5ec3da447ac39c5246819f321e45cd85b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:33 +0000
Subject: [PATCH 39/61] fix: capture returned nil and constants without type
 information

---
 lens/asttweak.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 3e6de08..cc68ce8 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1553,6 +1553,8 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 						needTmp = true
 					}
 				}
+			} else if !seen[e.Name] {
+				needTmp = true // not a variable of the function, likely a constant without a type or nil
 			} else {
 				switch rt := funcResultTypes[i].(type) {
 				case *ast.InterfaceType:
-- 
2.43.0


From bca76eb559da20140cec30e8492ccd78e9ea61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 40/61] fix: capture a returned constant with the type of the
 result

---
 lens/asttweak.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index cc68ce8..f99771e 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1548,6 +1548,9 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 						needTmp = true
 					}
 				}
+				if _, ok := info.Uses[e].(*types.Const); ok {
+					needTmp = true // recorded with the type of the result, but without a type on its own
+				}
 				if rt := info.TypeOf(funcResultTypes[i]); rt != nil {
 					if _, ok := rt.Underlying().(*types.Interface); ok {
 						needTmp = true
-- 
2.43.0


From 3bd7b629ca02b13ec273b7d5da8379092ef11e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 41/61] fix: type check the instrumented file itself if it is a
 test file or excluded from the build

---
 lens/asttweak.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index f99771e..dfe4842 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1273,13 +1273,15 @@ func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
 		return nil
 	}
 	// There should be exactly one non-test package in this directory
-	pkgFiles := bulk.MapValuesSlice(pkgs[targetFile.Name.Name].Files)
-	files := make([]*ast.File, 0, len(pkgFiles))
+	pkg, ok := pkgs[targetFile.Name.Name]
+	if !ok {
+		return nil
+	}
+	files := make([]*ast.File, 1, len(pkg.Files)+1)
+	files[0] = targetFile // reuse parsed node so pointer matches, it may also be a file which is otherwise filtered
 	targetPath := fset.File(targetFile.Pos()).Name()
-	for _, f := range pkgFiles {
-		if fset.File(f.Pos()).Name() == targetPath {
-			files = append(files, targetFile) // reuse parsed node so pointer matches
-		} else {
+	for path, f := range pkg.Files {
+		if path != targetPath {
 			files = append(files, f)
 		}
 	}
-- 
2.43.0


From fb90e846e05789b9f86212e2c24e0fe83b06e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:12 +0000
Subject: [PATCH 42/61] fix: restore files which have an unrelated .bkp file,
 are symlinks or have their own mode

---
 lens/asttweak.go | 33 +++++++++++++++++++++++----------
 lens/file.go     | 28 ++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index dfe4842..0f2e1c9 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -74,6 +74,7 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backupFiles    map[string]bool
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -104,6 +105,7 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 		}
 	}
 	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	m.backupFiles = nil
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -451,17 +453,28 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
-func (m *ASTModifier) backupOrigFile(filepath string) error {
-	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
-		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+// backupOrigFile will copy the file to a .bkp file if it was not already done.
+func (m *ASTModifier) backupOrigFile(filePath string) error {
+	origFile, err := filepath.EvalSymlinks(filePath) // writes follow the symlink, so the target must be kept
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
 	}
+	m.cleanupLock.Lock()
+	defer m.cleanupLock.Unlock()
+	if m.backupFiles[origFile] {
+		return nil
+	}
+	bkpFile, err := backupFile(origFile)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	if m.backupFiles == nil {
+		m.backupFiles = make(map[string]bool)
+	}
+	m.backupFiles[origFile] = true
+	m.cleanupActions = append(m.cleanupActions, func() error {
+		return replaceFile(bkpFile, origFile)
+	})
 	return nil
 }
 
diff --git a/lens/file.go b/lens/file.go
index 2298cd1..3bc39a6 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -48,6 +49,33 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 	return true, nil
 }
 
+// backupFile copies the file with its permissions to an unused .bkp name beside it, returning the path of the copy.
+func backupFile(filename string) (string, error) {
+	info, err := os.Stat(filename)
+	if err != nil {
+		return "", err
+	}
+	bkpFile := filename + ".bkp"
+	for i := 1; ; i++ { // never use an existing file, it is not our backup
+		if f, err := os.OpenFile(bkpFile, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600); err == nil {
+			_ = f.Close()
+			break
+		} else if !os.IsExist(err) {
+			return "", err
+		}
+		bkpFile = filename + ".bkp" + strconv.Itoa(i)
+	}
+	err = CopyFile(filename, bkpFile)
+	if err == nil {
+		err = os.Chmod(bkpFile, info.Mode().Perm())
+	}
+	if err != nil {
+		_ = os.Remove(bkpFile)
+		return "", err
+	}
+	return bkpFile, nil
+}
+
 func replaceFile(source, destination string) error {
 	// Rename the source to the destination, replacing it at once (requires same filesystem)
 	return os.Rename(source, destination)
-- 
2.43.0


From d43755a4dbc1553fe0f4a27003f17fd2ceebf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 43/61] fix: remove the injected client if only part of it
 could be written

---
 lens/asttweak.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 0f2e1c9..d2479c4 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -305,14 +305,19 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	})
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
-	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
-		return err
 	}
+	clientTxt = bytes.Clone(clientTxt) // buf is reused
 	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
+	}
+	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+		_ = os.Remove(clientFile)
+		return err
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
+		_ = os.Remove(clientFile)
+		_ = os.Remove(apiFile)
 		return err
 	}
 	m.addCleanupAction(func() error {
-- 
2.43.0


From cc6e5ab4bef195658e26f168649a4371104279ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:55 +0000
Subject: [PATCH 44/61] fix: discard pending edits when restoring

---
 lens/asttweak.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index d2479c4..f496025 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -94,6 +94,11 @@ func (m *ASTModifier) MaxPointId() int {
 // Restore restores the modified files to their original state.
 // The go environment must be provided so the build cache can be cleared.
 func (m *ASTModifier) Restore(goenv []string) (result []error) {
+	m.commitLock.Lock() // edits not yet committed would bring back state from before the restore
+	m.commitActions = nil
+	m.fileNodeMap.Clear()
+	m.commitLock.Unlock()
+
 	m.cleanupLock.Lock()
 	defer m.cleanupLock.Unlock()
 	if len(m.cleanupActions) == 0 {
-- 
2.43.0


From d1485209885df843b262b57c4afd3f0c53c4a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 45/61] fix: restore all module files after the update without
 using existing .bkp files

---
 lens/astexec.go | 50 ++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 06ac324..e192520 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -112,41 +112,45 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
+	// the files which the update may change, including the workspace file and its checksums
+	modFiles := []string{filepath.Join(projectDir, "go.work"), filepath.Join(projectDir, "go.work.sum")}
+	for _, gm := range goModPaths {
+		modFiles = append(modFiles, gm, filepath.Join(filepath.Dir(gm), "go.sum"))
+	}
 	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
+		path string
+		bkp  string // empty if the file did not exist
 	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
+	backups := make([]modBackupInfo, 0, len(modFiles))
 	// restore originals (and remove .bkp) on every return path, including early errors
 	defer func() {
 		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
+			var err error
+			if b.bkp == "" {
+				if err = os.Remove(b.path); os.IsNotExist(err) {
+					err = nil
 				}
+			} else {
+				err = os.Rename(b.bkp, b.path)
+			}
+			if err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.path, err)
 			}
 		}
 	}()
-	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
-			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
-		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
+	for _, path := range modFiles {
+		var bkp string
+		if realPath, err := filepath.EvalSymlinks(path); err == nil {
+			path = realPath
+			if bkp, err = backupFile(path); err != nil {
 				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
+					fmt.Errorf("backup %s failed: %w", filepath.Base(path), err)
 			}
+		} else if !os.IsNotExist(err) {
+			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
+				fmt.Errorf("backup %s failed: %w", filepath.Base(path), err)
 		}
-		backups = append(backups, info)
+		backups = append(backups, modBackupInfo{path: path, bkp: bkp})
 	}
 
 	for _, gm := range goModPaths {
-- 
2.43.0


From 5847e89e21df053f792fabe52f3679f4cf12cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:31 +0000
Subject: [PATCH 46/61] fix: never insert a line inside a multi-line literal or
 comment

---
 lens/asttweak.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index f496025..031da1f 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2118,6 +2118,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 	// classify every line inside the body
 	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	withinToken := make([]bool, len(codeLine))             // lines which start inside a literal or comment
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
 	prevLine := bodyOpenLine
@@ -2127,6 +2128,13 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 			break
 		}
 		lno := fset.Position(pos).Line
+		if tok == token.STRING || tok == token.COMMENT {
+			for l := lno + 1; l <= lno+strings.Count(lit, "\n"); l++ {
+				if l >= bodyOpenLine && l <= bodyCloseLine {
+					withinToken[l-bodyOpenLine] = true
+				}
+			}
+		}
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
@@ -2166,7 +2174,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !withinToken[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
-- 
2.43.0


From 42d2a9b45fcab6b3226796970acb02b481dedfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:53 +0000
Subject: [PATCH 47/61] fix: use actual line numbers when inserting lines

---
 lens/asttweak.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 031da1f..6592c80 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2106,10 +2106,11 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	} else if decl.Body == nil {
 		return fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
-	funcStartLine := fset.Position(decl.Pos()).Line
+	lineOf := func(pos token.Pos) int { return fset.PositionFor(pos, false).Line } // ignoring line directives
+	funcStartLine := lineOf(decl.Pos())
 	// determine which lines are "inside" the function body (exclude the braces themselves)
-	bodyOpenLine := fset.Position(decl.Body.Lbrace).Line + 1  // first line after '{'
-	bodyCloseLine := fset.Position(decl.Body.Rbrace).Line - 1 // last line before '}'
+	bodyOpenLine := lineOf(decl.Body.Lbrace) + 1  // first line after '{'
+	bodyCloseLine := lineOf(decl.Body.Rbrace) - 1 // last line before '}'
 	lines := strings.Split(string(data), "\n")
 
 	if bodyOpenLine > bodyCloseLine { // empty body or single line function like "func() {}"
@@ -2127,7 +2128,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 		if tok == token.EOF {
 			break
 		}
-		lno := fset.Position(pos).Line
+		lno := lineOf(pos)
 		if tok == token.STRING || tok == token.COMMENT {
 			for l := lno + 1; l <= lno+strings.Count(lit, "\n"); l++ {
 				if l >= bodyOpenLine && l <= bodyCloseLine {
-- 
2.43.0


From 597c00b98b65ba727111ad018bd644d82bcd18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 48/61] fix: locate functions in the actual source file despite
 line directives

---
 lens/static.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..7ba6d91 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -386,8 +386,17 @@ func filePathForSSAFunc(fn *ssa.Function) string {
 	} else if fn.Pos() == 0 {
 		return ""
 	}
-	pos := fn.Prog.Fset.Position(fn.Pos())
-	return pos.Filename
+	return sourcePosition(fn.Prog.Fset, fn.Pos()).Filename
+}
+
+// sourcePosition returns the position in the actual Go source file, ignoring `//line` directives unless the
+// file was generated by cgo from the source file.
+func sourcePosition(fset *token.FileSet, pos token.Pos) token.Position {
+	position := fset.PositionFor(pos, false)
+	if strings.HasSuffix(position.Filename, ".cgo1.go") {
+		return fset.Position(pos)
+	}
+	return position
 }
 
 // MakeSSAFunctionIdent creates a normalized key for a SSA function, incorporating package and (if any) receiver type.
@@ -437,7 +446,7 @@ func analyzeSSAFunctionReturnPoints(fn *ssa.Function) (uint32, []FunctionReturn,
 			// detect a real return instruction
 			if ret, ok := instr.(*ssa.Return); ok && ret.Pos() != token.NoPos {
 				returnCount++
-				line := fset.Position(ret.Pos()).Line
+				line := sourcePosition(fset, ret.Pos()).Line
 				var callCount uint32
 				for _, val := range ret.Results {
 					if _, isCall := val.(ssa.CallInstruction); isCall {
@@ -457,7 +466,7 @@ func analyzeSSAFunctionReturnPoints(fn *ssa.Function) (uint32, []FunctionReturn,
 		if len(block.Succs) == 0 && len(block.Instrs) > 0 {
 			last := block.Instrs[len(block.Instrs)-1]
 			if pos := last.Pos(); pos != token.NoPos {
-				line := fset.Position(pos).Line
+				line := sourcePosition(fset, pos).Line
 				var callCount uint32
 				if _, ok := last.(ssa.CallInstruction); ok {
 					callCount = 1
@@ -467,7 +476,7 @@ func analyzeSSAFunctionReturnPoints(fn *ssa.Function) (uint32, []FunctionReturn,
 		}
 	}
 
-	entryLine := fset.Position(fn.Pos()).Line
+	entryLine := sourcePosition(fset, fn.Pos()).Line
 	hasResults := fn.Signature.Results().Len() > 0
 
 	// if it declares results but has no return instructions and at least one panic
@@ -492,7 +501,7 @@ func AnalyzeASTFunctionReturnPoints(fset *token.FileSet, decl *ast.FuncDecl) (ui
 					return true
 				}
 				returnCount++
-				line := fset.Position(node.Pos()).Line
+				line := sourcePosition(fset, node.Pos()).Line
 				var callCount uint32
 				for _, expr := range node.Results {
 					ast.Inspect(expr, func(n2 ast.Node) bool {
@@ -514,7 +523,7 @@ func AnalyzeASTFunctionReturnPoints(fset *token.FileSet, decl *ast.FuncDecl) (ui
 		})
 	}
 
-	entryLine := fset.Position(decl.Pos()).Line
+	entryLine := sourcePosition(fset, decl.Pos()).Line
 	hasReturnResults := decl.Type.Results != nil && len(decl.Type.Results.List) > 0
 	// if function declares results but has no returns and has at least one panic, then it “ends in panic” (no normal exit path)
 	endsInPanic := hasReturnResults && returnCount == 0 && panicCount > 0
-- 
2.43.0


From ff4ca317b2f82400e722ac01edb5ed75e8e43ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 49/61] fix: only select functions go test runs as tests

---
 lens/static.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 7ba6d91..42bbb5c 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -649,8 +651,12 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if fn.Signature.Recv() != nil || fn.Signature.TypeParams().Len() > 0 || fn.Signature.Results().Len() > 0 {
+		return false // not runnable by `go test`, a method may for example belong to a test suite
+	} else if suffix, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
 		return false
+	} else if r, _ := utf8.DecodeRuneInString(suffix); suffix != "" && unicode.IsLower(r) {
+		return false // the same rule `go test` uses to tell apart names like "Testing"
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
-- 
2.43.0


From f4fb129eeb28119e03111737a869bce938e0b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:26 +0000
Subject: [PATCH 50/61] fix: validate both report files before the analysis

---
 lens/engine.go | 24 +++++++++++++++++++-----
 lens/report.go | 24 +++++++++++++++---------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 63e507d..d12d1c7 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1145,8 +1145,11 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
-		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
+	}
+	if c.ReportChartsFile != "" {
+		if _, err := chartOutputType(c.ReportChartsFile); err != nil {
+			return fmt.Errorf("invalid charts report file path: %w", err)
+		} else if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
 	}
@@ -1202,6 +1205,18 @@ func (c *Config) validateFilePath(path, expectedType string) error {
 func (c *Config) validateOutputPath(path string) error {
 	dir := filepath.Dir(path)
 
+	// Check an existing file without modifying it
+	if info, err := os.Stat(path); err == nil {
+		if info.IsDir() {
+			return fmt.Errorf("output path '%s' is a directory", path)
+		}
+		file, err := os.OpenFile(path, os.O_WRONLY, 0)
+		if err != nil {
+			return fmt.Errorf("cannot write to output file '%s': %w", path, err)
+		}
+		return file.Close()
+	}
+
 	// Check if directory exists, if not try to create it
 	if _, err := os.Stat(dir); os.IsNotExist(err) {
 		if err := os.MkdirAll(dir, 0755); err != nil {
@@ -1210,11 +1225,10 @@ func (c *Config) validateOutputPath(path string) error {
 	}
 
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test*")
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
diff --git a/lens/report.go b/lens/report.go
index caf0859..c78d06b 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -360,19 +360,25 @@ func RenderReportChartsFromJson(report ReportMetrics) ([]byte, error) {
 		})
 }
 
+// chartOutputType returns the chart format for the file name.
+func chartOutputType(path string) (string, error) {
+	if strings.HasSuffix(path, ".png") {
+		return charts.ChartOutputPNG, nil
+	} else if strings.HasSuffix(path, ".jpg") || strings.HasSuffix(path, ".jpeg") {
+		return charts.ChartOutputJPG, nil
+	} else if strings.HasSuffix(path, ".svg") {
+		return charts.ChartOutputSVG, nil
+	}
+	return "", fmt.Errorf("unhandled chart file type: %s", path)
+}
+
 func writeReportCharts(path string, moduleName, startVersion, changeVersion string,
 	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
 	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
 	globalMutations MutationResult) error {
-	var outputType string
-	if strings.HasSuffix(path, ".png") {
-		outputType = charts.ChartOutputPNG
-	} else if strings.HasSuffix(path, ".jpg") || strings.HasSuffix(path, ".jpeg") {
-		outputType = charts.ChartOutputJPG
-	} else if strings.HasSuffix(path, ".svg") {
-		outputType = charts.ChartOutputSVG
-	} else {
-		return fmt.Errorf("unhandled chart file type: %s", path)
+	outputType, err := chartOutputType(path)
+	if err != nil {
+		return err
 	}
 
 	painterOpt := charts.PainterOptions{
-- 
2.43.0


From 83067fd9f4d924808e025ed30bd8ec5247a07f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 51/61] fix: skip writing report files which are not configured

---
 lens/engine.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index d12d1c7..289d0b5 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -668,22 +668,25 @@ func (d *DefaultReportWriter) WriteReportFiles(jsonPath, chartPath string, start
 		performanceChanges, testDetails, rootM, syntheticTestFuncCount := PrepareReportData(
 		changedModules, projectCallingFunctions, relevantTestFunctions, testResults, moduleChangeFuncCount)
 
-	err := writeReportJSON(jsonPath, startTime, analysisDuration, testDiscoveryDuration, fieldCheckDuration, mutationDuration,
-		rootM.Name, rootM.PriorVersion, rootM.NewVersion,
-		checkedModules, moduleChangeFuncCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
-		reachableModuleFunctionsIdents,
-		relevantProjectFunctionIdents,
-		projectFieldChecks, relevantTestFunctionsIdents, testFieldSameCount, testFieldDiffCount,
-		syntheticTestFuncCount, globalMutations, performanceChanges, testDetails)
-	if err != nil {
-		return err
+	if jsonPath != "" {
+		err := writeReportJSON(jsonPath, startTime, analysisDuration, testDiscoveryDuration, fieldCheckDuration, mutationDuration,
+			rootM.Name, rootM.PriorVersion, rootM.NewVersion,
+			checkedModules, moduleChangeFuncCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
+			reachableModuleFunctionsIdents,
+			relevantProjectFunctionIdents,
+			projectFieldChecks, relevantTestFunctionsIdents, testFieldSameCount, testFieldDiffCount,
+			syntheticTestFuncCount, globalMutations, performanceChanges, testDetails)
+		if err != nil {
+			return err
+		}
 	}
-
-	err = writeReportCharts(chartPath, rootM.Name, rootM.PriorVersion, rootM.NewVersion,
-		moduleChangeFuncCount, len(reachableModuleFunctionsIdents), moduleChangesReachedInTesting, untrackedModuleFuncs,
-		testFieldSameCount, testFieldDiffCount, testResults, globalMutations)
-	if err != nil {
-		return err
+	if chartPath != "" {
+		err := writeReportCharts(chartPath, rootM.Name, rootM.PriorVersion, rootM.NewVersion,
+			moduleChangeFuncCount, len(reachableModuleFunctionsIdents), moduleChangesReachedInTesting, untrackedModuleFuncs,
+			testFieldSameCount, testFieldDiffCount, testResults, globalMutations)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 7f1c4c30164e84f953b4037a848815daf1e66ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:03 +0000
Subject: [PATCH 52/61] fix: do not add target modules again when preparing a
 corrected configuration

---
 lens/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 289d0b5..a08d09b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1082,12 +1082,13 @@ func (c *Config) Prepare() error {
 	c.AbsProjDir = absProjDir
 
 	// Parse and validate target modules
+	targetModules := slices.Clone(c.TargetModules)
 	if c.ModuleVersionFlag != "" {
 		targetModule, err := parseTargetModule(c.ModuleVersionFlag)
 		if err != nil {
 			return fmt.Errorf("invalid module version format: %w", err)
 		}
-		c.TargetModules = append(c.TargetModules, targetModule)
+		targetModules = append(targetModules, targetModule)
 	}
 
 	if c.ModulesVersionFlag != "" {
@@ -1101,7 +1102,7 @@ func (c *Config) Prepare() error {
 			if err != nil {
 				return fmt.Errorf("invalid module version format in modules list: %w", err)
 			}
-			c.TargetModules = append(c.TargetModules, targetModule)
+			targetModules = append(targetModules, targetModule)
 		}
 	}
 
@@ -1157,6 +1158,7 @@ func (c *Config) Prepare() error {
 		}
 	}
 
+	c.TargetModules = targetModules
 	c.prepared = true
 	return nil
 }
-- 
2.43.0


From fadf20445413f4a9a3579f21694c4ce4612ffb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 53/61] fix: reject a project path which is no directory

---
 lens/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/engine.go b/lens/engine.go
index a08d09b..95f7df6 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1078,6 +1078,10 @@ func (c *Config) Prepare() error {
 	absProjDir, err := filepath.Abs(c.ProjectDir)
 	if err != nil {
 		return fmt.Errorf("error resolving project directory: %w", err)
+	} else if info, err := os.Stat(absProjDir); err != nil {
+		return fmt.Errorf("project directory is not accessible: %w", err)
+	} else if !info.IsDir() {
+		return fmt.Errorf("project path '%s' is not a directory", absProjDir)
 	}
 	c.AbsProjDir = absProjDir
 
-- 
2.43.0


From 2a48249dc1072fd1ddeb7866535d05fe0dcfb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 54/61] fix: count the mutants the tests failed for as detected

---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..30d6685 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -181,11 +181,11 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	logMsg := strings.ReplaceAll(m[0], "The mutation score is", "Mutation score:")
 	suffixIndex := strings.Index(logMsg, "failed")
 	if suffixIndex > 0 {
-		logMsg = logMsg[:suffixIndex] + "detected)"
+		logMsg = logMsg[:suffixIndex] + "alive)"
 	}
-	logMsg = strings.ReplaceAll(logMsg, "passed", "alive")
+	logMsg = strings.ReplaceAll(logMsg, "passed", "detected")
 	log.Println(logMsg)
-	killed, _ := strconv.Atoi(m[2])
+	killed, _ := strconv.Atoi(m[1])
 	total, _ := strconv.Atoi(m[5])
 
 	// remove unnecessary report.json report (for now)
-- 
2.43.0


From f44427f82be04b174028e7d3bec6506254e2f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 55/61] fix: do not count mutants that fail to build as
 detected

---
 lens/mutation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 30d6685..df9b0ee 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -197,7 +197,12 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
-const scriptFinishCheck = `if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
+const scriptFinishCheck = `# go test also exits with 1 for build failures
+if [ "$GOMUTESTING_RESULT" = 1 ] && grep -qE '^FAIL[[:space:]].*\[(build|setup) failed\]$' <<< "$GOMUTESTING_TEST" ; then
+	GOMUTESTING_RESULT=2
+fi
+
+if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
 	echo "$GOMUTESTING_TEST"
 fi
 
-- 
2.43.0


From 3f641fab6a069b53331e6629d991c3689665b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 56/61] fix: only mutate functions with the exact name of a
 changed function

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index df9b0ee..cd8a707 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,7 +152,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From 003092f433e218fe360571eb078c0bac106d33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 57/61] fix: keep the report.json of the project when mutation
 testing

---
 lens/mutation.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index cd8a707..2a88b61 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,6 +152,20 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
+	// go-mutesting writes a report.json which is not needed (for now), restore the project's own or remove it
+	reportFile := filepath.Join(projectDir, "report.json")
+	priorReport, priorErr := os.ReadFile(reportFile)
+	if priorErr != nil && !os.IsNotExist(priorErr) {
+		return MutationResult{}, priorErr
+	}
+	defer func() {
+		if priorErr != nil {
+			_ = os.Remove(reportFile)
+		} else if err := os.WriteFile(reportFile, priorReport, 0o644); err != nil {
+			log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, reportFile, err)
+		}
+	}()
+
 	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
@@ -188,9 +202,6 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	killed, _ := strconv.Atoi(m[1])
 	total, _ := strconv.Atoi(m[5])
 
-	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
-
 	return MutationResult{
 		MutationCount: total,
 		SquashedCount: killed,
-- 
2.43.0


From fb91756a2cc2963e23cc49e4e8c604c8ecd6d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:14 +0000
Subject: [PATCH 58/61] fix: quote paths in the mutation exec scripts

---
 lens/mutation.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 2a88b61..3be30b8 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -238,6 +238,13 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
+// shellQuote quotes the values to be literal words in a shell script.
+func shellQuote(values ...string) string {
+	return strings.Join(bulk.SliceTransform(func(v string) string {
+		return "'" + strings.ReplaceAll(v, "'", `'\''`) + "'"
+	}, values), " ")
+}
+
 func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
@@ -249,7 +256,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 `); err != nil {
 		return "", err
 	}
-	if _, err := fmt.Fprintf(file, "PKGS=\"%s\"\n", strings.Join(packages, " ")); err != nil {
+	if _, err := fmt.Fprintf(file, "PKGS=(%s)\n", shellQuote(packages...)); err != nil {
 		return "", err
 	}
 
@@ -266,8 +273,7 @@ func buildExecSelectTestsScript(fileToTests map[string][]string, packages []stri
 		// Sort test names so the regex is deterministic
 		sort.Strings(tests)
 		// Escape any special characters by wrapping in quotes
-		if _, err := fmt.Fprintf(file, `FILE_TEST_MAP["%s"]="%s"
-`, fp, strings.Join(tests, " ")); err != nil {
+		if _, err := fmt.Fprintf(file, "FILE_TEST_MAP[%s]=%s\n", shellQuote(fp), shellQuote(strings.Join(tests, " "))); err != nil {
 			return "", err
 		}
 	}
@@ -294,7 +300,7 @@ cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 # Run only the affected tests
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%ds' $MUTATE_TIMEOUT) -run "$pattern" "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 `); err != nil {
@@ -313,23 +319,23 @@ export GOMUTESTING_RESULT=$?
 
 func buildExecAllTestsScript(packages []string) (string, error) {
 	const scriptTmpl = `#!/usr/bin/env bash
-PKGS="%s"
+PKGS=(%s)
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u $MUTATE_ORIGINAL $MUTATE_CHANGED)
+export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
-mv $MUTATE_ORIGINAL $MUTATE_ORIGINAL.mbkp || {
+mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
  exit 2
 }
 trap 'mv "$MUTATE_ORIGINAL.mbkp" "$MUTATE_ORIGINAL"' EXIT
-cp $MUTATE_CHANGED $MUTATE_ORIGINAL || { exit 2; }
+cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
 
-GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) $PKGS 2>&1)
+GOMUTESTING_TEST=$(go test -count=1 -failfast -timeout=$(printf '%%ds' $MUTATE_TIMEOUT) "${PKGS[@]}" 2>&1)
 export GOMUTESTING_RESULT=$?
 
 ` + scriptFinishCheck
@@ -337,7 +343,7 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
+	} else if _, err = fmt.Fprintf(file, scriptTmpl, shellQuote(packages...)); err != nil {
 		_ = file.Close()
 		return "", err
 	} else if err = file.Close(); err != nil {
-- 
2.43.0


From 75f8a0400911cc3a1ab81e601eff8752932d447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 59/61] fix: map changed lines to the lines of the source file
 when scoping mutations

---
 lens/module.go   | 18 ++++++++++++------
 lens/mutation.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index d73a3c7..21b0316 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -741,27 +741,33 @@ func sameFunctionCode(oldDef, newDef string) bool {
 
 // functionTokens returns the source tokens of the definition without comments and layout dependent punctuation.
 func functionTokens(def string) []string {
+	tokens, _ := functionTokenLines(def)
+	return tokens
+}
+
+// functionTokenLines is like functionTokens but also returns the (zero based) line of each token.
+func functionTokenLines(def string) (tokens []string, lines []int) {
 	var s scanner.Scanner
-	fset := token.NewFileSet()
-	s.Init(fset.AddFile("", fset.Base(), len(def)), []byte(def), func(token.Position, string) {}, 0)
-	var tokens []string
+	file := token.NewFileSet().AddFile("", -1, len(def))
+	s.Init(file, []byte(def), func(token.Position, string) {}, 0)
 	for {
-		_, tok, lit := s.Scan()
+		pos, tok, lit := s.Scan()
 		switch tok {
 		case token.EOF:
-			return tokens
+			return tokens, lines
 		case token.SEMICOLON:
 			lit = ";" // same for explicit and automatic
 		case token.RPAREN, token.RBRACK, token.RBRACE:
 			// a separator before the closing token is only required when it is on its own line
 			if last := len(tokens) - 1; last >= 0 && (tokens[last] == ";" || tokens[last] == ",") {
-				tokens = tokens[:last]
+				tokens, lines = tokens[:last], lines[:last]
 			}
 		}
 		if lit == "" {
 			lit = tok.String()
 		}
 		tokens = append(tokens, lit)
+		lines = append(lines, file.PositionFor(pos, false).Line-1)
 	}
 }
 
diff --git a/lens/mutation.go b/lens/mutation.go
index 3be30b8..65d5512 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -2,6 +2,8 @@ package lens
 
 import (
 	"fmt"
+	"go/parser"
+	"go/token"
 	"log"
 	"os"
 	"path/filepath"
@@ -100,8 +102,12 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 				mutationFiles = append(mutationFiles, abs)
 			}
 			errGrp.Go(func() error {
-				err := astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
-					if i < len(change.LineChangeBitmap) && !change.LineChangeBitmap[i] {
+				changedLines, err := sourceChangeLineBitmap(change)
+				if err != nil {
+					return err
+				}
+				err = astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
+					if i < len(changedLines) && !changedLines[i] {
 						return "// mutator-disable-next-line *", true
 					}
 					return "", true
@@ -208,6 +214,42 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
+// sourceChangeLineBitmap returns the LineChangeBitmap for the lines of the function in its source file. Those may differ
+// from the lines of the Definition, which is formatted without comments.
+func sourceChangeLineBitmap(change *ModuleFunction) ([]bool, error) {
+	lock := astFileLock.Lock(change.FilePath) // the file may be edited for another function
+	data, err := os.ReadFile(change.FilePath)
+	lock.Unlock()
+	if err != nil {
+		return nil, err
+	}
+	fset := token.NewFileSet()
+	fileNode, err := parser.ParseFile(fset, change.FilePath, data, parser.SkipObjectResolution)
+	if err != nil {
+		return nil, err
+	}
+	decl := findFuncDecl(fileNode, change.PackageName, change.FunctionIdent)
+	if decl == nil {
+		return change.LineChangeBitmap, nil
+	}
+	source := string(data[fset.PositionFor(decl.Pos(), false).Offset:fset.PositionFor(decl.End(), false).Offset])
+
+	defTokens, defLines := functionTokenLines(change.Definition)
+	srcTokens, srcLines := functionTokenLines(source)
+	if !slices.Equal(defTokens, srcTokens) {
+		return change.LineChangeBitmap, nil
+	}
+	bitmap := make([]bool, strings.Count(source, "\n")+1)
+	for i, srcLine := range srcLines {
+		for line := defLines[i]; line <= defLines[i]+strings.Count(defTokens[i], "\n"); line++ { // literals may span lines
+			if line < len(change.LineChangeBitmap) && change.LineChangeBitmap[line] {
+				bitmap[srcLine] = true
+			}
+		}
+	}
+	return bitmap, nil
+}
+
 const scriptFinishCheck = `# go test also exits with 1 for build failures
 if [ "$GOMUTESTING_RESULT" = 1 ] && grep -qE '^FAIL[[:space:]].*\[(build|setup) failed\]$' <<< "$GOMUTESTING_TEST" ; then
 	GOMUTESTING_RESULT=2
-- 
2.43.0


From a327f2fbd6881b3c38d4563ee6992195076990c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 60/61] fix: do not start scoping mutations if a changed
 function lacks its changed lines

---
 lens/mutation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 65d5512..f0f74ba 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -84,11 +84,14 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			}
 		}()
 
-		errGrp := ErrGroupLimitCPU()
 		for _, change := range moduleChanges {
 			if len(change.LineChangeBitmap) == 0 {
 				return MutationResult{}, fmt.Errorf("bug: LineChangeBitmap not initialized: %s", change.FunctionIdent)
-			} else if !slices.Contains(change.LineChangeBitmap, true) {
+			}
+		}
+		errGrp := ErrGroupLimitCPU()
+		for _, change := range moduleChanges {
+			if !slices.Contains(change.LineChangeBitmap, true) {
 				continue // function only had additions, no changed logic to mutate (all lines would be excluded)
 			}
 
-- 
2.43.0


From 38e6c79ce3ff0d7641fae1a9f5aa17a8885d9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 61/61] fix: judge mutants with large diffs

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index f0f74ba..75438a5 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -369,7 +369,7 @@ if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
+GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
 mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
-- 
2.43.0

