From 8484d08eb0788d845ff7db92c20b02ca56801e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 01/71] fix: writer collector must not retain the caller's
 buffer

---
 x/ftdc/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/writer.go b/x/ftdc/writer.go
index 1578f99..81235e5 100644
--- a/x/ftdc/writer.go
+++ b/x/ftdc/writer.go
@@ -23,7 +23,9 @@ func NewWriterCollector(chunkSize int, writer io.WriteCloser) io.WriteCloser {
 }
 
 func (w *writerCollector) Write(in []byte) (int, error) {
-	doc, err := birch.ReadDocument(in)
+	// io.Writer implementations must not retain their input, and the
+	// document refers to the bytes that it is read from.
+	doc, err := birch.ReadDocument(append([]byte(nil), in...))
 	if err != nil {
 		return 0, fmt.Errorf("problem reading bson document: %w", err)
 	}
-- 
2.43.0


From 93c8b7364a98637019ffcdaacf8aeedb49755e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 02/71] fix: store doubles the way the ftdc reader expects them

---
 x/ftdc/bson_extract.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..eb5b002 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,9 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// doubles are not delta encoded: the reader takes these
+		// values to be the (bits of the) samples themselves
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
-- 
2.43.0


From 12d2e03ec1d997e27f255361a68c819d8d01b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 03/71] fix: datetime metrics outside of the years 1678 to 2262
 overflowed

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 21bde92624050f845df1f6c31960f6c784e43fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 04/71] fix: metrics of documents nested more than one level
 lost part of their path

---
 x/ftdc/bson_metric.go | 15 ++++-----------
 x/ftdc/ftdc.go        |  2 +-
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..6b4fe05 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,18 +48,11 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
+		// copy the path, which the metrics retain, so that sibling
+		// documents don't share (and overwrite) its backing array
+		path = append(path[:len(path):len(path)], key)
 
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		return metricForDocument(path, val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..48b307d 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -104,7 +104,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(m.ParentPath[:len(m.ParentPath):len(m.ParentPath)], m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
-- 
2.43.0


From 83d19f9eba9df876942e41b16ca9a13e859fbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 05/71] fix: read the first value of a timestamp metric in the
 unit of the others

---
 x/ftdc/read.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..a8bc3d4 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -112,7 +112,17 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 
 			// now go back and populate the delta numbers
 			var nzeroes uint64
+			var timestampInc bool
 			for i, v := range metrics {
+				if v.originalType == bsontype.Timestamp {
+					// timestamps have two metrics: the first
+					// starts in milliseconds, but is
+					// collected in seconds.
+					if !timestampInc {
+						v.startingValue /= 1000
+					}
+					timestampInc = !timestampInc
+				}
 				metrics[i].startingValue = v.startingValue
 				metrics[i].Values = make([]int64, ndeltas)
 
-- 
2.43.0


From c98ec950093887eb0ba33615115681dc5db775ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 06/71] fix: report read errors of ftdc streams before
 iteration ends

The channels closed before the error reached the collector, so Close could miss
it; a stream that ended inside of a document (after its length) wasn't an error;
and stopping the iteration early could report context.Canceled.
---
 x/ftdc/iterator_chunk.go |  7 +++++--
 x/ftdc/read.go           | 12 +++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..41da1ea 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,11 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// the channels close only after the errors are in the
+			// catcher, so that they're visible to the consumer once
+			// iteration ends.
+			go func() { defer close(pipe); out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
+			go func() { defer close(ipc); out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index a8bc3d4..af142c5 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,13 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			// the consumer stopped iterating, which isn't an error.
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
@@ -172,7 +170,11 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 	doc := &birch.Document{}
 
-	if _, err := doc.ReadFrom(buf); err != nil {
+	if n, err := doc.ReadFrom(buf); err != nil {
+		if n > 0 && err == io.EOF {
+			// the stream ended inside of a document.
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From 989aa45638d04c29f4e4aa6d65b925dd4df6680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:26 +0000
Subject: [PATCH 07/71] fix: track the current schema in the dynamic collector

Samples that returned to an earlier schema were added to the chunk of another
schema.
---
 x/ftdc/collector_dynamic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..3c9f186 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,13 +66,15 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
+	docHash, num := metricKeyHash(doc)
 	if c.hash == docHash {
 		return (lastChunk.Add(doc))
 	}
 
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
+	c.hash = docHash
+	c.currentNum = num
 
 	return (chunk.Add(doc))
 }
-- 
2.43.0


From 4fd9caae4404c13a662da71bc47dead5bf9330fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:45 +0000
Subject: [PATCH 08/71] fix: distinguish schemas by the type and nesting of
 their fields

The schema hash covered only the concatenated names of the metrics, so samples
with renamed, regrouped or retyped fields were misfiled or refused.
---
 x/ftdc/bson_hash.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..1b653d1 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -40,28 +40,31 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int {
 	switch value.Type() {
 	case bsontype.Array:
-		return metricKeyHashArray(checksum, key, value.MutableArray())
+		metricKeyHashWrite(checksum, key, value.Type())
+		seen := metricKeyHashArray(checksum, key, value.MutableArray())
+		_, _ = checksum.Write([]byte{0})
+		return seen
 	case bsontype.EmbeddedDocument:
-		return metricKeyHashDocument(checksum, key, value.MutableDocument())
-	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+		metricKeyHashWrite(checksum, key, value.Type())
+		seen := metricKeyHashDocument(checksum, key, value.MutableDocument())
+		_, _ = checksum.Write([]byte{0})
+		return seen
+	case bsontype.Boolean, bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.DateTime:
+		metricKeyHashWrite(checksum, key, value.Type())
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		metricKeyHashWrite(checksum, key, value.Type())
 		return 2
 	default:
 		return 0
 	}
 }
+
+// metricKeyHashWrite records a field such that different sequences of
+// fields cannot produce the same input to the hash: the type comes
+// first, and the (null) terminator cannot occur in a key.
+func metricKeyHashWrite(checksum hash.Hash, key string, t bsontype.Type) {
+	_, _ = checksum.Write([]byte{byte(t)})
+	_, _ = checksum.Write([]byte(key))
+	_, _ = checksum.Write([]byte{0})
+}
-- 
2.43.0


From 13c5809b3034d52087ee44236cd7fa5907befb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:12 +0000
Subject: [PATCH 09/71] fix: keep format and metadata of streaming dynamic
 collectors across schema changes

Reset replaced the underlying collector with a compressed one without metadata,
and the new schema was never recorded, so that every later sample was flushed
on its own. Uncompressed collectors refused samples with a different number of
fields that are not metrics.
---
 x/ftdc/collector_streaming.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..de02f46 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -81,6 +81,7 @@ type streamingDynamicCollector struct {
 	output      io.Writer
 	hash        string
 	metricCount int
+	fieldCount  int
 	*streamingCollector
 }
 
@@ -96,8 +97,9 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
+	c.fieldCount = 0
 	c.hash = ""
 }
 
@@ -108,22 +110,19 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
-	}
-
-	if c.metricCount != num || c.hash != docHash {
+	if c.streamingCollector.count > 0 && (c.metricCount != num || c.fieldCount != doc.Len() || c.hash != docHash) {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
 	}
 
-	return (c.streamingCollector.Add(doc))
+	if err := c.streamingCollector.Add(doc); err != nil {
+		return err
+	}
+
+	c.hash = docHash
+	c.metricCount = num
+	c.fieldCount = doc.Len()
+
+	return nil
 }
-- 
2.43.0


From cc9d55c64d01cc1a9c953545bac8bf9036b2d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:37 +0000
Subject: [PATCH 10/71] fix: flush streaming uncompressed collectors when they
 are full

The underlying collector holds one sample less than the streaming collector
waited for, so that every Add failed once it was full.
---
 x/ftdc/collector_uncompressed.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..59b9a3c 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -65,7 +65,9 @@ func NewUncompressedCollectorBSON(maxSamples int) Collector {
 // Close. You can also use the FlushCollector helper.
 func NewStreamingUncompressedCollectorJSON(maxSamples int, writer io.Writer) Collector {
 	return &streamingCollector{
-		maxSamples: maxSamples,
+		// unlike the compressed collectors, there's no room for
+		// a reference document in addition to the samples.
+		maxSamples: maxSamples - 1,
 		output:     writer,
 		Collector:  NewUncompressedCollectorJSON(maxSamples),
 	}
@@ -88,7 +90,9 @@ func NewStreamingUncompressedCollectorJSON(maxSamples int, writer io.Writer) Col
 // Close. You can also use the FlushCollector helper.
 func NewStreamingUncompressedCollectorBSON(maxSamples int, writer io.Writer) Collector {
 	return &streamingCollector{
-		maxSamples: maxSamples,
+		// unlike the compressed collectors, there's no room for
+		// a reference document in addition to the samples.
+		maxSamples: maxSamples - 1,
 		output:     writer,
 		Collector:  NewUncompressedCollectorBSON(maxSamples),
 	}
-- 
2.43.0


From f000677344d8e9275f060e0fde6e60fed596efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 11/71] fix: reject negative and overflowing lengths when
 validating bson

---
 iterator.go |  2 +-
 value.go    | 48 ++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/iterator.go b/iterator.go
index 13b7982..2d5daf4 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if givenLength < 5 || len(r) < int(givenLength) {
 		return nil, bsonerr.InvalidLength
 	}
 
diff --git a/value.go b/value.go
index 6e0ca90..2984b8a 100644
--- a/value.go
+++ b/value.go
@@ -218,9 +218,14 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
+
+		// the length includes the null terminator.
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
 		// We check if the value that is the last element of the string is a
 		// null terminator. We take the value offset, add 4 to account for the
 		// length, add the length of the string, and subtract one since the size
@@ -253,7 +258,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -265,6 +270,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if n != uint32(l) {
+				return total, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
@@ -292,7 +301,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -304,6 +313,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if n != uint32(l) {
+				return total, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
@@ -320,10 +333,15 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 || int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the old binary subtype has a second length, inside of the data.
+		if v.data[v.offset+4] == '\x02' && (l < 4 || readi32(v.data[v.offset+5:v.offset+9]) != l-4) {
+			return total, bsonerr.InvalidLength
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +392,14 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -420,10 +442,16 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the length includes itself and, when we look into the
+		// value, the length of the string.
+		if l < 4 || (!sizeOnly && l < 8) {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
@@ -436,6 +464,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			if sLength > l-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
@@ -452,6 +484,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if 8+uint32(sLength)+n != uint32(l) {
+				return total, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
-- 
2.43.0


From 65c0221d5e6821bb7efe650955ea66aeaed3a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 12/71] fix: check document lengths before allocating and
 reading documents

---
 document.go | 42 ++++++++++++++++++++++++++++++++++--------
 reader.go   | 23 +++++------------------
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..4ffa5ea 100644
--- a/document.go
+++ b/document.go
@@ -316,14 +316,8 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 		return total, err
 	}
 
-	givenLength := readi32(sizeBuf)
-
-	b := stw.NewSlice(bufpool.Get())
-	b.Grow(int(givenLength))
-
-	copy(b[0:4], sizeBuf)
-	n, err = io.ReadFull(r, b[4:])
-	total += int64(n)
+	b, nb, err := readBody(r, sizeBuf)
+	total += nb
 
 	if err != nil {
 		return total, err
@@ -332,6 +326,38 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	return total, d.UnmarshalBSON(b)
 }
 
+// readBody reads the rest of the document that begins with the given length
+// and returns the complete document with the number of bytes read from the
+// reader. The length may not be right, so memory is only allocated as
+// the data arrives.
+func readBody(r io.Reader, header []byte) ([]byte, int64, error) {
+	const maxInitialSize = 1024 * 1024
+
+	length := readi32(header)
+	if length < 5 {
+		return nil, 0, bsonerr.InvalidLength
+	}
+
+	if length <= maxInitialSize {
+		b := make([]byte, length)
+		copy(b, header)
+
+		n, err := io.ReadFull(r, b[4:])
+
+		return b, int64(n), err
+	}
+
+	buf := bytes.NewBuffer(make([]byte, 0, maxInitialSize))
+	buf.Write(header)
+
+	n, err := io.CopyN(buf, r, int64(length)-4)
+	if n > 0 && err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return buf.Bytes(), n, err
+}
+
 // String implements the fmt.Stringer interface.
 func (d *Document) String() string {
 	buf := &bytes.Buffer{}
diff --git a/reader.go b/reader.go
index 35cb6c7..189ada5 100644
--- a/reader.go
+++ b/reader.go
@@ -38,33 +38,20 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	lengthBytes.Grow(4)
 	defer bufpool.Put(lengthBytes)
 
-	count, err := io.ReadFull(r, lengthBytes[:])
-	if err != nil {
+	if _, err := io.ReadFull(r, lengthBytes[:]); err != nil {
 		return nil, err
 	}
 
-	if count < 4 {
-		return nil, errTooSmall
-	}
-
-	length := readi32(lengthBytes[:])
-	if length < 0 {
-		return nil, bsonerr.InvalidLength
+	reader, _, err := readBody(r, lengthBytes[:])
+	if err == io.EOF {
+		// the stream ended inside of the document.
+		err = io.ErrUnexpectedEOF
 	}
 
-	reader := make([]byte, length)
-
-	copy(reader, lengthBytes[:])
-
-	count, err = io.ReadFull(r, reader[4:])
 	if err != nil {
 		return nil, err
 	}
 
-	if int32(count) != length-4 {
-		return nil, bsonerr.InvalidLength
-	}
-
 	return reader, nil
 }
 
-- 
2.43.0


From 364b87e3e7553ee2665197a0fce811c3a3b04514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 13/71] fix: report damaged ftdc chunks instead of crashing or
 delivering them

---
 x/ftdc/read.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index af142c5..2014629 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -14,6 +14,8 @@ import (
 	"github.com/tychoish/birch/bsontype"
 )
 
+const maxInitialDeltas = 4096
+
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
 	buf := bufio.NewReader(f)
 	for {
@@ -69,7 +71,10 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok || len(zBytes) < 4 {
+				return errors.New("data does not hold a metrics chunk")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
@@ -77,7 +82,14 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if err != nil {
 				return fmt.Errorf("problem building zlib reader: %w", err)
 			}
-			buf := bufio.NewReader(z)
+
+			// decompress all of it before using any of it, as the
+			// checksum of the data is at its end.
+			payload, err := io.ReadAll(z)
+			if err != nil {
+				return fmt.Errorf("problem decompressing chunk: %w", err)
+			}
+			buf := bufio.NewReader(bytes.NewReader(payload))
 
 			// the metrics chunk, which is *not* bson, first
 			// contains a bson document which begins the
@@ -122,7 +134,10 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 					timestampInc = !timestampInc
 				}
 				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
+				// the number of deltas may be corrupt, so
+				// only the deltas that are present are
+				// allowed to determine the size.
+				metrics[i].Values = make([]int64, 0, min(ndeltas, maxInitialDeltas))
 
 				for j := 0; j < ndeltas; j++ {
 					var delta uint64
@@ -141,7 +156,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 							}
 						}
 					}
-					metrics[i].Values[j] = int64(delta)
+					metrics[i].Values = append(metrics[i].Values, int64(delta))
 				}
 				if metrics[i].originalType == bsontype.Double {
 					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
@@ -178,6 +193,11 @@ func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 		return nil, err
 	}
 
+	// check embedded documents too, which reading the document does not.
+	if _, err := doc.Validate(); err != nil {
+		return nil, err
+	}
+
 	return doc, nil
 }
 
-- 
2.43.0


From 57a696ca2bde4bab657d3946d73c9d50ff2f7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:47 +0000
Subject: [PATCH 14/71] fix: validate the contents of all embedded values

---
 reader.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/reader.go b/reader.go
index 189ada5..04b6fa2 100644
--- a/reader.go
+++ b/reader.go
@@ -59,13 +59,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
 	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
+		_, err := elem.value.validate(false)
 		return err
 	})
 }
-- 
2.43.0


From 209d82764f06e8bc8698e39baac21feb51e44b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 15/71] fix: buffered collector lost samples or panicked when
 its context ended

---
 x/ftdc/collector_buffered.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..2faf09b 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"context"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
@@ -11,6 +12,8 @@ type bufferedCollector struct {
 	pipe    chan any
 	catcher erc.Collector
 	ctx     context.Context
+	adding  sync.RWMutex  // held by Add for reading
+	done    chan struct{} // closed when the pipe is drained, after the context ended
 }
 
 // NewBufferedCollector wraps an existing collector with a buffer to
@@ -20,17 +23,23 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 		Collector: coll,
 		pipe:      make(chan any, size),
 		ctx:       ctx,
+		done:      make(chan struct{}),
 	}
 
 	go func() {
+		defer close(c.done)
+
 		for {
 			select {
 			case <-ctx.Done():
+				// wait for the calls to Add that may still put
+				// something into the pipe: later calls don't.
+				c.adding.Lock()
 				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
-					}
+				c.adding.Unlock()
+
+				for in := range c.pipe {
+					c.catcher.Push(c.Collector.Add(in))
 				}
 
 				return
@@ -43,6 +52,13 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 }
 
 func (c *bufferedCollector) Add(in any) error {
+	c.adding.RLock()
+	defer c.adding.RUnlock()
+
+	if err := c.ctx.Err(); err != nil {
+		return err
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
@@ -52,6 +68,10 @@ func (c *bufferedCollector) Add(in any) error {
 }
 
 func (c *bufferedCollector) Resolve() ([]byte, error) {
+	if c.ctx.Err() != nil {
+		<-c.done
+	}
+
 	if !c.catcher.Ok() {
 		return nil, c.catcher.Resolve()
 	}
-- 
2.43.0


From bb72ac7476b72464decebb1f819bf541f6603f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:01 +0000
Subject: [PATCH 16/71] fix: setting nil metadata unsets it, as documented

---
 x/ftdc/collector_better.go       | 5 +++++
 x/ftdc/collector_uncompressed.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..11c43d5 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,6 +33,11 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 59b9a3c..6048e92 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -160,6 +160,11 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
-- 
2.43.0


From 5d8c3de5cbb9112d4579683c394e43b2ddb59807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 17/71] fix: interval recorders stopped with their lock held

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..b24ba0c 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -52,6 +52,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..5e3ab38 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -52,6 +52,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From 418d8d1c13839dd7086bf044567b640ceb4e4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 18/71] fix: interval recorders must count each iteration
 exactly once

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index b24ba0c..5c8362b 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -87,6 +87,7 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 
 	if !r.started.IsZero() {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.started = time.Time{}
 	}
 
 	r.Unlock()
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 5e3ab38..22729d5 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -96,6 +96,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
-- 
2.43.0


From 2619c74b18936bada6b971f18bd0f9c6cfc25bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 19/71] fix: EndTest lost what was recorded after the last
 point was persisted

---
 x/ftdc/events/histogram.go                     | 18 ++++++++++++++++++
 x/ftdc/events/performance.go                   |  5 +++++
 x/ftdc/events/recorder_histogram_interval.go   |  4 +++-
 x/ftdc/events/recorder_performance_grouped.go  |  6 +++++-
 x/ftdc/events/recorder_performance_interval.go |  3 ++-
 5 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/events/histogram.go b/x/ftdc/events/histogram.go
index 5f81bd5..b7f3903 100644
--- a/x/ftdc/events/histogram.go
+++ b/x/ftdc/events/histogram.go
@@ -107,6 +107,24 @@ func (p *PerformanceHDR) MarshalDocument() (*birch.Document, error) {
 	), nil
 }
 
+// hasData reports if anything other than gauges has been recorded.
+func (p *PerformanceHDR) hasData() bool {
+	if !p.Timestamp.IsZero() {
+		return true
+	}
+
+	for _, h := range []*hdrhist.Histogram{
+		p.Counters.Number, p.Counters.Operations, p.Counters.Size, p.Counters.Errors,
+		p.Timers.Duration, p.Timers.Total,
+	} {
+		if h.TotalCount() > 0 {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (p *PerformanceHDR) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..52e6dd6 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -177,6 +177,11 @@ func (p *Performance) Add(in *Performance) {
 	p.Gauges.State = in.Gauges.State
 }
 
+// hasData reports if anything other than gauges has been recorded.
+func (p *Performance) hasData() bool {
+	return !p.Timestamp.IsZero() || p.Counters != (PerformanceCounters{}) || p.Timers != (PerformanceTimers{})
+}
+
 func (p *Performance) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 5c8362b..d3ded6b 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -121,10 +121,12 @@ func (r *intervalHistogramStream) EndTest() error {
 	r.Lock()
 
 	if !r.started.IsZero() {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
 		r.started = time.Time{}
 	}
-	if !r.point.Timestamp.IsZero() {
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..ecb80e5 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -12,6 +12,7 @@ type groupStream struct {
 	lastCollected time.Time
 	interval      time.Duration
 	point         *Performance
+	persisted     Performance // the counters and timers already in the collector
 	collector     ftdc.Collector
 	catcher       erc.Collector
 }
@@ -55,12 +56,14 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
 		r.point.Timestamp = time.Time{}
+		r.persisted = *r.point
 	}
 	r.started = time.Time{}
 }
 
 func (r *groupStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
+	if !r.point.Timestamp.IsZero() || r.point.Counters != r.persisted.Counters || r.point.Timers != r.persisted.Timers {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -73,6 +76,7 @@ func (r *groupStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = Performance{}
 	r.started = time.Time{}
 	r.lastCollected = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 22729d5..2a405ee 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -109,7 +109,8 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
-	if !r.point.Timestamp.IsZero() {
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
-- 
2.43.0


From b7c6d0cc188305782e7cf048034ba92a53941a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 20/71] fix: grouped histogram recorder ignored its interval

---
 x/ftdc/events/recorder_histogram_grouped.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..b69e0c7 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -32,6 +32,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		interval:  interval,
 	}
 }
 
-- 
2.43.0


From cd360cbf51ef084e4ff28e9b5bb0366874219195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 21/71] fix: event collectors must not modify or keep the
 events of the caller

---
 x/ftdc/events/collector.go   | 8 ++++----
 x/ftdc/events/performance.go | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..f1aace9 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,7 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 		return c.Collector.Add(c.current)
 	}
 
@@ -102,7 +102,7 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +142,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +189,7 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.clone()
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 52e6dd6..b4f006e 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -159,11 +159,12 @@ func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
 	if in.ID == 0 {
-		in.ID = p.ID + 1
+		p.ID++
+	} else {
+		p.ID = in.ID
 	}
 
 	p.Timestamp = in.Timestamp
-	p.ID = in.ID
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
@@ -177,6 +178,8 @@ func (p *Performance) Add(in *Performance) {
 	p.Gauges.State = in.Gauges.State
 }
 
+func (p *Performance) clone() *Performance { out := *p; return &out }
+
 // hasData reports if anything other than gauges has been recorded.
 func (p *Performance) hasData() bool {
 	return !p.Timestamp.IsZero() || p.Counters != (PerformanceCounters{}) || p.Timers != (PerformanceTimers{})
-- 
2.43.0


From 0a5df04399dd36c64506ee9e5f4f6b55d7f22afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 22/71] fix: read the id and operations of performance events

---
 x/ftdc/events/performance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index b4f006e..3459172 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -91,6 +91,7 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 		case "ts":
 			p.Timestamp = elem.Value().Time()
 		case "id":
+			p.ID = elem.Value().Int64()
 		case "counters":
 			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
 				return err
@@ -114,7 +115,7 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 		switch elem.Key() {
 		case "n":
 			p.Number = elem.Value().Int64()
-		case "opts":
+		case "ops":
 			p.Operations = elem.Value().Int64()
 		case "size":
 			p.Size = elem.Value().Int64()
-- 
2.43.0


From 5f93667243baaefede3497a11371aeef6620dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 23/71] fix: shim recorder must control the timer of the
 iterations

---
 x/ftdc/events/recorder_wrapper_stdlib.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/recorder_wrapper_stdlib.go b/x/ftdc/events/recorder_wrapper_stdlib.go
index 5f47b8d..fb7fb67 100644
--- a/x/ftdc/events/recorder_wrapper_stdlib.go
+++ b/x/ftdc/events/recorder_wrapper_stdlib.go
@@ -30,11 +30,11 @@ func (r *stdShim) Reset() {
 	r.b.ResetTimer()
 	r.Recorder.Reset()
 }
-func (r *stdShim) Begin() {
+func (r *stdShim) BeginIteration() {
 	r.b.StartTimer()
 	r.Recorder.BeginIteration()
 }
-func (r *stdShim) End(dur time.Duration) {
+func (r *stdShim) EndIteration(dur time.Duration) {
 	r.b.StopTimer()
 	r.Recorder.EndIteration(dur)
 }
-- 
2.43.0


From 6e0a728089b64092dfaca93bd33502cf4f0bbf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:07 +0000
Subject: [PATCH 24/71] fix: EndTest returned an emptied error when the
 collector failed more than once

The recorders returned a pointer to their error collector and then
cleared it, so an error with two or more causes lost all of them.
---
 x/ftdc/events/recorder_histogram.go            | 5 +++--
 x/ftdc/events/recorder_histogram_grouped.go    | 5 +++--
 x/ftdc/events/recorder_histogram_interval.go   | 5 +++--
 x/ftdc/events/recorder_histogram_single.go     | 5 +++--
 x/ftdc/events/recorder_performance_grouped.go  | 5 +++--
 x/ftdc/events/recorder_performance_interval.go | 5 +++--
 x/ftdc/events/recorder_performance_raw.go      | 5 +++--
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..4f4f881 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -11,7 +11,7 @@ type histogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewHistogramRecorder collects data and stores them with a histogram format.
@@ -29,6 +29,7 @@ func NewHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -85,7 +86,7 @@ func (r *histogramStream) EndTest() error {
 }
 
 func (r *histogramStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index b69e0c7..63809a9 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -13,7 +13,7 @@ type histogramGroupedStream struct {
 	started       time.Time
 	interval      time.Duration
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewHistogramGroupedRecorder captures data and stores them with a
@@ -32,6 +32,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 		interval:  interval,
 	}
 }
@@ -96,7 +97,7 @@ func (r *histogramGroupedStream) EndTest() error {
 }
 
 func (r *histogramGroupedStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index d3ded6b..0416d24 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -13,7 +13,7 @@ type intervalHistogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -32,6 +32,7 @@ type intervalHistogramStream struct {
 func NewIntervalHistogramRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalHistogramStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		interval:  interval,
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
@@ -147,7 +148,7 @@ func (r *intervalHistogramStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_single.go b/x/ftdc/events/recorder_histogram_single.go
index 0d3f9f8..26ccc13 100644
--- a/x/ftdc/events/recorder_histogram_single.go
+++ b/x/ftdc/events/recorder_histogram_single.go
@@ -11,7 +11,7 @@ type histogramSingle struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewSingleHistogramRecorder collects data and stores them with a histogram
@@ -29,6 +29,7 @@ func NewSingleHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramSingle{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -82,7 +83,7 @@ func (r *histogramSingle) EndTest() error {
 }
 
 func (r *histogramSingle) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index ecb80e5..1cd15b8 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -14,7 +14,7 @@ type groupStream struct {
 	point         *Performance
 	persisted     Performance // the counters and timers already in the collector
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewGroupedRecorder blends the single and the interval recorders, but it
@@ -26,6 +26,7 @@ type groupStream struct {
 func NewGroupedRecorder(collector ftdc.Collector, interval time.Duration) Recorder {
 	return &groupStream{
 		collector:     collector,
+		catcher:       &erc.Collector{},
 		point:         &Performance{Timestamp: time.Time{}},
 		interval:      interval,
 		lastCollected: time.Now(),
@@ -72,7 +73,7 @@ func (r *groupStream) EndTest() error {
 }
 
 func (r *groupStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2a405ee..c5ccedb 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -13,7 +13,7 @@ type intervalStream struct {
 	point     *Performance
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -32,6 +32,7 @@ type intervalStream struct {
 func NewIntervalRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		point:     &Performance{Timestamp: time.Time{}},
 		interval:  interval,
@@ -132,7 +133,7 @@ func (r *intervalStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..58806d8 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -11,7 +11,7 @@ type rawStream struct {
 	started   time.Time
 	point     *Performance
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewRawRecorder records a new event every time that the EndIteration method
@@ -22,6 +22,7 @@ type rawStream struct {
 func NewRawRecorder(collector ftdc.Collector) Recorder {
 	return &rawStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		point:     &Performance{Timestamp: time.Time{}},
 	}
 }
@@ -60,7 +61,7 @@ func (r *rawStream) EndTest() error {
 }
 
 func (r *rawStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
-- 
2.43.0


From 472a1cb77d96c09931450e7eb8d517f61a2fe6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 25/71] fix: converting csv lost rows and write errors

The error of the final flush was discarded, and rows whose number of
fields differs from the first were dropped without notice when no row
of the original length followed.
---
 x/ftdc/csv.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..7f7ae85 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -1,7 +1,6 @@
 package ftdc
 
 import (
-	"context"
 	"encoding/csv"
 	"errors"
 	"fmt"
@@ -150,10 +149,9 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // ConvertFromCSV takes an input stream and writes ftdc compressed
 // data to the provided output writer.
 //
-// If the number of fields changes in the CSV fields, the first field
-// with the changed number of fields becomes the header for the
-// subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+// Returns an error if the number of fields changes in the CSV, or if
+// there are any errors reading, parsing or writing data.
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -164,28 +162,20 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	collector := NewStreamingDynamicCollector(bucketSize, output)
 
 	defer func() {
-		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
-			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
-		}
-		err = FlushCollector(collector, output)
+		// flush what there is even if there was an error, and do not
+		// let either of the errors hide the other.
+		err = errors.Join(err, FlushCollector(collector, output))
 	}()
 
 	var record []string
 	for {
 		record, err = csvr.Read()
 		if err == io.EOF {
-			// this is weird so that the defer can work
-			err = nil
-			return err
+			return nil
 		}
 
 		if err != nil {
-			if pr, ok := err.(*csv.ParseError); ok && pr.Err == csv.ErrFieldCount {
-				header = record
-				continue
-			}
-			err = fmt.Errorf("problem parsing csv: %w", err)
-			return err
+			return fmt.Errorf("problem parsing csv: %w", err)
 		}
 		if len(record) != len(header) {
 			return errors.New("unexpected field count change")
-- 
2.43.0


From 4dc32efca693ddf328ae02ecb45eb22e418ac272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:19 +0000
Subject: [PATCH 26/71] fix: collecting runtime metrics in parallel never
 returned

The channel of results was ranged over without ever being closed, and
the panic of a collector was recorded after the results were read.
---
 x/ftdc/metrics/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..d63e3c0 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From fda61134194eb238ff5ca9c0eee8b71561ad24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 27/71] fix: collecting runtime metrics left its last file open

and created another, empty one when its context ended.
---
 x/ftdc/metrics/metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index d63e3c0..55a0d44 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -196,6 +196,9 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 	defer collectTimer.Stop()
 	defer flushTimer.Stop()
 
+	// closes the last file if there was an error
+	defer func() { _ = file.Close() }()
+
 	flusher := func() error {
 		info := collector.Info()
 		if info.SampleCount == 0 {
@@ -224,7 +227,11 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 	for {
 		select {
 		case <-ctx.Done():
-			return (flusher())
+			if err := ftdc.FlushCollector(collector, file); err != nil {
+				return err
+			}
+
+			return file.Close()
 		case <-collectTimer.C:
 			payload, err := opts.generate(ctx, collectCount)
 			if err != nil {
-- 
2.43.0


From 051568d87ac9ed9617f94d090a05adbe66b964d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:59 +0000
Subject: [PATCH 28/71] fix: json collection lost documents, read errors and
 its source goroutine

---
 x/ftdc/metrics/json.go | 169 ++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 97 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..baed9c0 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -2,6 +2,7 @@ package metrics
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -47,104 +48,64 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	out := make(chan *birch.Document)
 	errs := make(chan error, 2)
 
-	switch {
-	case opts.InputSource != nil:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
+	handler := func(in []byte) error {
+		jd, err := jsonx.DCE.Bytes(in)
+		if err != nil {
+			return err
+		}
 
-			stream := bufio.NewScanner(opts.InputSource)
+		doc, err := birch.DCE.JSONX(jd)
+		if err != nil {
+			return err
+		}
 
-			for stream.Scan() {
-				jd, err := jsonx.DCE.Bytes(stream.Bytes())
-				if err != nil {
-					errs <- err
-					return
-				}
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					errs <- err
-					return
-				}
+		select {
+		case out <- doc:
+			return nil
+		case <-ctx.Done():
+			return errors.New("operation aborted")
+		}
+	}
 
-				out <- doc
+	go func() {
+		defer close(errs)
+		defer func() {
+			if p := recover(); p != nil {
+				errs <- fmt.Errorf("json metrics collector: %v", p)
 			}
 		}()
-	case opts.FileName != "" && !opts.Follow:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
+
+		switch {
+		case opts.InputSource != nil:
+			errs <- readLines(opts.InputSource, handler)
+		case opts.FileName != "" && !opts.Follow:
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
 				return
 			}
-			defer func() { errs <- f.Close() }()
-
-			stream := bufio.NewScanner(f)
-			for stream.Scan() {
-				jd, err := jsonx.DCE.Bytes(stream.Bytes())
-				if err != nil {
-					errs <- err
-					return
-				}
-
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					errs <- err
-					return
-				}
 
-				select {
-				case out <- doc:
-				case <-ctx.Done():
-				}
-			}
-		}()
-	case opts.FileName != "" && opts.Follow:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
-
-			if err := follow(ctx, opts.FileName, func(in string) error {
-				jd, err := jsonx.DCE.Bytes([]byte(in))
-				if err != nil {
-					return err
-				}
+			errs <- errors.Join(readLines(f, handler), f.Close())
+		case opts.FileName != "" && opts.Follow:
+			errs <- follow(ctx, opts.FileName, handler)
+		default:
+			errs <- errors.New("invalid collect options")
+		}
+	}()
 
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					return err
-				}
+	return out, errs
+}
 
-				select {
-				case out <- doc:
-					return nil
-				case <-ctx.Done():
-					return ctx.Err()
-				}
-			}); err != nil {
-				errs <- err
-				return
-			}
-		}()
-	default:
-		errs <- errors.New("invalid collect options")
-		close(errs)
+// readLines calls the handler for every line of the input.
+func readLines(input io.Reader, handler func([]byte) error) error {
+	stream := bufio.NewScanner(input)
+	for stream.Scan() {
+		if err := handler(stream.Bytes()); err != nil {
+			return err
+		}
 	}
-	return out, errs
+
+	return stream.Err()
 }
 
 // CollectJSONStream provides a blocking process that reads new-line
@@ -161,6 +122,10 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 		return err
 	}
 
+	// stops the source when there is an error
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	outputCount := 0
 	collector := ftdc.NewDynamicCollector(opts.SampleCount)
 
@@ -218,7 +183,7 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 	}
 }
 
-func follow(ctx context.Context, filename string, handler func(string) error) error {
+func follow(ctx context.Context, filename string, handler func([]byte) error) error {
 	file, err := os.Open(filename)
 	if err != nil {
 		return err
@@ -235,22 +200,32 @@ func follow(ctx context.Context, filename string, handler func(string) error) er
 		return err
 	}
 
-	stream := bufio.NewScanner(bufio.NewReader(file))
+	stream := bufio.NewReader(file)
+	line := []byte{}
+
 	for {
+		// read all complete lines that there are, before waiting for more.
+		for {
+			part, err := stream.ReadBytes('\n')
+			line = append(line, part...)
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				return err
+			}
+
+			if err := handler(bytes.TrimRight(line, "\r\n")); err != nil {
+				return err
+			}
+
+			line = line[:0]
+		}
+
 		select {
 		case <-ctx.Done():
 			return errors.New("operation aborted")
-		case event := <-watcher.Events:
-			if event.Op&fsnotify.Write == fsnotify.Write {
-				for stream.Scan() {
-					if err := handler(stream.Text()); err != nil {
-						return err
-					}
-				}
-				if err := stream.Err(); err != nil {
-					return err
-				}
-			}
+		case <-watcher.Events:
 		case err := <-watcher.Errors:
 			return err
 		}
-- 
2.43.0


From 6fbd8a7348709599c5a002c607100d97a2a08dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:05 +0000
Subject: [PATCH 29/71] fix: integers below the 32 bit range were truncated
 when converted

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From 7517f9f41fe1605b6f7140fc1c2353976adb539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:22 +0000
Subject: [PATCH 30/71] fix: json collection left its file open when a document
 could not be converted

---
 x/ftdc/metrics/json.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index baed9c0..6c12cad 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -79,13 +79,7 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		case opts.InputSource != nil:
 			errs <- readLines(opts.InputSource, handler)
 		case opts.FileName != "" && !opts.Follow:
-			f, err := os.Open(opts.FileName)
-			if err != nil {
-				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
-				return
-			}
-
-			errs <- errors.Join(readLines(f, handler), f.Close())
+			errs <- readFile(opts.FileName, handler)
 		case opts.FileName != "" && opts.Follow:
 			errs <- follow(ctx, opts.FileName, handler)
 		default:
@@ -96,6 +90,17 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	return out, errs
 }
 
+// readFile calls the handler for every line of the file.
+func readFile(fileName string, handler func([]byte) error) (err error) {
+	f, err := os.Open(fileName)
+	if err != nil {
+		return fmt.Errorf("problem opening data file %s: %w", fileName, err)
+	}
+	defer func() { err = errors.Join(err, f.Close()) }()
+
+	return readLines(f, handler)
+}
+
 // readLines calls the handler for every line of the input.
 func readLines(input io.Reader, handler func([]byte) error) error {
 	stream := bufio.NewScanner(input)
-- 
2.43.0


From 804d2870091a90855b1a1955dfd26229b6da2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:06 +0000
Subject: [PATCH 31/71] fix: read exactly one wire message, however it arrives

A message whose four size bytes arrived in two reads was an error, one whose
body arrived in fragments could be mixed with the start of the next, and one
that was cut short was parsed as if it were complete. A reader or writer that
blocked left its goroutine behind for good once the context had ended.
---
 x/mrpc/mongowire/sock.go | 133 +++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 74 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..1fb7983 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -3,45 +3,22 @@ package mongowire
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
-
-	"errors"
 )
 
 const MaxInt32 = 2147483647
 
+// ReadMessage reads one message, and nothing of what follows it, from the
+// reader. The error is io.EOF only if the input ends before the message
+// begins. When the context ends before the message is complete the input is
+// left at an arbitrary position.
 func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
-	}
-
 	// read header
-	sizeBuf := make([]byte, 4)
-
-	readFinished := make(chan readResult)
-
-	go func() {
-		defer close(readFinished)
-
-		n, err := reader.Read(sizeBuf)
-		select {
-		case readFinished <- readResult{n: n, err: err}:
-		case <-ctx.Done():
-		}
-	}()
-
-	select {
-	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+	sizeBuf, err := readBytes(ctx, reader, 4)
+	if err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -52,45 +29,18 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		}
 		return nil, fmt.Errorf("message too big %d", header.Size)
 	}
-	if header.Size < 0 || header.Size-4 > MaxInt32 {
-		return nil, errors.New("message header has invalid size")
+	if header.Size < 16 {
+		return nil, fmt.Errorf("message header has invalid size %d, which is shorter than the header", header.Size)
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
-		}
+	buf, err := readBytes(ctx, reader, int64(header.Size-4))
+	if errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
 	}
-
-	buf := restBuf.Bytes()
-	if len(buf) < 12 {
-		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
+	if err != nil {
+		return nil, fmt.Errorf("problem reading message: %w", err)
 	}
+
 	header.RequestID = readInt32(buf)
 	header.ResponseTo = readInt32(buf[4:])
 	header.OpCode = OpType(readInt32(buf[8:]))
@@ -98,7 +48,43 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	return header.Parse(buf[12:])
 }
 
+// readBytes reads exactly as many bytes. The size may not be right, so memory
+// is only allocated as the data arrives.
+func readBytes(ctx context.Context, reader io.Reader, size int64) ([]byte, error) {
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
+	type readResult struct {
+		data []byte
+		err  error
+	}
+
+	readFinished := make(chan readResult, 1)
+
+	go func() {
+		buf := &bytes.Buffer{}
+		n, err := io.CopyN(buf, reader, size)
+		if n > 0 && err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+
+		readFinished <- readResult{data: buf.Bytes(), err: err}
+	}()
+
+	select {
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	case res := <-readFinished:
+		return res.data, res.err
+	}
+}
+
 func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	buf := m.Serialize()
 
 	type writeRes struct {
@@ -106,15 +92,11 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 		err error
 	}
 	for {
-		writeFinished := make(chan writeRes)
-		go func() {
-			defer close(writeFinished)
+		writeFinished := make(chan writeRes, 1)
+		go func(buf []byte) {
 			n, err := writer.Write(buf)
-			select {
-			case <-ctx.Done():
-			case writeFinished <- writeRes{n: n, err: err}:
-			}
-		}()
+			writeFinished <- writeRes{n: n, err: err}
+		}(buf)
 		select {
 		case <-ctx.Done():
 			return (ctx.Err())
@@ -125,6 +107,9 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 			if res.n == len(buf) {
 				return nil
 			}
+			if res.n <= 0 {
+				return fmt.Errorf("error writing message to client: %w", io.ErrShortWrite)
+			}
 			buf = buf[res.n:]
 		}
 	}
-- 
2.43.0


From 8531131688824ab172df052c45f4ea41f7bf375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:52 +0000
Subject: [PATCH 32/71] fix: malformed wire messages are errors, not panics

Sizes that do not fit the message, negative cursor counts, empty command
documents and documents that do not validate crashed the process (the reply
helper of the shell also on a reply without documents).
---
 x/mrpc/mongowire/wire_command.go       | 29 +++-----------------
 x/mrpc/mongowire/wire_command_reply.go | 27 +++++++------------
 x/mrpc/mongowire/wire_delete.go        |  3 +--
 x/mrpc/mongowire/wire_insert.go        |  4 +--
 x/mrpc/mongowire/wire_kill_cursors.go  |  4 +++
 x/mrpc/mongowire/wire_message.go       | 37 +++++++++++++++++---------
 x/mrpc/mongowire/wire_query.go         | 16 ++++++-----
 x/mrpc/mongowire/wire_reply.go         |  4 +--
 x/mrpc/mongowire/wire_update.go        | 16 +++++------
 x/mrpc/mongowire/wireutil.go           | 30 +++++++++++++++++++++
 x/mrpc/shell/util.go                   |  3 +++
 11 files changed, 96 insertions(+), 77 deletions(-)

diff --git a/x/mrpc/mongowire/wire_command.go b/x/mrpc/mongowire/wire_command.go
index bfecaef..1e728da 100644
--- a/x/mrpc/mongowire/wire_command.go
+++ b/x/mrpc/mongowire/wire_command.go
@@ -85,46 +85,25 @@ func (h *MessageHeader) parseCommandMessage(buf []byte) (Message, error) {
 	}
 	buf = buf[len(cmd.CmdName)+1:]
 
-	cmd.CommandArgs, err = birch.ReadDocument(buf)
-	if err != nil {
-		return nil, err
-	}
+	var size int
 
-	size, err := cmd.CommandArgs.Validate()
+	cmd.CommandArgs, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
-
-	if len(buf) < int(size) {
-		return cmd, errors.New("invalid command message -- message length is too short")
-	}
 	buf = buf[size:]
 
-	cmd.Metadata, err = birch.ReadDocument(buf)
+	cmd.Metadata, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
-
-	size, err = cmd.Metadata.Validate()
-	if err != nil {
-		return nil, err
-	}
-
-	if len(buf) < int(size) {
-		return cmd, errors.New("invalid command message -- message length is too short")
-	}
 	buf = buf[size:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, size, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
-		size, err = doc.Validate()
-		if err != nil {
-			return nil, err
-		}
-
 		buf = buf[size:]
 		cmd.InputDocs = append(cmd.InputDocs, *doc.Copy())
 	}
diff --git a/x/mrpc/mongowire/wire_command_reply.go b/x/mrpc/mongowire/wire_command_reply.go
index e4a1212..dd5ac2d 100644
--- a/x/mrpc/mongowire/wire_command_reply.go
+++ b/x/mrpc/mongowire/wire_command_reply.go
@@ -2,7 +2,6 @@ package mongowire
 
 import (
 	"bytes"
-	"errors"
 
 	"github.com/tychoish/birch"
 )
@@ -51,35 +50,29 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 		header: *h,
 	}
 
-	var err error
+	var (
+		err  error
+		size int
+	)
 
-	rm.CommandReply, err = birch.ReadDocument(buf)
+	rm.CommandReply, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
+	buf = buf[size:]
 
-	replySize := getDocSize(rm.CommandReply)
-	if len(buf) < replySize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[replySize:]
-
-	rm.Metadata, err = birch.ReadDocument(buf)
+	rm.Metadata, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
-	metaSize := getDocSize(rm.Metadata)
-	if len(buf) < metaSize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[metaSize:]
+	buf = buf[size:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, size, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
-		buf = buf[getDocSize(doc):]
+		buf = buf[size:]
 		rm.OutputDocs = append(rm.OutputDocs, *doc.Copy())
 	}
 
diff --git a/x/mrpc/mongowire/wire_delete.go b/x/mrpc/mongowire/wire_delete.go
index 4dc3669..5d79c5c 100644
--- a/x/mrpc/mongowire/wire_delete.go
+++ b/x/mrpc/mongowire/wire_delete.go
@@ -73,11 +73,10 @@ func (h *MessageHeader) parseDeleteMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += int(getDocSize(m.Filter)) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wire_insert.go b/x/mrpc/mongowire/wire_insert.go
index 2b75dc3..f6cabed 100644
--- a/x/mrpc/mongowire/wire_insert.go
+++ b/x/mrpc/mongowire/wire_insert.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseInsertMessage(buf []byte) (Message, error) {
 	loc += len(m.Namespace) + 1
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		m.Docs = append(m.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return m, nil
diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..6755623 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,6 +56,10 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
+	if m.NumCursors < 0 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is negative", m.NumCursors)
+	}
+
 	if len(buf[loc:]) < int(m.NumCursors)*8 {
 		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
 	}
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..7e9ccc4 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
@@ -199,33 +204,39 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		kind := int32(body[loc])
 		loc++
 
-		var err error
 		switch kind {
 		case OpMessageSectionBody:
-			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
-			msg.Items = append(msg.Items, section)
+			doc, size, err := readDocument(body[loc:])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += size
+			msg.Items = append(msg.Items, &opMessagePayloadType0{Document: doc})
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
 			section.Size = readInt32(body[loc:])
+
+			// the size counts the kind, which is behind us.
+			end := loc - 1 + int(section.Size)
+			if end < loc+4 || end > len(body) {
+				return nil, fmt.Errorf("section size %d does not fit the message", section.Size)
+			}
 			loc += 4
-			section.Identifier, err = readCString(body[loc:])
+
+			var err error
+			section.Identifier, err = readCString(body[loc:end])
 			if err != nil {
 				return nil, fmt.Errorf("could not read identifier: %w", err)
 			}
 			loc += len(section.Identifier) + 1 // c string null terminator
 
-			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+			for loc < end {
+				doc, size, err := readDocument(body[loc:end])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				loc += size
 			}
 			msg.Items = append(msg.Items, section)
 		default:
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..c956bf2 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -73,8 +73,9 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	var (
-		loc int
-		err error
+		loc  int
+		size int
+		err  error
 	)
 
 	qm := &queryMessage{
@@ -99,21 +100,24 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	qm.NReturn = readInt32(buf[loc:])
 	loc += 4
 
-	qm.Query, err = birch.ReadDocument(buf[loc:])
+	qm.Query, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(qm.Query)
+	loc += size
 
 	if loc < len(buf) {
-		qm.Project, err = birch.ReadDocument(buf[loc:])
+		qm.Project, _, err = readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
-		loc += getDocSize(qm.Project) // nolint
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command document is empty")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
diff --git a/x/mrpc/mongowire/wire_reply.go b/x/mrpc/mongowire/wire_reply.go
index c0a6b47..d08386f 100644
--- a/x/mrpc/mongowire/wire_reply.go
+++ b/x/mrpc/mongowire/wire_reply.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseReplyMessage(buf []byte) (Message, error) {
 	loc += 4
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		rm.Docs = append(rm.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return rm, nil
diff --git a/x/mrpc/mongowire/wire_update.go b/x/mrpc/mongowire/wire_update.go
index 748be5f..b2d2c18 100644
--- a/x/mrpc/mongowire/wire_update.go
+++ b/x/mrpc/mongowire/wire_update.go
@@ -51,8 +51,9 @@ func (m *updateMessage) Serialize() []byte {
 
 func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	var (
-		err error
-		loc int
+		err  error
+		loc  int
+		size int
 	)
 
 	if len(buf) < 4 {
@@ -79,21 +80,16 @@ func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Filter)
+	loc += size
 
-	if len(buf) < loc {
-		return m, errors.New("invalid update message -- message length is too short")
-	}
-
-	m.Update, err = birch.ReadDocument(buf[loc:])
+	m.Update, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Update) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wireutil.go b/x/mrpc/mongowire/wireutil.go
index b6cd570..cac8e66 100644
--- a/x/mrpc/mongowire/wireutil.go
+++ b/x/mrpc/mongowire/wireutil.go
@@ -2,6 +2,7 @@ package mongowire
 
 import (
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/tychoish/birch"
@@ -78,6 +79,35 @@ func writeCString(s string, wr io.Writer) int {
 	return len(s) + 1
 }
 
+// readDocument reads the document at the start of the input, which may hold
+// more than the document, and returns its size.
+func readDocument(b []byte) (*birch.Document, int, error) {
+	if len(b) < 5 {
+		return nil, 0, errors.New("invalid document -- message length is too short")
+	}
+
+	size := int(readInt32(b))
+	if size < 5 || size > len(b) {
+		return nil, 0, fmt.Errorf("invalid document -- size %d does not fit the message", size)
+	}
+
+	doc, err := birch.ReadDocument(b[:size])
+	if err != nil {
+		return nil, 0, err
+	}
+
+	n, err := doc.Validate()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if int(n) != size {
+		return nil, 0, fmt.Errorf("invalid document -- size is %d but its elements have %d", size, n)
+	}
+
+	return doc, size, nil
+}
+
 func getDocSize(doc *birch.Document) int {
 	if doc == nil {
 		return 0
diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From 8d566e5eebfd47500b347fbaec49611ca35201ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 33/71] fix: OP_MSG messages that other implementations
 understand

The more-to-come flag was never set, and the model confused it with the one for
the checksum; a checksum of zero was left out although the flag announced it,
the size of a document sequence counted the byte before it, and a parsed
message forgot its size.
---
 x/mrpc/mongowire/message.go      | 11 ++-----
 x/mrpc/mongowire/wire_message.go | 49 ++++++++++++++++----------------
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..2ecce94 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&opMessageChecksumPresent != 0
+		op.MoreToCome = m.Flags&opMessageMoreToCome != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 7e9ccc4..f03b358 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -22,6 +22,11 @@ const (
 	OpMessageSectionDocumentSequence = 1
 )
 
+const (
+	opMessageChecksumPresent = 1 << 0
+	opMessageMoreToCome      = 1 << 1
+)
+
 type opMessagePayloadType0 struct {
 	Document *birch.Document
 }
@@ -77,15 +82,14 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size, which does not count the kind
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -126,15 +130,9 @@ func (m *OpMessage) Serialize() []byte {
 	sections := []byte{}
 	for _, section := range m.Items {
 		sections = append(sections, section.Serialize()...)
-		switch p := section.(type) {
-		case *opMessagePayloadType0:
-			size += 1 // kind // nolint
-			size += getDocSize(p.Document)
-		case *opMessagePayloadType1:
-			size += int(p.Size)
-		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	size += len(sections)
+	if m.Flags&opMessageChecksumPresent != 0 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -144,7 +142,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if m.Flags&opMessageChecksumPresent != 0 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -168,7 +166,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= opMessageMoreToCome
 	}
 
 	for idx := range items {
@@ -198,9 +196,16 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc := 0
 	msg.Flags = uint32(readInt32(body[loc:]))
 	loc += 4
-	checksumPresent := (msg.Flags & 1) == 1
 
-	for loc < len(body)-4 {
+	if msg.Flags&opMessageChecksumPresent != 0 {
+		if len(body) < loc+4 {
+			return nil, errors.New("invalid op message - message does not have a checksum")
+		}
+		msg.Checksum = readInt32(body[len(body)-4:])
+		body = body[:len(body)-4]
+	}
+
+	for loc < len(body) {
 		kind := int32(body[loc])
 		loc++
 
@@ -213,11 +218,14 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			loc += size
 			msg.Items = append(msg.Items, &opMessagePayloadType0{Document: doc})
 		case OpMessageSectionDocumentSequence:
+			if len(body) < loc+4 {
+				return nil, errors.New("invalid op message - message length is too short")
+			}
+
 			section := &opMessagePayloadType1{}
 			section.Size = readInt32(body[loc:])
 
-			// the size counts the kind, which is behind us.
-			end := loc - 1 + int(section.Size)
+			end := loc + int(section.Size)
 			if end < loc+4 || end > len(body) {
 				return nil, fmt.Errorf("section size %d does not fit the message", section.Size)
 			}
@@ -244,12 +252,5 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
-		msg.Checksum = readInt32(body[loc:])
-		loc += 4
-	}
-
-	msg.header.Size = int32(loc)
-
 	return msg, nil
 }
-- 
2.43.0


From f23e1b642a24934b87a051c71f56c88f4d8d5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:53 +0000
Subject: [PATCH 34/71] fix: keep the ids of a query that is converted into a
 command

A command could be read but, without metadata, not written again.
---
 x/mrpc/mongowire/wire_command.go | 10 ++++++++--
 x/mrpc/mongowire/wire_query.go   |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/x/mrpc/mongowire/wire_command.go b/x/mrpc/mongowire/wire_command.go
index 1e728da..8399ae0 100644
--- a/x/mrpc/mongowire/wire_command.go
+++ b/x/mrpc/mongowire/wire_command.go
@@ -33,11 +33,17 @@ func (m *CommandMessage) Scope() *OpScope {
 }
 
 func (m *CommandMessage) Serialize() []byte {
+	metadata := m.Metadata
+	if metadata == nil {
+		// the metadata is not optional.
+		metadata = birch.DC.New()
+	}
+
 	size := 16 /* header */
 	size += len(m.DB) + 1
 	size += len(m.CmdName) + 1
 	size += getDocSize(m.CommandArgs)
-	size += getDocSize(m.Metadata)
+	size += getDocSize(metadata)
 	for _, d := range m.InputDocs {
 		size += getDocSize(&d)
 	}
@@ -50,7 +56,7 @@ func (m *CommandMessage) Serialize() []byte {
 	writeCString(m.CmdName, buf)
 
 	m.CommandArgs.WriteTo(buf)
-	m.Metadata.WriteTo(buf)
+	metadata.WriteTo(buf)
 
 	for _, d := range m.InputDocs {
 		d.WriteTo(buf)
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index c956bf2..f9843e5 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -57,8 +57,10 @@ func (m *queryMessage) convertToCommand() *CommandMessage {
 
 	return &CommandMessage{
 		header: MessageHeader{
-			OpCode:    OP_COMMAND,
-			RequestID: 19,
+			OpCode:     OP_COMMAND,
+			Size:       m.header.Size,
+			RequestID:  m.header.RequestID,
+			ResponseTo: m.header.ResponseTo,
 		},
 		DB:          NamespaceToDB(m.Namespace),
 		CmdName:     m.Query.ElementAt(0).Key(),
-- 
2.43.0


From a913d9f884828ed4aed2c46289c4d11d0ab47fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:53 +0000
Subject: [PATCH 35/71] fix: flags of replies and updates, and the model of a
 get more message

The flags are bits: a reply without any was reported as cursor not found and
one whose cursor was not found as a query failure.
---
 x/mrpc/mongowire/message.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 2ecce94..8a0b81d 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -159,6 +159,12 @@ func GetModel(msg Message) (any, OpType) {
 			Namespace: m.Namespace,
 			Filter:    m.Filter,
 		}, OP_DELETE
+	case *getMoreMessage:
+		return &model.GetMore{
+			Namespace: m.Namespace,
+			CursorID:  m.CursorId,
+			NReturn:   m.NReturn,
+		}, OP_GET_MORE
 	case *insertMessage:
 		return &model.Insert{
 			Namespace: m.Namespace,
@@ -179,15 +185,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&1 != 0
+		update.Multi = m.Flags&2 != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -197,12 +196,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&1 != 0
+		reply.QueryFailure = m.Flags&2 != 0
 
 		return reply, OP_REPLY
 	default:
-- 
2.43.0


From 6b2b020a781ae2f6febb9539004a5e8603db35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 36/71] fix: a service that stops when told to and survives its
 clients and handlers

Run did not return when its context ended until the next client connected, and
left connections open. A panic in a handler and a reply sent as a request
stopped the whole process, responses were lost when a client stopped sending
before it had received them, and an accept error was retried without a pause.
---
 x/mrpc/service.go | 76 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..731c871 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -6,12 +6,19 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"errors"
 
 	"github.com/tychoish/birch/x/mrpc/mongowire"
 )
 
+const (
+	minAcceptDelay = 5 * time.Millisecond
+	maxAcceptDelay = time.Second
+)
+
 type HandlerFunc func(context.Context, io.Writer, mongowire.Message)
 
 type Service interface {
@@ -61,35 +68,58 @@ func (s *basicService) Run(ctx context.Context) error {
 	}
 	defer func() { _ = l.Close() }()
 
+	// Accept does not know about the context.
+	defer context.AfterFunc(ctx, func() { _ = l.Close() })()
+
+	var delay time.Duration
+
 	for {
 		if ctx.Err() != nil {
 			return nil
 		}
 
 		conn, err := l.Accept()
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
-			return nil
-		} else if err != nil {
+		if err != nil {
+			if ctx.Err() != nil {
+				return nil
+			}
+
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
+
+			// there may be too many open files.
+			delay = min(max(2*delay, minAcceptDelay), maxAcceptDelay)
+			select {
+			case <-ctx.Done():
+			case <-time.After(delay):
+			}
+
 			continue
 		}
 
+		delay = 0
+
 		go s.dispatchRequest(ctx, conn)
 	}
 }
 
 func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 	defer func() {
-		if p := recover(); p != nil {
-			s.handleError(fmt.Errorf("panic responding to request: %v", p))
-		}
-
-		if err := conn.Close(); err != nil {
+		if err := conn.Close(); err != nil && !errors.Is(err, net.ErrClosed) {
 			s.handleError(fmt.Errorf("error closing connection from %q: %w", conn.RemoteAddr(), err))
 			return
 		}
 	}()
 
+	// reads and writes that have begun do not know about the context.
+	defer context.AfterFunc(ctx, func() { _ = conn.Close() })()
+
+	// handlers may still have to respond when the client has sent all of its
+	// requests.
+	var handlers sync.WaitGroup
+	defer handlers.Wait()
+
+	defer s.recoverPanic()
+
 	if c, ok := conn.(*tls.Conn); ok {
 		// we do this here so that we can get the SNI server name
 		if err := c.Handshake(); err != nil {
@@ -101,7 +131,7 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 	for {
 		m, err := mongowire.ReadMessage(ctx, conn)
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
 				// Connection was likely closed
 				return
 			}
@@ -113,6 +143,10 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 		}
 
 		scope := m.Scope()
+		if scope == nil {
+			s.handleError(fmt.Errorf("message is not a request: %s", m.Header().OpCode))
+			return
+		}
 
 		handler, ok := s.registry.Get(scope)
 		if !ok {
@@ -120,6 +154,28 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go handler(ctx, conn, m)
+		handlers.Add(1)
+		go func() {
+			defer handlers.Done()
+			defer s.recoverPanic()
+
+			complete := false
+			defer func() {
+				if !complete {
+					// the client would wait for a response.
+					_ = conn.Close()
+				}
+			}()
+
+			handler(ctx, conn, m)
+			complete = true
+		}()
+	}
+}
+
+// recoverPanic has to be deferred directly.
+func (s *basicService) recoverPanic() {
+	if p := recover(); p != nil {
+		s.handleError(fmt.Errorf("panic responding to request: %v", p))
 	}
 }
-- 
2.43.0


From 0580491e9599730b2dffd848e79ad5ea029f1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 37/71] fix: validating deeply nested documents exhausted the
 stack

---
 bsonerr/document.go |  3 +++
 reader.go           | 14 +++++++++++++-
 value.go            | 12 +++++++++---
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/bsonerr/document.go b/bsonerr/document.go
index 8d3bf45..09f05a1 100644
--- a/bsonerr/document.go
+++ b/bsonerr/document.go
@@ -8,6 +8,9 @@ var NilReader = errors.New("nil reader")
 // InvalidReadOnlyDocument indicates that the underlying bytes of a bson.Reader are invalid.
 var InvalidReadOnlyDocument = errors.New("invalid read-only document")
 
+// TooDeep indicates that a document is nested too deep.
+var TooDeep = errors.New("document is nested too deep")
+
 // InvalidKey indicates that the BSON representation of a key is missing a null terminator.
 var InvalidKey = errors.New("invalid document key")
 
diff --git a/reader.go b/reader.go
index 04b6fa2..2f8fd2d 100644
--- a/reader.go
+++ b/reader.go
@@ -58,8 +58,20 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // Validate validates the document. This method only validates the first document in
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
+	return r.validateAt(0)
+}
+
+// maxDepth limits how deep documents can be nested: the stack is limited, and
+// exceeding that limit is not an error that can be handled.
+const maxDepth = 10000
+
+func (r Reader) validateAt(depth int) (size uint32, err error) {
+	if depth > maxDepth {
+		return 0, bsonerr.TooDeep
+	}
+
 	return r.readElements(func(elem *Element) error {
-		_, err := elem.value.validate(false)
+		_, err := elem.value.validateAt(false, depth)
 		return err
 	})
 }
diff --git a/value.go b/value.go
index 2984b8a..d3a029d 100644
--- a/value.go
+++ b/value.go
@@ -196,6 +196,12 @@ func (v *Value) Validate() error {
 }
 
 func (v *Value) validate(sizeOnly bool) (uint32, error) {
+	return v.validateAt(sizeOnly, 0)
+}
+
+// validateAt validates a value that is nested as deep in the value, or
+// document, that is being validated.
+func (v *Value) validateAt(sizeOnly bool, depth int) (uint32, error) {
 	if v.data == nil {
 		return 0, bsonerr.UninitializedElement
 	}
@@ -263,7 +269,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		}
 
 		if !sizeOnly {
-			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).validateAt(depth + 1)
 			total += n - 4
 
 			if err != nil {
@@ -306,7 +312,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		}
 
 		if !sizeOnly {
-			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).validateAt(depth + 1)
 			total += n - 4
 
 			if err != nil {
@@ -477,7 +483,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			}
 
 			total += uint32(sLength)
-			n, err := Reader(v.data[v.offset+8+uint32(sLength) : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset+8+uint32(sLength) : v.offset+uint32(l)]).validateAt(depth + 1)
 			total += n
 
 			if err != nil {
-- 
2.43.0


From 335b07b48dbcae4626ac8c5b0cfca604db45c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:59 +0000
Subject: [PATCH 38/71] fix: collectors report a nil document instead of
 panicking

---
 x/ftdc/collector_better.go       | 2 +-
 x/ftdc/collector_uncompressed.go | 2 +-
 x/ftdc/util.go                   | 9 ++++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index 11c43d5..c20641f 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,7 +33,7 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
-	if in == nil {
+	if doc, ok := in.(*birch.Document); in == nil || (ok && doc == nil) {
 		c.metadata = nil
 		return nil
 	}
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 6048e92..9d0f041 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -160,7 +160,7 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
-	if in == nil {
+	if doc, ok := in.(*birch.Document); in == nil || (ok && doc == nil) {
 		c.metadata = nil
 		return nil
 	}
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 4167d21..9118569 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -18,9 +18,16 @@ import (
 func readDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
+		if doc == nil {
+			return nil, errors.New("nil document")
+		}
 		return doc, nil
 	case birch.DocumentMarshaler:
-		return doc.MarshalDocument()
+		out, err := doc.MarshalDocument()
+		if err == nil && out == nil {
+			return nil, errors.New("nil document")
+		}
+		return out, err
 	case []byte:
 		return birch.ReadDocument(doc)
 	case birch.Marshaler:
-- 
2.43.0


From c515158d387de0dcb703f11f6b118cc8933f9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 39/71] fix: samples given as maps lost their numbers or the
 order of their fields

---
 x/ftdc/util.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 9118569..ea8825d 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -36,10 +36,16 @@ func readDocument(in any) (*birch.Document, error) {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
 		return birch.ReadDocument(data)
-	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
-		elems := birch.DC.Interface(doc).Elements()
-		sort.Stable(elems)
-		return birch.DC.Elements(elems...), nil
+	case map[string]any:
+		return mapDocument(doc), nil
+	case map[string]int:
+		return intMapDocument(doc), nil
+	case map[string]int64:
+		return intMapDocument(doc), nil
+	case map[string]uint:
+		return intMapDocument(doc), nil
+	case map[string]uint64:
+		return intMapDocument(doc), nil
 	case map[string]string:
 		return nil, errors.New("cannot use string maps for metrics documents")
 	case nil:
@@ -62,6 +68,48 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+// mapDocument builds a document with the keys of all maps in order, as
+// the samples of a series must have their fields in the same order.
+func mapDocument(in map[string]any) *birch.Document {
+	doc := birch.DC.Make(len(in))
+	for _, key := range sortedKeys(in) {
+		doc.Append(birch.EC.Value(key, mapValue(in[key])))
+	}
+	return doc
+}
+
+func mapValue(in any) *birch.Value {
+	switch val := in.(type) {
+	case map[string]any:
+		return birch.VC.Document(mapDocument(val))
+	case []any:
+		array := birch.MakeArray(len(val))
+		for _, item := range val {
+			array.Append(mapValue(item))
+		}
+		return birch.VC.Array(array)
+	default:
+		return birch.VC.Interface(in)
+	}
+}
+
+func intMapDocument[T int | int64 | uint | uint64](in map[string]T) *birch.Document {
+	doc := birch.DC.Make(len(in))
+	for _, key := range sortedKeys(in) {
+		doc.Append(birch.EC.Int64(key, int64(in[key])))
+	}
+	return doc
+}
+
+func sortedKeys[T any](in map[string]T) []string {
+	keys := make([]string, 0, len(in))
+	for key := range in {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
 func undeltaFloats(value int64, deltas []int64) []int64 {
-- 
2.43.0


From 11e412cbaf291aedf8c8e83128b9d6406efe7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 40/71] fix: collecting system metrics panicked when the CPU
 times cannot be read

---
 x/ftdc/metrics/system_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 1afc9c8..535d75d 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -79,7 +79,7 @@ func MakeSystemInfo(message string) *SystemInfo {
 	percent, err := cpu.Percent(0, false)
 	if err != nil {
 		s.saveError("cpu_times", err)
-	} else {
+	} else if len(percent) > 0 {
 		s.CPUPercent = percent[0]
 	}
 
-- 
2.43.0


From 82b08cfa67d9ed02f8c2fc7eceba39b20efb0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 41/71] fix: device metrics were recorded in random order

---
 x/ftdc/metrics/system_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 535d75d..9562742 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"runtime"
+	"sort"
 
 	"github.com/shirou/gopsutil/cpu"
 	"github.com/shirou/gopsutil/disk"
@@ -121,6 +122,8 @@ func MakeSystemInfo(message string) *SystemInfo {
 	for _, stat := range iostatMap {
 		s.IOStat = append(s.IOStat, stat)
 	}
+	// series of samples identify devices by their position
+	sort.Slice(s.IOStat, func(i, j int) bool { return s.IOStat[i].Name < s.IOStat[j].Name })
 
 	return s
 }
-- 
2.43.0


From f56b334c26ef064d6bb4e0e76c0c7088170cb219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:13 +0000
Subject: [PATCH 42/71] fix: CPU times were recorded a tick short

---
 x/ftdc/metrics/system_info.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 9562742..5a7c062 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -3,6 +3,7 @@ package metrics
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"runtime"
 	"sort"
 
@@ -42,18 +43,21 @@ type StatCPUTimes struct {
 	GuestNice int64 `json:"guestNice" bson:"guestNice"`
 }
 
+// toTicks rounds, as seconds are not exact.
+func toTicks(seconds float64) int64 { return int64(math.Round(seconds * cpuTicks)) }
+
 func convertCPUTimes(in cpu.TimesStat) StatCPUTimes {
 	return StatCPUTimes{
-		User:      int64(in.User * cpuTicks),
-		System:    int64(in.System * cpuTicks),
-		Idle:      int64(in.Idle * cpuTicks),
-		Nice:      int64(in.Nice * cpuTicks),
-		Iowait:    int64(in.Iowait * cpuTicks),
-		Irq:       int64(in.Irq * cpuTicks),
-		Softirq:   int64(in.Softirq * cpuTicks),
-		Steal:     int64(in.Steal * cpuTicks),
-		Guest:     int64(in.Guest * cpuTicks),
-		GuestNice: int64(in.GuestNice * cpuTicks),
+		User:      toTicks(in.User),
+		System:    toTicks(in.System),
+		Idle:      toTicks(in.Idle),
+		Nice:      toTicks(in.Nice),
+		Iowait:    toTicks(in.Iowait),
+		Irq:       toTicks(in.Irq),
+		Softirq:   toTicks(in.Softirq),
+		Steal:     toTicks(in.Steal),
+		Guest:     toTicks(in.Guest),
+		GuestNice: toTicks(in.GuestNice),
 	}
 }
 
-- 
2.43.0


From ce2ee236a48d03948e717852decfe2da87f8a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:01 +0000
Subject: [PATCH 43/71] fix: collecting runtime metrics ended when the measured
 devices changed

---
 x/ftdc/metrics/metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 55a0d44..9b12262 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,7 +190,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
-	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
+	collector := ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
 	defer collectTimer.Stop()
@@ -220,7 +220,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 			return fmt.Errorf("problem creating subsequent file: %w", err)
 		}
 
-		collector = ftdc.NewStreamingCollector(opts.SampleCount, file)
+		collector = ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 		return nil
 	}
 
-- 
2.43.0


From 4306a0c597ff134567472edb741c5981495d1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 44/71] fix: counts of the Go runtime were lost when two
 collections fell on one instant

---
 x/ftdc/metrics/golang_info.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/x/ftdc/metrics/golang_info.go b/x/ftdc/metrics/golang_info.go
index 6e8faf6..12a0c3c 100644
--- a/x/ftdc/metrics/golang_info.go
+++ b/x/ftdc/metrics/golang_info.go
@@ -65,10 +65,6 @@ type statRate struct {
 }
 
 func (s *goStats) getRate(stat int64) statRate {
-	if s.durSinceLastUpdate == 0 {
-		return statRate{}
-	}
-
 	return statRate{Delta: stat, Duration: s.durSinceLastUpdate}
 }
 
-- 
2.43.0


From d45ff57c5a79083b0e8d02b5d01c3ee55369f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:54 +0000
Subject: [PATCH 45/71] fix: escape keys in JSON

---
 jsonx/marhsal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..cd62a55 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From 8d3f76b90a2b545ccca56d36f5fab69cb8d906e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:36 +0000
Subject: [PATCH 46/71] fix: write binary values as base64 in JSON, and read
 them back

---
 x_json_marshal.go   |  6 ++++--
 x_json_unmarshal.go | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..6ad7374 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -55,8 +57,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", fmt.Sprintf("%02x", t)),
 			),
 		)
 	case bsontype.Undefined:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..d09f7e8 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,8 +2,10 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -268,7 +270,38 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			if val, ok := indoc.ElementAtIndex(0).Value().StringValueOK(); ok {
+				return EC.Binary(in.Key(), []byte(val)), nil
+			}
+
+			bin, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding binary at %q", in.Key())
+			}
+
+			var (
+				data    []byte
+				subType uint64
+			)
+			for elem := range bin.Iterator() {
+				val, ok := elem.Value().StringValueOK()
+				if !ok {
+					return nil, fmt.Errorf("problem decoding %q of binary at %q", elem.Key(), in.Key())
+				}
+
+				var err error
+				switch elem.Key() {
+				case "base64":
+					data, err = base64.StdEncoding.DecodeString(val)
+				case "subType":
+					subType, err = strconv.ParseUint(val, 16, 8)
+				}
+				if err != nil {
+					return nil, fmt.Errorf("problem parsing %q of binary at %q: %w", elem.Key(), in.Key(), err)
+				}
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), data, byte(subType)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From 98908397226b82432a877e6455fbd9d5cdfea4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 47/71] fix: keep milliseconds and distant years of dates in
 JSON

---
 x_json_marshal.go   | 13 ++++++++++++-
 x_json_unmarshal.go | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 6ad7374..69bdffc 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -3,6 +3,7 @@ package birch
 import (
 	"encoding/base64"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -68,7 +69,17 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		// RFC3339 has no years of more than four digits
+		date := v.Time()
+		if year := date.Year(); year < 0 || year > 9999 {
+			return jsonx.VC.ObjectFromElements(
+				jsonx.EC.ObjectFromElements("$date",
+					jsonx.EC.String("$numberLong", strconv.FormatInt(v.DateTime(), 10)),
+				),
+			)
+		}
+
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", date.Format(time.RFC3339Nano)))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index d09f7e8..75b644f 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -255,6 +255,20 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
+			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
+				val, ok := long.ElementAtIndex(0).Value().StringValueOK()
+				if !ok {
+					return nil, fmt.Errorf("problem decoding date at %q", in.Key())
+				}
+
+				ms, err := strconv.ParseInt(val, 10, 64)
+				if err != nil {
+					return nil, err
+				}
+
+				return EC.DateTime(in.Key(), ms), nil
+			}
+
 			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 3ce432528072979e7f71f30e7f0ff288469ff9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:26 +0000
Subject: [PATCH 48/71] fix: write doubles with all their digits in JSON, and
 read them as doubles

---
 jsonx/marhsal.go    |  8 +++++---
 jsonx/unmarshal.go  |  3 ++-
 jsonx/write.go      | 19 +++++++++++++++++++
 x_json_marshal.go   | 12 +++++++++++-
 x_json_unmarshal.go | 12 ++++++++++++
 5 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index cd62a55..fca8a27 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -67,11 +67,13 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 	case String:
 		return writeJSONString([]byte(fmt.Sprintf(`%s`, v.value))), nil
 	case NumberDouble, NumberInteger, Number:
-		switch v.value.(type) {
+		switch num := v.value.(type) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
-		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+		case float64:
+			return writeJSONFloat(num, 64)
+		case float32:
+			return writeJSONFloat(float64(num), 32)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..ea53bab 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -3,6 +3,7 @@ package jsonx
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"errors"
 
@@ -90,7 +91,7 @@ func getValueForResult(value internal.Result) (*Value, error) {
 	case value.Type == internal.False:
 		return VC.Boolean(false), nil
 	case value.Type == internal.Number:
-		num := json.Number(value.String())
+		num := json.Number(strings.TrimSpace(value.Raw))
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
 		} else if df, err := num.Float64(); err == nil {
diff --git a/jsonx/write.go b/jsonx/write.go
index b664054..a971e05 100644
--- a/jsonx/write.go
+++ b/jsonx/write.go
@@ -3,6 +3,10 @@ package jsonx
 // code in this file from: https://github.com/json-iterator/go/blob/master/stream_str.go
 
 import (
+	"bytes"
+	"fmt"
+	"math"
+	"strconv"
 	"unicode/utf8"
 )
 
@@ -176,3 +180,18 @@ func writeJSONString(s []byte) []byte {
 	out = append(out, s[start:]...)
 	return append(out, '"')
 }
+
+// writeJSONFloat writes all digits of the number, which reads back as a
+// double even when it has no fraction.
+func writeJSONFloat(num float64, bits int) ([]byte, error) {
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return nil, fmt.Errorf("unsupported number value %v", num)
+	}
+
+	out := strconv.AppendFloat(nil, num, 'g', -1, bits)
+	if !bytes.ContainsAny(out, ".e") {
+		out = append(out, ".0"...)
+	}
+
+	return out, nil
+}
diff --git a/x_json_marshal.go b/x_json_marshal.go
index 69bdffc..4e2a4df 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -3,6 +3,7 @@ package birch
 import (
 	"encoding/base64"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -46,7 +47,16 @@ func (v *Value) MarshalJSON() ([]byte, error) { return v.toJSON().MarshalJSON()
 func (v *Value) toJSON() *jsonx.Value {
 	switch v.Type() {
 	case bsontype.Double:
-		return jsonx.VC.Float64(v.Double())
+		switch num := v.Double(); {
+		case math.IsNaN(num):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "NaN"))
+		case math.IsInf(num, 1):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "Infinity"))
+		case math.IsInf(num, -1):
+			return jsonx.VC.ObjectFromElements(jsonx.EC.String("$numberDouble", "-Infinity"))
+		default:
+			return jsonx.VC.Float64(num)
+		}
 	case bsontype.String:
 		return jsonx.VC.String(v.StringValue())
 	case bsontype.EmbeddedDocument:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 75b644f..414604d 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -134,6 +134,18 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			}
 
 			return EC.Decimal128(in.Key(), val), nil
+		case "$numberDouble":
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding double at %q", in.Key())
+			}
+
+			num, err := strconv.ParseFloat(val, 64)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Double(in.Key(), num), nil
 		case "$timestamp":
 			var (
 				t   int64
-- 
2.43.0


From 1478a1be517e6acc7c061db429ceb890f3b43fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 49/71] fix: read decimals with their halves in the order they
 are stored

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index d3a029d..0c9dfd4 100644
--- a/value.go
+++ b/value.go
@@ -1191,8 +1191,8 @@ func (v *Value) Decimal128() types.Decimal128 {
 	}
 
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From 2f79cb4593b80f6e8e0e0a9d1f7b3206668e3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 50/71] fix: malformed extended JSON is an error, not a panic

---
 x_json_unmarshal.go | 59 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 414604d..731ce0d 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -128,7 +128,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			num, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding decimal at %q", in.Key())
+			}
+
+			val, err := types.ParseDecimal128(num)
 			if err != nil {
 				return nil, err
 			}
@@ -151,10 +156,13 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				t   int64
 				i   int64
 				val int
-				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding timestamp at %q", in.Key())
+			}
+
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -178,9 +186,18 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if t != int64(uint32(t)) || i != int64(uint32(i)) {
+				return nil, fmt.Errorf("timestamp at %q is out of range", in.Key())
+			}
+
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding symbol at %q", in.Key())
+			}
+
+			return EC.Symbol(in.Key(), val), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -195,7 +212,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				scopeDoc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, fmt.Errorf("scope of the code at %q is not a document", in.Key())
+				}
+
+				return EC.CodeWithScope(in.Key(), js, scopeDoc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
@@ -203,9 +225,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				ns  string
 				oid string
-				ok  bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding dbref at %q", in.Key())
+			}
+
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -240,9 +265,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				pattern string
 				options string
-				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding regular expression at %q", in.Key())
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -281,13 +308,23 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				return EC.DateTime(in.Key(), ms), nil
 			}
 
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding date at %q", in.Key())
+			}
+
+			date, err := time.Parse(time.RFC3339, val)
 			if err != nil {
 				return nil, err
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("problem decoding object id at %q", in.Key())
+			}
+
+			oid, err := types.ObjectIDFromHex(val)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 46b0e5bd0e4587b219f1fd71298f8b2607c58542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 51/71] fix: null bytes in keys and regular expressions of JSON
 are an error

---
 x_json_unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 731ce0d..dfe1357 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -90,6 +91,10 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
+	if strings.IndexByte(in.Key(), 0) >= 0 {
+		return nil, fmt.Errorf("key %q contains a null byte", in.Key())
+	}
+
 	inv := in.Value()
 	switch inv.Type() {
 	case jsonx.String:
@@ -292,6 +297,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if strings.IndexByte(pattern, 0) >= 0 || strings.IndexByte(options, 0) >= 0 {
+				return nil, fmt.Errorf("regular expression at %q contains a null byte", in.Key())
+			}
+
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
 			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
-- 
2.43.0


From 8bd1069d207d61b2fe1b5c20e3733bcc46bd6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 52/71] fix: limit the depth of JSON

---
 jsonx/internal/gjson.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..fed52ef 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -432,10 +432,43 @@ end:
 	return
 }
 
+// maxDepth limits how deep values can be nested: the stack is limited, and
+// every level is read again for each level above it. It is the limit of
+// encoding/json.
+const maxDepth = 10000
+
+// tooDeep returns true if values in the json are nested too deep.
+func tooDeep(json string) bool {
+	var depth int
+	for i := 0; i < len(json); i++ {
+		switch json[i] {
+		case '"':
+			for i++; i < len(json) && json[i] != '"'; i++ {
+				if json[i] == '\\' {
+					i++
+				}
+			}
+		case '{', '[':
+			depth++
+			if depth > maxDepth {
+				return true
+			}
+		case '}', ']':
+			depth--
+		}
+	}
+
+	return false
+}
+
 // Parse parses the json and returns a result.
 func Parse(json string) (Result, error) {
 	var value Result
 
+	if tooDeep(json) {
+		return value, errors.New("json exceeds the maximum depth")
+	}
+
 	if !validateJSON([]byte(json)) {
 		return value, errors.New("invalid json")
 	}
-- 
2.43.0


From eb60b1425b6462b0f16315c048ed495eac68e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 53/71] fix: a JSON number has digits after its sign

---
 jsonx/internal/gjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index fed52ef..79869aa 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -1220,6 +1220,9 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 	if i == len(data) {
 		return i, false
 	}
+	if data[i] < '0' || data[i] > '9' {
+		return i, false
+	}
 	if data[i] == '0' {
 		i++
 	} else {
-- 
2.43.0


From a964ae1dd6644c4aec29eab80b68f34b0c1aca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 54/71] fix: Document.Map shows what Set, Delete, a failed
 Append, decoding and Elements changed

---
 document.go   | 12 +++++++++---
 x_document.go |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 4ffa5ea..bee7feb 100644
--- a/document.go
+++ b/document.go
@@ -60,6 +60,8 @@ func (d *Document) Len() int { return len(d.elems) }
 // If a nil element is inserted and this method panics, it does not remove the
 // previously added elements.
 func (d *Document) Append(elems ...*Element) *Document {
+	d.cacheValid = false
+
 	for _, elem := range elems {
 		if elem == nil {
 			panic(bsonerr.NilElement)
@@ -67,7 +69,7 @@ func (d *Document) Append(elems ...*Element) *Document {
 
 		d.elems = append(d.elems, elem)
 	}
-	d.cacheValid = false
+
 	return d
 }
 
@@ -98,6 +100,8 @@ func (d *Document) Set(elem *Element) *Document {
 		panic(bsonerr.NilElement)
 	}
 
+	d.cacheValid = false
+
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
@@ -106,7 +110,6 @@ func (d *Document) Set(elem *Element) *Document {
 	}
 
 	d.elems = append(d.elems, elem)
-	d.cacheValid = false
 
 	return d
 }
@@ -115,6 +118,8 @@ func (d *Document) Set(elem *Element) *Document {
 // returned. If the key does not exist, then nil is returned and the delete is
 // a no-op.
 func (d *Document) Delete(key string) *Element {
+	d.cacheValid = false
+
 	for idx := range d.elems {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
@@ -122,7 +127,7 @@ func (d *Document) Delete(key string) *Element {
 			return elem
 		}
 	}
-	d.cacheValid = false
+
 	return nil
 }
 
@@ -289,6 +294,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
diff --git a/x_document.go b/x_document.go
index bf8b5c1..8420c27 100644
--- a/x_document.go
+++ b/x_document.go
@@ -86,6 +86,8 @@ func (c Elements) Copy() Elements {
 // document. Mutating this list will mutate the content of the
 // document.
 func (d *Document) Elements() Elements {
+	d.cacheValid = false
+
 	return d.elems
 }
 
-- 
2.43.0


From c1312ae9300a7b12cd7dca05d1fa57d50522a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 55/71] fix: DocumentMap.Validate reports keys that are not
 those of their elements

---
 unmarshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8710b69..75a5ce6 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -28,6 +28,7 @@ func (dm DocumentMap) Validate() error {
 		ekey := elem.Key()
 		_, err := elem.Validate()
 		ec.Wrapf(err, "for mapKey=%q, invalid element", ekey)
+		ec.Whenf(key != ekey, "for mapKey=%q, element has key %q", key, ekey)
 	}
 
 	return ec.Resolve()
-- 
2.43.0


From bdb8d0b95bb6a84fc3c512b08aaf398b7c8cf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 56/71] fix: encoding code with scope does not write into the
 source bytes

---
 element.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/element.go b/element.go
index 9424d8f..dbb5a59 100644
--- a/element.go
+++ b/element.go
@@ -225,14 +225,18 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			// The data may be shared, so the length is only changed
+			// in what is written.
+			lengthStart := start + uint(e.value.offset) - startToWrite
+			if _, err = elements.Int32.Encode(lengthStart, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -255,11 +259,12 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 		// Set the length of the value
 		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
 
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
+		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
+
+		lengthStart := start + uint(e.value.offset) - startToWrite
+		if _, err := elements.Int32.Encode(lengthStart, b, codeWithScopeLength); err != nil {
 			return 0, err
 		}
-
-		fallthrough
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
 	}
-- 
2.43.0


From 439a9eee792baf90e452f2940943f58af7e71075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 57/71] fix: readers of edited arrays have the keys of an array

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 0c9dfd4..16524fd 100644
--- a/value.go
+++ b/value.go
@@ -622,12 +622,12 @@ func (v *Value) getReader() Reader {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
 	} else {
-		scope, err := v.d.MarshalBSON()
+		doc, err := v.docToBytes(v.Type())
 		if err != nil {
 			panic(err)
 		}
 
-		r = Reader(scope)
+		r = Reader(doc)
 	}
 
 	return r
-- 
2.43.0


From 2aa613ac914a8a5df5e20b69f600276abfd057fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 58/71] fix: copies of elements and values do not share nested
 documents

---
 value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 16524fd..27dfb1a 100644
--- a/value.go
+++ b/value.go
@@ -43,12 +43,20 @@ type Value struct {
 // Copy constructs an entirely new value object with the same data as
 // the original.
 func (v *Value) Copy() *Value {
-	return &Value{
+	out := &Value{
 		start:  v.start,
 		offset: v.offset,
 		data:   v.data,
-		d:      v.d,
 	}
+
+	if v.d != nil {
+		out.d = DC.Make(len(v.d.elems))
+		for _, elem := range v.d.elems {
+			out.d.Append(elem.Copy())
+		}
+	}
+
+	return out
 }
 
 // Set changes the internal representation of a value to have the
-- 
2.43.0


From 8988502c435cdb86df17ba61ffc594ca6b1dac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 59/71] fix: Element.SetValue keeps the key of the element

---
 x_element.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x_element.go b/x_element.go
index aaa8ed2..f92cebf 100644
--- a/x_element.go
+++ b/x_element.go
@@ -1,4 +1,12 @@
 package birch
 
-// SetValue makes it possible to modify the value of an element in place
-func (e *Element) SetValue(v *Value) { e.value = v }
+// SetValue makes it possible to modify the value of an element in
+// place. The key of the element does not change.
+func (e *Element) SetValue(v *Value) {
+	if elem := convertValueToElem(e.Key(), v); elem != nil {
+		e.value = elem.value
+		return
+	}
+
+	e.value = v
+}
-- 
2.43.0


From c182dbc058ff678f31a1356d8d7be3227af610a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 60/71] fix: only the zero ObjectID is an empty value

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 27dfb1a..c1ab351 100644
--- a/value.go
+++ b/value.go
@@ -158,7 +158,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From ff5611bf68ec8b6bc96a20ea6947393ab13fb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 61/71] fix: blist Document.Len does not call itself without
 end

---
 x/blist/blist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..491dee7 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
-- 
2.43.0


From ee8181549de8eacd717cc91ce74123ea8a21c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 62/71] fix: DumpCSV closes its file when there is an error

---
 x/ftdc/csv.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index 7f7ae85..bedca21 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -81,14 +81,21 @@ func getCSVFile(prefix string, count int) (io.WriteCloser, error) {
 // writes a header row to each file.
 //
 // The file names are constructed as "prefix.<count>.csv".
-func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
+func DumpCSV(seq iter.Seq[*Chunk], prefix string) (err error) {
 	var (
-		err       error
 		writer    io.WriteCloser
 		numFields int
 		fileCount int
 		csvw      *csv.Writer
 	)
+
+	// closes the last file if there was an error
+	defer func() {
+		if err != nil && writer != nil {
+			_ = writer.Close()
+		}
+	}()
+
 	for chunk := range seq {
 		if writer == nil {
 			writer, err = getCSVFile(prefix, fileCount)
-- 
2.43.0


From 5a3394a346f0999a274b5603bcaeb86926ae347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 63/71] fix: slices of bool, uint32 and uint64 can be converted
 to elements

events.Custom.Add accepts them, and the point could not be marshalled,
so that collectors refused the whole sample.
---
 constructor.go | 6 ++++++
 x_utils.go     | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/constructor.go b/constructor.go
index 2c8c066..7dbce94 100644
--- a/constructor.go
+++ b/constructor.go
@@ -106,6 +106,12 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 		elem = EC.SubDocument(key, DC.MapString(t))
 	case []any:
 		elem = EC.SliceInterface(key, t)
+	case []bool:
+		elem = EC.SliceInterface(key, anySlice(t))
+	case []uint32:
+		elem = EC.SliceInterface(key, anySlice(t))
+	case []uint64:
+		elem = EC.SliceInterface(key, anySlice(t))
 	case []string:
 		elem = EC.SliceString(key, t)
 	case []int64:
diff --git a/x_utils.go b/x_utils.go
index 9102de6..d6f601f 100644
--- a/x_utils.go
+++ b/x_utils.go
@@ -14,3 +14,11 @@ func bestStringAttempt(in any) string {
 		return fmt.Sprint(in)
 	}
 }
+
+func anySlice[T any](in []T) []any {
+	out := make([]any, len(in))
+	for idx := range in {
+		out[idx] = in[idx]
+	}
+	return out
+}
-- 
2.43.0


From 86ad446781a6c7ce3b801a492349b6b57eeed75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 64/71] fix: EC.Interface and ECE.Interface convert elements,
 and nil documents do not panic

ECE.Interface took elements and values for marshalers: an element that holds another one
could not be encoded, and null values were errors. Elements of nil documents, and
JSON documents that are no BSON, caused panics.
---
 constructor.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/constructor.go b/constructor.go
index 7dbce94..b411028 100644
--- a/constructor.go
+++ b/constructor.go
@@ -137,7 +137,14 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 	case []*Value:
 		elem = EC.Array(key, MakeArray(len(t)).Append(t...))
 	case *jsonx.Document:
-		elem = EC.SubDocument(key, DC.JSONX(t))
+		if t != nil {
+			var doc *Document
+
+			doc, err = DCE.JSONX(t)
+			if err == nil {
+				elem = EC.SubDocument(key, doc)
+			}
+		}
 	case *Document:
 		if t != nil {
 			elem = EC.SubDocument(key, t)
@@ -186,6 +193,18 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 		default:
 			return EC.Int64(key, int64(t)), nil
 		}
+	case *Element:
+		if t != nil {
+			return t, nil
+		}
+	case *Value:
+		if elem := EC.Value(key, t); elem != nil {
+			return elem, nil
+		}
+	case *Document:
+		if t != nil {
+			return EC.SubDocument(key, t), nil
+		}
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
@@ -195,11 +214,12 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 			return EC.Null(key), nil
 		}
 		elem := EC.Interface(key, t)
-		if elem.Value().Type() == bsontype.Null {
-			return nil, fmt.Errorf("Cannot create element for type %T, try using bsoncodec.ConstructElementErr", value)
+		if elem.Value().Type() != bsontype.Null {
+			return elem, nil
 		}
-		return elem, nil
 	}
+
+	return nil, fmt.Errorf("Cannot create element for type %T, try using bsoncodec.ConstructElementErr", value)
 }
 
 // Double creates a double element with the given key and value.
-- 
2.43.0


From 96531169598ca825d19052f90a23a96f2b4c05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 65/71] fix: a key with a null byte is invalid

The rest of the key was encoded as the value of the element and as other elements.
---
 element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index dbb5a59..ba7a018 100644
--- a/element.go
+++ b/element.go
@@ -89,7 +89,8 @@ func (e *Element) validateKey() (uint32, error) {
 		total++
 	}
 
-	if pos == end || e.value.data[pos] != '\x00' {
+	// the key ends where the value begins, and not before.
+	if pos == end || e.value.data[pos] != '\x00' || pos+1 != e.value.offset {
 		return total, bsonerr.InvalidKey
 	}
 	total++
-- 
2.43.0


From 9f7bb3611a397bd812535328a71de347d41c2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 66/71] fix: report that no marshaler or unmarshaler is
 registered

ReadSeries and the histogram's UnmarshalBSON called a nil function.
---
 x/ftdc/hdrhist/snapshot.go | 8 +++++++-
 x/ftdc/iterator.go         | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 1274bb2..f9946ce 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -2,6 +2,7 @@ package hdrhist
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/x/ftdc/util"
@@ -28,8 +29,13 @@ func (h *Histogram) MarshalBSON() ([]byte, error) { return birch.MarshalDocument
 func (h *Histogram) MarshalJSON() ([]byte, error) { return json.Marshal(h.Export()) }
 
 func (h *Histogram) UnmarshalBSON(in []byte) error {
+	unmarshaler := util.GlobalUnmarshaler()
+	if unmarshaler == nil {
+		return errors.New("no registered unmarshaler")
+	}
+
 	s := &hdrhist.Snapshot{}
-	if err := util.GlobalUnmarshaler()(in, s); err != nil {
+	if err := unmarshaler(in, s); err != nil {
 		return err
 	}
 
diff --git a/x/ftdc/iterator.go b/x/ftdc/iterator.go
index bd2ed7c..cb0e8fb 100644
--- a/x/ftdc/iterator.go
+++ b/x/ftdc/iterator.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"errors"
 	"io"
 	"iter"
 
@@ -128,8 +129,14 @@ func ReadSeries(r io.Reader) *Iterator[*birch.Document] {
 	out.iterator = func() iter.Seq[*birch.Document] {
 		return func(yield func(*birch.Document) bool) {
 			defer func() { out.catcher.Push(chunks.Close()) }()
+			marshaler := util.GlobalMarshaler()
+			if marshaler == nil {
+				out.catcher.Push(errors.New("no registered marshaler"))
+				return
+			}
+
 			for chunk := range chunks.Iterator() {
-				payload, err := util.GlobalMarshaler()(chunk.exportMatrix())
+				payload, err := marshaler(chunk.exportMatrix())
 				if err != nil {
 					out.catcher.Push(err)
 					continue
-- 
2.43.0


From a5c2b3cfcea78ac0295aa6823440145f7bee524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 67/71] fix: a document's map does not go stale when its list
 of elements is changed

Elements says that changing the list changes the document, but a map that was built
after the call was cached and returned from then on.
---
 document.go   | 4 ++++
 unmarshal.go  | 2 +-
 x_document.go | 4 ++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index bee7feb..874dba6 100644
--- a/document.go
+++ b/document.go
@@ -27,6 +27,9 @@ type Document struct {
 
 	cache      DocumentMap
 	cacheValid bool
+
+	// callers of Elements can replace elements at any time.
+	shared bool
 }
 
 // ReadDocument will create a Document using the provided slice of bytes. If the
@@ -295,6 +298,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 
 	d.elems = make([]*Element, 0, 128)
 	d.cacheValid = false
+	d.shared = false
 
 	for value, err := range seq {
 		if err != nil {
diff --git a/unmarshal.go b/unmarshal.go
index 75a5ce6..9f90d52 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -92,7 +92,7 @@ func (d *Document) Map() DocumentMap {
 }
 
 func (d *Document) refreshCache() {
-	if d.cacheValid {
+	if d.cacheValid && !d.shared {
 		return
 	}
 
diff --git a/x_document.go b/x_document.go
index 8420c27..a29bf59 100644
--- a/x_document.go
+++ b/x_document.go
@@ -86,7 +86,7 @@ func (c Elements) Copy() Elements {
 // document. Mutating this list will mutate the content of the
 // document.
 func (d *Document) Elements() Elements {
-	d.cacheValid = false
+	d.shared = true
 
 	return d.elems
 }
@@ -94,7 +94,7 @@ func (d *Document) Elements() Elements {
 // Sorted returns a new document containing a (shallow copy) of the
 // elements from the source document ordered according to their value.
 func (d *Document) Sorted() *Document {
-	elems := d.Elements().Copy()
+	elems := Elements(d.elems).Copy()
 
 	sort.Stable(elems)
 
-- 
2.43.0


From 5ac8613878f2a7a722d4e8678becd089395dc806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 68/71] fix: a document that ends before its length says is
 invalid

The bytes after its end were dropped without an error, so that one damaged byte could
hide the rest of a document.
---
 iterator.go | 4 ++++
 reader.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/iterator.go b/iterator.go
index 2d5daf4..c9d8297 100644
--- a/iterator.go
+++ b/iterator.go
@@ -90,6 +90,10 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		// the document ends where its length says.
+		if itr.pos+1 != itr.end {
+			itr.err = bsonerr.InvalidReadOnlyDocument
+		}
 		return false
 	}
 
diff --git a/reader.go b/reader.go
index 2f8fd2d..a4afea8 100644
--- a/reader.go
+++ b/reader.go
@@ -258,6 +258,10 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				// the document ends before its length says.
+				return pos, bsonerr.InvalidReadOnlyDocument
+			}
 			break
 		}
 
-- 
2.43.0


From 3a8913f5f351d9dc995c90518b3c937addc8b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 69/71] fix: JSON values of sized integers and floats convert
 to BSON

jsonx.VC.Int32, Int64 and Float32 keep the value in the type they are
given, which IntOK and Float64OK did not recognize, so that converting a
document with such values failed with "mismatched json type", and their
accessors panicked.
---
 jsonx/juniper.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index 7f80ae9..7f00da1 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -78,14 +78,50 @@ func (v *Value) StringValue() string           { return v.value.(string) }
 func (v *Value) Array() *Array                 { return v.value.(*Array) }
 func (v *Value) Document() *Document           { return v.value.(*Document) }
 func (v *Value) Boolean() bool                 { return v.value.(bool) }
-func (v *Value) Int() int                      { return v.value.(int) }
-func (v *Value) Float64() float64              { return v.value.(float64) }
 func (v *Value) StringValueOK() (string, bool) { out, ok := v.value.(string); return out, ok }
 func (v *Value) ArrayOK() (*Array, bool)       { out, ok := v.value.(*Array); return out, ok }
 func (v *Value) DocumentOK() (*Document, bool) { out, ok := v.value.(*Document); return out, ok }
 func (v *Value) BooleanOK() (bool, bool)       { out, ok := v.value.(bool); return out, ok }
-func (v *Value) IntOK() (int, bool)            { out, ok := v.value.(int); return out, ok }
-func (v *Value) Float64OK() (float64, bool)    { out, ok := v.value.(float64); return out, ok }
+
+func (v *Value) Int() int {
+	if out, ok := v.IntOK(); ok {
+		return out
+	}
+
+	return v.value.(int)
+}
+
+func (v *Value) Float64() float64 {
+	if out, ok := v.Float64OK(); ok {
+		return out
+	}
+
+	return v.value.(float64)
+}
+
+func (v *Value) IntOK() (int, bool) {
+	switch num := v.value.(type) {
+	case int:
+		return num, true
+	case int32:
+		return int(num), true
+	case int64:
+		return int(num), true
+	default:
+		return 0, false
+	}
+}
+
+func (v *Value) Float64OK() (float64, bool) {
+	switch num := v.value.(type) {
+	case float64:
+		return num, true
+	case float32:
+		return float64(num), true
+	default:
+		return 0, false
+	}
+}
 
 func (v *Value) Copy() *Value {
 	return &Value{
-- 
2.43.0


From 36e5295b2eed63127d00f19276f71900e1b32775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 70/71] fix: nil values in JSON documents are errors, not
 panics

A JSON document that holds a nil element, value, document or array made
converting it to BSON panic, and marshaling it, but for nil values and
arrays, which were errors already.
---
 jsonx/marhsal.go    |  8 ++++++++
 x_json_unmarshal.go | 15 +++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index fca8a27..ac4c531 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -8,10 +8,18 @@ import (
 )
 
 func (d *Document) MarshalJSON() ([]byte, error) {
+	if d == nil {
+		return nil, errors.New("cannot marshal nil document")
+	}
+
 	out := []byte{'{'}
 
 	first := true
 	for _, elem := range d.elems {
+		if elem == nil {
+			return nil, errors.New("cannot marshal nil element")
+		}
+
 		if !first {
 			out = append(out, ',')
 		}
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index dfe1357..fc1a223 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -74,6 +74,10 @@ func (v *Value) UnmarshalJSON(in []byte) error {
 }
 
 func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
+	if jd == nil {
+		return nil, errors.New("cannot convert nil document")
+	}
+
 	d := DC.Make(jd.Len())
 
 	for val := range jd.Iterator() {
@@ -91,6 +95,10 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
+	if in == nil || in.Value() == nil {
+		return nil, errors.New("cannot convert nil value")
+	}
+
 	if strings.IndexByte(in.Key(), 0) >= 0 {
 		return nil, fmt.Errorf("key %q contains a null byte", in.Key())
 	}
@@ -127,6 +135,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		return EC.Interface(in.Key(), inv.Interface()), nil
 	case jsonx.ObjectValue:
 		indoc := in.Value().Document()
+		if indoc == nil {
+			return nil, fmt.Errorf("cannot convert nil document at %q", in.Key())
+		}
+
 		switch indoc.KeyAtIndex(0) {
 		case "$minKey":
 			return EC.MinKey(in.Key()), nil
@@ -390,6 +402,9 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		}
 	case jsonx.ArrayValue:
 		ina := inv.Array()
+		if ina == nil {
+			return nil, fmt.Errorf("cannot convert nil array at %q", in.Key())
+		}
 
 		array := MakeArray(ina.Len())
 
-- 
2.43.0


From df414992c7599c8624ed090540b73e8775afc12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 71/71] fix: decimals with more than 34 digits are written as
 zero

---
 types/decimal.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..892d8f7 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -20,6 +20,12 @@ type Decimal128 struct {
 	h, l uint64
 }
 
+// The largest significand, of 34 digits.
+const (
+	maxSignificandHigh = 0x1ed09bead87c0
+	maxSignificandLow  = 0x378d8e63ffffffff
+)
+
 // NewDecimal128 creates a Decimal128 using the provide high and low uint64s.
 func NewDecimal128(h, l uint64) Decimal128 {
 	return Decimal128{h: h, l: l}
@@ -64,6 +70,11 @@ func (d Decimal128) String() string {
 		// Bits: 1*sign 14*exponent 113*significand
 		e = int(d.h>>49&(1<<14-1)) - 6176
 		h = d.h & (1<<49 - 1)
+
+		if h > maxSignificandHigh || h == maxSignificandHigh && l > maxSignificandLow {
+			// more than 34 digits, which the spec says is zero.
+			h, l = 0, 0
+		}
 	}
 
 	// Would be handled by the logic below, but that's trivial and common.
-- 
2.43.0

