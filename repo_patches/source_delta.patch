From 7f0c68a5f2e68754a18ed031478523c3f6c867d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 01/24] fix: decode all bytes of multi-byte property integers

The shift was applied to the byte before widening it, so every byte but
the first was lost. The same defect remains in ReadInt, because an example pins its
result.
---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From bb9d6e78cc34143a3e5b82f5767c7bbd1303b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 02/24] fix: report errors while reading property values
 against a schema

The error of each value read was dropped, so that truncated properties
produced made-up values, and an unknown column type panicked.
---
 flatgeobuf/prop_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..64dbd31 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -218,7 +218,13 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			return nil, fmtErr("unknown column type: %s", val.Type)
+		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
 		}
 		vals = append(vals, val)
 	}
-- 
2.43.0


From 7d84b1852cee93a4aba03fa3d56984e9372ff0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 03/24] fix: do not preallocate property values for an absurd
 column count

A corrupt table can announce four billion columns, and the allocation
crashed the process.
---
 flatgeobuf/prop_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 64dbd31..ef285cf 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -170,7 +170,11 @@ type PropValue struct {
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	c := n
+	if c > math.MaxUint16+1 { // Column indices are 16 bits, don't trust a larger schema.
+		c = math.MaxUint16 + 1
+	}
+	vals := make([]PropValue, 0, c)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0


From 9e9664fbb9e679693bed714f68f8f71e4aa2ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 04/24] fix: enter the error state when the header table is
 corrupt

The reader stayed in an intermediate state, and the next call on it
panicked.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..8e2ea5a 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(wrapErr("corrupt header table", err))
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From c9d168c764edd1d3c0c570bce9671de360a03dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 05/24] fix: index search on a reader that is not an io.Seeker

It called Index() in the wrong state, which always panicked.
---
 flatgeobuf/file_reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 8e2ea5a..f983a2f 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -259,9 +259,11 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		prt, err := packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize)
+		if err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
+		r.cachedIndex = prt
 		sr = r.cachedIndex.Search(b)
 	} else {
 		textPanic("logic error: index should not be cached")
-- 
2.43.0


From 2a3463cbe9a67588493db1eda26b4e1d38467af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/24] fix: save the data offset when reading the index

After Index() and Rewind(), the next Index() or IndexSearch() used the
cached index and seeked to an unknown data offset, the start of the file.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f983a2f..05200b1 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -205,6 +205,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
+	// The cached index can only be skipped after a future Rewind() if
+	// the offset of the data section is known.
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Transition into state for reading feature data.
 	if err = r.toState(beforeIndex, afterIndex); err != nil {
 		return nil, err
-- 
2.43.0


From bb6d0b6d023b5d2c248fc20778b03cc0db452ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 07/24] fix: a file with an unknown feature count has no index

The default index node size is 16, and looking for an index over zero
references panicked.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 05200b1..331cc94 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// There can't be an index over an unknown number of features, so a
+	// file whose feature count is zero has no index.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
-- 
2.43.0


From fc508a8f6939910b767278f5fb2d78a5fd42ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 08/24] fix: enter the error state when the data section ends
 early

---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 331cc94..e86f602 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -386,6 +386,8 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 		if r.numFeatures == 0 && err == errEndOfData {
 			_ = r.toState(inData, eof) // TODO: Fix all these internal toStates to just panic, not return error.
 			return i, io.EOF
+		} else if err == errEndOfData {
+			return i, r.toErr(wrapErr("data section ends before feature[%d]", io.ErrUnexpectedEOF, r.featureIndex))
 		} else if err != nil {
 			return i, err
 		}
-- 
2.43.0


From 98bcf9426939ea9180e7ed7f2ace10920932db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 09/24] fix: reading an empty batch does not end a file with
 unknown feature count

---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index e86f602..022bef8 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -392,7 +392,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From b8fd34431538c57b95f44a80c96b61170df5eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 10/24] fix: skipping past the end of the stream is an
 unexpected end of file

A stream ending within the index made Data() report a regular io.EOF and
DataRem() panic. Also, an error that comes together with the last bytes
to skip does not matter.
---
 flatgeobuf/file_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 022bef8..f5d9333 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -599,15 +599,17 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
+		if n < int64(len(buf)) {
 			a, err = r.Read(buf[0:n])
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		n -= int64(a)
+		if n > 0 && err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if n > 0 && err != nil {
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From ccea596802f31e72cf2d65a9827f409ce10aadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 11/24] fix: reading the remaining data panicked after an index
 search

It also panicked on a header with an absurd feature count.
---
 flatgeobuf/file_reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f5d9333..67663bb 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -403,8 +403,10 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
-		rem := r.numFeatures - r.featureIndex
+	// Allocate everything up front only if the feature count is known
+	// and not so large that the header must first prove to be right.
+	rem := r.numFeatures - r.featureIndex
+	if r.numFeatures > 0 && r.state != eof && rem <= 1024*1024 {
 		p := make([]flat.Feature, rem)
 		n, err := r.Data(p)
 		p = p[0:n]
-- 
2.43.0


From f7371827e512125655e07063ca0088477503ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 12/24] fix: reject feature lengths that overflow the buffer
 size

The size computation wrapped around, and slicing the buffer panicked.
---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 67663bb..7e4c13d 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -565,6 +565,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	featureLen := flatbuffers.GetUint32(b)
 	if featureLen < flatbuffers.SizeUOffsetT {
 		return r.toErr(fmtErr("feature[%d] length %d not big enough for FlatBuffer uoffset_t (offset %d)", r.featureIndex, featureLen, r.featureOffset))
+	} else if featureLen > math.MaxUint32-flatbuffers.SizeUint32 {
+		return r.toErr(fmtErr("feature[%d] length %d too big (offset %d)", r.featureIndex, featureLen, r.featureOffset))
 	}
 
 	// Read the feature table bytes.
-- 
2.43.0


From 78d13ae9f601fa0d6a8623d481bb20f6589a2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 13/24] fix: index search reports overlapping index entries

It returned whichever feature came next in the data section.
---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 7e4c13d..b711c29 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -322,6 +322,8 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 			if err := skip(sr[i].Offset - r.featureOffset); err != nil {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
+		} else if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("index entry for feature %d (data offset %d) overlaps another one", sr[i].RefIndex, sr[i].Offset))
 		}
 		r.featureIndex = sr[i].RefIndex
 		r.featureOffset = sr[i].Offset
-- 
2.43.0


From bf0a64db33fcebb3e77cd8baacf8d59d9ecf0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 14/24] fix: accept size-prefixed root tables for writing

The position of a table is where its root offset points, never directly
after the size prefix, so no table could ever be written.
---
 flatgeobuf/flatbuffers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..7ad0c85 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -48,8 +48,10 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 }
 
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
+		uint64(t.Pos) != flatbuffers.SizeUint32+uint64(flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:])) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
 	return
-- 
2.43.0


From 56748ab3f075b5c5c370f738a18043a8bd19e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 15/24] fix: check that a table to be written is complete

The size prefix itself was not counted, so writing could read beyond the
buffer, and indexing did not detect incomplete tables.
---
 flatgeobuf/flatbuffers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index 7ad0c85..1074fea 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,11 +38,8 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
-		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
+		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+int64(size)])
 		return
 	}
 }
@@ -54,5 +51,8 @@ func tableSize(t flatbuffers.Table) (size uint32, err error) {
 		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	}
 	return
 }
-- 
2.43.0


From 8c8478ed7896221cfe51fbf46a1ed72a15d41a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 16/24] fix: count the size prefix in the feature offsets of a
 written index

---
 flatgeobuf/file_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..643de8b 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -190,7 +191,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
-- 
2.43.0


From d881363e95316ca2a00312c7f603c80f487150f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 17/24] fix: cover nested geometry parts in a written index

---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 643de8b..ec502bd 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -316,10 +316,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From e1e9891749c865f1cf34e7ae96621e0203f2ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 18/24] fix: limit the nesting depth of geometry parts

A corrupt geometry which contains itself overflowed the stack, which
crashes the process and cannot be recovered.
---
 flatgeobuf/file_writer.go |  2 +-
 flatgeobuf/stringers.go   | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index ec502bd..2ba175e 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -316,7 +316,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			geomBounds(&g, b)
+			geomBounds(&g, b, 0)
 		}
 		return nil
 	})
diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..2bacc5f 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -160,7 +160,7 @@ func stringGeom(f *flat.Feature, b *strings.Builder) error {
 			b.WriteString(g.Type().String())
 			b.WriteString(",Bounds:")
 			bounds := packedrtree.EmptyBox
-			geomBounds(&g, &bounds)
+			geomBounds(&g, &bounds, 0)
 			if bounds == packedrtree.EmptyBox {
 				b.WriteString("<nil>")
 			} else {
@@ -214,7 +214,14 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
-func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+// maxGeomDepth is the maximum nesting depth of geometry parts. Corrupt
+// data can contain geometries which are parts of themselves.
+const maxGeomDepth = 1000
+
+func geomBounds(g *flat.Geometry, b *packedrtree.Box, depth int) {
+	if depth > maxGeomDepth {
+		fmtPanic("geometry parts nested more than %d levels deep", maxGeomDepth)
+	}
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
@@ -223,7 +230,7 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			geomBounds(&h, b, depth+1)
 		}
 	}
 }
-- 
2.43.0


From cdf6af97582f3988175c00e392a0a7816c3b6690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 19/24] fix: report an empty feature list when writing indexed
 data

Building the index over zero features panicked.
---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 2ba175e..0a76080 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -174,6 +174,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// Ensure the number of features agrees with the header.
+	if len(data) == 0 || len(data) != w.numFeatures {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From 9655f9bb81b4237a464c316a861bef66cb9e27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 20/24] fix: visit index search results in file order

The results of a streaming search come in the order of the index leaves.
If that was not the order of the offsets, wrong features were returned.
---
 flatgeobuf/file_reader.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index b711c29..1c9aa6f 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -281,11 +281,10 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order. The
+	// order of streaming search results is that of the index leaves,
+	// which is not necessarily file order.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 46158d3149c08a76eb6030cb5d688b3fa0475571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 21/24] fix: build on big-endian architectures and on mips64le

---
 packedrtree/native_bigendian.go    | 3 +++
 packedrtree/native_littleendian.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0


From 46de742186210374b80b3d2b1e6d945f32b8169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 22/24] fix: report corrupt child pointers in an index

The search indexed outside of the nodes or levels and panicked.
---
 packedrtree/packedrtree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..9dc69c7 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -351,6 +351,9 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
 			} else {
+				if err := prt.validateChild(t.level, pos); err != nil {
+					return nil, err
+				}
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
 		}
@@ -361,6 +364,16 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// validateChild verifies that the first child of the internal node at
+// the given level and position belongs to the next level down.
+func (prt *packedRTree) validateChild(level, pos int) error {
+	child, next := prt.nodes[pos].Offset, prt.levels[level-1]
+	if child < int64(next.start) || child >= int64(next.end) {
+		return fmtErr("node %d has child node index %d outside of level [%d..%d)", pos, child, next.start, next.end)
+	}
+	return nil
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +518,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// A corrupt index must not lead a search astray.
+	for level := 1; level < len(prt.levels); level++ {
+		for pos := prt.levels[level].start; pos < prt.levels[level].end; pos++ {
+			if err := prt.validateChild(level, pos); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From c71aa5bd2b66c7a73864e6273c7bcb49ca5bcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 23/24] fix: a feature cut off after its length is an
 unexpected end of file

---
 flatgeobuf/file_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 1c9aa6f..f16fbf9 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -574,6 +574,9 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+		if err == io.EOF { // The length was already read, so this is not the end of the data section.
+			err = io.ErrUnexpectedEOF
+		}
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
-- 
2.43.0


From 751fecc4e3cfdd86c48e67c86f0b3a958858e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 24/24] fix: a seek error while skipping the index is not the
 end of the data

---
 flatgeobuf/file_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f16fbf9..5dc6a82 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -496,7 +496,7 @@ func (r *FileReader) skipIndex() error {
 		if r.dataOffset > 0 { // If we already know the data offset, seek to it.
 			s := r.r.(io.Seeker)
 			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
 			if err := r.saveIndexOffset(s); err != nil {
@@ -508,7 +508,7 @@ func (r *FileReader) skipIndex() error {
 			}
 			r.dataOffset = r.indexOffset + int64(indexSize)
 			if _, err = s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else { // Our only choice is to read past the index.
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
-- 
2.43.0

