From 93129ea06b03f12d52580124f373c1cac941548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 01/31] fix: make the cache of struct tags and the zero Encoder
 safe for concurrent use

Marshal shares defaultEncoder between all its callers, but the cache of
struct tags was an unsynchronised map: two goroutines marshalling structs at
the same time raced on it (concurrent map writes). The tags of a type never
change, so keep one concurrency-safe table. Also stop a zero Encoder from
storing the default version in itself on its first use.
---
 Go/sereal/encode.go    | 20 +++++++++++---------
 Go/sereal/tagscache.go | 24 +++++++++++++-----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..0f8e5c9 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -92,22 +92,24 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	}()
 
 	// uninitialized encoder? set to the most recent supported protocol version
-	if e.version == 0 {
-		e.version = ProtocolVersion
+	// (the encoder itself is left alone, it may be in use by other goroutines)
+	version := e.version
+	if version == 0 {
+		version = ProtocolVersion
 	}
 
 	encHeader := make([]byte, headerSize, 32)
 
-	if e.version < 3 {
+	if version < 3 {
 		binary.LittleEndian.PutUint32(encHeader[:4], magicHeaderBytes)
 	} else {
 		binary.LittleEndian.PutUint32(encHeader[:4], magicHeaderBytesHighBit)
 	}
 
 	// Set the <version-type> component in the header
-	encHeader[4] = byte(e.version) | byte(serealRaw)<<4
+	encHeader[4] = byte(version) | byte(serealRaw)<<4
 
-	if header != nil && e.version >= 2 {
+	if header != nil && version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
 			ptrTable: make(map[uintptr]int),
@@ -136,7 +138,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 
 	encBody := make([]byte, 0, e.ExpectedSize)
 
-	switch e.version {
+	switch version {
 	case 1:
 		encBody = append(encBody, encHeader...) // hack for offsets
 		encBody, err = e.encode(encBody, body, false, false, &state, remainingDepth)
@@ -165,16 +167,16 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 
 		switch c := e.Compression.(type) {
 		case SnappyCompressor:
-			if e.version > 1 && !c.Incremental {
+			if version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
+			if version == 1 {
 				doctype = serealSnappy
 			} else {
 				doctype = serealSnappyIncremental
 			}
 		case ZlibCompressor:
-			if e.version < 3 {
+			if version < 3 {
 				return nil, errors.New("zlib compression only valid for v3 documents and up")
 			}
 			doctype = serealZlib
diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 907b39f..0e0b954 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -1,23 +1,25 @@
 package sereal
 
-import "reflect"
+import (
+	"reflect"
+	"sync"
+)
 
-type tagsCache struct {
-	cmap map[reflect.Type]map[string]int
-}
+// structTags maps a struct type to the tags of its fields. The tags of a type
+// never change, hence the table is shared by all encoders and decoders, which
+// may be used concurrently.
+var structTags sync.Map // reflect.Type -> map[string]int
+
+type tagsCache struct{}
 
 func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 	if ptr.Kind() != reflect.Struct {
 		return nil
 	}
 
-	if tc.cmap == nil {
-		tc.cmap = make(map[reflect.Type]map[string]int)
-	}
-
 	ptrType := ptr.Type()
-	if m, ok := tc.cmap[ptrType]; ok {
-		return m
+	if m, ok := structTags.Load(ptrType); ok {
+		return m.(map[string]int)
 	}
 
 	m := make(map[string]int)
@@ -46,6 +48,6 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		m = nil
 	}
 
-	tc.cmap[ptrType] = m
+	structTags.Store(ptrType, m)
 	return m
 }
-- 
2.43.0


From 8d3748d742548d72b4840afadce6d9f1ad76480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 02/31] fix: label v1 documents compressed with incremental
 snappy as such

They were written with the type of plain snappy, so no decoder could read
them back.
---
 Go/sereal/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 0f8e5c9..7e3e013 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -170,10 +170,10 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if version == 1 {
-				doctype = serealSnappy
-			} else {
+			if c.Incremental {
 				doctype = serealSnappyIncremental
+			} else {
+				doctype = serealSnappy
 			}
 		case ZlibCompressor:
 			if version < 3 {
-- 
2.43.0


From bb6c3a3a0ca587b6c17eaa9c37da695647cd9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 03/31] fix: report panics with values of any type as errors

Unmarshal returned a nil error when a callback panicked with a value that is
neither a string nor an error; Marshal panicked on a failed type assertion.
---
 Go/sereal/decode.go |  2 ++
 Go/sereal/encode.go | 11 +++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..fe92f41 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -181,6 +181,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 				err = errors.New(t)
 			case error:
 				err = t
+			default:
+				err = fmt.Errorf("%v", t)
 			}
 		}
 	}()
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7e3e013..da9f009 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -83,10 +83,13 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 				panic(r)
 			}
 
-			if s, ok := r.(string); ok {
-				err = errors.New(s)
-			} else {
-				err = r.(error)
+			switch t := r.(type) {
+			case string:
+				err = errors.New(t)
+			case error:
+				err = t
+			default:
+				err = fmt.Errorf("%v", t)
 			}
 		}
 	}()
-- 
2.43.0


From 9ae9a5d359ccad9b6826429db1c72f9f9a0f59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 04/31] fix: reset a decoder's copy depth at the start of each
 document

A panic recovered while a COPY was being decoded (a mismatching destination,
a callback) left the depth at 1, and the decoder rejected every later document
that contains a COPY.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fe92f41..0134768 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -187,6 +187,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	// the previous call may have been left by a panic in the middle of a copy
+	d.copyDepth = 0
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 59e853064143c4501e19ea57a5610fa9a83e4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 05/31] fix: copy the pattern and modifiers of decoded regexps

They were slices of the input buffer, so a decoded PerlRegexp changed when the
caller reused the buffer, and appending to it wrote into the document.
---
 Go/sereal/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 0134768..b5ee820 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -685,8 +685,11 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// the slices refer to the document, which belongs to the caller
+	return &PerlRegexp{
+		Pattern:   append([]byte{}, pattern...),
+		Modifiers: append([]byte{}, modifiers...),
+	}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From 52755d2c5ad3bf884b2baef327ce4705754fe32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 06/31] fix: reject documents with a bad header size instead of
 panicking

A negative size, or a zero size that is padded to more than one byte, made
UnmarshalHeaderBody index the document out of range.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index b5ee820..10894fa 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -206,7 +210,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From b83d9437adb1f31739c6829d6d1b83d80e502704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 07/31] fix: DecompressDocument panicked on documents that
 decompress to nothing

hasSameBuffer cannot look at the last byte of a slice without capacity.
---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 10894fa..dc788eb 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1383,6 +1383,10 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From baa3f5c915b949396112b8b490f32ee60f7a1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 08/31] fix: check the decompressed length that snappy
 documents claim

snappy.Decode allocates the claimed length upfront, so five damaged bytes
could demand 4 GB.
---
 Go/sereal/snappy.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..487e12a 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -48,6 +48,17 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// snappy.Decode trusts the claimed length of the decompressed document
+	// and allocates it upfront. The most compact element of the format copies
+	// 64 bytes and takes 3, so anything beyond that cannot be genuine.
+	ln, err := snappy.DecodedLen(b)
+	if err != nil {
+		return nil, err
+	}
+	if ln/22 > len(b) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5c8aabe92659640d1638e60b7ca1581be30b1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 09/31] fix: don't trust the uncompressed length that zlib
 documents claim

It was passed to make() as is: a damaged length panicked (len out of range) or
exhausted the memory.
---
 Go/sereal/zlib_purego.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zlib_purego.go b/Go/sereal/zlib_purego.go
index d5f76c4..a009518 100644
--- a/Go/sereal/zlib_purego.go
+++ b/Go/sereal/zlib_purego.go
@@ -53,6 +53,12 @@ func zlibDecode(uln int, buf []byte) ([]byte, error) {
 	}
 	defer zr.Close()
 
+	// uln is merely a claim of the document: don't allocate more upfront than
+	// what a decent compression ratio explains, the buffer grows if need be
+	if max := 16*len(buf) + bytes.MinRead; uln < 0 || uln > max {
+		uln = max
+	}
+
 	dec := bytes.NewBuffer(make([]byte, 0, uln))
 	_, err = dec.ReadFrom(zr)
 	if err != nil {
-- 
2.43.0


From ac68e0dbc8dd358cd01c5bd6cb252edd10d90948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 10/31] fix: check the header of documents given to
 Merger.Append

Documents of unsupported versions or compression types were merged as if they
were uncompressed ones, and a bad header size panicked.
---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..18a1f0f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,19 +157,27 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
 
+	bodyStart := headerSize + docHeader.suffixSize
+	if bodyStart > len(b) || bodyStart < 0 {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
-		buf:        b[headerSize+docHeader.suffixSize:],
+		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
 		bodyOffset: -1, // 1-based offsets
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From 98d1d4fd57ec7bdac9266db25acb208a3239e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 11/31] fix: merge v1 documents with the offsets they have

Offsets in v1 documents count from the start of the document, not of the body,
so merging one with a COPY or REFP failed or referred to something else.
---
 Go/sereal/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 18a1f0f..e10bd2c 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -174,6 +174,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if docHeader.version == 1 {
+		doc.bodyOffset = -bodyStart // offsets from the start of the document
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 91a3280a9f19f7820b00b19536f6844fe6b9e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 12/31] fix: reject truncated documents in Merger.Append

The number of elements was announced in the merged document but nobody checked
that they are all there, so the elements of the next document were taken for
the missing ones. Documents cut inside a number or a short string were read
past their end, and a body of less than two bytes panicked if KeepFlat was set.
---
 Go/sereal/merge.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e10bd2c..04bfa85 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -355,6 +355,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		}
 	}
 
+	if idx > len(buf) {
+		return ErrTruncated
+	}
+
 	for idx := range doc.trackTable {
 		doc.trackIdxs = append(doc.trackIdxs, idx)
 	}
@@ -372,7 +376,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -516,7 +520,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf) || (tag == typeHASH && 2*ln > len(dbuf)) {
 				return errors.New("bad array or hash length")
 			}
 
@@ -600,15 +604,24 @@ LOOP:
 		}
 	}
 
+	// everything that was announced has to be there
+	for _, missing := range stack {
+		if missing&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
-		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
+	if m.KeepFlat && len(b) > 0 {
+		tag0, tag1 := b[0]&^trackFlag, byte(typePAD)
+		if len(b) > 1 {
+			tag1 = b[1] &^ trackFlag
+		}
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -635,6 +648,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From 2d6bf3f9e3fe3c6e970be4815e3c0a9899317c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 13/31] fix: let merged documents refer to the preceding byte

Offsets are 1-based but the check compared them with a 0-based index, so a
reference to a one byte item right before it was refused.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 04bfa85..3d776bf 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -330,7 +330,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < 0 || offset >= idx-doc.bodyOffset {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From de71495ec04ab244d8a1429e42914d6b052bbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 14/31] fix: set the track flag on the target of a merged REFP
 or ALIAS

Offsets are relative to the body, so the flag went to a byte in front of the
target, which corrupted e.g. a string there.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 3d776bf..3b654af 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -509,7 +509,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[m.bodyOffset+targetOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From 2e4021aa2e2814fbd91ddcfca5a54cd360cbdf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 15/31] fix: merge documents with OBJECTV tags or references to
 objects

The class name an OBJECTV refers to was never entered in the table of offsets,
so these documents were refused ("bad target offset"), and a REFP to an object
was redirected to the object's class name.
---
 Go/sereal/merge.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 3b654af..e0449f8 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -397,6 +397,10 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			// within an item that has been processed as a whole
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
@@ -568,21 +572,26 @@ LOOP:
 			}
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			classOffset, ok := m.objTable[string(str)]
+			if ok {
+				trackBit := dbuf[didx] & trackFlag
 				if tag == typeOBJECT {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV|trackBit, uint(classOffset))
 				} else {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|trackBit, uint(classOffset))
 				}
-
-				mrgRelativeIdx = savedOffset
 			} else {
 				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
+				classOffset = mrgRelativeIdx + 1
+				m.objTable[string(str)] = classOffset
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
+			// OBJECTV tags refer to the class name, REFP tags to the object
+			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
+				doc.trackTable[docRelativeIdx+1] = classOffset
+			}
+
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
 			didx += length
-- 
2.43.0


From 7a6692e97946b2332f0f104113ae81e50fd48f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 16/31] fix: forget the strings of documents that failed to
 merge

Their offsets stayed in the tables of strings and class names, so later
documents with the same strings referred to bytes that were gone.
---
 Go/sereal/merge.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e0449f8..630f938 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -207,12 +207,23 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
+		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
 		return 0, err
 	}
 
 	return m.length - oldLength, nil
 }
 
+// forgetOffsets removes the entries of table that refer to offset or beyond
+func forgetOffsets(table map[string]int, offset int) {
+	for str, offs := range table {
+		if offs >= offset {
+			delete(table, str)
+		}
+	}
+}
+
 // Finish is called to terminate the merging process
 func (m *Merger) Finish() ([]byte, error) {
 	if err := m.initMerger(); err != nil {
-- 
2.43.0


From d6c23550b126ef2b7a4ca16ad45dd13f47510aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 17/31] fix: keep type and identity of strings that Merger
 deduplicates

A binary string became text, or the other way around, if the same bytes had
been seen with the other type, and a reference to a string of one document was
redirected to a string of another one.
---
 Go/sereal/merge.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 630f938..8240117 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -492,8 +492,11 @@ LOOP:
 				return fmt.Errorf("truncated document, expect %d bytes", len(dbuf)-didx-length)
 			}
 
-			if dedupString {
-				val := dbuf[didx+sz+1 : didx+length]
+			// Strings with different tags are different (e.g. text and binary data),
+			// hence the tag is a part of the key. A tracked string is left where it is:
+			// other items refer to this very string.
+			if dedupString && dbuf[didx]&trackFlag == 0 {
+				val := dbuf[didx : didx+length]
 				if savedOffset, ok := m.strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
-- 
2.43.0


From 0393048c06e91f83e6f512088cd5b5f3786eb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 18/31] fix: accept copied items whose keys or class names are
 copies

The specification allows it, and Merger writes such documents: it replaces
repeated keys by a COPY, also within an item another COPY refers to.
---
 Go/sereal/decode.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index dc788eb..3ebc05a 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,8 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	strCopyDepth int // same as copyDepth but for keys and class names
+
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
 	// DisableReferentialIntegrity produces a decoded data structure where Perl references are never decoded as Go pointers
@@ -193,6 +195,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 	// the previous call may have been left by a panic in the middle of a copy
 	d.copyDepth = 0
+	d.strCopyDepth = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -649,7 +652,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// keys and class names of a copied item may be copies themselves,
+		// but a copy must not refer to another copy
+		if d.strCopyDepth > 0 {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -662,9 +667,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		d.strCopyDepth++
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.strCopyDepth--
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From b28ce366a01681e1276e6758c857373f76aa5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 19/31] fix: keep Merger from writing copies of items that
 contain copies

With DedupeStrings a string in an item that a COPY refers to was replaced by
another COPY. Nested copies are not allowed, the document could not be decoded.
---
 Go/sereal/merge.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 8240117..8b04710 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -61,12 +61,13 @@ type Merger struct {
 }
 
 type mergerDoc struct {
-	buf        []byte
-	trackIdxs  []int
-	trackTable map[int]int
-	version    int
-	startIdx   int // 0-based
-	bodyOffset int // 1-based
+	buf         []byte
+	trackIdxs   []int
+	trackTable  map[int]int
+	version     int
+	startIdx    int  // 0-based
+	bodyOffset  int  // 1-based
+	copiesItems bool // there are COPY tags that refer to something else than a string
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -345,6 +346,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			if target := offset + doc.bodyOffset; tag == typeCOPY && (target < 0 || !isShallowStringish(buf[target]&^trackFlag)) {
+				doc.copiesItems = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -428,7 +433,8 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
-		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		// Items that are copied must not contain copies, except for keys and class names.
+		dedupString := (m.DedupeStrings && !doc.copiesItems) || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
-- 
2.43.0


From 13c6550955861f7cad707dc59ec0432e7470b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 20/31] fix: merge documents with copied class names

The encoder replaces a repeated class name by a COPY, so Append refused every
document with two structs of the same type ("expected stringish").
---
 Go/sereal/merge.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 8b04710..7d5d8fb 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -586,12 +586,30 @@ LOOP:
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
+			classIdx, copySize := didx+1, 0
+			if classIdx < len(dbuf) && dbuf[classIdx]&^trackFlag == typeCOPY {
+				// the class name is a copy of another string
+				target, sz, err := varintdecode(dbuf[classIdx+1:])
+				if err != nil {
+					return err
+				}
+				classIdx, copySize = target+doc.bodyOffset, sz+1
+				if classIdx < 0 || classIdx > didx {
+					return ErrCorrupt{errBadOffset}
+				}
+			}
+
+			offset, str, err := readString(dbuf[classIdx:])
 			if err != nil {
 				return err
 			}
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
+			classTag := dbuf[classIdx : classIdx+length-1]
+			if copySize > 0 {
+				length = copySize + 1
+			}
+
 			classOffset, ok := m.objTable[string(str)]
 			if ok {
 				trackBit := dbuf[didx] & trackFlag
@@ -604,7 +622,8 @@ LOOP:
 				// +1 because we should refer to string tag, not object tag
 				classOffset = mrgRelativeIdx + 1
 				m.objTable[string(str)] = classOffset
-				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				mbuf = append(mbuf, dbuf[didx])
+				mbuf = append(mbuf, classTag...)
 			}
 
 			// OBJECTV tags refer to the class name, REFP tags to the object
-- 
2.43.0


From e1ead69bd425545601926cf9d0527761d7764b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 21/31] fix: make Merger.Finish survive failing and expanding
 compressors

If compression made the data longer, the end of the document was cut off (or
Finish panicked). If the compressor could not be used, the first Finish failed
but the second one returned the half-compressed document as a success.
---
 Go/sereal/merge.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 7d5d8fb..9d1597e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -57,7 +57,8 @@ type Merger struct {
 
 	// moved bool fields here to make struct smaller
 	inited   bool
-	finished bool
+	finished bool // no more documents
+	complete bool // Finish succeeded
 }
 
 type mergerDoc struct {
@@ -234,38 +235,43 @@ func (m *Merger) Finish() ([]byte, error) {
 	if !m.finished {
 		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
+	}
 
+	if !m.complete {
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
-
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
+			var doctype documentType
 			switch comp := m.Compression.(type) {
 			case SnappyCompressor:
 				if !comp.Incremental {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return nil, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
+
+		m.complete = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From c97d7bd7aa815e181a9e680d74f8667b43f1b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 22/31] fix: resolve offsets in user headers relative to the
 user data

---
 Go/sereal/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3ebc05a..46a0210 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -224,10 +224,13 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets are relative to the user data and 1-based,
+			// the flag byte that precedes it takes index 0
+			userData := b[header.suffixStart:bodyStart]
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(userData, 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(userData, 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From ddefb794e4633916065769f3d3fac1a0f2d884c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 23/31] fix: refer to what a shared pointer points to, not to
 the pointer

The REFP of a pointer that was seen before named the REFN in front of the
target, which is a reference to a reference, so what the document said
depended on which of the pointers came first (map iteration order). Different
things with the same address (a struct and its first field, a string and its
prefix) were taken for one.
---
 Go/sereal/encode.go | 64 +++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index da9f009..253b1f1 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,7 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[pointer]int
 }
 
 type compressor interface {
@@ -115,7 +115,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[pointer]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -136,7 +136,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[pointer]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -637,16 +637,14 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
-	rvptr2 := getPointer(rv.Elem())
+	target := rv.Elem()
+	rvptr := pointer{addr: rv.Pointer(), typ: rv.Type()}
+	rvptr2 := getPointer(target)
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2.addr != 0 {
 		offs, ok = state.ptrTable[rvptr2]
-		if ok {
-			rvptr = rvptr2
-		}
 	}
 
 	if ok { // seen this before
@@ -654,24 +652,26 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		by = varint(by, uint(offs))
 		by[offs] |= trackFlag // original offset now tracked
 	} else {
-		lenbOrig := len(by)
+		if rvptr.addr != 0 {
+			state.ptrTable[pointer{addr: rvptr.addr, typ: rvptr.typ, item: true}] = len(by)
+		}
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
-			state.ptrTable[rvptr] = lenbOrig
+		// The thing that this points to starts right after the REFN
+		if rvptr.addr != 0 {
+			state.ptrTable[rvptr] = len(by)
+		}
+
+		if rvptr2.addr != 0 {
+			state.ptrTable[rvptr2] = len(by)
 		}
 
 		var err error
-		by, err = e.encode(by, rv.Elem(), false, true, state, remainingDepth)
+		by, err = e.encode(by, target, false, true, state, remainingDepth)
 		if err != nil {
 			return nil, err
 		}
-
-		if rvptr2 != 0 {
-			// The thing this this points to starts one after the current pointer
-			state.ptrTable[rvptr2] = lenbOrig + 1
-		}
 	}
 
 	return by, nil
@@ -687,23 +687,35 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+// pointer identifies something that a pointer leads to. The address alone does
+// not: a struct and its first field, or a string and its prefix, share theirs.
+type pointer struct {
+	addr uintptr
+	typ  reflect.Type
+	len  int
+	item bool // the pointer itself is meant, not what it points to
+}
 
+// getPointer identifies a pointer or the data behind a map, slice or string
+func getPointer(rv reflect.Value) pointer {
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		return pointer{addr: rv.Pointer(), typ: rv.Type()}
+	case reflect.Slice:
+		return pointer{addr: rv.Pointer(), typ: rv.Type(), len: rv.Len()}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = rv.Pointer()
+		return pointer{addr: rv.Pointer(), typ: rv.Type(), item: true}
 	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		if rv.CanAddr() {
+			ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
+			return pointer{addr: ps.Data, typ: rv.Type(), len: rv.Len()}
+		}
 	}
 
-	return rvptr
+	return pointer{}
 }
 
 func concreteName(value reflect.Value) string {
-- 
2.43.0


From d642b61784b0698f543fff7fbb1feb468b4e6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 24/31] fix: merge regexps and objects with empty modifiers or
 class names

readString took the tag of an empty short string for one that is followed by a
length.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 9d1597e..b003223 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -714,7 +714,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 2d2e5f58a043a6629f9ffe8fa3975d4d5548a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 25/31] fix: Merger panicked on an ExpectedSize smaller than
 the header

Append and Finish panicked in make() as the hint was taken as the capacity of
a buffer that has to hold the header.
---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index b003223..4ab95e8 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -106,7 +106,7 @@ func (m *Merger) initMerger() error {
 	m.strTable = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From 04b28fc9a5cbeb3553c50b2849b43d89bd1b16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 26/31] fix: don't panic on zstd bodies that claim to be empty

zstd.Decompress takes the address of the first byte of the destination, which
has the claimed size of the content: a damaged frame header that claims no
content made decoding panic.
---
 Go/sereal/zstd_cgo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zstd_cgo.go b/Go/sereal/zstd_cgo.go
index bc6a245..8075cac 100644
--- a/Go/sereal/zstd_cgo.go
+++ b/Go/sereal/zstd_cgo.go
@@ -12,6 +12,12 @@ func zstdEncode(buf []byte, level int) ([]byte, error) {
 }
 
 func zstdDecode(d, buf []byte) ([]byte, error) {
+	if cap(d) == 0 {
+		// zstd.Decompress panics on frames that claim to be empty
+		// unless there is a destination
+		d = make([]byte, 1)
+	}
+
 	dst, err := zstd.Decompress(d, buf)
 	return dst, err
 }
-- 
2.43.0


From 4f910d0639fcbf4e3e88074336056c41432fc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 27/31] fix: keep text and binary class names apart when
 merging

Two class names that differ in their tag were merged into one string; copies
of the second, e.g. hash keys, changed their type.
---
 Go/sereal/merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 4ab95e8..1f0ad92 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -616,7 +616,9 @@ LOOP:
 				length = copySize + 1
 			}
 
-			classOffset, ok := m.objTable[string(str)]
+			// text and binary class names are different strings: other items
+			// may be copies of them
+			classOffset, ok := m.objTable[string(classTag)]
 			if ok {
 				trackBit := dbuf[didx] & trackFlag
 				if tag == typeOBJECT {
@@ -627,7 +629,7 @@ LOOP:
 			} else {
 				// +1 because we should refer to string tag, not object tag
 				classOffset = mrgRelativeIdx + 1
-				m.objTable[string(str)] = classOffset
+				m.objTable[string(classTag)] = classOffset
 				mbuf = append(mbuf, dbuf[didx])
 				mbuf = append(mbuf, classTag...)
 			}
-- 
2.43.0


From 6cd3f97b493d792a1b7243fd894576db9862d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 28/31] fix: limit the nesting of documents that are decoded

A document nested a million levels deep (a megabyte of REFN tags) overflowed
the stack, which ends the process.
---
 Go/sereal/decode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 46a0210..8e908dd 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -77,6 +77,10 @@ func LooksLikeSereal(b []byte) bool {
 	return err == nil
 }
 
+// maxDecodeDepth limits the nesting of documents that can be decoded: nothing
+// can be done about a stack overflow, it always ends the process
+const maxDecodeDepth = 100000
+
 // A Decoder reads and decodes Sereal objects from an input buffer
 type Decoder struct {
 	tracked   map[int]reflect.Value
@@ -85,6 +89,7 @@ type Decoder struct {
 	copyDepth int
 
 	strCopyDepth int // same as copyDepth but for keys and class names
+	depth        int // nesting depth of the item being decoded
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -196,6 +201,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	// the previous call may have been left by a panic in the middle of a copy
 	d.copyDepth = 0
 	d.strCopyDepth = 0
+	d.depth = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -285,6 +291,10 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, ErrTruncated
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 
 	// skip over any padding bytes
@@ -477,6 +487,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	}
 
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
+	d.depth--
 	return idx, err
 }
 
@@ -725,6 +736,10 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return idx, err
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 	for tag == typePAD || tag == typePAD|trackFlag {
 		idx++
@@ -903,6 +918,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	d.depth--
 	return idx, err
 }
 
-- 
2.43.0


From 6f82c17233a60e411314307bc541b5c26ac921c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 29/31] fix: don't build pointer types of any depth while
 decoding

With PerlCompat, a run of REFN tags in a document made the decoder create ever
longer pointer types, which are never freed: 100 kB of them took 8 GB.
---
 Go/sereal/decode.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 8e908dd..67f20b0 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -81,6 +81,19 @@ func LooksLikeSereal(b []byte) bool {
 // can be done about a stack overflow, it always ends the process
 const maxDecodeDepth = 100000
 
+// maxPointerDepth limits how many nested references are decoded into nested
+// pointer types: types are never freed and their names grow with the nesting
+const maxPointerDepth = 100
+
+func pointerDepth(t reflect.Type) int {
+	n := 0
+	for t.Kind() == reflect.Ptr {
+		t = t.Elem()
+		n++
+	}
+	return n
+}
+
 // A Decoder reads and decodes Sereal objects from an input buffer
 type Decoder struct {
 	tracked   map[int]reflect.Value
@@ -447,6 +460,10 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 				// otherwise let ptr be pointer to something (i.e. *interface{})
 				riface := reflect.ValueOf(iface)
 
+				if pointerDepth(riface.Type()) >= maxPointerDepth {
+					break
+				}
+
 				// reflect.New create value of type *riface.Type())
 				val := reflect.New(riface.Type())
 				val.Elem().Set(riface)
-- 
2.43.0


From f2a4ce9fd69028567442cddd43b89fbf5afc3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 30/31] fix: a callback that panics with nil is not a success,
 whatever Go version the program is for

In programs whose go.mod asks for Go 1.20 or earlier (and with
GODEBUG=panicnil=1) recover returns nil after panic(nil), so that Marshal
and Unmarshal stopped the panic and reported success: without a document,
or with a destination that was filled in part.
---
 Go/sereal/decode.go | 14 ++++++++++++++
 Go/sereal/encode.go | 14 ++++++++++++++
 Go/sereal/errors.go |  2 ++
 3 files changed, 30 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 67f20b0..4153f95 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -194,6 +194,14 @@ func documentDecompressor(version byte, doctype documentType) (decompressor, err
 
 // UnmarshalHeaderBody parses the Sereal-encoded buffer b extracts the header and body data into vheader and vbody, respectively
 func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody interface{}) (err error) {
+	returned := false
+	defer func() {
+		// recover returns nil for panic(nil) in programs for Go 1.20 and earlier
+		if !returned && err == nil {
+			err = errPanicNil
+		}
+	}()
+
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
@@ -211,6 +219,12 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	err = d.unmarshalHeaderBody(b, vheader, vbody)
+	returned = true
+	return err
+}
+
+func (d *Decoder) unmarshalHeaderBody(b []byte, vheader interface{}, vbody interface{}) (err error) {
 	// the previous call may have been left by a panic in the middle of a copy
 	d.copyDepth = 0
 	d.strCopyDepth = 0
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 253b1f1..78e6b40 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -76,6 +76,14 @@ func (e *Encoder) Marshal(body interface{}) (b []byte, err error) {
 
 // MarshalWithHeader returns the Sereal encoding of body with header data
 func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []byte, err error) {
+	returned := false
+	defer func() {
+		// recover returns nil for panic(nil) in programs for Go 1.20 and earlier
+		if !returned && err == nil {
+			err = errPanicNil
+		}
+	}()
+
 	defer func() {
 		//return
 		if r := recover(); r != nil {
@@ -94,6 +102,12 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 		}
 	}()
 
+	b, err = e.marshalWithHeader(header, body)
+	returned = true
+	return b, err
+}
+
+func (e *Encoder) marshalWithHeader(header interface{}, body interface{}) (b []byte, err error) {
 	// uninitialized encoder? set to the most recent supported protocol version
 	// (the encoder itself is left alone, it may be in use by other goroutines)
 	version := e.version
diff --git a/Go/sereal/errors.go b/Go/sereal/errors.go
index f6a1088..c2638f8 100644
--- a/Go/sereal/errors.go
+++ b/Go/sereal/errors.go
@@ -21,6 +21,8 @@ var (
 	ErrMaxRecursionLimit = errors.New("sereal: recursion limit exceeded")
 )
 
+var errPanicNil = errors.New("panic called with nil argument")
+
 // ErrCorrupt is returned if the sereal document was corrupt
 type ErrCorrupt struct{ Err string }
 
-- 
2.43.0


From 3851b39a6d70805e9d739f449be83a93b7fd8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 31/31] fix: nested containers must not all claim the rest of
 the document

A count is checked against what is left of the document, and memory for
that many items is allocated in advance. Containers that are nested in
each other could all claim the same bytes: 16 kB of array tags took 250 MB,
64 kB 4 GB.
---
 Go/sereal/decode.go | 48 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 4153f95..30aa9ad 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -103,6 +103,7 @@ type Decoder struct {
 
 	strCopyDepth int // same as copyDepth but for keys and class names
 	depth        int // nesting depth of the item being decoded
+	pending      int // items that the containers of the item being decoded still wait for
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -229,6 +230,7 @@ func (d *Decoder) unmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 	d.copyDepth = 0
 	d.strCopyDepth = 0
 	d.depth = 0
+	d.pending = 0
 
 	header, err := checkHeader(b)
 	if err != nil {
@@ -460,9 +462,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decode(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		if d.PerlCompat {
@@ -522,6 +527,18 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	return idx, err
 }
 
+// expect checks that n items at idx may be in the document, besides those that
+// come later: each takes a byte. Memory for the items is allocated in advance,
+// nested containers must not all claim the same bytes.
+func (d *Decoder) expect(by []byte, idx, n int) error {
+	if idx+n+d.pending > len(by) {
+		return ErrTruncated
+	}
+
+	d.pending += n
+	return nil
+}
+
 func (d *Decoder) decodeInt(tag byte) int {
 	if (tag & 0x10) == 0x10 {
 		return int(tag) - 32 // negative number
@@ -562,8 +579,8 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expect(by, idx, 2*ln); err != nil {
+		return 0, err
 	}
 
 	hash := make(map[string]interface{}, ln)
@@ -576,6 +593,8 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending -= 2
+
 		var key []byte
 		key, idx, err = d.decodeStringish(by, idx)
 		if err != nil {
@@ -599,8 +618,8 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expect(by, idx, ln); err != nil {
+		return 0, err
 	}
 
 	var slice []interface{}
@@ -620,6 +639,8 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending--
+
 		idx, err = d.decode(by, idx, &slice[i])
 		if err != nil {
 			return 0, err
@@ -908,9 +929,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0
 		d.copyDepth++
 		_, err = d.decodeViaReflection(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		idx, err = d.decodeViaReflection(by, idx, ptr)
@@ -958,8 +982,8 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expect(by, idx, ln); err != nil {
+		return 0, err
 	}
 
 	switch ptr.Kind() {
@@ -979,6 +1003,8 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 	ptrLen := ptr.Len()
 
 	for i := 0; i < ln; i++ {
+		d.pending--
+
 		if i < ptrLen {
 			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
 		} else {
@@ -1000,8 +1026,10 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
-		return 0, ErrTruncated
+	if ptr.Kind() == reflect.Map || ptr.Kind() == reflect.Struct {
+		if err := d.expect(by, idx, 2*ln); err != nil {
+			return 0, err
+		}
 	}
 
 	switch ptr.Kind() {
@@ -1012,6 +1040,8 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
+
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
@@ -1049,6 +1079,8 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		tags := d.tcache.Get(ptr)
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
+
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
-- 
2.43.0

