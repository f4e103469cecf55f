From d3c82e34747f7eb0ec85d959eb2ca7541e52240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 01/72] fix: unlink the first and last stream when removing it
 from the lookup

---
 proxy/lookup.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..15fb354 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -81,6 +81,12 @@ func (l *Lookup) Remove(id uint32) {
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
 	}
+	if l.head == nodeToDelete {
+		l.head = nextNode
+	}
+	if l.tail == nodeToDelete {
+		l.tail = prevNode
+	}
 }
 
 func (l *Lookup) find(id uint32) *node {
-- 
2.43.0


From 8d4ed9610298f86db958c6e45436d80408af21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 02/72] fix: look up streams under the lock

---
 proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 15fb354..960014f 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 889ee3437db43db81e305b8883c4ecd0449f6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 03/72] fix: never hand out stream id zero when server stream
 ids wrap around

---
 internal/socket/stream_id.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..8acf1d6 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -21,6 +21,10 @@ func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
 	v := 2 * seed
+	if _maskStreamID&v == 0 {
+		// Zero is not a valid stream id, skip it when wrapping around.
+		return p.Next()
+	}
 	if v != 0 {
 		return uint32(_maskStreamID & v), seed <= _halfSeed
 	}
-- 
2.43.0


From 637bfe06b43880ec65d20dc6406b2fe5d6da1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 04/72] fix: never reuse live-instance handles nor turn them
 back into pointers

---
 invoke/instances.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..ba05e9f 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,20 +13,20 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	instances map[uint64]*Ptr[T]
+	last      uint64
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -36,20 +35,23 @@ func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
+	// Handles are never reused and never turned back into pointers: an
+	// address could be that of another instance, or of no object at all,
+	// once the instance is removed.
+	t.last++
+	handle := t.last
+	t.instances[handle] = ptr
 	return handle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
-		inst = ptr.Ptr
-		delete(t.instances, ptr)
+	if ptr, found := t.instances[id]; found {
+		inst, ok = ptr.Ptr, found
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 357c4493e9a347f605ac778a41d9e40331ea97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 05/72] fix: size a 255 byte array as bin8, as it is encoded

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From c1e92ff32ba0e32e387be31ba5f6c54ab7ada4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 06/72] fix: WriteAny(nil) writes nil once

---
 msgpack/encoder.go | 3 ---
 msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..391570a 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 59d9332f7a44de58da70e332cc23d972b15e577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 07/72] fix: WriteAny and ReadAny handle times, as the sizer
 does

---
 msgpack/decoder.go | 6 ++++++
 msgpack/encoder.go | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..df39a42 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -393,6 +393,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -823,6 +827,8 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt4, FormatFixExt8, FormatExt8:
+		return d.readTimeExt(prefix)
 	}
 
 	return nil, ReadError{"bad value for bool"}
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 391570a..5184784 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -348,6 +348,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -362,6 +364,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 25de9466ff6483e3bd9bd48d5ad449cd58227adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 08/72] fix: WriteAny writes slices of floats

---
 msgpack/encoder.go | 13 +++++++++++++
 msgpack/sizer.go   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 5184784..d0cdb3f 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -432,6 +432,19 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat64(v)
+		}
+
 	case map[string]string:
 		size := uint32(len(v))
 		e.WriteMapSize(size)
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index e7c3b0a..7df1f6b 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -396,6 +396,19 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat64(v)
+		}
+
 	case map[string]string:
 		size := uint32(len(v))
 		s.WriteMapSize(size)
-- 
2.43.0


From b5b223de222c67e893ab54245a338f77b067bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 09/72] fix: WriteAny reports types it cannot write

---
 msgpack/encoder.go | 7 +++++++
 msgpack/sizer.go   | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index d0cdb3f..346601c 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -2,6 +2,7 @@ package msgpack
 
 import (
 	"encoding/binary"
+	"fmt"
 	"math"
 	"time"
 )
@@ -536,6 +537,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.err = unsupportedType(value)
 	}
 }
 
@@ -589,3 +592,7 @@ func (e *Encoder) write4(code byte, n uint32) error {
 func (e *Encoder) Err() error {
 	return e.reader.Err()
 }
+
+func unsupportedType(value any) error {
+	return fmt.Errorf("msgpack: unsupported type %T", value)
+}
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 7df1f6b..fa9a71d 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -500,9 +501,11 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.err = unsupportedType(value)
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 2fbab755918a46c222866a54c211cddacd569641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 10/72] fix: bounds check of the data reader does not overflow

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..fb12014 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if length > uint32(len(d.buffer))-d.byteOffset {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From c36394d941cd35871e910eb59d2227e3b69d4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 11/72] fix: ReadAny reports map keys that cannot be keys

---
 msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index df39a42..f95925b 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -855,6 +855,10 @@ func (d *Decoder) readMap(m map[any]any, length uint32) error {
 		if err != nil {
 			return err
 		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return ReadError{"bad map key"}
+		}
 		m[key] = value
 	}
 	return nil
-- 
2.43.0


From 24213f9b798963efe92cfb771c499745e0173148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 12/72] fix: Skip skips every ext format, ext lengths are plain
 numbers

---
 msgpack/decoder.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index f95925b..24213e5 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -671,7 +671,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -680,6 +680,13 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1) // type
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
@@ -899,13 +906,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 537e24102515df2a4eb2db09eeec605c2933690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 13/72] fix: Skip reports a value that is cut short

---
 msgpack/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 24213e5..41e0665 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -716,7 +716,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From c0a0fa3c5d4974da793c4b0d777eb4298534f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 14/72] fix: Skip neither overflows on large maps nor recurses

---
 msgpack/decoder.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 41e0665..593a657 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -603,21 +603,22 @@ func (d *Decoder) Skip() error {
 	}
 
 	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
+		numberOfObjectsToDiscard += nested
 		numberOfObjectsToDiscard--
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -625,9 +626,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -692,25 +693,25 @@ func (d *Decoder) getSize() (uint32, error) {
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
-- 
2.43.0


From b655eb8ad3065db91db195ab9ce9d9cca96cc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 15/72] fix: decoding arrays and maps does not trust their
 declared sizes

---
 msgpack/decoder.go | 27 +++++++++++++--------------
 msgpack/utils.go   | 14 ++++++++++++--
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 593a657..c7296c1 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -737,14 +737,13 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
+		ary, err := d.readArray(aryLen)
 		return ary, err
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
+		m := make(map[any]any)
 		err := d.readMap(m, mapLen)
 		return m, err
 	}
@@ -790,23 +789,21 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
+		ary, err := d.readArray(uint32(v))
 		return ary, err
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
+		ary, err := d.readArray(v)
 		return ary, err
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any)
 		err = d.readMap(m, uint32(v))
 		return m, err
 	case FormatMap32:
@@ -814,7 +811,7 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
+		m := make(map[any]any)
 		err = d.readMap(m, v)
 		return m, err
 	case FormatBin8:
@@ -842,15 +839,17 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	// The length is not trusted: the array grows as its elements are read.
+	array := []any{}
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return array, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
 func (d *Decoder) readMap(m map[any]any, length uint32) error {
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..9c58ddf 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, preallocate(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +50,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, preallocate(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
@@ -66,3 +66,13 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 
 	return m, nil
 }
+
+// preallocate bounds the capacity reserved for a size that was read but not
+// yet backed by elements.
+func preallocate(size uint32) uint32 {
+	const limit = 256
+	if size > limit {
+		return limit
+	}
+	return size
+}
-- 
2.43.0


From cb6cf70a8f6f80419cf930fcd448f37b14f4ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 16/72] fix: ReadAny limits the nesting depth

---
 msgpack/decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index c7296c1..6708d91 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth is how deeply arrays and maps read by ReadAny may be nested.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  uint32
 }
 
 // Ensure `*Decoder` implements `Reader`.
@@ -721,6 +725,12 @@ func (d *Decoder) getSize() (uint64, error) {
 }
 
 func (d *Decoder) ReadAny() (any, error) {
+	if d.depth >= maxDepth {
+		return nil, ReadError{"nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+
 	prefix, err := d.reader.GetUint8()
 	if err != nil {
 		return false, err
-- 
2.43.0


From c14f4d520353851ffb7f15e810680b19d90b9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 17/72] fix: request frames say that fragments follow

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..66db8fe 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -75,6 +75,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From 69554deb1a98bb4f4e9b13f53ca52e924b3ffffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 18/72] fix: setup frame counts its token once

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..5a231a1 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 89fedb2c137faa0627d32e139f928748fe3ae2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 19/72] fix: setup frame durations above 4.2 seconds are not
 truncated

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 5a231a1..6ffc9f0 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From e48b3af3817d1ad4ad536bdaf44b37f0b910f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 20/72] fix: setup frame decodes tokens and mime types of
 maximal length

---
 internal/frames/setup.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 6ffc9f0..501833d 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -44,16 +44,16 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		tokenLength := int(binary.BigEndian.Uint16(data))
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
-- 
2.43.0


From 01f22a1035278f31d75c6f43991bcdc34dfab1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 21/72] fix: decoding a truncated frame returns an error

---
 internal/frames/error.go           |  3 +++
 internal/frames/payload.go         |  6 ++++++
 internal/frames/request_n.go       |  3 +++
 internal/frames/request_payload.go |  9 +++++++++
 internal/frames/setup.go           | 27 +++++++++++++++++++++++++++
 internal/frames/util.go            |  5 +++++
 6 files changed, 53 insertions(+)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..07271e1 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..1a14645 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..dedc01b 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 66db8fe..e99b83d 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 501833d..4ced961 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return ErrTruncated
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,25 +47,49 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
+		if len(data) < 2 {
+			return ErrTruncated
+		}
 		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return ErrTruncated
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
+	if len(data) < 1 {
+		return ErrTruncated
+	}
 	metadataMimeLength := int(data[0])
+	if len(data) < 1+metadataMimeLength {
+		return ErrTruncated
+	}
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
+	if len(data) < 1 {
+		return ErrTruncated
+	}
 	dataMimeLength := int(data[0])
+	if len(data) < 1+dataMimeLength {
+		return ErrTruncated
+	}
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
+		if len(data) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], data[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		data = data[3:]
+		if uint32(len(data)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = data[:mdLength]
 		payload = data[mdLength:]
 	}
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..f8b19c6 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,8 +2,13 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+// ErrTruncated is returned when decoding a frame that is shorter than its
+// fields require.
+var ErrTruncated = errors.New("frame is truncated")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
-- 
2.43.0


From 7830953210bc4b10c11b3f6102cc7e9a2f4c8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 22/72] fix: decoding a malformed operation table returns an
 error

---
 operations/operatons.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..c397402 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -62,8 +62,15 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("operation table is truncated")
+
+// minOperationLen is the encoded length of an operation without names.
+const minOperationLen = 12
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, ErrTruncated
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,18 +83,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationLen > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < minOperationLen {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+4 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,7 +116,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+reservedLen {
+			return nil, ErrTruncated
+		}
 		buf = buf[2+reservedLen:] // Reserved
 	}
 
-- 
2.43.0


From 7d559c0bb5fa4aca81630e5b912f8b9276505011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 23/72] fix: decoding a truncated port message returns an error

---
 invoke/portio.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..ab095e7 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,9 +2,13 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+// ErrTruncatedPortIO is returned when decoding a port message that is cut short.
+var ErrTruncatedPortIO = errors.New("port message is truncated")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +17,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return ErrTruncatedPortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return ErrTruncatedPortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From cc46def5309ce2d3299179cab8e437dc16703ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 24/72] fix: port message flags are distinct bits

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index ab095e7..03a01c1 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -81,7 +81,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 2cca0a469ae9212f4feb621c0547fb30b8e625e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 25/72] fix: frames that arrive together with the end of the
 stream are delivered

---
 transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..f3206e0 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -42,9 +42,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 877a6e9b097e768773d7a2764eff982a57dfb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 26/72] fix: frames read from a connection do not alias its
 read buffer

---
 transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index f3206e0..f19df39 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// Frames outlive the scanner's buffer.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 535c100edf6d82ba1f882e9506a6962bf15e1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 27/72] fix: writing a frame that is too large returns an error

---
 transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..e20a89a 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -104,7 +104,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 23c0dcc730edf36be04f3ff69e070b60e3dc36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 28/72] fix: concurrent senders do not mix their frames' bytes

---
 transport/rsocket/tcp_conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index e20a89a..8520756 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	writeMu sync.Mutex
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -100,6 +102,8 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
@@ -130,6 +134,8 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From 8ca1ccee405389a3f05818d5de72b7d78b128a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 29/72] fix: splitting a request does not repeat its metadata

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index e99b83d..37b16b0 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -170,6 +170,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // all in the first fragment
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From e8f0de70ef35dc5173d0304f99af94c7350d504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 30/72] fix: custom sections may be empty and are not padded
 when cut short

---
 transport/wasmrs/customsections/customsections.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..04d9ff9 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -122,8 +122,11 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 71aef5d53f3b0914b1cb9749466f545434b5631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 31/72] fix: the size of a custom section's name is not trusted

---
 transport/wasmrs/customsections/customsections.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 04d9ff9..9de6b91 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
-- 
2.43.0


From 06de485856209028d210e79bcd07b5959282aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 32/72] fix: UUIDs in the Microsoft form must be in braces

---
 types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/uuid/uuid.go b/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/types/uuid/uuid.go
+++ b/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 0bd6d4407fc19e27d7e7597fbe2bf3e7dc6faf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 33/72] fix: nillable conversions map nil to nil

---
 msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From a0c7253872f3f0b2fd14ec7cf369ea03c9da1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 34/72] fix: CodecEncode reports the error of the codec

---
 transform/transform.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..52210e1 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -325,10 +325,14 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From b5c465125945537a6a974be805a8ad59112396da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 35/72] fix: constant publishers run the finally callback and
 have a subscription

---
 rx/flux/flux.go | 14 ++++++++++++--
 rx/mono/mono.go |  6 ++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..a275218 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -56,14 +59,21 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return ended{}
 }
 
+// ended is the subscription of a sequence that has ended.
+type ended struct{}
+
+func (ended) Request(int) {}
+func (ended) Cancel()     {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From fd9d1babfa03c8dcc0590f97917d5af8723e9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 36/72] fix: blocking on a flux that is not subscribed does not
 panic

---
 rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From 84f10de9b9e24963d6a9d5ae53c860e6590f1f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 37/72] fix: cancelling a flux runs its callbacks once and
 requests no more

---
 rx/flux/flux.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index a275218..e214286 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -143,7 +143,7 @@ func (s *subscriber[T]) Next(value T) {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	if s.n == 0 && !s.closed {
 		s.handleOnSubscribe()
 	}
 }
@@ -210,13 +210,14 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From 921f7240c3d6ba6659e0960c4f6571430e1fba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 38/72] fix: a failing mapping ends the flux with its error

---
 rx/flux/flux.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index e214286..94afb9f 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -220,8 +220,15 @@ func (s *subscriber[T]) Cancel() {
 	s.finally(rx.SignalCancel)
 }
 
-func (s *subscriber[T]) Close() {
-	s.closed = true
+// fail ends the sequence with an error that the source does not know of.
+func (s *subscriber[T]) fail(err error) {
+	if s.closed {
+		return
+	}
+	s.Error(err)
+	if s.sub.Cancel != nil {
+		s.sub.Cancel()
+	}
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
@@ -236,22 +243,16 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
+type failable interface {
+	fail(error)
 }
 
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+				if s, ok := m.f.Subscription().(failable); ok {
+					s.fail(err)
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
-- 
2.43.0


From 6e36132eaf085cd9bf78a5400fb137cbf1d27af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:08 +0000
Subject: [PATCH 39/72] fix: the end of a flux races neither with its demand
 nor with notifications

---
 rx/flux/flux.go      | 69 ++++++++++++++++++++++++++++++++++----------
 rx/flux/flux_host.go |  3 ++
 2 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 94afb9f..df75dab 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -82,6 +84,7 @@ func Create[T any](source Source[T]) Flux[T] {
 
 type flux[T any] struct {
 	source     Source[T]
+	mu         sync.Mutex // guards what follows and the state of the subscriber
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -96,7 +99,9 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
@@ -109,11 +114,15 @@ func (f *flux[T]) Subscription() rx.Subscription {
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -135,24 +144,42 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 && !s.closed {
+	s.f.mu.Lock()
+	refill := s.n == 0 && !s.closed
+	s.f.mu.Unlock()
+	if refill {
 		s.handleOnSubscribe()
 	}
 }
 
-func (s *subscriber[T]) Complete() {
+// end closes the subscriber, unless it is closed already.
+func (s *subscriber[T]) end(signal rx.SignalType, err error) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
 	s.closed = true
+	s.signal = signal
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) Complete() {
+	if !s.end(rx.SignalComplete, nil) {
+		return
+	}
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -160,11 +187,9 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.end(rx.SignalError, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -172,22 +197,29 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 {
+		s.doRequest(n)
 	}
 }
 
@@ -203,17 +235,19 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
 	s.n += n
-	if s.sub.Request != nil {
+	subscribed := s.sub.Request != nil
+	s.f.mu.Unlock()
+	if subscribed {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	if !s.end(rx.SignalCancel, nil) {
 		return
 	}
-	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
@@ -222,10 +256,13 @@ func (s *subscriber[T]) Cancel() {
 
 // fail ends the sequence with an error that the source does not know of.
 func (s *subscriber[T]) fail(err error) {
-	if s.closed {
+	if !s.end(rx.SignalError, err) {
 		return
 	}
-	s.Error(err)
+	if s.doOnError != nil {
+		s.doOnError(err)
+	}
+	s.finally(rx.SignalError)
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index fca9dd0..46a3ae3 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,9 +26,12 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
+		defer f.mu.Unlock()
 		return f.subscriber.err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
-- 
2.43.0


From c81459b96d995d0a7c7271744fac8551f88e0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:08 +0000
Subject: [PATCH 40/72] fix: a flux processor keeps what arrives before its
 subscriber

---
 rx/flux/processor.go | 55 ++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..58794c7 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -1,5 +1,7 @@
 package flux
 
+import "sync"
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,45 +9,58 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
-	sink Sink[T]
-	sub  *OnSubscribe
+	mu    sync.Mutex // guards what follows
+	sink  Sink[T]
+	early []func(Sink[T]) // what arrived before the subscriber
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
-		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		for {
+			p.mu.Lock()
+			early := p.early
+			p.early = nil
+			if len(early) == 0 {
+				p.sink = sink
+			}
+			p.mu.Unlock()
+			if len(early) == 0 {
+				return
+			}
+			for _, signal := range early {
+				signal(sink)
+			}
 		}
 	})
 
 	return p
 }
 
-func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+func (p *processor[T]) emit(signal func(Sink[T])) {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
+		p.early = append(p.early, signal)
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		signal(sink)
 	}
 }
 
+func (p *processor[T]) Next(value T) {
+	p.emit(func(sink Sink[T]) { sink.Next(value) })
+}
+
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
-	}
+	p.emit(func(sink Sink[T]) { sink.Complete() })
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	}
+	p.emit(func(sink Sink[T]) { sink.Error(err) })
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
-		p.sub = &sub
-	}
+	p.emit(func(sink Sink[T]) { sink.OnSubscribe(sub) })
 }
-- 
2.43.0


From 8f50cf48851f07c5cd281c77fdd1a06785133a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:56 +0000
Subject: [PATCH 41/72] fix: a failing mapping of a mono is signalled as an
 error

---
 rx/mono/mono.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..f411f2f 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -215,10 +215,12 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +232,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
@@ -240,7 +249,14 @@ func (b *mapper[S, D]) Async() {
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		if signal == rx.SignalComplete {
+			if _, err := b.Get(); err != nil {
+				signal = rx.SignalError
+			}
+		}
+		fn(signal)
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
-- 
2.43.0


From 1d7b9ae66641d2e0b0245e61a8576c3274396a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:56 +0000
Subject: [PATCH 42/72] fix: the end of a mono does not race with notifications
 or another end

---
 rx/mono/mono.go      | 47 +++++++++++++++++++++++++++++++++-----------
 rx/mono/mono_host.go |  3 +++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index f411f2f..75bfab2 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -106,6 +108,7 @@ func Create[T any](source Source[T]) Mono[T] {
 
 type mono[T any] struct {
 	source     Source[T]
+	mu         sync.Mutex // guards what follows and the state of the subscriber
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,7 +121,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -132,15 +137,21 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
+	m.mu.Lock()
 	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
@@ -160,12 +171,24 @@ type subscriber[T any] struct {
 	doFinally     rx.FnFinally
 }
 
-func (s *subscriber[T]) Success(value T) {
+// end closes the subscriber, unless it is closed already.
+func (s *subscriber[T]) end(signal rx.SignalType, value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
-	s.value = value
 	s.closed = true
+	s.signal = signal
+	s.value = value
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) Success(value T) {
+	if !s.end(rx.SignalComplete, value, nil) {
+		return
+	}
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,11 +196,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalError, none, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -185,20 +207,23 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalCancel, none, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..736ff74 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -8,9 +8,12 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
+	s.mu.Lock()
 	if s.subscriber != nil && s.subscriber.closed {
+		defer s.mu.Unlock()
 		return s.subscriber.value, s.subscriber.err
 	}
+	s.mu.Unlock()
 
 	done := make(chan struct{})
 	go func() {
-- 
2.43.0


From 4ac44e3557fac13b3bf0f08fdaf4ec4af7ff8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:56 +0000
Subject: [PATCH 43/72] fix: a mono processor hands its result over to a
 concurrent subscriber

---
 rx/mono/processor.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..1215a85 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -1,5 +1,7 @@
 package mono
 
+import "sync"
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      sync.Mutex // guards what follows
 	sink    Sink[T]
 	success *T
 	err     error
@@ -15,11 +18,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +33,25 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if p.success == nil && p.err == nil {
 		p.success = &value
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Success(value)
+	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if p.success == nil && p.err == nil {
 		p.err = err
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From fabed4d3b47ee8c4560994c41bde97491ed53e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:56 +0000
Subject: [PATCH 44/72] fix: blocking on a mono that is subscribed waits for
 that subscription

---
 proxy/mono_host.go   |  6 ++++++
 rx/mono/mono_host.go | 33 +++++++++++++--------------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/proxy/mono_host.go b/proxy/mono_host.go
index 927c78b..cfb181d 100644
--- a/proxy/mono_host.go
+++ b/proxy/mono_host.go
@@ -5,6 +5,7 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -14,6 +15,11 @@ func (s *streamMono) Block() (ret payload.Payload, err error) {
 	// }
 
 	done := make(chan struct{})
+	if s.subscribed {
+		s.Notify(func(rx.SignalType) { close(done) })
+		<-done
+		return s.Get()
+	}
 	go func() {
 		s.Subscribe(mono.Subscribe[payload.Payload]{
 			OnSuccess: func(value payload.Payload) {
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 736ff74..8e1f7f0 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -3,19 +3,23 @@
 
 package mono
 
+import "github.com/nanobus/iota/go/rx"
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
 	s.mu.Lock()
-	if s.subscriber != nil && s.subscriber.closed {
-		defer s.mu.Unlock()
-		return s.subscriber.value, s.subscriber.err
-	}
+	subscribed := s.subscriber != nil
 	s.mu.Unlock()
 
 	done := make(chan struct{})
+	if subscribed {
+		s.Notify(func(rx.SignalType) { close(done) })
+		<-done
+		return s.Get()
+	}
 	go func() {
 		s.Subscribe(Subscribe[T]{
 			OnSuccess: func(value T) {
@@ -34,20 +38,9 @@ func (s *mono[T]) Block() (ret T, err error) {
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	return b.tx(value)
 }
-- 
2.43.0


From cacd22aa2792eadeaca0185aa05c4efc67b69b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 45/72] fix: awaiting a created publisher subscribes to it

---
 rx/flux/flux.go | 11 ++++++++++-
 rx/mono/mono.go |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index df75dab..c125ba9 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -111,7 +111,16 @@ func (f *flux[T]) Subscription() rx.Subscription {
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	f.mu.Lock()
+	subscribed := f.subscriber != nil
+	f.mu.Unlock()
+	if !subscribed {
+		f.Subscribe(Subscribe[T]{})
+	}
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	f.mu.Lock()
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 75bfab2..fc78429 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -129,6 +129,14 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	m.mu.Lock()
+	subscribed := m.subscriber != nil
+	m.mu.Unlock()
+	if !subscribed {
+		m.Subscribe(Subscribe[T]{})
+	}
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-- 
2.43.0


From ea370a83c50a32caf10da6e081d30868397e62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 46/72] fix: a flow runs each step once when its awaited
 results end

---
 rx/flow/flow.go | 59 ++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..b29493a 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,8 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended   bool
+		pending int32
 	}
 
 	StepFn func() (await.Group, error)
@@ -46,6 +47,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.ended = true
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,6 +57,7 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.ended = true
 	f.monoSink.Success(value)
 
 	return nil, nil
@@ -85,38 +88,38 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 }
 
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
-		return
-	}
-
-	f.completed = 0
-	step := f.steps[0]
-	awaitables, err := step()
-	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
+	for len(f.steps) > 0 {
+		step := f.steps[0]
+		f.steps = f.steps[1:]
+		awaitables, err := step()
+		if err != nil {
+			if f.monoSink != nil {
+				f.monoSink.Error(err)
+			} else if f.fluxSink != nil {
+				f.fluxSink.Error(err)
+			}
+			return
 		}
-		return
-	}
 
-	if f.ended {
-		return
-	}
+		if f.ended {
+			return
+		}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+		// One more than there are awaitables, so that those which
+		// have completed already do not run the next step from here.
+		atomic.StoreInt32(&f.pending, int32(len(awaitables))+1)
+		for _, a := range awaitables {
+			a.Async() // Ensure task is running.
+			a.Notify(f.check)
+		}
+		if atomic.AddInt32(&f.pending, -1) > 0 {
+			return
+		}
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
+	if atomic.AddInt32(&f.pending, -1) == 0 {
 		f.next()
 	}
 }
-- 
2.43.0


From 5ee697cffbd40467ccdadffb439138621b61739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:00 +0000
Subject: [PATCH 47/72] fix: a mono of an empty flux ends with an error

---
 transform/transform.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 52210e1..c49d920 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -514,12 +515,19 @@ func FluxToVoid[T any](f flux.Flux[T]) mono.Void {
 	})
 }
 
+// ErrNoValue is the error of a mono made of a flux without values.
+var ErrNoValue = errors.New("flux has no value")
+
 func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 	return mono.Create(func(sink mono.Sink[T]) {
 		f.Subscribe(flux.Subscribe[T]{
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				// Ignored if there was a value.
+				sink.Error(ErrNoValue)
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
-- 
2.43.0


From c2bf7027c76ee78277aa16ed27f1f792701edf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 48/72] fix: a remote flux registers its stream however it is
 subscribed

---
 proxy/flux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..84b9054 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -80,6 +80,7 @@ func (s *streamFlux) Request(n int) {
 	if s.first {
 		s.request.InitialN = uint32(n)
 		s.first = false
+		s.register(s)
 		s.sendFrame(&s.request)
 
 		if s.in != nil {
@@ -128,7 +129,6 @@ func (s *streamFlux) DoRequest(n int) {
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
 	s.subscribed = true
-	s.register(s)
 	s.Processor.Subscribe(sub)
 	return s
 }
-- 
2.43.0


From 055184d85ad11d3076d39af223a3f62c9990b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 49/72] fix: demand, cancellation and ends of streams count
 whenever they arrive

Frames for a stream could arrive before its handler had run (and were lost
or crashed), cancelling did not stop the source, frames for ended streams
took the connection down, and ended streams stayed registered.
---
 handler/handler.go |  96 ++++++++++++++-------------
 proxy/flux.go      | 111 +++++++++++++++++++++++++++++--
 proxy/mono.go      |   4 ++
 proxy/responder.go | 159 +++++++++++++++++++++++++++++++++++++++++++++
 proxy/stream.go    |  10 +++
 5 files changed, 331 insertions(+), 49 deletions(-)
 create mode 100644 proxy/responder.go

diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..dd74a50 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -85,6 +84,9 @@ func (i *Handler) registerStream(s proxy.Stream) {
 	} else {
 		i.hostStreams.Add(s)
 	}
+	if e, ok := s.(proxy.Ending); ok {
+		e.OnEnd(func() { i.removeStream(s.StreamID()) })
+	}
 }
 
 func (i *Handler) removeStream(streamID uint32) {
@@ -115,10 +117,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream may have ended while the frame was on its way.
 			return
 		}
 	}
@@ -156,7 +155,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register now for the frames that follow.
+			s := i.newStream(streamID)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +165,20 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register now for the frames that follow.
+			s := i.newChannel(streamID)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(proxy.Cancelable); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,13 +232,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -293,13 +295,35 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) newStream(streamID uint32) *proxy.Responder {
+	s := proxy.NewStreamResponder(i.ctx, streamID, func() { i.removeStream(streamID) })
+	i.registerStream(s)
+	return s
+}
+
+func (i *Handler) newChannel(streamID uint32) *proxy.Responder {
+	s := proxy.NewChannelResponder(i.ctx, streamID, func(n int) {
+		i.sendFrame(&frames.RequestN{
+			StreamID: streamID,
+			N:        uint32(n),
+		})
+	}, func() {
+		i.sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
+	}, func() { i.removeStream(streamID) })
+	i.registerStream(s)
+	return s
+}
+
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -310,12 +334,11 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -339,15 +362,17 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 				Data:     err.Error(),
 			})
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -358,29 +383,12 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
+	f := handler(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -402,11 +410,11 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				Data:     err.Error(),
 			})
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
diff --git a/proxy/flux.go b/proxy/flux.go
index 84b9054..2c9696f 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -19,11 +20,13 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		sendFrame: sendFrame,
 		register:  register,
 		first:     true,
+		inEnded:   in == nil,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
 		Cancel:  ss.Cancel,
 	})
+	p.Notify(func(rx.SignalType) { ss.end(&ss.complete) })
 	return &ss
 }
 
@@ -36,8 +39,16 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+
+	mu       sync.Mutex // guards what follows
+	first    bool
+	opening  bool
+	canceled bool // while opening
+	complete bool
+	inEnded  bool
+	inSub    rx.Subscription
+	inN      int // requested before there was a subscription
+	onEnd    func()
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -54,7 +65,6 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 
 func (s *streamFlux) OnComplete() {
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
@@ -74,15 +84,28 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
 	if s.first {
 		s.request.InitialN = uint32(n)
 		s.first = false
+		s.opening = true
+		s.mu.Unlock()
 		s.register(s)
 		s.sendFrame(&s.request)
 
+		s.mu.Lock()
+		s.opening = false
+		canceled := s.canceled
+		s.mu.Unlock()
+		if canceled {
+			s.sendCancel()
+			return
+		}
+
 		if s.in != nil {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
 				OnNext: func(p payload.Payload) {
@@ -105,10 +128,13 @@ func (s *streamFlux) Request(n int) {
 						Data:     err.Error(),
 					})
 				},
+				Finally:   func(rx.SignalType) { s.end(&s.inEnded) },
 				NoRequest: true,
 			})
+			s.inSubscribed(s.in.Subscription())
 		}
 	} else {
+		s.mu.Unlock()
 		s.sendFrame(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
@@ -116,15 +142,90 @@ func (s *streamFlux) Request(n int) {
 	}
 }
 
+// inSubscribed sets the subscription of what is sent, which gets the demand
+// and the cancellation that have arrived so far.
+func (s *streamFlux) inSubscribed(sub rx.Subscription) {
+	s.mu.Lock()
+	s.inSub = sub
+	n := s.inN
+	ended := s.inEnded
+	s.mu.Unlock()
+	if ended {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+// end marks a direction as ended.
+func (s *streamFlux) end(direction *bool) {
+	s.mu.Lock()
+	*direction = true
+	onEnd := s.onEnd
+	if s.complete && s.inEnded {
+		s.onEnd = nil
+	} else {
+		onEnd = nil
+	}
+	s.mu.Unlock()
+	if onEnd != nil {
+		onEnd()
+	}
+}
+
+func (s *streamFlux) OnEnd(fn func()) {
+	s.mu.Lock()
+	ended := s.complete && s.inEnded
+	if !ended {
+		s.onEnd = fn
+	}
+	s.mu.Unlock()
+	if ended {
+		fn()
+	}
+}
+
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	first := s.first
+	opening := s.opening
+	s.complete = true
+	s.canceled = true
+	s.mu.Unlock()
+	if !first && !opening {
+		s.sendCancel()
+	}
+	s.OnCancel()
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
+// OnCancel ends what is sent to the responder of a channel.
+func (s *streamFlux) OnCancel() {
+	s.end(&s.inEnded)
+	s.mu.Lock()
+	sub := s.inSub
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	ended := s.inEnded
+	if sub == nil {
+		s.inN += n
+	}
+	s.mu.Unlock()
+	if sub != nil && !ended {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..6d13f66 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -51,6 +51,10 @@ func (s *streamMono) OnError(err error) {
 	s.Processor.Error(err)
 }
 
+func (s *streamMono) OnEnd(fn func()) {
+	s.Processor.Notify(func(rx.SignalType) { fn() })
+}
+
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..222d950
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,159 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the answering end of a stream or channel. Frames for it may
+// arrive before its answer is subscribed to, and after it has ended.
+type Responder struct {
+	ctx      context.Context
+	streamID uint32
+	in       flux.Processor[payload.Payload] // what the requester of a channel sends
+
+	mu       sync.Mutex // guards what follows
+	sub      rx.Subscription
+	n        int // requested before there was a subscription
+	canceled bool
+	outEnded bool
+	inEnded  bool
+	onEnd    func()
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewStreamResponder returns the answering end of a stream. It calls onEnd
+// when the stream has ended.
+func NewStreamResponder(ctx context.Context, streamID uint32, onEnd func()) *Responder {
+	return &Responder{
+		ctx:      ctx,
+		streamID: streamID,
+		inEnded:  true,
+		onEnd:    onEnd,
+	}
+}
+
+// NewChannelResponder returns the answering end of a channel. It calls onEnd
+// when both directions of the channel have ended.
+func NewChannelResponder(ctx context.Context, streamID uint32, request func(n int), cancel func(), onEnd func()) *Responder {
+	r := &Responder{
+		ctx:      ctx,
+		streamID: streamID,
+		in:       flux.NewProcessor[payload.Payload](),
+		onEnd:    onEnd,
+	}
+	r.in.OnSubscribe(flux.OnSubscribe{
+		Request: func(n int) {
+			r.mu.Lock()
+			ended := r.inEnded
+			r.mu.Unlock()
+			if !ended {
+				request(n)
+			}
+		},
+		Cancel: func() {
+			if r.end(&r.inEnded) {
+				cancel()
+			}
+		},
+	})
+	return r
+}
+
+// In is what the requester of a channel sends.
+func (r *Responder) In() flux.Flux[payload.Payload] {
+	return r.in
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Answering sets the subscription of the answer, which gets the demand and
+// the cancellation that have arrived so far.
+func (r *Responder) Answering(sub rx.Subscription) {
+	r.mu.Lock()
+	r.sub = sub
+	n := r.n
+	canceled := r.canceled
+	r.mu.Unlock()
+	if canceled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+// Answered tells that the answer has ended.
+func (r *Responder) Answered() {
+	r.end(&r.outEnded)
+}
+
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	sub := r.sub
+	ended := r.outEnded || r.canceled
+	if sub == nil {
+		r.n += n
+	}
+	r.mu.Unlock()
+	if sub != nil && !ended {
+		sub.Request(n)
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	if r.in != nil {
+		r.in.Next(p)
+	}
+}
+
+func (r *Responder) OnComplete() {
+	if r.end(&r.inEnded) {
+		r.in.Complete()
+	}
+}
+
+func (r *Responder) OnError(err error) {
+	if r.end(&r.inEnded) {
+		r.in.Error(err)
+	}
+}
+
+// OnCancel is called when the requester cancels the stream or channel.
+func (r *Responder) OnCancel() {
+	r.mu.Lock()
+	r.canceled = true
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.end(&r.outEnded)
+	r.OnComplete()
+}
+
+// end marks a direction as ended, unless it has ended already.
+func (r *Responder) end(direction *bool) bool {
+	r.mu.Lock()
+	if *direction {
+		r.mu.Unlock()
+		return false
+	}
+	*direction = true
+	ended := r.outEnded && r.inEnded
+	r.mu.Unlock()
+	if ended {
+		r.onEnd()
+	}
+	return true
+}
diff --git a/proxy/stream.go b/proxy/stream.go
index 941be46..8d2a4a1 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -14,6 +14,16 @@ type Stream interface {
 	OnError(err error)
 }
 
+// Ending is a stream that tells when it has ended, in both directions.
+type Ending interface {
+	OnEnd(fn func())
+}
+
+// Cancelable is a stream whose peer can cancel what is sent to it.
+type Cancelable interface {
+	OnCancel()
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
-- 
2.43.0


From f0ae2c3090a50b3a0738bcfb5ec3e5fcc0fe3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 50/72] fix: a request completed without a value ends with an
 error

---
 proxy/mono.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy/mono.go b/proxy/mono.go
index 6d13f66..52c9697 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,6 +10,9 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+// ErrNoValue is the error of a request that was completed without a value.
+var ErrNoValue = errors.New("completed without a value")
+
 func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
@@ -44,7 +48,8 @@ func (s *streamMono) OnNext(p payload.Payload) {
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Has no effect after a value.
+	s.Processor.Error(ErrNoValue)
 }
 
 func (s *streamMono) OnError(err error) {
-- 
2.43.0


From c66296c1dffe4b3ea8d473eca9704a2c6ed16958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 51/72] fix: a new transport sends its handler's frames instead
 of looping them back

---
 transport/rsocket/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..942d7ea 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -66,7 +66,9 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		isServer:    isServer,
 		ready:       make(chan struct{}),
 	}
-	handler.SetFrameSender(t.handler.HandleFrame)
+	handler.SetFrameSender(func(f frames.Frame) error {
+		return t.Send(f, true)
+	})
 	return &t
 }
 
-- 
2.43.0


From 2a42bcf14c1841fd41beb239bd9ff53a1d121136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 52/72] fix: a connection ends when its context is cancelled or
 a frame cannot be handled during a read

---
 transport/rsocket/transport.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 942d7ea..e798d00 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -169,6 +169,8 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 			case errCh <- err:
 			default:
 			}
+			// Start may be blocked in a read.
+			_ = p.Close()
 		}
 		if bf.Load() == 0 {
 			runtime.Gosched()
@@ -197,6 +199,22 @@ func (p *Transport) Start(ctx context.Context) error {
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
 
+	// Reads are blocking: closing the connection ends them when ctx is done.
+	stop := make(chan struct{})
+	watched := make(chan struct{})
+	go func() {
+		defer close(watched)
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stop:
+		}
+	}()
+	defer func() {
+		close(stop)
+		<-watched
+	}()
+
 	if p.isServer {
 		first, err := p.ReadFirst(ctx)
 		if err != nil {
@@ -221,6 +239,17 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil {
+				// The connection may have been closed for another reason.
+				select {
+				case err := <-errChan:
+					return fmt.Errorf("dispatch incoming frame failed: %w", err)
+				default:
+				}
+				if ctx.Err() != nil {
+					return ctx.Err()
+				}
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 5d0d22f4ee97555ff4d58dcff4745288c3e9c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 53/72] fix: who waits for a connection to become ready is
 released when it ends before

---
 transport/rsocket/tcp_transport.go |  4 +++-
 transport/rsocket/transport.go     | 12 +++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..f0b7692 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -99,7 +99,9 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		if t.putTransport(tp) {
 			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
+				if !tp.WaitUntilReady() {
+					return
+				}
 				t.acceptor(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index e798d00..644b851 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -55,6 +55,7 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	isReady     bool
 }
 
 // NewTransport creates new transport.
@@ -195,6 +196,11 @@ func (p *Transport) Start(ctx context.Context) error {
 		framesBuffer.Dispose()
 
 		<-done
+
+		if !p.isReady {
+			// Nobody has to wait any longer.
+			close(p.ready)
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
@@ -229,6 +235,7 @@ func (p *Transport) Start(ctx context.Context) error {
 		}
 	}
 
+	p.isReady = true
 	close(p.ready)
 
 	for {
@@ -262,6 +269,9 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
+// WaitUntilReady waits until the transport is ready or has ended before
+// that, and returns whether it has become ready.
+func (p *Transport) WaitUntilReady() bool {
 	<-p.ready
+	return p.isReady
 }
-- 
2.43.0


From 7dc90cfbc8999a4b875e9df9baaa3ee4fdca4b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 54/72] fix: a server forgets connections that have ended and
 closes those accepted while closing

---
 transport/rsocket/tcp_transport.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index f0b7692..be45fec 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -97,7 +97,10 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
 			go func() {
 				if !tp.WaitUntilReady() {
 					return
@@ -108,6 +111,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 			}()
 		} else {
 			_ = t.Close()
+			_ = tp.Close()
 		}
 	}
 	return
-- 
2.43.0


From 603ca36c3c7f9cc65238bbdd3c65d7ca4322f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 55/72] fix: a server that is closed when it starts to listen
 does not accept forever

---
 transport/rsocket/tcp_transport.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index be45fec..104ce41 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,7 +52,10 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
+	if err == nil {
+		err = t.listening(l)
+	}
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
@@ -79,7 +82,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -117,6 +120,20 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	return
 }
 
+// listening registers the listener to be closed with the server.
+func (t *tcpServerTransport) listening(l net.Listener) error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		_ = l.Close()
+		return errTransportClosed
+	default:
+		t.l = l
+		return nil
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 0c3a8772fe2abff2a4e1f695cebcde809c34db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 56/72] fix: a call whose frames cannot be sent ends with an
 error

---
 handler/handler.go | 21 +++++++++++++++------
 proxy/flux.go      | 15 ++++++++++++---
 proxy/mono.go      |  4 +++-
 proxy/stream.go    | 14 ++++++++++++++
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index dd74a50..d3396b2 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -261,7 +261,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			_ = proxy.Send(i.sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -270,7 +270,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
+			_ = proxy.Send(i.sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -343,12 +343,15 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, d
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			err := proxy.Send(i.sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
 			i.sendFrame(&frames.Payload{
@@ -357,7 +360,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, d
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
+			_ = proxy.Send(i.sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -391,12 +394,18 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 	f := handler(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			err := proxy.Send(i.sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+				i.sendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnComplete: func() {
 			i.sendFrame(&frames.Payload{
@@ -405,7 +414,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
+			_ = proxy.Send(i.sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
diff --git a/proxy/flux.go b/proxy/flux.go
index 2c9696f..d09dbb4 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -95,7 +95,11 @@ func (s *streamFlux) Request(n int) {
 		s.opening = true
 		s.mu.Unlock()
 		s.register(s)
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.end(&s.inEnded)
+			s.OnError(err)
+			return
+		}
 
 		s.mu.Lock()
 		s.opening = false
@@ -109,12 +113,17 @@ func (s *streamFlux) Request(n int) {
 		if s.in != nil {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
 				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
+					err := Send(s.sendFrame, &frames.Payload{
 						StreamID: s.request.StreamID,
 						Metadata: p.Metadata(),
 						Data:     p.Data(),
 						Next:     true,
 					})
+					if err != nil {
+						s.OnCancel()
+						s.sendCancel()
+						s.OnError(err)
+					}
 				},
 				OnComplete: func() {
 					s.sendFrame(&frames.Payload{
@@ -123,7 +132,7 @@ func (s *streamFlux) Request(n int) {
 					})
 				},
 				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
+					_ = Send(s.sendFrame, &frames.Error{
 						StreamID: s.request.StreamID,
 						Data:     err.Error(),
 					})
diff --git a/proxy/mono.go b/proxy/mono.go
index 52c9697..1f87798 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -76,6 +76,8 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.Processor.Error(err)
+	}
 	return s
 }
diff --git a/proxy/stream.go b/proxy/stream.go
index 8d2a4a1..d815e22 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -3,6 +3,7 @@ package proxy
 import (
 	"context"
 
+	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
 )
 
@@ -24,6 +25,19 @@ type Cancelable interface {
 	OnCancel()
 }
 
+// Send sends a frame of a stream. If that is not possible it tells the peer
+// that the stream has failed.
+func Send(sendFrame func(frames.Frame) error, f frames.Frame) error {
+	err := sendFrame(f)
+	if err != nil {
+		_ = sendFrame(&frames.Error{
+			StreamID: f.GetStreamID(),
+			Data:     err.Error(),
+		})
+	}
+	return err
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
-- 
2.43.0


From 20314866d13a3ab75d3734aed7ce4694f28da8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 57/72] fix: streams and channels of a guest get the frames
 that arrive early, late or twice

---
 transport/wasmrs/host/instance.go | 151 +++++++++++++-----------------
 1 file changed, 65 insertions(+), 86 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..a8aca9a 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -130,6 +130,9 @@ func (i *Instance) registerStream(s proxy.Stream) {
 	} else {
 		i.hostStreams.Add(s)
 	}
+	if e, ok := s.(proxy.Ending); ok {
+		e.OnEnd(func() { i.removeStream(s.StreamID()) })
+	}
 }
 
 func (i *Instance) removeStream(streamID uint32) {
@@ -287,7 +290,10 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		// Register now for the frames that follow.
+		ctx = i.parentContext(ctx, rs.Metadata)
+		s := i.newStream(ctx, rs.StreamID)
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -304,7 +310,10 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		// Register now for the frames that follow.
+		ctx = i.parentContext(ctx, rc.Metadata)
+		s := i.newChannel(ctx, rc.StreamID)
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -316,12 +325,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(proxy.Cancelable); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +391,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -389,8 +399,6 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
@@ -461,29 +469,60 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
-		return
+// parentContext returns the context of the stream a request belongs to.
+func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) < 8 {
+		return ctx
 	}
-
-	operationID := binary.BigEndian.Uint32(metadata)
 	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
 		}
 	}
+	return ctx
+}
+
+func (i *Instance) newStream(ctx context.Context, streamID uint32) *proxy.Responder {
+	s := proxy.NewStreamResponder(ctx, streamID, func() { i.removeStream(streamID) })
+	i.registerStream(s)
+	return s
+}
+
+func (i *Instance) newChannel(ctx context.Context, streamID uint32) *proxy.Responder {
+	s := proxy.NewChannelResponder(ctx, streamID, func(n int) {
+		i.SendFrame(&frames.RequestN{
+			StreamID: streamID,
+			N:        uint32(n),
+		})
+	}, func() {
+		i.SendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
+	}, func() { i.removeStream(streamID) })
+	i.registerStream(s)
+	return s
+}
+
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
+	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
+		return
+	}
+
+	operationID := binary.BigEndian.Uint32(metadata)
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -508,25 +547,21 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			})
 			i.reduceActiveRequests()
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
 		i.SendFrame(&frames.Error{
@@ -534,30 +569,12 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			Data:     "not_found",
 		})
 		i.reduceActiveRequests()
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
+	f := handlerRC(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
 			i.SendFrame(&frames.Payload{
@@ -581,11 +598,11 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			})
 			i.reduceActiveRequests()
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -673,41 +690,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From a628f6397fd6d8aa4cdd2f2c00fdd2878498f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 58/72] fix: closing an instance waits for its calls and does
 not panic or block the frame loops

---
 proxy/lookup.go                   | 12 +++++++
 transport/wasmrs/host/instance.go | 60 ++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 960014f..79a03af 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -43,6 +43,18 @@ func (l *Lookup) Get(id uint32) (Stream, bool) {
 	return nil, false
 }
 
+// All returns the streams.
+func (l *Lookup) All() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	streams := make([]Stream, 0, l.count)
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	return streams
+}
+
 func (l *Lookup) Add(s Stream) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index a8aca9a..9de223d 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -21,11 +22,15 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var (
+	errClosed = errors.New("instance is closed")
+)
+
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	sendQueue *buffer.Unbounded[frames.Frame]
+	recvQueue *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -44,6 +49,7 @@ type Instance struct {
 	closing        atomic.Bool
 	closed         chan struct{}
 	once           sync.Once
+	closedOnce     sync.Once
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
@@ -76,8 +82,8 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
-		sendCh:             make(chan frames.Frame, 100),
-		recvCh:             make(chan []byte, 100),
+		sendQueue:          buffer.NewUnbounded[frames.Frame](),
+		recvQueue:          buffer.NewUnbounded[[]byte](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
@@ -111,8 +117,8 @@ func (i *Instance) Close() error {
 			<-i.closed
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		// Also ends the receive loop, once all frames are sent.
+		i.sendQueue.Dispose()
 	})
 
 	return nil
@@ -120,7 +126,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.closedOnce.Do(func() { close(i.closed) })
 	}
 }
 
@@ -163,7 +169,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
+	if !i.sendQueue.Put(f) {
+		return errClosed
+	}
 	return nil
 }
 
@@ -176,7 +184,8 @@ func (i *Instance) sendLoop() {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
+	for f := range i.sendQueue.Get() {
+		i.sendQueue.Load()
 		mem := i.m.Memory()
 		buf, _ := mem.Read(i.sendPtr, i.sendSize)
 		byteCount := f.Size()
@@ -189,7 +198,10 @@ func (i *Instance) sendLoop() {
 		// Send frame data to guest.
 		i.sendFn.Call(ctx, uint64(3+byteCount))
 	}
+
+	i.recvQueue.Dispose()
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -210,15 +222,24 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		frameLength := binary.BigEndian.Uint32(length[0:4])
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		i.recvQueue.Put(buf)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
+	for buf := range i.recvQueue.Get() {
+		i.recvQueue.Load()
 		i.recvOne(buf)
 	}
+
+	// Nothing arrives anymore.
+	for _, s := range i.hostStreams.All() {
+		s.OnError(errClosed)
+	}
+	for _, s := range i.guestStreams.All() {
+		s.OnError(errClosed)
+	}
 }
 
 func (i *Instance) recvOne(data []byte) {
@@ -404,6 +425,7 @@ func (i *Instance) recvOne(data []byte) {
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -433,15 +455,14 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 				Next:     true,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
-			i.reduceActiveRequests()
 		},
+		Finally: func(rx.SignalType) { i.reduceActiveRequests() },
 	})
 }
 
@@ -507,6 +528,7 @@ func (i *Instance) newChannel(ctx context.Context, streamID uint32) *proxy.Respo
 func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
 	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		i.removeStream(streamID)
 		return
 	}
@@ -518,6 +540,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.reduceActiveRequests()
 		i.removeStream(streamID)
 		return
 	}
@@ -538,16 +561,17 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
+			s.Answered()
 			i.reduceActiveRequests()
 		},
-		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
 	s.DoRequest(int(initialN))
@@ -557,6 +581,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
 	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		i.removeStream(streamID)
 		return
 	}
@@ -589,16 +614,17 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
+			s.Answered()
 			i.reduceActiveRequests()
 		},
-		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
 	s.DoRequest(int(initialN))
-- 
2.43.0


From fab34e64817c8e26838e6d038639effab8c86d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 59/72] fix: frames that a guest cannot take or does not handle
 end the call with an error

---
 transport/wasmrs/host/instance.go | 59 ++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 9de223d..54488d6 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -23,7 +23,9 @@ import (
 )
 
 var (
-	errClosed = errors.New("instance is closed")
+	errClosed         = errors.New("instance is closed")
+	errFrameTooLarge  = errors.New("frame is too large for the guest")
+	errBufferNotFound = errors.New("guest has no buffer for frames")
 )
 
 type Instance struct {
@@ -98,6 +100,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -169,6 +174,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if 3+f.Size() > i.sendSize {
+		return errFrameTooLarge
+	}
 	if !i.sendQueue.Put(f) {
 		return errClosed
 	}
@@ -187,7 +195,11 @@ func (i *Instance) sendLoop() {
 	for f := range i.sendQueue.Get() {
 		i.sendQueue.Load()
 		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
+		buf, ok := mem.Read(i.sendPtr, i.sendSize)
+		if !ok {
+			i.sendFailed(f, errBufferNotFound)
+			continue
+		}
 		byteCount := f.Size()
 
 		// Encode length and frame data.
@@ -196,12 +208,29 @@ func (i *Instance) sendLoop() {
 		f.Encode(buf[3:])
 
 		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+		if _, err := i.sendFn.Call(ctx, uint64(3+byteCount)); err != nil {
+			i.sendFailed(f, err)
+		}
 	}
 
 	i.recvQueue.Dispose()
 }
 
+// sendFailed fails the host's stream of a frame that the guest did not handle,
+// after the frames that the guest has sent before.
+func (i *Instance) sendFailed(f frames.Frame, err error) {
+	if f.GetStreamID()&1 == 1 {
+		return
+	}
+	e := frames.Error{
+		StreamID: f.GetStreamID(),
+		Data:     err.Error(),
+	}
+	buf := make([]byte, e.Size())
+	e.Encode(buf)
+	i.recvQueue.Put(buf)
+}
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -244,6 +273,9 @@ func (i *Instance) recvLoop() {
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -448,7 +480,7 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			_ = proxy.Send(i.SendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -457,7 +489,7 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
+			_ = proxy.Send(i.SendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -549,12 +581,15 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			err := proxy.Send(i.SendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
 			i.SendFrame(&frames.Payload{
@@ -563,7 +598,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
+			_ = proxy.Send(i.SendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -602,12 +637,18 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 	f := handlerRC(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			err := proxy.Send(i.SendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+				i.SendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnComplete: func() {
 			i.SendFrame(&frames.Payload{
@@ -616,7 +657,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
+			_ = proxy.Send(i.SendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
-- 
2.43.0


From f324cdbb661a9ad691e8fd3c3aca660e1abecefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 60/72] fix: a refused channel does not leave its input open

---
 handler/handler.go                | 6 ++++++
 transport/wasmrs/host/instance.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index d3396b2..a69c5d9 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -375,6 +375,9 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, d
 func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
 	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		i.removeStream(streamID)
 		return
 	}
@@ -386,6 +389,9 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		i.removeStream(streamID)
 		return
 	}
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 54488d6..1d812a1 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -616,6 +616,9 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder,
 func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
 	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.SendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		i.reduceActiveRequests()
 		i.removeStream(streamID)
 		return
@@ -628,6 +631,9 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.SendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		i.reduceActiveRequests()
 		i.removeStream(streamID)
 		return
-- 
2.43.0


From b187bd8a8ddc7a8b3900c302ff611c07c47b2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 61/72] fix: a channel that the guest fails on does not leave
 its input open

---
 transport/wasmrs/host/instance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 1d812a1..d6ee1ad 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -229,6 +229,12 @@ func (i *Instance) sendFailed(f frames.Frame, err error) {
 	buf := make([]byte, e.Size())
 	e.Encode(buf)
 	i.recvQueue.Put(buf)
+	if f.Type() == frames.FrameTypeRequestChannel {
+		c := frames.Cancel{StreamID: f.GetStreamID()}
+		buf = make([]byte, c.Size())
+		c.Encode(buf)
+		i.recvQueue.Put(buf)
+	}
 }
 
 func (i *Instance) Operations() operations.Table {
-- 
2.43.0


From 697df77b8a82e37f84929fb8a5f58461afcb4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 62/72] fix: streams and channels of the guest keep their
 demand, end when cancelled and are not left behind

---
 transport/wasmrs/guest/guest.go | 74 +++++++++++++++++----------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..2dfea92 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -176,12 +176,14 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(proxy.Cancelable); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +245,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -252,8 +253,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -312,11 +311,31 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
+func newStream(ctx context.Context, streamID uint32) *proxy.Responder {
+	s := proxy.NewStreamResponder(ctx, streamID, func() { removeStream(streamID) })
+	registerStream(s)
+	return s
+}
+
+func newChannel(ctx context.Context, streamID uint32) *proxy.Responder {
+	s := proxy.NewChannelResponder(ctx, streamID, func(n int) {
+		sendFrame(&frames.RequestN{
+			StreamID: streamID,
+			N:        uint32(n),
+		})
+	}, func() {
+		sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
+	}, func() { removeStream(streamID) })
+	registerStream(s)
+	return s
+}
+
 func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
 	if !checkMetadata(streamID, metadata) {
 		return
@@ -333,8 +352,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
+	s := newStream(ctx, streamID) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -358,11 +376,11 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 				Data:     err.Error(),
 			})
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -381,25 +399,8 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
+	s := newChannel(ctx, streamID) // Need to register for RequestN frames
+	f := handler(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
 			sendFrame(&frames.Payload{
@@ -421,11 +422,11 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				Data:     err.Error(),
 			})
 		},
+		Finally:   func(rx.SignalType) { s.Answered() },
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.DoRequest(int(initialN))
+	s.Answering(f.Subscription())
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -460,6 +461,9 @@ func registerStream(s proxy.Stream) {
 	} else {
 		hostStreams.Add(s)
 	}
+	if e, ok := s.(proxy.Ending); ok {
+		e.OnEnd(func() { removeStream(s.StreamID()) })
+	}
 }
 
 func removeStream(streamID uint32) {
-- 
2.43.0


From 2364e6a4e224490233615aecd6e1790517dc073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 63/72] fix: bytes that are no frame do not stop the guest and
 are answered on their own stream

---
 transport/wasmrs/guest/guest.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 2dfea92..73f7063 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -82,6 +82,9 @@ func GuestSend(endPos uint32) {
 		buf = buf[3+frameLen:]
 
 		// lengthPos = 1 // Reset for next frame
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
@@ -106,7 +109,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -122,7 +125,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -138,7 +141,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -154,10 +157,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -170,10 +173,10 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
-- 
2.43.0


From e9c173af5fe8494d0ead830f515d8165a4c616bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 64/72] fix: a channel that the guest refuses does not leave
 its input open

---
 transport/wasmrs/guest/guest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 73f7063..b98e959 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -388,6 +388,9 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
 	if !checkMetadata(streamID, metadata) {
+		sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		return
 	}
 
@@ -398,6 +401,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		sendFrame(&frames.Cancel{
+			StreamID: streamID,
+		})
 		return
 	}
 
-- 
2.43.0


From 073246c4b86726ecca5e97463089c5799fb4b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 65/72] fix: frames that the host cannot take end the call of
 the guest with an error

---
 transport/wasmrs/guest/guest.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index b98e959..2334da9 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -34,6 +34,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame is too large for the host")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -280,7 +282,7 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			_ = proxy.Send(sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -289,7 +291,7 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
+			_ = proxy.Send(sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -360,12 +362,15 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			err := proxy.Send(sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
 			sendFrame(&frames.Payload{
@@ -374,7 +379,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
+			_ = proxy.Send(sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -412,12 +417,18 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	f := handler(ctx, p, s.In())
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			err := proxy.Send(sendFrame, &frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			})
+			if err != nil {
+				s.OnCancel()
+				sendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnComplete: func() {
 			sendFrame(&frames.Payload{
@@ -426,7 +437,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
+			_ = proxy.Send(sendFrame, &frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
@@ -532,6 +543,9 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
+	if 3+f.Size() > uint32(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	doSendFrame(f)
 	return nil
 }
-- 
2.43.0


From 7716cf4670ac44d68913a03c9a2cfb61e2ff7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 66/72] fix: an undecodable request of a guest is answered on
 its own stream

---
 transport/wasmrs/host/instance.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index d6ee1ad..ca7ef16 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -305,7 +305,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -322,7 +322,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -338,7 +338,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -358,7 +358,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -378,7 +378,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From 9959f5b5f9e3d0cdc9c1dfbebdfb54bcc48d30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 67/72] fix: the guest does not send a frame whose length does
 not fit its prefix

---
 transport/wasmrs/guest/guest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 2334da9..af4796c 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -543,7 +543,7 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	if 3+f.Size() > uint32(len(hostBuffer)) {
+	if size := f.Size(); size >= 1<<24 || 3+size > uint32(len(hostBuffer)) {
 		return errFrameTooLarge
 	}
 	doSendFrame(f)
-- 
2.43.0


From 30405994ce930d6b01da939e01633562b0ac290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 68/72] fix: the mesh tells operations of the same name but
 different kinds apart

---
 transport/wasmrs/mesh/mesh.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..68ff384 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,16 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[operation]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// operation identifies an operation in its namespace.
+	operation struct {
+		name string
+		kind operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +54,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[operation]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -59,13 +65,13 @@ func New(opts ...Option) *Mesh {
 	return &m
 }
 
-func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
+func (m *Mesh) RequestResponse(ctx context.Context, namespace, name string, p payload.Payload) mono.Mono[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operation{name, operations.RequestResponse}]
 	if !ok {
 		return nil
 	}
@@ -74,13 +80,13 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 	return dest.RequestResponse(ctx, p)
 }
 
-func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
+func (m *Mesh) FireAndForget(ctx context.Context, namespace, name string, p payload.Payload) {
 	ns, ok := m.exports[namespace]
 	if !ok {
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operation{name, operations.FireAndForget}]
 	if !ok {
 		return
 	}
@@ -89,13 +95,13 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 	dest.FireAndForget(ctx, p)
 }
 
-func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
+func (m *Mesh) RequestStream(ctx context.Context, namespace, name string, p payload.Payload) flux.Flux[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operation{name, operations.RequestStream}]
 	if !ok {
 		return nil
 	}
@@ -104,13 +110,13 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 	return dest.RequestStream(ctx, p)
 }
 
-func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+func (m *Mesh) RequestChannel(ctx context.Context, namespace, name string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	ns, ok := m.exports[namespace]
 	if !ok {
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[operation{name, operations.RequestChannel}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +199,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[operation]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := operation{op.Operation, op.Type}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,7 +247,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[operation{op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 51a86872b6a5b4932aebd0d438ef7a865745bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 69/72] fix: imports follow their provider when it is loaded
 again

---
 transport/wasmrs/mesh/mesh.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 68ff384..6c0a16b 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -251,17 +251,25 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination changes when the exporting module is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
-- 
2.43.0


From e946f937023598738d2c4977a7157e373697ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 70/72] fix: the mesh does not change the metadata of its
 callers

---
 transport/wasmrs/mesh/mesh.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 6c0a16b..4d05639 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -275,34 +275,37 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// address returns the payload with the index of the operation in its
+// metadata. The metadata of the caller stays as it is, as other calls may be
+// made with it.
+func (d *destination) address(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	size := len(md)
+	if size < 8 {
+		size = 8
+	}
+	addressed := make([]byte, size)
+	copy(addressed, md)
+	binary.BigEndian.PutUint32(addressed, d.index)
+	return payload.New(p.Data(), addressed)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	p = d.address(p)
 	return d.instance.RequestResponse(ctx, p)
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	d.instance.FireAndForget(ctx, p)
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestStream(ctx, p)
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestChannel(ctx, p, in)
 }
-- 
2.43.0


From 94b587f36c41427e12f80e1a41cefcb9bfcfbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 71/72] fix: calls in progress end with an error when their
 connection ends

---
 handler/handler.go             | 10 ++++++++++
 transport/rsocket/transport.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index a69c5d9..2f985bf 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -16,6 +16,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errClosed = errors.New("connection is closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -74,7 +76,15 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends the open streams. It is called when nothing can be sent or
+// received anymore.
 func (i *Handler) Close() error {
+	for _, s := range append(i.guestStreams.All(), i.hostStreams.All()...) {
+		s.OnError(errClosed)
+		if c, ok := s.(proxy.Cancelable); ok {
+			c.OnCancel()
+		}
+	}
 	return nil
 }
 
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 644b851..86a8f7d 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -183,6 +183,10 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 func (p *Transport) Start(ctx context.Context) error {
 	defer func() {
 		_ = p.Close()
+		if c, ok := p.handler.(io.Closer); ok {
+			// Nothing can be sent or received anymore.
+			_ = c.Close()
+		}
 	}()
 
 	done := make(chan struct{}, 1)
-- 
2.43.0


From b46eb44f1f38264db6dc53cb3b6a2072d92d773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:35 +0000
Subject: [PATCH 72/72] fix: wasmrs-ops keeps the module as it is and appends
 its section

Decoding and encoding the whole module panicked on passive data segments,
dropped the data count section and rewrote the name section.
---
 transport/wasmrs/cmd/wasmrs-ops/main.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/transport/wasmrs/cmd/wasmrs-ops/main.go b/transport/wasmrs/cmd/wasmrs-ops/main.go
index 6d191d2..97fd0a6 100644
--- a/transport/wasmrs/cmd/wasmrs-ops/main.go
+++ b/transport/wasmrs/cmd/wasmrs-ops/main.go
@@ -42,29 +42,22 @@ func main() {
 		printOperationTable(opTable)
 	}
 
-	mod, err := binary.DecodeModule(bin, wasm.CoreFeaturesV2)
-	if err != nil {
-		log.Panicln(err)
-	}
-
-	var wasmrs *wasm.CustomSection
-	for _, custom := range mod.CustomSections {
-		if custom.Name == WASMRS_SECTION_NAME {
-			wasmrs = custom
-			break
-		}
-	}
-
 	var opTable operations.Table
-	if wasmrs == nil {
+	wasmrs, ok := sections[WASMRS_SECTION_NAME]
+	if !ok {
 		opTable = getOperationListFromModule(context.Background(), bin)
 		wasmrs = &wasm.CustomSection{
 			Name: WASMRS_SECTION_NAME,
 			Data: opTable.ToBytes(),
 		}
-		mod.CustomSections = append(mod.CustomSections, wasmrs)
 
-		bin = binary.EncodeModule(mod)
+		// The section is appended to the module as it is: decoding and encoding the
+		// whole module loses what the library does not know or keep, such as the
+		// data count section and most of the name section.
+		encoded := binary.EncodeModule(&wasm.Module{
+			CustomSections: []*wasm.CustomSection{wasmrs},
+		})
+		bin = append(bin, encoded[len(binary.Magic)+4:]...)
 		if err = os.WriteFile(filename, bin, 0644); err != nil {
 			log.Panicln(err)
 		}
-- 
2.43.0

