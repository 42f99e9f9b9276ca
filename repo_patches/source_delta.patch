From af1b2baef7a8e6d7973040189bd2b57cba91499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 01/29] fix: decode any non-zero bool varint as true

A bool field or map entry holding a varint other than 0 and 1 took its lowest
bit, so 2 decoded as false. The protobuf encoding defines every non-zero value
as true.
---
 internal/prutal/decoder.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..d28d8c8 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -199,8 +199,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // any non-zero varint is true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -342,8 +342,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero varint is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -448,8 +448,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero varint is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
-- 
2.43.0


From 18b581f62b2da9feab04e4a7460bb12a66d65992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/29] fix: append packed records to a repeated field instead
 of replacing it

A packed repeated field may arrive as several records, packed or not, and the
decoder has to concatenate them. Each packed record discarded what was there.
---
 internal/wire/decoder_packed.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..880395a 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -34,6 +34,20 @@ func init() {
 	packedDecoderFuncs[CoderBool] = DecodePackedBool
 }
 
+// growSlice returns s with room for n more elements.
+func growSlice[T any](s []T, n int) []T {
+	if cap(s)-len(s) >= n {
+		return s
+	}
+	c := len(s) + n
+	if len(s) > 0 && c < 2*cap(s) {
+		c = 2 * cap(s) // more records of the same field may follow
+	}
+	ns := make([]T, len(s), c)
+	copy(ns, s)
+	return ns
+}
+
 func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 	sz := 0
 	for _, v := range b {
@@ -41,7 +55,7 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint64, 0, sz)
+	vv := growSlice(*(*[]uint64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -71,7 +85,7 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]uint32, 0, sz)
+	vv := growSlice(*(*[]uint32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -101,7 +115,7 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int64, 0, sz)
+	vv := growSlice(*(*[]int64)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -131,7 +145,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 			sz++
 		}
 	}
-	vv := make([]int32, 0, sz)
+	vv := growSlice(*(*[]int32)(h), sz)
 	for len(b) > 0 {
 		var v uint64
 		var n int
@@ -158,7 +172,7 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 	if len(b)&7 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint64, 0, len(b)/8)
+	vv := growSlice(*(*[]uint64)(h), len(b)/8)
 	for len(b) > 0 {
 		_ = b[7]
 		vv = append(vv,
@@ -174,7 +188,7 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 	if len(b)&3 != 0 {
 		return io.ErrUnexpectedEOF
 	}
-	vv := make([]uint32, 0, len(b)/4)
+	vv := growSlice(*(*[]uint32)(h), len(b)/4)
 	for len(b) > 0 {
 		_ = b[3]
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
@@ -185,9 +199,9 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 }
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
-	vv := make([]bool, len(b))
-	for i, c := range b {
-		vv[i] = c > 0
+	vv := growSlice(*(*[]bool)(h), len(b))
+	for _, c := range b {
+		vv = append(vv, c > 0)
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From bfb220d8c38e027923818c4db5ae3d7c60a29aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 03/29] fix: read packed bools as varints

Each byte of a packed bool record was taken as one element, so an element
written in more than one byte became several elements.
---
 internal/wire/decoder_packed.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 880395a..763bb6d 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -200,8 +200,18 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
 	vv := growSlice(*(*[]bool)(h), len(b))
-	for _, c := range b {
-		vv = append(vv, c > 0)
+	for len(b) > 0 {
+		if b[0] < 0x80 {
+			vv = append(vv, b[0] != 0)
+			b = b[1:]
+			continue
+		}
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
 	}
 	*(*[]bool)(h) = vv
 	return nil
-- 
2.43.0


From 2ccd64c91afff265d0f37ac4535b48c448f0fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 04/29] fix: accept packed input for repeated scalars not
 declared packed

Decoders have to accept both encodings of a repeated scalar field. A field
declared without packed failed with a wire type error on packed input.
---
 internal/desc/funcs.go     | 8 +++++---
 internal/prutal/decoder.go | 8 +++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..fea26ad 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,11 +65,13 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.IsList {
+		// Returns decoder for repeated scalar fields in the packed encoding,
+		// which decoders must accept even if the field is not declared as packed.
+		// Returns nil for string, bytes and struct
 		return getPackedDecodeFunc(f)
 	}
-	// Non-packed, non-map fields use generic decoding
+	// Non-list, non-map fields use generic decoding
 	return nil
 }
 
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index d28d8c8..f5b0ffc 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -148,11 +148,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
-				// packed repeated fields, only scalar types except string or bytes
-				if f.DecodeFunc == nil {
-					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-				}
+			if typ == wire.TypeBytes && f.DecodeFunc != nil {
+				// packed repeated fields, only scalar types except string or bytes.
+				// a field may be packed on the wire no matter how it was declared.
 				packed, n := protowire.ConsumeBytes(b[i:])
 				if n < 0 {
 					return i, protowire.ParseError(n)
-- 
2.43.0


From 399416816ba8d1775b5ebc00c6016544948025e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 05/29] fix: decode every valid map entry

A map entry is a message: its key or value may be missing, in any order,
repeated or come with other fields. Entries other than a key followed by a value
failed to decode or, for the specialized decoders, dropped what followed, and
bool keys and values were assumed to take one byte.
---
 internal/desc/type.go        | 15 +++------
 internal/prutal/decoder.go   | 63 +++++++++++++++++++-----------------
 internal/wire/decoder_map.go | 28 +++++++++-------
 3 files changed, 54 insertions(+), 52 deletions(-)

diff --git a/internal/desc/type.go b/internal/desc/type.go
index 368e514..9f9a232 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -177,11 +177,6 @@ type TmpMapVars struct {
 	v  reflect.Value  // t.V.T
 	vp unsafe.Pointer // *t.V.T
 
-	// zero value of v,
-	// only used when non-pointer struct as map val
-	// we need to zero the tmp var before using it
-	z reflect.Value
-
 	Update func(p *TmpMapVars, mp unsafe.Pointer) // see newTmpMapVarsFunc
 
 }
@@ -192,10 +187,11 @@ func (p *TmpMapVars) MapWithPtr(x unsafe.Pointer) reflect.Value {
 func (p *TmpMapVars) KeyPointer() unsafe.Pointer { return p.kp }
 func (p *TmpMapVars) ValPointer() unsafe.Pointer { return p.vp }
 
+// Reset zeroes the tmp vars. It must be called before decoding an entry,
+// coz the entry may not have a key or value.
 func (p *TmpMapVars) Reset() {
-	if p.z.IsValid() {
-		p.v.Set(p.z)
-	}
+	p.k.SetZero()
+	p.v.SetZero()
 }
 
 // for (*sync.Pool).New
@@ -250,9 +246,6 @@ func newTmpMapVarsFunc(rt reflect.Type) func() any {
 		p.v = reflect.New(et)
 		p.vp = p.v.UnsafePointer()
 		p.v = p.v.Elem()
-		if et.Kind() == reflect.Struct {
-			p.z = reflect.Zero(et)
-		}
 		p.Update = updateFunc
 		return p
 	}
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index f5b0ffc..634b2f8 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -17,7 +17,6 @@
 package prutal
 
 import (
-	"fmt"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -266,13 +265,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
-				if f.DecodeFunc != nil {
-					if err := f.DecodeFunc(fb, p); err != nil {
-						return i, err
-					}
-				} else {
+				if f.DecodeFunc == nil || f.DecodeFunc(fb, p) != nil {
 					// Fallback: use generic reflection-based map decoding
 					// Used for:
+					// - Entries which are not exactly a key followed by a value
 					// - String keys (most common case: map[string]T)
 					// - Complex values: structs/messages (map[K]*MyMessage)
 					// - Bytes values (map[K][]byte)
@@ -308,12 +304,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 // DecodeMapKey ...
 // keyType = "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 // "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string"
-func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
-	num, typ := wire.ConsumeKVTag(b)
-	if num != 1 { // key num
-		return 0, fmt.Errorf("key field num not match, got %d expect 1", num)
-	}
-	i := 1 // one byte for map key tag
+//
+// b is what follows the tag of the key
+func (d *Decoder) DecodeMapKey(b []byte, typ wire.Type, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
+	i := 0
 
 	t := f.T.K
 	tag := f.KeyType
@@ -409,18 +403,14 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 
 // DecodeMapValue ...
 // like DecodeMapKey plus "bytes" | messageType | enumType
-func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
-	num, typ := wire.ConsumeKVTag(b)
-	if num != 2 { // val num
-		return 0, fmt.Errorf("val field num not match, got %d expect 2", num)
-	}
-	i := 1 // one byte for map value tag
+//
+// p must point to the value itself, not to a pointer to it
+func (d *Decoder) DecodeMapValue(b []byte, typ wire.Type, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
+	i := 0
 
 	t := f.T.V
 	tag := f.ValType
-
 	if t.IsPointer {
-		p = d.mallocIfPointer(p, t)
 		t = t.V
 	}
 
@@ -539,18 +529,33 @@ func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, t
 		*(*unsafe.Pointer)(p) = m.UnsafePointer()
 	}
 
+	// a missing key or value is the zero value of its type
+	vp := d.mallocIfPointer(tmp.ValPointer(), f.T.V)
+
 	i := 0
-	n, err := d.DecodeMapKey(b, tmp.KeyPointer(), f)
-	if err != nil {
-		return 0, err
-	}
-	i += n
+	for i < len(b) {
+		num, typ, n := protowire.ConsumeTag(b[i:])
+		if n < 0 {
+			return i, protowire.ParseError(n)
+		}
+		i += n
 
-	n, err = d.DecodeMapValue(b[i:], tmp.ValPointer(), f, maxdepth)
-	if err != nil {
-		return i, err
+		var err error
+		switch num {
+		case 1: // key
+			n, err = d.DecodeMapKey(b[i:], wire.Type(typ), tmp.KeyPointer(), f)
+		case 2: // value
+			n, err = d.DecodeMapValue(b[i:], wire.Type(typ), vp, f, maxdepth)
+		default:
+			if n = protowire.ConsumeFieldValue(num, typ, b[i:]); n < 0 {
+				err = protowire.ParseError(n)
+			}
+		}
+		if err != nil {
+			return i, err
+		}
+		i += n
 	}
-	i += n
 
 	tmp.Update(tmp, p)
 	return i, nil
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..bcea57b 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -17,7 +17,7 @@
 package wire
 
 import (
-	"io"
+	"errors"
 	"unsafe"
 
 	"github.com/cloudwego/prutal/internal/protowire"
@@ -107,6 +107,10 @@ func init() {
 	register(CoderBool, CoderBool, DecodeMap_Bool_Bool)
 }
 
+// errMapEntry is returned if a map entry is not exactly a key followed by a value.
+// Such an entry may still be valid, it's left to the generic map decoding.
+var errMapEntry = errors.New("map entry not in canonical form")
+
 func decodeMap_Varint(b []byte, num int32) (v uint64, n int, err error) {
 	fn, typ := ConsumeKVTag(b)
 	if fn != num {
@@ -128,6 +132,9 @@ func decodeMap_Varint(b []byte, num int32) (v uint64, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntry
+	}
 	n++ // +1 for the tag byte
 	return
 }
@@ -145,6 +152,9 @@ func decodeMap_Fixed32(b []byte, num int32) (v uint32, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntry
+	}
 	n++ // +1 for the tag byte
 	return
 }
@@ -162,22 +172,16 @@ func decodeMap_Fixed64(b []byte, num int32) (v uint64, n int, err error) {
 	if n < 0 {
 		return 0, 0, protowire.ParseError(n)
 	}
+	if num == 2 && n != len(b) {
+		return 0, 0, errMapEntry
+	}
 	n++ // +1 for the tag byte
 	return
 }
 
 func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
-	if len(b) < 2 {
-		return false, 0, io.ErrUnexpectedEOF
-	}
-	fn, typ := ConsumeKVTag(b)
-	if fn != num {
-		return false, 0, newFieldNumErr(fn, num)
-	}
-	if typ != TypeVarint {
-		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
-	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
-- 
2.43.0


From cd91263659d4562ab32f6e0468650b35eb7d575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 06/29] fix: count one level of nesting per map entry in the
 decoder

A message in a map counted as two levels, so the counter could step over zero
from one, after which nesting was not limited any more. The encoder counts one.
---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 634b2f8..2165504 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -276,7 +276,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From 9bab8c79dfc3f6fc437a4679ced9db2f1b6005bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 07/29] fix: encode the member set in a oneof even if it is
 zero

A oneof member has presence. A member holding zero, false or an empty string
was left out, so decoding the output reported no member set.
---
 internal/prutal/encoder.go | 1 +
 internal/prutal/sizer.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..7a7ebb4 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -69,6 +69,7 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		// this also checks pointer types
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer: // always encode the member set in oneof
 		case t.Size == 8: // int64, uint64, float64 or pointer on amd64
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4: // int32, uint32, float32 or pointer on 386
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..af42363 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -51,6 +51,7 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		// skip zero values — same logic as encoder
 		skipzero := false
 		switch {
+		case f.IsOneof() && !t.IsPointer: // always encode the member set in oneof
 		case t.Size == 8:
 			skipzero = *(*uint64)(p) == 0
 		case t.Size == 4:
-- 
2.43.0


From ebdc41248b39dbc11b4c0f4126efb90f1f002f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 08/29] fix: merge repeated occurrences of a message field

---
 internal/prutal/decoder.go | 23 ++++++++++++++---------
 internal/prutal/prutal.go  |  7 ++++++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 2165504..c0b26bb 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -97,11 +97,6 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tmv *desc.TmpMapVars // cache for map, optmize for repeated map
 	)
 
-	// reset unknownfields = unknownfields[:0]
-	if s.HasUnknownFields {
-		resetUnknownFields(s, base)
-	}
-
 	for i < len(b) {
 		// next field tag
 		num, typ, n := protowire.ConsumeTag(b[i:])
@@ -134,14 +129,24 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		p := unsafe.Add(base, f.Offset)
 		t := f.T
 		tag := f.TagType
+		isMessage := t.IsPointer && t.V.Kind == reflect.Struct
 		if f.IsOneof() {
-			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
-			hack.IfaceUpdate(p, f.IfaceTab, data)
-			p = data
+			if data := hack.IfaceData(p); isMessage && data != nil &&
+				hack.ReflectTypePtr(f.OneofType) == hack.IfaceTypePtr(p) {
+				p = data // already set to this message, merge into it
+			} else {
+				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				hack.IfaceUpdate(p, f.IfaceTab, data)
+				p = data
+			}
 		}
 
 		if t.IsPointer {
-			p = d.mallocIfPointer(p, t)
+			if data := *(*unsafe.Pointer)(p); isMessage && data != nil {
+				p = data // the field occurs more than once, merge into the message
+			} else {
+				p = d.mallocIfPointer(p, t)
+			}
 			t = t.V
 		}
 
diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index a0c96bd..0320dd4 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -81,7 +81,12 @@ func Unmarshal(b []byte, v interface{}) error {
 		return err
 	}
 	d := decoderPool.Get().(*Decoder)
-	_, err = d.DecodeStruct(b, rv.UnsafePointer(), desc, defaultRecursionMaxDepth)
+	p := rv.UnsafePointer()
+	// reset unknownfields = unknownfields[:0]
+	if desc.HasUnknownFields {
+		resetUnknownFields(desc, p)
+	}
+	_, err = d.DecodeStruct(b, p, desc, defaultRecursionMaxDepth)
 	decoderPool.Put(d)
 	return err
 }
-- 
2.43.0


From b415010718e1934190dc3465ab5dcdae09fc0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 09/29] fix: only use the low 32 bits of a sint32 varint

---
 internal/prutal/decoder.go      | 10 ++++++++++
 internal/wire/decoder.go        | 12 +++++++++++-
 internal/wire/decoder_map.go    | 26 +++++++++++++-------------
 internal/wire/decoder_packed.go |  2 +-
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index c0b26bb..51d0b2c 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -17,6 +17,7 @@
 package prutal
 
 import (
+	"math"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -189,6 +190,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if n < 0 {
 				return 0, protowire.ParseError(n)
 			}
+			if tag == desc.TypeZigZag32 {
+				u64 &= math.MaxUint32 // sint32 only uses the low 32 bits
+			}
 			if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 				u64 = uint64(protowire.DecodeZigZag(u64))
 			}
@@ -327,6 +331,9 @@ func (d *Decoder) DecodeMapKey(b []byte, typ wire.Type, p unsafe.Pointer, f *des
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if tag == desc.TypeZigZag32 {
+			u64 &= math.MaxUint32 // sint32 only uses the low 32 bits
+		}
 		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
@@ -429,6 +436,9 @@ func (d *Decoder) DecodeMapValue(b []byte, typ wire.Type, p unsafe.Pointer, f *d
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if tag == desc.TypeZigZag32 {
+			u64 &= math.MaxUint32 // sint32 only uses the low 32 bits
+		}
 		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
diff --git a/internal/wire/decoder.go b/internal/wire/decoder.go
index 3437e33..ddce8f9 100644
--- a/internal/wire/decoder.go
+++ b/internal/wire/decoder.go
@@ -16,7 +16,12 @@
 
 package wire
 
-import "unsafe"
+import (
+	"math"
+	"unsafe"
+
+	"github.com/cloudwego/prutal/internal/protowire"
+)
 
 type DecodeFunc func([]byte, unsafe.Pointer) error
 
@@ -36,3 +41,8 @@ func GetPackedDecoderFunc(c CoderType) DecodeFunc {
 func GetMapDecoderFunc(k, v CoderType) DecodeFunc {
 	return mapDecoderFuncs[mapDecoderFuncKey{K: k, V: v}]
 }
+
+// decodeZigZag32 decodes the varint of a sint32, only the low 32 bits are used.
+func decodeZigZag32(v uint64) int32 {
+	return int32(protowire.DecodeZigZag(v & math.MaxUint32))
+}
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index bcea57b..fd254fe 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -240,7 +240,7 @@ func DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[uint32(k)] = decodeZigZag32(v)
 	return nil
 }
 
@@ -345,7 +345,7 @@ func DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -450,7 +450,7 @@ func DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int64, int32](mp)
-	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag(k)] = decodeZigZag32(v)
 	return nil
 }
 
@@ -510,7 +510,7 @@ func DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -525,7 +525,7 @@ func DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = uint32(v)
+	(*m)[decodeZigZag32(k)] = uint32(v)
 	return nil
 }
 
@@ -540,7 +540,7 @@ func DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = protowire.DecodeZigZag(v)
+	(*m)[decodeZigZag32(k)] = protowire.DecodeZigZag(v)
 	return nil
 }
 
@@ -555,7 +555,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = int32(protowire.DecodeZigZag(v))
+	(*m)[decodeZigZag32(k)] = decodeZigZag32(v)
 	return nil
 }
 
@@ -570,7 +570,7 @@ func DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -585,7 +585,7 @@ func DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -600,7 +600,7 @@ func DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, bool](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[decodeZigZag32(k)] = v
 	return nil
 }
 
@@ -660,7 +660,7 @@ func DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -766,7 +766,7 @@ func DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
@@ -872,7 +872,7 @@ func DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[bool, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = decodeZigZag32(v)
 	return nil
 }
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 763bb6d..77ebb97 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -161,7 +161,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		if n < 0 {
 			return io.ErrUnexpectedEOF
 		}
-		vv = append(vv, int32(protowire.DecodeZigZag(v)))
+		vv = append(vv, decodeZigZag32(v))
 		b = b[n:]
 	}
 	*(*[]int32)(h) = vv
-- 
2.43.0


From ba372cc88228842777227e795e343114cd52adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 10/29] fix: reject field numbers out of range

---
 internal/desc/tag.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..aa5a425 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -25,6 +25,8 @@ import (
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
+const maxFieldNumber = 1<<29 - 1
+
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
@@ -68,6 +70,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
+	if p.ID <= 0 || p.ID > maxFieldNumber {
+		return fmt.Errorf("field number out of range: %d", p.ID)
+	}
 	if p.Packed {
 		p.WireTag = wire.EncodeTag(p.ID, wire.TypeBytes)
 	} else {
-- 
2.43.0


From 59b0f7a5d64a2237444bc93f09e6a6b1745e0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 11/29] fix: do not read options from the default value in a
 struct tag

---
 internal/desc/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index aa5a425..93fff84 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -31,12 +31,15 @@ var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
 	ss := strings.Split(tag, ",")
+loop:
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
 		if s == "" {
 			continue
 		}
 		switch {
+		case strings.HasPrefix(s, "def="):
+			break loop // default value, always the last, may contain commas
 		case s == "opt":
 			// not in use
 		case s == "req":
-- 
2.43.0


From dd1baf06e690c8b6b623395719f1c0038cb36405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 12/29] fix: reject struct fields whose type the codec would
 misinterpret

---
 internal/desc/desc.go | 23 +++++++++++++----------
 internal/desc/type.go |  4 ++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..f6f2600 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -279,19 +279,19 @@ func (f *FieldDesc) checkTypeMatch() error {
 			return fmt.Errorf("repeated field is not slice or map")
 		}
 		if t.IsSlice {
-			// The element type (after at most one pointer indirection) must be a
-			// scalar/struct, not another slice or map. Otherwise RealKind would
-			// flatten e.g. [][]int32 to int32 and pass validation, and the decoder
-			// would write a scalar slice header into a slice-of-slice element,
-			// causing type confusion.
-			el := t.V
-			if el.IsPointer {
-				el = el.V
-			}
-			if el.IsSlice || el.Kind == reflect.Map {
+			// The element type must be a scalar/struct or a pointer to struct. Otherwise
+			// RealKind would flatten e.g. [][]int32 or []*int32 to int32 and pass
+			// validation, and the decoder would write a scalar slice header into
+			// a slice-of-slice element, causing type confusion.
+			if el := t.V; el.IsSlice || el.Kind == reflect.Map || el.isPointerNotToStruct() {
 				return fmt.Errorf("unsupported nested repeated field type %s", t.T)
 			}
 		}
+	} else if t.IsSlice {
+		return fmt.Errorf("must be repeated field for %s", t.T)
+	}
+	if t.IsPointer && (t.V.IsSlice || t.V.Kind == reflect.Map) {
+		return fmt.Errorf("unsupported field type %s", t.T)
 	}
 
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
@@ -301,6 +301,9 @@ func (f *FieldDesc) checkTypeMatch() error {
 		if !f.Repeated {
 			return errors.New("must be repeated field for map")
 		}
+		if v := t.V; t.K.IsPointer || v.IsSlice || v.Kind == reflect.Map || v.isPointerNotToStruct() {
+			return fmt.Errorf("unsupported map field type %s", t.T)
+		}
 		if err := IsFieldKeyTypeMatchReflectKind(f.KeyType, t.K.RealKind()); err != nil {
 			return err
 		}
diff --git a/internal/desc/type.go b/internal/desc/type.go
index 9f9a232..a2b576d 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -74,6 +74,10 @@ func (t *Type) RealKind() reflect.Kind {
 	return t.Kind
 }
 
+func (t *Type) isPointerNotToStruct() bool {
+	return t.IsPointer && t.V.Kind != reflect.Struct
+}
+
 func (t *Type) finalizeType() error {
 	if t.finalized {
 		return nil
-- 
2.43.0


From ae1118188c29b356d7efe8eb867fe13d7c5ed810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 13/29] fix: do not reuse type descriptors after a failed parse

---
 internal/desc/desc.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index f6f2600..e1d954e 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -64,18 +64,36 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return ret, nil
 	}
 
+	s, err := parseAndFinalize(rt)
+	if err != nil {
+		return nil, err
+	}
+	cache.Set(typ, s)
+	return s, nil
+}
+
+func parseAndFinalize(rt reflect.Type) (s *StructDesc, err error) {
+	ok := false
+	defer func() {
+		if !ok {
+			// coz of cyclic refs, types which are parsed successfully
+			// may refer to the ones which are not. do not reuse any of them.
+			cachedTypes = map[reflect.Type]*Type{}
+			cachedStructs = map[reflect.Type]*StructDesc{}
+		}
+	}()
 	t, err := parseType(rt)
 	if err != nil {
 		return nil, err
 	}
-	s := t.S
+	s = t.S
 	if s == nil {
 		panic("t.S == nil")
 	}
 	if err := s.FinalizeFields(); err != nil {
 		return nil, err
 	}
-	cache.Set(typ, s)
+	ok = true
 	return s, nil
 }
 
-- 
2.43.0


From 9dfd3d466a229bd7ed7d830187a4a68d7745ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 14/29] fix: zero values before they become visible in the
 decoded message

---
 internal/prutal/decoder.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 51d0b2c..ab7718b 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -59,10 +59,39 @@ func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Po
 	// *p = new(type)
 	t = t.V
 	ret = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	if t.MallocAbiType == 0 {
+		resetValue(ret, t)
+	}
 	*(*unsafe.Pointer)(p) = ret
 	return
 }
 
+// resetValue zeroes the value of type t at p.
+//
+// It must be called before a value which may be dirty becomes visible to users, coz
+// memory without pointers is not zeroed by Malloc, and slices may reuse their capacity.
+func resetValue(p unsafe.Pointer, t *desc.Type) {
+	switch t.Kind {
+	case reflect.Struct:
+		reflect.NewAt(t.T, p).Elem().SetZero()
+	case reflect.Pointer:
+		*(*unsafe.Pointer)(p) = nil
+	case reflect.String:
+		*(*string)(p) = ""
+	case desc.KindBytes:
+		*(*[]byte)(p) = nil
+	default: // scalar types
+		switch t.Size {
+		case 8:
+			*(*uint64)(p) = 0
+		case 4:
+			*(*uint32)(p) = 0
+		case 1:
+			*(*uint8)(p) = 0
+		}
+	}
+}
+
 func resetUnknownFields(s *desc.StructDesc, base unsafe.Pointer) {
 	p := unsafe.Add(base, s.UnknownFieldsOffset)
 	if s.UnknownFieldsPointer {
@@ -137,6 +166,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				p = data // already set to this message, merge into it
 			} else {
 				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				if t.MallocAbiType == 0 {
+					resetValue(data, t)
+				}
 				hack.IfaceUpdate(p, f.IfaceTab, data)
 				p = data
 			}
@@ -174,6 +206,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			}
 			h.Len++
 			p = unsafe.Add(h.Data, uintptr(h.Len-1)*t.Size) // p = &d[len(d-1)]
+			resetValue(p, t)
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
-- 
2.43.0


From 362f9188bdc5f242fa831b973e36a35a275cb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 15/29] fix: honour packed = false in proto3

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..e070b0a 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -106,7 +106,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3: packed by default
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From 8574a1893cbc2a2e1004a900a24d8540c91b6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 16/29] fix: accept the smallest enum value

---
 prutalgen/pkg/prutalgen/enum.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..c8aa6fa 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -185,15 +185,15 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
-		t := c.IntLit()
-		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
-	} else {
-		f.Value = num
+	lit := c.IntLit().GetText()
+	if c.MINUS() != nil {
+		lit = "-" + lit // parse with the sign, -2147483648 is valid
 	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
+	num, ok := text.UnmarshalI32(lit)
+	if !ok {
+		x.Fatalf("%s - parse enum %q err", getTokenPos(c.IntLit()), lit)
 	}
+	f.Value = num
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
-- 
2.43.0


From f55fe7037ac4cb92a173899a644da93a10b0b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 17/29] fix: do not refuse enum values which are only reserved
 for field numbers

---
 prutalgen/pkg/prutalgen/enum.go     | 2 +-
 prutalgen/pkg/prutalgen/reserved.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index c8aa6fa..c97383a 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,7 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	return e.reserved.declared(v)
 }
 
 func (e *Enum) genNoPrefix() bool {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..a4e3e25 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -39,6 +39,12 @@ func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.declared(v)
+}
+
+// declared reports whether v is in one of the declared ranges. Numbers which
+// are reserved by the protobuf implementation are available to enums.
+func (rr reservedRanges) declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
-- 
2.43.0


From fb1b175f4afcfd8ec74d39e8bdfef9a4ae2abde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 18/29] fix: parse octal and hexadecimal numbers in reserved
 ranges

---
 prutalgen/pkg/prutalgen/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..215a876 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strconv"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -67,11 +66,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText())
+	if !ok {
+		return 0, fmt.Errorf("%s - invalid number %q", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0


From 33c79bdb0f343d8356015836f8c464725f3cb77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 19/29] fix: refuse field numbers out of range in .proto files

---
 prutalgen/pkg/prutalgen/message.go  | 4 +++-
 prutalgen/pkg/prutalgen/reserved.go | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..1a54896 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -213,7 +213,9 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if x.FieldNumber < 1 || x.FieldNumber > maxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index a4e3e25..87f9fc6 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -26,6 +26,8 @@ const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	maxFieldNumber = 1<<29 - 1
 )
 
 type reservedRange struct {
-- 
2.43.0


From 8f877cfdf594b74ce572e5a1608b4afc178c425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 20/29] fix: refuse reserved names

---
 prutalgen/pkg/prutalgen/enum.go     |  6 +++++-
 prutalgen/pkg/prutalgen/message.go  |  6 +++++-
 prutalgen/pkg/prutalgen/reserved.go | 26 ++++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/utils.go    |  9 +++++++++
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index c97383a..37d0a96 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -37,7 +37,8 @@ type Enum struct {
 	Fields  []*EnumField
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames []string
 
 	Msg   *Message // for embedded enum only
 	Proto *Proto
@@ -126,6 +127,9 @@ func (e *Enum) verify() error {
 			errs = append(errs, fmt.Errorf("%q = %d is duplicated", f.Name, f.Value))
 		}
 		m[f.Value] = true
+		if contains(e.reservedNames, f.Name) {
+			errs = append(errs, fmt.Errorf("name %q is reserved", f.Name))
+		}
 	}
 	return errors.Join(errs...)
 }
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 1a54896..10da85a 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -43,7 +43,8 @@ type Message struct {
 	Oneofs  []*Oneof
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames []string
 
 	Msg   *Message // for embedded message only
 	Proto *Proto
@@ -221,6 +222,9 @@ func (m *Message) verify() error {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
 		}
 		exists[x.FieldNumber] = true
+		if contains(m.reservedNames, x.Name) {
+			errs = append(errs, fmt.Errorf("field name %q is reserved", x.Name))
+		}
 	}
 	return errors.Join(errs...)
 }
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 87f9fc6..e3a5a2e 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -20,6 +20,7 @@ import (
 	"math"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
 const (
@@ -56,6 +57,10 @@ func (rr reservedRanges) declared(v int32) bool {
 }
 
 func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
+	if nc := c.ReservedFieldNames(); nc != nil {
+		x.addReservedNames(c, nc)
+		return
+	}
 	rc := c.Ranges()
 	if rc == nil {
 		return
@@ -92,3 +97,24 @@ func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
 		e.reserved = append(e.reserved, ranges...)
 	}
 }
+
+func (x *protoLoader) addReservedNames(c *parser.ReservedContext, nc parser.IReservedFieldNamesContext) {
+	names := make([]string, 0, 2)
+	for _, s := range nc.AllStrLit() {
+		name, err := text.UnmarshalString(s.GetText())
+		if err != nil {
+			x.Fatalf("%s - reserved name syntax err: %s", getTokenPos(s), err)
+		}
+		names = append(names, name)
+	}
+
+	switch getRuleIndex(c.GetParent()) {
+	case parser.ProtobufParserRULE_messageElement:
+		m := x.currentMsg()
+		m.reservedNames = append(m.reservedNames, names...)
+
+	case parser.ProtobufParserRULE_enumElement:
+		e := x.enum
+		e.reservedNames = append(e.reservedNames, names...)
+	}
+}
diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 215a876..4708874 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -73,6 +73,15 @@ func parseI32(c antlr.ParserRuleContext) (int32, error) {
 	return v, nil
 }
 
+func contains(ss []string, s string) bool {
+	for _, x := range ss {
+		if x == s {
+			return true
+		}
+	}
+	return false
+}
+
 func isfalse(v string) bool { return v == "false" }
 func istrue(v string) bool  { return v == "true" }
 
-- 
2.43.0


From 020c624d4930693fad19096006eb65b83a1eb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 21/29] fix: concatenate adjacent string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..01abaa6 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -166,5 +166,15 @@ func indexNeedEscapeInString(s string) int {
 // internal/encoding/defval package for unmarshaling bytes.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	// adjacent literals are concatenated, see parseStringValue
+	for err == nil && len(d.in) > 0 && (d.in[0] == '"' || d.in[0] == '\'') {
+		var next string
+		next, err = d.parseString()
+		ret += next
+	}
+	if err != nil {
+		return "", err
+	}
+	return ret, nil
 }
-- 
2.43.0


From a1d96b02009221b12b319e85dce04e1052c073e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 22/29] fix: refuse .proto files with characters that form no
 token

---
 prutalgen/pkg/prutalgen/prutalgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..c7c91a0 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -236,12 +236,14 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p := x.currentProto()
 
+	e := &errorListener{l: x.l}
 	lexer := parser.NewProtobufLexer(in)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(e)
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
 	defer pop(&x.streams)
 
-	e := &errorListener{l: x.l}
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
-- 
2.43.0


From 3f4f4ae1400d6a91f9cee2bfbf9b7e1ee56c2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 23/29] fix: do not take an enum's comment for a format string

---
 prutalgen/pkg/prutalgen/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..6cb60c3 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -134,7 +134,7 @@ func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
 	}
-	w.F("type %s int32"+e.InlineComment, e.GoName)
+	w.F("type %s int32 %s", e.GoName, e.InlineComment)
 	w.F("")
 	if len(e.Fields) > 0 {
 		w.F("const (")
-- 
2.43.0


From fc02b38839fe602d4c491e766fe79eea1671a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 24/29] fix: resolve type names as protobuf does

An inner type was shadowed by an enclosing message of the same name.
Fully-qualified names of other packages, names relative to a parent
package and names from publicly imported files were refused, and the
latter got the Go package of the wrong file.
---
 prutalgen/pkg/prutalgen/message.go | 22 +++++---
 prutalgen/pkg/prutalgen/proto.go   | 37 +++++++++++++
 prutalgen/pkg/prutalgen/type.go    | 86 ++++++++++++------------------
 3 files changed, 85 insertions(+), 60 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 10da85a..64ea75e 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -102,15 +102,21 @@ func (m *Message) getType(name string) any {
 		return m
 	}
 	if name, ok := trimPathPrefix(name, m.Name); ok {
-		for _, x := range m.Enums {
-			if x.Name == name {
-				return x
-			}
+		return m.getNestedType(name)
+	}
+	return nil
+}
+
+// getNestedType searches the types declared in the message.
+func (m *Message) getNestedType(name string) any {
+	for _, x := range m.Enums {
+		if x.Name == name {
+			return x
 		}
-		for _, x := range m.Messages {
-			if v := x.getType(name); v != nil {
-				return v
-			}
+	}
+	for _, x := range m.Messages {
+		if v := x.getType(name); v != nil {
+			return v
 		}
 	}
 	return nil
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..0dd5adb 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -106,6 +106,43 @@ func (p *Proto) getType(name string) any {
 	return nil
 }
 
+// getTypeByFullName searches the types declared in the file.
+func (p *Proto) getTypeByFullName(name string) any {
+	if p.Package != "" {
+		var ok bool
+		if name, ok = trimPathPrefix(name, p.Package); !ok {
+			return nil
+		}
+	}
+	for _, m := range p.Messages {
+		if v := m.getType(name); v != nil {
+			return v
+		}
+	}
+	for _, e := range p.Enums {
+		if e.Name == name {
+			return e
+		}
+	}
+	return nil
+}
+
+// visibleProtos returns the file and all files whose types it can refer to:
+// its imports, and what these import publicly.
+func (p *Proto) visibleProtos() []*Proto {
+	ret := []*Proto{p}
+	seen := map[*Proto]bool{p: true}
+	for i := 0; i < len(ret); i++ {
+		for _, x := range ret[i].Imports {
+			if (i == 0 || x.Public) && !seen[x.Proto] {
+				seen[x.Proto] = true
+				ret = append(ret, x.Proto)
+			}
+		}
+	}
+	return ret
+}
+
 func (p *Proto) IsProto2() bool {
 	return p.Edition == editionProto2
 }
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..5e7b38b 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -131,70 +131,52 @@ func (t *Type) resolve(allowScalar bool) {
 	t.p = nil
 	t.typ = nil
 
-	if allowScalar {
-		if _, ok := scalar2GoTypes[t.Name]; ok {
-			return
-		}
-	}
+	//  (DOT)? (ident DOT)* ident
+	name, absolute := strings.CutPrefix(t.Name, ".")
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
+	if !absolute {
+		if allowScalar {
+			if _, ok := scalar2GoTypes[name]; ok {
+				return
+			}
 		}
-	}
 
-	//  (DOT)? (ident DOT)* ident
-
-	// search Message
-	if m != nil {
+		// the innermost scope is searched first: the message and its parents
 		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
+			t.typ = x.getNestedType(name)
 			if t.typ != nil {
 				return
 			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
-			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
-				}
-			}
 		}
 	}
-
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
-		}
+	t.Name = name
+
+	// then the package and its parents
+	var scopes []string
+	for s := p.Package; s != ""; {
+		scopes = append(scopes, s)
+		s = s[:1+strings.LastIndexByte(s, '.')]
+		s = strings.TrimSuffix(s, ".")
 	}
-
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
-			}
-		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
+	scopes = append(scopes, "")
+	if absolute {
+		// fully-qualified, but also accept a type of the local package
+		scopes = []string{"", p.Package}
 	}
-	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
-			if x.GoImport != p.GoImport {
-				t.p = x
+	protos := p.visibleProtos()
+	for _, scope := range scopes {
+		full := name
+		if scope != "" {
+			full = scope + "." + name
+		}
+		for _, x := range protos {
+			t.typ = x.getTypeByFullName(full)
+			if t.typ != nil {
+				if x.GoImport != p.GoImport {
+					t.p = x
+				}
+				return
 			}
-			return
 		}
 	}
 	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
-- 
2.43.0


From 6f088623119327c8b75d2c653a20a773c40ee495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 25/29] fix: refer to imported Go packages by the names they
 have

The name was the base of the import path, not the package name given
in go_package, it could be no Go identifier, and two imported packages
could have the same.
---
 prutalgen/pkg/prutalgen/code.go  |  4 ++--
 prutalgen/pkg/prutalgen/field.go |  3 +--
 prutalgen/pkg/prutalgen/proto.go | 34 +++++++++++++++++++++++++++++++-
 prutalgen/pkg/prutalgen/type.go  | 13 ++++++++++--
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 6cb60c3..8b83765 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -354,10 +354,10 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goPackage())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Key.GoImport(), f.Key.goPackage())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index e070b0a..7111bfc 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -216,7 +215,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goPackage() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 0dd5adb..352f909 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,10 +19,13 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -77,10 +80,39 @@ func (p *Proto) setGoPackage(s string) {
 	if pkg != "" {
 		p.GoPackage = pkg
 	} else if p.GoImport != "" {
-		p.GoPackage = path.Base(p.GoImport)
+		p.GoPackage = strs.GoSanitized(path.Base(p.GoImport))
 	}
 }
 
+func (p *Proto) goPackage() string {
+	if p.GoPackage != "" {
+		return p.GoPackage
+	}
+	return path.Base(p.GoImport)
+}
+
+// importName returns the name under which code generated for p imports the Go package of x.
+// It differs from the package name of x if that is already in use.
+func (p *Proto) importName(x *Proto) string {
+	used := map[string]bool{"prutal": true, "strconv": true, "x": true} // x is the receiver of methods
+	done := map[string]bool{p.GoImport: true}
+	for _, v := range p.visibleProtos() {
+		if done[v.GoImport] {
+			continue
+		}
+		done[v.GoImport] = true
+		name := v.goPackage()
+		for i := 1; used[name] || types.Universe.Lookup(name) != nil; i++ {
+			name = v.goPackage() + strconv.Itoa(i)
+		}
+		if v.GoImport == x.GoImport {
+			return name
+		}
+		used[name] = true
+	}
+	return x.goPackage()
+}
+
 func (p *Proto) getType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 5e7b38b..915306d 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -17,7 +17,6 @@
 package prutalgen
 
 import (
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -59,7 +58,17 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goPackage() + "." + ret
+}
+
+// goPackage returns the name generated code uses for the package of an external type
+func (t *Type) goPackage() string {
+	if t.f != nil && t.f.Msg != nil && t.f.Msg.Proto != nil {
+		return t.f.Msg.Proto.importName(t.p)
+	} else if t.m != nil {
+		return t.m.Service.Proto.importName(t.p)
+	}
+	return t.p.goPackage()
 }
 
 func (t *Type) IsExternalType() bool {
-- 
2.43.0


From 12d30d0bf11730db42f8aa1bc6bb0a9be5afa37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 26/29] fix: generate enums declared in nested messages

---
 prutalgen/pkg/prutalgen/code.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 8b83765..acafa2b 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -118,10 +118,7 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	// always generate enums before messages
 	// same order as protobuf
 	for _, m := range p.Messages {
-		for _, e := range m.Enums {
-			w.F("")
-			g.EnumGen(e, w)
-		}
+		g.nestedEnumGen(m, w)
 	}
 
 	for _, m := range p.Messages {
@@ -130,6 +127,17 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	}
 }
 
+// nestedEnumGen generates the enums declared in m and in its nested messages
+func (g *GoCodeGen) nestedEnumGen(m *Message, w *CodeWriter) {
+	for _, e := range m.Enums {
+		w.F("")
+		g.EnumGen(e, w)
+	}
+	for _, x := range m.Messages {
+		g.nestedEnumGen(x, w)
+	}
+}
+
 func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
-- 
2.43.0


From 8478915a038e6497400e3749b1d1e20003ae3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 27/29] fix: keep arguments with line breaks inside the header
 comment

---
 prutalgen/pkg/prutalgen/code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index acafa2b..a5af3c7 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -23,6 +23,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type MarshalerType int
@@ -53,11 +54,16 @@ func argsQuote(args []string) string {
 	for i, a := range args {
 		if !shellsafeRE.MatchString(a) {
 			args[i] = "'" + strings.ReplaceAll(a, `'`, `\'`) + "'"
+			if !utf8.ValidString(a) || strings.IndexFunc(a, notPrintable) >= 0 {
+				args[i] = strconv.Quote(a) // may end the line, or not be valid in Go code
+			}
 		}
 	}
 	return strings.Join(args, " ")
 }
 
+func notPrintable(r rune) bool { return !strconv.IsPrint(r) }
+
 func (g *GoCodeGen) SourcePath(p *Proto, gt GenPathType, out string, suffix string) string {
 	fn := ""
 	switch gt {
-- 
2.43.0


From 3c28c7fd2104b3985da2cbea83f6ed0e9ccb6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 28/29] fix: let M options take precedence over go_package

---
 prutalgen/pkg/prutalgen/prutalgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index c7c91a0..5ad62e2 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -225,6 +225,7 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 
 		l: x.l,
 	}
+	p.setGoPackage(x.proto2gopkg[file])
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
@@ -257,7 +258,7 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p.Directives.Parse(comment)
 
 	gopkg, ok := p.Options.Get("go_package")
-	if ok {
+	if ok && p.GoPackage == "" { // M options take precedence
 		p.setGoPackage(gopkg)
 	}
 	if p.GoPackage == "" {
-- 
2.43.0


From 812d46a29de14058691de99f8b1507dad398f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 29/29] fix: accept several options in one go_opt, as protoc
 does

---
 prutalgen/pkg/utils/args/go_opts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prutalgen/pkg/utils/args/go_opts.go b/prutalgen/pkg/utils/args/go_opts.go
index 4b16270..a5dd0b8 100644
--- a/prutalgen/pkg/utils/args/go_opts.go
+++ b/prutalgen/pkg/utils/args/go_opts.go
@@ -28,6 +28,12 @@ type GoOpts struct {
 	StringArgs
 }
 
+// Set adds options. Like protoc, it takes several options separated by commas.
+func (o *GoOpts) Set(v string) error {
+	o.StringArgs = append(o.StringArgs, strings.Split(v, ",")...)
+	return nil
+}
+
 // GenPathType ... prutalgen.GenByImport or prutalgen.GenBySourceRelative
 func (o *GoOpts) GenPathType() prutalgen.GenPathType {
 	ret := prutalgen.GenByImport // default value
-- 
2.43.0

