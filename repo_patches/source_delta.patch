From 08d4376708837390fc1d47db2de34bb6cd4c7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 01/44] fix: Go v1 variable-length integers: reject truncated
 and out-of-range encodings

The decoders indexed past the end of a truncated integer and never took
the overflow branch, so malformed input panicked or wrapped around.
---
 decode.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..368fb54 100644
--- a/decode.go
+++ b/decode.go
@@ -172,12 +172,12 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 0x03 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -193,11 +193,11 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 0x0f {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -215,12 +215,12 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 0x01 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -238,11 +238,11 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 0x0f {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -266,11 +266,11 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 0x01 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From c4702d737ec37737d09f7064d731c38dfa8d9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 02/44] fix: Go v1 decoders leave the input untouched when a
 map, slice, bytes, string or error fails

The already consumed prefix was dropped on failure, so the caller could not
try another kind (decoder errors are documented as durable).
---
 decode.go | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/decode.go b/decode.go
index 368fb54..7331b48 100644
--- a/decode.go
+++ b/decode.go
@@ -58,13 +58,11 @@ func decodeNil(b []byte) ([]byte, bool) {
 func decodeMap(b []byte, keyKind, valueKind Kind) ([]byte, uint32, error) {
 	if len(b) > 2 {
 		if b[0] == MapKind[0] && b[1] == keyKind[0] && b[2] == valueKind[0] {
-			var size uint32
-			var err error
-			b, size, err = decodeUint32(b[3:])
+			rest, size, err := decodeUint32(b[3:])
 			if err != nil {
 				return b, 0, InvalidMap
 			}
-			return b, size, nil
+			return rest, size, nil
 		}
 	}
 	return b, 0, InvalidMap
@@ -73,13 +71,11 @@ func decodeMap(b []byte, keyKind, valueKind Kind) ([]byte, uint32, error) {
 func decodeSlice(b []byte, kind Kind) ([]byte, uint32, error) {
 	if len(b) > 1 {
 		if b[0] == SliceKind[0] && b[1] == kind[0] {
-			var size uint32
-			var err error
-			b, size, err = decodeUint32(b[2:])
+			rest, size, err := decodeUint32(b[2:])
 			if err != nil {
 				return b, 0, InvalidSlice
 			}
-			return b, size, nil
+			return rest, size, nil
 		}
 	}
 	return b, 0, InvalidSlice
@@ -88,24 +84,22 @@ func decodeSlice(b []byte, kind Kind) ([]byte, uint32, error) {
 func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 	if len(b) > 0 {
 		if b[0] == BytesKind[0] {
-			var size uint32
-			var err error
-			b, size, err = decodeUint32(b[1:])
+			rest, size, err := decodeUint32(b[1:])
 			if err != nil {
 				return b, nil, InvalidBytes
 			}
-			if len(b) > int(size)-1 {
+			if len(rest) > int(size)-1 {
 				if len(ret) < int(size) {
 					if ret == nil {
 						ret = make([]byte, size)
-						copy(ret, b[:size])
+						copy(ret, rest[:size])
 					} else {
-						ret = append(ret[:0], b[:size]...)
+						ret = append(ret[:0], rest[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					copy(ret[0:], rest[:size])
 				}
-				return b[size:], ret, nil
+				return rest[size:], ret, nil
 			}
 		}
 	}
@@ -115,14 +109,12 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 func decodeString(b []byte) ([]byte, string, error) {
 	if len(b) > 0 {
 		if b[0] == StringKind[0] {
-			var size uint32
-			var err error
-			b, size, err = decodeUint32(b[1:])
+			rest, size, err := decodeUint32(b[1:])
 			if err != nil {
 				return b, emptyString, InvalidString
 			}
-			if len(b) > int(size)-1 {
-				return b[size:], string(b[:size]), nil
+			if len(rest) > int(size)-1 {
+				return rest[size:], string(rest[:size]), nil
 			}
 		}
 	}
@@ -132,13 +124,11 @@ func decodeString(b []byte) ([]byte, string, error) {
 func decodeError(b []byte) ([]byte, error, error) {
 	if len(b) > 0 {
 		if b[0] == ErrorKind[0] {
-			var val string
-			var err error
-			b, val, err = decodeString(b[1:])
+			rest, val, err := decodeString(b[1:])
 			if err != nil {
 				return b, nil, InvalidError
 			}
-			return b, Error(val), nil
+			return rest, Error(val), nil
 		}
 	}
 	return b, nil, InvalidError
-- 
2.43.0


From e10c1ae8f45ee7914d38e72bcb1a63f23719c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 03/44] fix: Go v1 Decoder.Bytes returns exactly the decoded
 bytes when the destination is longer

A destination longer than the value was returned whole, with stale bytes
after the value.
---
 decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 7331b48..ebc53f7 100644
--- a/decode.go
+++ b/decode.go
@@ -97,7 +97,8 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], rest[:size]...)
 					}
 				} else {
-					copy(ret[0:], rest[:size])
+					ret = ret[:size]
+					copy(ret, rest[:size])
 				}
 				return rest[size:], ret, nil
 			}
-- 
2.43.0


From b332e20c75c03a39397aac0e679eef39b9a4da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 04/44] fix: Go v2 variable-length integers: reject truncated
 and out-of-range encodings

The unrolled decoders indexed past the end of a truncated integer, dropped
the bits of an overflowing last byte, and decodeBytes took an overlong size
for an empty value that consumed nothing.
---
 v2/decode.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..dd7cc00 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -80,7 +80,7 @@ func decodeSlice(b []byte, kind Kind) ([]byte, uint32, error) {
 }
 
 func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
-	if len(b) > 2 && b[0] == BytesRawKind && b[1] == Uint32RawKind {
+	if len(b) > 2 && b[0] == BytesRawKind && b[1] == Uint32RawKind && validVarInt(b[2:], VarIntLen32, 0x0f) {
 		var size int
 		var offset int
 		cb := uint32(b[2])
@@ -170,8 +170,19 @@ func decodeUint8(b []byte) ([]byte, uint8, error) {
 	return b, 0, ErrInvalidUint8
 }
 
+// validVarInt reports whether b starts with a complete variable integer of at
+// most n bytes whose n-th byte (if it has one) is no greater than last
+func validVarInt(b []byte, n int, last byte) bool {
+	for i := 0; i < n && i < len(b); i++ {
+		if b[i] < continuation {
+			return i < n-1 || b[i] <= last
+		}
+	}
+	return false
+}
+
 func decodeUint16(b []byte) ([]byte, uint16, error) {
-	if len(b) > 1 && b[0] == Uint16RawKind {
+	if len(b) > 1 && b[0] == Uint16RawKind && validVarInt(b[1:], VarIntLen16, 0x03) {
 		cb := uint16(b[1])
 		if cb < continuation {
 			return b[2:], cb, nil
@@ -193,7 +204,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 }
 
 func decodeUint32(b []byte) ([]byte, uint32, error) {
-	if len(b) > 1 && b[0] == Uint32RawKind {
+	if len(b) > 1 && b[0] == Uint32RawKind && validVarInt(b[1:], VarIntLen32, 0x0f) {
 		cb := uint32(b[1])
 		if cb < continuation {
 			return b[2:], cb, nil
@@ -227,7 +238,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 }
 
 func decodeUint64(b []byte) ([]byte, uint64, error) {
-	if len(b) > 1 && b[0] == Uint64RawKind {
+	if len(b) > 1 && b[0] == Uint64RawKind && validVarInt(b[1:], VarIntLen64, 0x01) {
 		cb := uint64(b[1])
 		if cb < continuation {
 			return b[2:], cb, nil
@@ -291,7 +302,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 }
 
 func decodeInt32(b []byte) ([]byte, int32, error) {
-	if len(b) > 1 && b[0] == Int32RawKind {
+	if len(b) > 1 && b[0] == Int32RawKind && validVarInt(b[1:], VarIntLen32, 0x0f) {
 		cb := uint32(b[1])
 		if cb < continuation {
 			x := int32(cb >> 1)
@@ -345,7 +356,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 }
 
 func decodeInt64(b []byte) ([]byte, int64, error) {
-	if len(b) > 1 && b[0] == Int64RawKind {
+	if len(b) > 1 && b[0] == Int64RawKind && validVarInt(b[1:], VarIntLen64, 0x01) {
 		cb := uint64(b[1])
 		if cb < continuation {
 			x := int64(cb >> 1)
-- 
2.43.0


From da3185dafbf8dccccb207c54aad8910f491ea58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 05/44] fix: Go v2 decoders leave the input untouched when a
 map, slice, string or error fails

The already consumed prefix was dropped on failure, so the caller could not
try another kind (decoder errors are documented as durable).
---
 v2/decode.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index dd7cc00..4db847a 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -55,26 +55,22 @@ func decodeNil(b []byte) ([]byte, bool) {
 
 func decodeMap(b []byte, keyKind, valueKind Kind) ([]byte, uint32, error) {
 	if len(b) > 3 && b[0] == MapRawKind && b[1] == byte(keyKind) && b[2] == byte(valueKind) {
-		var size uint32
-		var err error
-		b, size, err = decodeUint32(b[3:])
+		rest, size, err := decodeUint32(b[3:])
 		if err != nil {
 			return b, 0, ErrInvalidMap
 		}
-		return b, size, nil
+		return rest, size, nil
 	}
 	return b, 0, ErrInvalidMap
 }
 
 func decodeSlice(b []byte, kind Kind) ([]byte, uint32, error) {
 	if len(b) > 2 && b[0] == SliceRawKind && b[1] == byte(kind) {
-		var size uint32
-		var err error
-		b, size, err = decodeUint32(b[2:])
+		rest, size, err := decodeUint32(b[2:])
 		if err != nil {
 			return b, 0, ErrInvalidSlice
 		}
-		return b, size, nil
+		return rest, size, nil
 	}
 	return b, 0, ErrInvalidSlice
 }
@@ -125,14 +121,12 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 
 func decodeString(b []byte) ([]byte, string, error) {
 	if len(b) > 1 && b[0] == StringRawKind {
-		var size uint32
-		var err error
-		b, size, err = decodeUint32(b[1:])
+		rest, size, err := decodeUint32(b[1:])
 		if err != nil {
 			return b, emptyString, ErrInvalidString
 		}
-		if len(b) > int(size)-1 {
-			return b[size:], string(b[:size]), nil
+		if len(rest) > int(size)-1 {
+			return rest[size:], string(rest[:size]), nil
 		}
 	}
 	return b, emptyString, ErrInvalidString
@@ -140,13 +134,11 @@ func decodeString(b []byte) ([]byte, string, error) {
 
 func decodeError(b []byte) ([]byte, error, error) {
 	if len(b) > 1 && b[0] == ErrorRawKind {
-		var val string
-		var err error
-		b, val, err = decodeString(b[1:])
+		rest, val, err := decodeString(b[1:])
 		if err != nil {
 			return b, nil, ErrInvalidError
 		}
-		return b, Error(val), nil
+		return rest, Error(val), nil
 	}
 	return b, nil, ErrInvalidError
 }
-- 
2.43.0


From 4cf1809cc45270c0f80eeb13faf65e69110cf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/44] fix: Go v2 Buffer.Grow makes the whole capacity usable

A buffer built over a slice with spare capacity kept the slice's length, so
encoding into the spare capacity indexed out of range or copied short.
---
 v2/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d08e464 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -61,9 +61,9 @@ func (buf *Buffer) Grow(n int) {
 		} else {
 			buf.b = append(buf.b[:buf.offset], make([]byte, cap(buf.b)*2-buf.offset)...)
 		}
-		// Grow buffer length to match its new capacity.
-		buf.b = buf.b[:cap(buf.b)]
 	}
+	// Grow buffer length to match its capacity.
+	buf.b = buf.b[:cap(buf.b)]
 }
 
 func (buf *Buffer) Write(b []byte) int {
-- 
2.43.0


From d39c44253128fd0b780957608b7fae5c7f826072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 07/44] fix: Go v2 encodeBytes keeps the last length byte of
 values of 256 MiB and more

The five-byte length did not advance past its last byte, which the value
then overwrote.
---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From 1ebd0631d3e916b6121aacdfd242ec4a572731a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 08/44] fix: Rust decode_array, decode_u16 and decode_u64
 report their own error

A mismatching kind was reported as InvalidU32.
---
 decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..0198a42 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -97,7 +97,7 @@ where
             };
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
@@ -204,7 +204,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -242,7 +242,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From 7e2a1a43e7e7053f6861284ba02e6733a79ea2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 09/44] fix: Rust decoders restore the position when they fail

They stepped back one byte whatever had been consumed, or not at all on
truncated input, so a failed attempt lost or re-read bytes.
---
 decoder.rs | 143 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 85 insertions(+), 58 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 0198a42..3b70c0a 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,18 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+trait Rewind {
+    /// Goes back to where a failed decode started, and passes its error on
+    fn rewind(&mut self, start: u64, err: DecodingError) -> DecodingError;
+}
+
+impl<T> Rewind for Cursor<T> {
+    fn rewind(&mut self, start: u64, err: DecodingError) -> DecodingError {
+        self.set_position(start);
+        err
+    }
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -88,114 +100,124 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
+        let defined_val_kind = self
+            .read_u8()
+            .map_err(|_| self.rewind(start, DecodingError::InvalidArray))?;
         if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
             return match self.decode_u32() {
-                Err(err) => Err(err),
+                Err(err) => Err(self.rewind(start, err)),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidArray)
+        Err(self.rewind(start, DecodingError::InvalidArray))
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+        let defined_key_kind = self
+            .read_u8()
+            .map_err(|_| self.rewind(start, DecodingError::InvalidMap))?;
+        let defined_val_kind = self
+            .read_u8()
+            .map_err(|_| self.rewind(start, DecodingError::InvalidMap))?;
         if kind == Kind::Map as u8
             && key_kind as u8 == defined_key_kind
             && val_kind as u8 == defined_val_kind
         {
             return match self.decode_u32() {
-                Err(err) => Err(err),
+                Err(err) => Err(self.rewind(start, err)),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidMap)
+        Err(self.rewind(start, DecodingError::InvalidMap))
     }
 
     fn decode_bytes(&mut self) -> Result<Vec<u8>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
-                .ok()
-                .ok_or(DecodingError::InvalidBytes)?;
+                .map_err(|_| self.rewind(start, DecodingError::InvalidBytes))?;
             return Ok(buf);
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidBytes)
+        Err(self.rewind(start, DecodingError::InvalidBytes))
     }
 
     fn decode_string(&mut self) -> Result<String, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidString)?;
 
         if kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidString)?;
+                .map_err(|_| self.rewind(start, DecodingError::InvalidString))?;
 
             let result = str::from_utf8(&str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidString)?;
+                .map_err(|_| self.rewind(start, DecodingError::InvalidString))?;
             return Ok(result.to_owned());
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidString)
+        Err(self.rewind(start, DecodingError::InvalidString))
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
+        let nested_kind = self
+            .read_u8()
+            .map_err(|_| self.rewind(start, DecodingError::InvalidError))?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
+                .map_err(|_| self.rewind(start, DecodingError::InvalidError))?;
 
             let result = str::from_utf8(&str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
+                .map_err(|_| self.rewind(start, DecodingError::InvalidError))?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
-        Err(DecodingError::InvalidError)
+        Err(self.rewind(start, DecodingError::InvalidError))
     }
 
     fn decode_bool(&mut self) -> Result<bool, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
         if kind == Kind::Bool as u8 {
-            let val = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
+            let val = self
+                .read_u8()
+                .map_err(|_| self.rewind(start, DecodingError::InvalidBool))?;
             return Ok(val == 1);
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidBool)
+        Err(self.rewind(start, DecodingError::InvalidBool))
     }
 
     fn decode_u8(&mut self) -> Result<u8, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidU8)?;
         if kind == Kind::U8 as u8 {
-            return self.read_u8().ok().ok_or(DecodingError::InvalidU8);
+            return self
+                .read_u8()
+                .map_err(|_| self.rewind(start, DecodingError::InvalidU8));
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU8)
+        Err(self.rewind(start, DecodingError::InvalidU8))
     }
 
     fn decode_u16(&mut self) -> Result<u16, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
         if kind == Kind::U16 as u8 {
             let mut x: u16 = 0;
             let mut s: u32 = 0;
 
             for _ in 0..VARINT_LEN16 {
-                let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
+                let byte = self
+                    .read_u8()
+                    .map_err(|_| self.rewind(start, DecodingError::InvalidU16))?;
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u16) << s));
                 }
@@ -203,18 +225,20 @@ where
                 s += 7;
             }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU16)
+        Err(self.rewind(start, DecodingError::InvalidU16))
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
         if kind == Kind::U32 as u8 {
             let mut x: u32 = 0;
             let mut s: u32 = 0;
 
             for _ in 0..VARINT_LEN32 {
-                let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
+                let byte = self
+                    .read_u8()
+                    .map_err(|_| self.rewind(start, DecodingError::InvalidU32))?;
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u32) << s));
                 }
@@ -222,18 +246,20 @@ where
                 s += 7;
             }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(self.rewind(start, DecodingError::InvalidU32))
     }
 
     fn decode_u64(&mut self) -> Result<u64, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
         if kind == Kind::U64 as u8 {
             let mut x: u64 = 0;
             let mut s: u32 = 0;
 
             for _ in 0..VARINT_LEN64 {
-                let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
+                let byte = self
+                    .read_u8()
+                    .map_err(|_| self.rewind(start, DecodingError::InvalidU64))?;
                 if byte < CONTINUATION {
                     return Ok(x | ((byte as u64) << s));
                 }
@@ -241,18 +267,20 @@ where
                 s += 7;
             }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU64)
+        Err(self.rewind(start, DecodingError::InvalidU64))
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
         if kind == Kind::I32 as u8 {
             let mut ux: u32 = 0;
             let mut s: u32 = 0;
 
             for _ in 0..VARINT_LEN32 {
-                let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
+                let byte = self
+                    .read_u8()
+                    .map_err(|_| self.rewind(start, DecodingError::InvalidI32))?;
                 if byte < CONTINUATION {
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
@@ -265,18 +293,20 @@ where
                 s += 7;
             }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidI32)
+        Err(self.rewind(start, DecodingError::InvalidI32))
     }
 
     fn decode_i64(&mut self) -> Result<i64, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
         if kind == Kind::I64 as u8 {
             let mut ux: u64 = 0;
             let mut s: u32 = 0;
 
             for _ in 0..VARINT_LEN64 {
-                let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
+                let byte = self
+                    .read_u8()
+                    .map_err(|_| self.rewind(start, DecodingError::InvalidI64))?;
                 if byte < CONTINUATION {
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
@@ -289,32 +319,29 @@ where
                 s += 7;
             }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidI64)
+        Err(self.rewind(start, DecodingError::InvalidI64))
     }
 
     fn decode_f32(&mut self) -> Result<f32, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidF32)?;
         if kind == Kind::F32 as u8 {
             return self
                 .read_f32::<BigEndian>()
-                .ok()
-                .ok_or(DecodingError::InvalidF32);
+                .map_err(|_| self.rewind(start, DecodingError::InvalidF32));
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidF32)
+        Err(self.rewind(start, DecodingError::InvalidF32))
     }
 
     fn decode_f64(&mut self) -> Result<f64, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidF64)?;
         if kind == Kind::F64 as u8 {
             return self
                 .read_f64::<BigEndian>()
-                .ok()
-                .ok_or(DecodingError::InvalidF64);
+                .map_err(|_| self.rewind(start, DecodingError::InvalidF64));
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidF64)
+        Err(self.rewind(start, DecodingError::InvalidF64))
     }
 }
 
-- 
2.43.0


From b2734ccde4f9a9f2dd4fd89ff1131da4d109222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 10/44] fix: Rust variable-length integers reject values beyond
 their width

The bits of an overflowing last byte were dropped and a wrong value
returned.
---
 decoder.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 3b70c0a..4b83575 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -214,11 +214,14 @@ where
             let mut x: u16 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN16 {
+            for i in 0..VARINT_LEN16 {
                 let byte = self
                     .read_u8()
                     .map_err(|_| self.rewind(start, DecodingError::InvalidU16))?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN16 - 1 && byte > 0x03 {
+                        break;
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -235,11 +238,14 @@ where
             let mut x: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self
                     .read_u8()
                     .map_err(|_| self.rewind(start, DecodingError::InvalidU32))?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 0x0f {
+                        break;
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -256,11 +262,14 @@ where
             let mut x: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self
                     .read_u8()
                     .map_err(|_| self.rewind(start, DecodingError::InvalidU64))?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 0x01 {
+                        break;
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -277,11 +286,14 @@ where
             let mut ux: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self
                     .read_u8()
                     .map_err(|_| self.rewind(start, DecodingError::InvalidI32))?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 0x0f {
+                        break;
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -303,11 +315,14 @@ where
             let mut ux: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self
                     .read_u8()
                     .map_err(|_| self.rewind(start, DecodingError::InvalidI64))?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 0x01 {
+                        break;
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From 288e23fb9d40ede7e1470c2cc960cce4123513cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 11/44] fix: Rust decoders check the size of bytes, strings and
 errors before allocating

A few bytes of input could demand a 4 GiB allocation.
---
 decoder.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/decoder.rs b/decoder.rs
index 4b83575..e0b1a95 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -74,11 +74,21 @@ pub trait Decoder {
 }
 
 trait Rewind {
+    /// Number of bytes left to decode
+    fn remaining(&self) -> usize;
     /// Goes back to where a failed decode started, and passes its error on
     fn rewind(&mut self, start: u64, err: DecodingError) -> DecodingError;
 }
 
-impl<T> Rewind for Cursor<T> {
+impl<T> Rewind for Cursor<T>
+where
+    T: AsRef<[u8]>,
+{
+    fn remaining(&self) -> usize {
+        let len = self.get_ref().as_ref().len();
+        len.saturating_sub(self.position() as usize)
+    }
+
     fn rewind(&mut self, start: u64, err: DecodingError) -> DecodingError {
         self.set_position(start);
         err
@@ -140,6 +150,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
+            if size > self.remaining() {
+                return Err(self.rewind(start, DecodingError::InvalidBytes));
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .map_err(|_| self.rewind(start, DecodingError::InvalidBytes))?;
@@ -154,6 +167,9 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
+            if size > self.remaining() {
+                return Err(self.rewind(start, DecodingError::InvalidString));
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .map_err(|_| self.rewind(start, DecodingError::InvalidString))?;
@@ -173,6 +189,9 @@ where
             .map_err(|_| self.rewind(start, DecodingError::InvalidError))?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
             let size = self.decode_u32().map_err(|err| self.rewind(start, err))? as usize;
+            if size > self.remaining() {
+                return Err(self.rewind(start, DecodingError::InvalidError));
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .map_err(|_| self.rewind(start, DecodingError::InvalidError))?;
-- 
2.43.0


From 7c2fb9ffeaf41d66858c8b49a19ae18bf1538b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 12/44] fix: TypeScript Encoder reserves as much room as a
 value needs

Room was doubled at most once and the sizes asked for left out the kind and
part of the length, so values near the end of the storage lost bytes or
threw.
---
 encoder.ts | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..510c262 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,7 +41,9 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
@@ -52,7 +54,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -75,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -136,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -144,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
@@ -193,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -205,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -217,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From 536ea75c8d1536eaac940a9f082092ec0512d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 13/44] fix: TypeScript Encoder.bytes honours the offset of the
 given buffer

With a view that does not start at offset 0 it returned unrelated bytes of
the underlying storage.
---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 510c262..4319fa2 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -49,7 +49,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return this.#buf.subarray(0, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From 3d4337f1a15122fa20706ccd55965f4f02f6a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 14/44] fix: TypeScript variable-length integers reject
 truncated, overlong and out-of-range encodings

They returned a wrong value or threw a TypeError, and uint16 lost bits
because of a misplaced parenthesis.
---
 decoder.ts | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..1056042 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -164,13 +164,21 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    bits: number,
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
-    for (let i = 1; i < maxLen + 1; i += 1) {
+    for (let i = 1; i < maxLen + 1 && this.length > 0; i += 1) {
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
+        if (num >> BigInt(bits) !== 0n) {
+          throw new Err();
+        }
         if (signed) {
           // two's complement
           num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
@@ -180,7 +188,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -218,37 +226,27 @@ export class Decoder {
 
   uint16(): number {
     this.validateKind(Kind.Uint16, InvalidUint16Error);
-    let num = 0;
-    let shift = 0;
-    for (let i = 1; i < MAXLEN16 + 1; i += 1) {
-      const b = this.pop();
-      if (b < CONTINUATION) {
-        return (num | (b << shift)) >>> 0;
-      }
-      num |= b & ((CONTINUATION - 1) << shift);
-      shift += 7;
-    }
-    return num;
+    return Number(this.varint(16, MAXLEN16, InvalidUint16Error));
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(32, MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(64, MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(32, MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(64, MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
-- 
2.43.0


From 9291af0784a51bb81caec779afe602c4ae294c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/44] fix: TypeScript decoders reject truncated values with
 their own error

Truncated bytes, strings and errors came back short, a truncated boolean as
false, and truncated numbers threw a RangeError.
---
 decoder.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/decoder.ts b/decoder.ts
index 1056042..84849d2 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -160,6 +160,12 @@ export class Decoder {
     this.#pos += 1;
   }
 
+  private need(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
   get length(): number {
     return this.buf.length - this.#pos;
   }
@@ -209,11 +215,13 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
+    this.need(1, InvalidBooleanError);
     return this.pop() === BOOLEAN_TRUE;
   }
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.need(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -251,6 +259,7 @@ export class Decoder {
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.need(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -263,6 +272,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.need(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -289,6 +299,7 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
+    this.need(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -297,6 +308,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
+    this.need(size, InvalidStringError);
     const value = new TextDecoder().decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -312,6 +324,7 @@ export class Decoder {
     }
 
     const size = this.uint32();
+    this.need(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
-- 
2.43.0


From 1214c1b95141eff147f95e5e0ad56a689f862873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 16/44] fix: TypeScript strings decode to exactly the encoded
 text

A leading byte order mark was dropped and bytes that are not UTF-8 were
silently replaced.
---
 decoder.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 84849d2..1a6e1cb 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -166,6 +166,15 @@ export class Decoder {
     }
   }
 
+  private text(size: number, Err: new () => Error): string {
+    const decoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
+    try {
+      return decoder.decode(this.buf.slice(this.#pos, this.#pos + size));
+    } catch {
+      throw new Err();
+    }
+  }
+
   get length(): number {
     return this.buf.length - this.#pos;
   }
@@ -309,9 +318,7 @@ export class Decoder {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
     this.need(size, InvalidStringError);
-    const value = new TextDecoder().decode(
-      this.buf.slice(this.#pos, this.#pos + size),
-    );
+    const value = this.text(size, InvalidStringError);
     this.#pos += size;
     return value;
   }
@@ -325,9 +332,7 @@ export class Decoder {
 
     const size = this.uint32();
     this.need(size, InvalidErrorError);
-    const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
-    );
+    const value = new Error(this.text(size, InvalidErrorError));
     this.#pos += size;
     return value;
   }
-- 
2.43.0


From 3caea87eaefde400c0ca169e2aed3d8681b501d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 17/44] fix: TypeScript decoders restore the position when they
 fail

Whatever had been consumed before the failure was lost, so the caller could
not try another kind (decoder errors are documented as durable).
---
 decoder.ts | 183 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 111 insertions(+), 72 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 1a6e1cb..e18c9e8 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -160,6 +160,17 @@ export class Decoder {
     this.#pos += 1;
   }
 
+  // A failed decode leaves the position where it was
+  private durable<T>(decode: () => T): T {
+    const start = this.#pos;
+    try {
+      return decode();
+    } catch (err) {
+      this.#pos = start;
+      throw err;
+    }
+  }
+
   private need(size: number, Err: new () => Error) {
     if (this.length < size) {
       throw new Err();
@@ -223,117 +234,145 @@ export class Decoder {
   }
 
   boolean(): boolean {
-    this.validateKind(Kind.Boolean, InvalidBooleanError);
-    this.need(1, InvalidBooleanError);
-    return this.pop() === BOOLEAN_TRUE;
+    return this.durable(() => {
+      this.validateKind(Kind.Boolean, InvalidBooleanError);
+      this.need(1, InvalidBooleanError);
+      return this.pop() === BOOLEAN_TRUE;
+    });
   }
 
   uint8(): number {
-    this.validateKind(Kind.Uint8, InvalidUint8Error);
-    this.need(1, InvalidUint8Error);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      1,
-    );
-    const val = dataView.getUint8(0);
-    this.#pos += 1;
-    return val;
+    return this.durable(() => {
+      this.validateKind(Kind.Uint8, InvalidUint8Error);
+      this.need(1, InvalidUint8Error);
+      const dataView = new DataView(
+        this.buf.buffer,
+        this.buf.byteOffset + this.#pos,
+        1,
+      );
+      const val = dataView.getUint8(0);
+      this.#pos += 1;
+      return val;
+    });
   }
 
   uint16(): number {
-    this.validateKind(Kind.Uint16, InvalidUint16Error);
-    return Number(this.varint(16, MAXLEN16, InvalidUint16Error));
+    return this.durable(() => {
+      this.validateKind(Kind.Uint16, InvalidUint16Error);
+      return Number(this.varint(16, MAXLEN16, InvalidUint16Error));
+    });
   }
 
   uint32(): number {
-    this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(32, MAXLEN32, InvalidUint32Error));
+    return this.durable(() => {
+      this.validateKind(Kind.Uint32, InvalidUint32Error);
+      return Number(this.varint(32, MAXLEN32, InvalidUint32Error));
+    });
   }
 
   uint64(): bigint {
-    this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(64, MAXLEN64, InvalidUint64Error);
+    return this.durable(() => {
+      this.validateKind(Kind.Uint64, InvalidUint64Error);
+      return this.varint(64, MAXLEN64, InvalidUint64Error);
+    });
   }
 
   int32(): number {
-    this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(32, MAXLEN32, InvalidInt32Error, true));
+    return this.durable(() => {
+      this.validateKind(Kind.Int32, InvalidInt32Error);
+      return Number(this.varint(32, MAXLEN32, InvalidInt32Error, true));
+    });
   }
 
   int64(): bigint {
-    this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(64, MAXLEN64, InvalidInt64Error, true);
+    return this.durable(() => {
+      this.validateKind(Kind.Int64, InvalidInt64Error);
+      return this.varint(64, MAXLEN64, InvalidInt64Error, true);
+    });
   }
 
   float32(): number {
-    this.validateKind(Kind.Float32, InvalidFloat32Error);
-    this.need(4, InvalidFloat32Error);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      4,
-    );
-    const val = dataView.getFloat32(0);
-    this.#pos += 4;
-    return val;
+    return this.durable(() => {
+      this.validateKind(Kind.Float32, InvalidFloat32Error);
+      this.need(4, InvalidFloat32Error);
+      const dataView = new DataView(
+        this.buf.buffer,
+        this.buf.byteOffset + this.#pos,
+        4,
+      );
+      const val = dataView.getFloat32(0);
+      this.#pos += 4;
+      return val;
+    });
   }
 
   float64(): number {
-    this.validateKind(Kind.Float64, InvalidFloat64Error);
-    this.need(8, InvalidFloat64Error);
-    const dataView = new DataView(
-      this.buf.buffer,
-      this.buf.byteOffset + this.#pos,
-      8,
-    );
-    const val = dataView.getFloat64(0);
-    this.#pos += 8;
-    return val;
+    return this.durable(() => {
+      this.validateKind(Kind.Float64, InvalidFloat64Error);
+      this.need(8, InvalidFloat64Error);
+      const dataView = new DataView(
+        this.buf.buffer,
+        this.buf.byteOffset + this.#pos,
+        8,
+      );
+      const val = dataView.getFloat64(0);
+      this.#pos += 8;
+      return val;
+    });
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
-    return this.uint32();
+    return this.durable(() => {
+      this.validateKind(Kind.Array, InvalidArrayError);
+      this.validateKind(valueKind, InvalidArrayError);
+      return this.uint32();
+    });
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
-    return this.uint32();
+    return this.durable(() => {
+      this.validateKind(Kind.Map, InvalidMapError);
+      this.validateKind(keyKind, InvalidMapError);
+      this.validateKind(valueKind, InvalidMapError);
+      return this.uint32();
+    });
   }
 
   uint8Array(): Uint8Array {
-    this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
-    const size = this.uint32();
-    this.need(size, InvalidUint8ArrayError);
-    const value = this.buf.slice(this.#pos, this.#pos + size);
-    this.#pos += size;
-    return value;
+    return this.durable(() => {
+      this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
+      const size = this.uint32();
+      this.need(size, InvalidUint8ArrayError);
+      const value = this.buf.slice(this.#pos, this.#pos + size);
+      this.#pos += size;
+      return value;
+    });
   }
 
   string(): string {
-    this.validateKind(Kind.String, InvalidStringError);
-    const size = this.uint32();
-    this.need(size, InvalidStringError);
-    const value = this.text(size, InvalidStringError);
-    this.#pos += size;
-    return value;
+    return this.durable(() => {
+      this.validateKind(Kind.String, InvalidStringError);
+      const size = this.uint32();
+      this.need(size, InvalidStringError);
+      const value = this.text(size, InvalidStringError);
+      this.#pos += size;
+      return value;
+    });
   }
 
   error(): Error {
-    this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
+    return this.durable(() => {
+      this.validateKind(Kind.Error, InvalidErrorError);
+      const nestedType = this.pop() as Kind;
+      if (nestedType !== Kind.String) {
+        throw new InvalidErrorError();
+      }
 
-    const size = this.uint32();
-    this.need(size, InvalidErrorError);
-    const value = new Error(this.text(size, InvalidErrorError));
-    this.#pos += size;
-    return value;
+      const size = this.uint32();
+      this.need(size, InvalidErrorError);
+      const value = new Error(this.text(size, InvalidErrorError));
+      this.#pos += size;
+      return value;
+    });
   }
 }
-- 
2.43.0


From 6f01910b721650bed918563ec6f4d525d446ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 18/44] fix: polyglot_decode_none rejects a null decoder and
 sets the status

It went on to dereference the null pointer, and never wrote the status.
---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From 9454f480fdcf37983987b3f7ee45c1c84c3a79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 19/44] fix: polyglot_encoder_size sets the status on success

---
 c_bindings/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..b7c073e 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From 5b64ccdccf1430731fd337dd6c4df59c77edf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 20/44] fix: polyglot_encode_string and polyglot_encode_error
 reject a null string

The null pointer was dereferenced.
---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index b7c073e..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -194,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -224,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 68f1e262fd65d37fe69ef05094172d677a26ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 21/44] fix: polyglot_free_decode_bytes frees the whole value

It freed one byte at the value's address, which for an empty value is not
an allocation at all.
---
 c_bindings/decoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..63228d2 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -173,9 +173,8 @@ pub extern "C" fn polyglot_decode_bytes(status: *mut Status, decoder: *mut Decod
 pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
-            let boxed_value =
+            let value =
                 std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
             drop(Box::from_raw(value));
             drop(Box::from_raw(buffer));
         }
-- 
2.43.0


From afac46d0604f5d4982b49a412f2f49dac65cddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 22/44] fix: polyglot_decode_string and polyglot_decode_error
 keep a value they cannot return

A string with an interior NUL failed after it had been consumed.
---
 c_bindings/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index 63228d2..377b0b8 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -196,6 +196,7 @@ pub extern "C" fn polyglot_decode_string(
     }
 
     unsafe {
+        let start = (*decoder).cursor.position();
         match (*decoder).cursor.decode_string() {
             Ok(value) => {
                 return match CString::new(value) {
@@ -204,6 +205,7 @@ pub extern "C" fn polyglot_decode_string(
                         c_string.into_raw()
                     }
                     Err(_) => {
+                        (*decoder).cursor.set_position(start);
                         *status = Status::Fail;
                         std::ptr::null_mut()
                     }
@@ -238,6 +240,7 @@ pub extern "C" fn polyglot_decode_error(status: *mut Status, decoder: *mut Decod
     }
 
     unsafe {
+        let start = (*decoder).cursor.position();
         match (*decoder).cursor.decode_error() {
             Ok(value) => {
                 return match CString::new(value.to_string()) {
@@ -246,6 +249,7 @@ pub extern "C" fn polyglot_decode_error(status: *mut Status, decoder: *mut Decod
                         c_string.into_raw()
                     }
                     Err(_) => {
+                        (*decoder).cursor.set_position(start);
                         *status = Status::Fail;
                         std::ptr::null_mut()
                     }
-- 
2.43.0


From b3b9fb328690b5780093c8bef310e57d6d81774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 23/44] fix: generated Go code for repeated enum fields
 compiles

---
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 2 +-
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..b781856 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..31f0662 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,7 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
-            polyglot.Encoder(b){{$encoder}}(v)
+            polyglot.Encoder(b){{$encoder}}({{ if eq $field.Kind 14 }}uint32(v){{ else }}v{{ end }})
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..835eb54 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..31f0662 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,7 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
-            polyglot.Encoder(b){{$encoder}}(v)
+            polyglot.Encoder(b){{$encoder}}({{ if eq $field.Kind 14 }}uint32(v){{ else }}v{{ end }})
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From ee416f5509e9fb139c3630c0646ba8ac174b698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 24/44] fix: generated Go code for repeated bytes and maps of
 bytes compiles

---
 generator/golang/templates/decode.templ       | 2 +-
 generator/golang/templates/decodeMap.templ    | 2 +-
 v2/generator/golang/templates/decode.templ    | 2 +-
 v2/generator/golang/templates/decodeMap.templ | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index b781856..02a3799 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -61,7 +61,7 @@ var err error
     {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
     {{end -}}
     if err != nil {
     return err
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..ee3991f 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -37,7 +37,7 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
             {{else -}}
-                v, err = d{{$valDecoder}}()
+                v, err = d{{$valDecoder}}({{ if eq .MapValue.Kind 12 }}nil{{ end }})
             {{end -}}
         {{end -}}
 
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 835eb54..69259fe 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -59,7 +59,7 @@ var err error
     {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
     {{end -}}
     if err != nil {
     return err
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..fd68d2a 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -37,7 +37,7 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
             {{else -}}
-                v, err = d{{$valDecoder}}()
+                v, err = d{{$valDecoder}}({{ if eq .MapValue.Kind 12 }}nil{{ end }})
             {{end -}}
         {{end -}}
 
-- 
2.43.0


From 7553e6607d67f15fa27e9e2b3f2209337bd8f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 25/44] fix: generated Go code declares the enums of nested
 messages

---
 generator/golang/templates/messages.templ    | 4 ----
 generator/golang/templates/structs.templ     | 4 ++++
 v2/generator/golang/templates/messages.templ | 4 ----
 v2/generator/golang/templates/structs.templ  | 4 ++++
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..94fb0ae 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..17d5b27 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From c22a54edd45d979caa44b6c7ec6b19c12e7d80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 26/44] fix: generated Go code for messages with only map
 fields compiles

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 02a3799..9b93cdc 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -74,7 +74,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 69259fe..9ecac61 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -72,7 +72,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 5e2bb6f948854b650d63587360dc7d542cb1b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 27/44] fix: generated Go code for files with only enums
 compiles

---
 generator/golang/templates/imports.templ    | 4 +++-
 v2/generator/golang/templates/imports.templ | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/imports.templ b/generator/golang/templates/imports.templ
index 63e4e5b..014bd68 100644
--- a/generator/golang/templates/imports.templ
+++ b/generator/golang/templates/imports.templ
@@ -4,4 +4,6 @@ import (
     "{{$im}}"
 {{end -}}
 )
-{{end}}
\ No newline at end of file
+
+var _ polyglot.Kind // a file without messages has no other use of the import
+{{end}}
diff --git a/v2/generator/golang/templates/imports.templ b/v2/generator/golang/templates/imports.templ
index 63e4e5b..014bd68 100644
--- a/v2/generator/golang/templates/imports.templ
+++ b/v2/generator/golang/templates/imports.templ
@@ -4,4 +4,6 @@ import (
     "{{$im}}"
 {{end -}}
 )
-{{end}}
\ No newline at end of file
+
+var _ polyglot.Kind // a file without messages has no other use of the import
+{{end}}
-- 
2.43.0


From 5f264b81972b453d215d9ed2841dde0d1cf4681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 28/44] fix: generated Go decoders do not allocate for elements
 their input does not hold

---
 generator/golang/templates/decode.templ    | 23 ++++++++++------------
 v2/generator/golang/templates/decode.templ | 23 ++++++++++------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 9b93cdc..83873fd 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -46,26 +46,23 @@ var err error
     if err != nil {
     return err
     }
-    if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
-    }
+    x.{{ CamelCaseName $field.Name }} = x.{{ CamelCaseName $field.Name }}[:0]
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
-    if x.{{ CamelCaseName $field.Name }}[i] == nil {
-    x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
+    v := New{{ CamelCase $field.Message.FullName }}()
+    err = v.decode(d)
+    if err != nil {
+    return err
     }
-    err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
-    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName $field.Name }}Temp uint32
-    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, v)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
-    {{end -}}
+    v, err := d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
     if err != nil {
     return err
     }
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, {{ if eq $field.Kind 14 }}{{ CamelCase $field.Enum.FullName }}(v){{ else }}v{{ end }})
+    {{end -}}
     }
 {{end -}}
 {{ range $field := $decoding.MessageFields -}}
@@ -79,7 +76,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 9ecac61..5a48a5c 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -44,26 +44,23 @@ var err error
     if err != nil {
     return err
     }
-    if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
-    }
+    x.{{ CamelCaseName $field.Name }} = x.{{ CamelCaseName $field.Name }}[:0]
     for i := uint32(0); i < sliceSize; i++ {
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
-    if x.{{ CamelCaseName $field.Name }}[i] == nil {
-    x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
+    v := New{{ CamelCase $field.Message.FullName }}()
+    err = v.decode(d)
+    if err != nil {
+    return err
     }
-    err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
-    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName $field.Name }}Temp uint32
-    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, v)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
-    {{end -}}
+    v, err := d{{ $decoder }}({{ if eq $field.Kind 12 }}nil{{ end }})
     if err != nil {
     return err
     }
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, {{ if eq $field.Kind 14 }}{{ CamelCase $field.Enum.FullName }}(v){{ else }}v{{ end }})
+    {{end -}}
     }
 {{end -}}
 {{ range $field := $decoding.MessageFields -}}
@@ -77,7 +74,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
-- 
2.43.0


From 810f38d4798acae69edafd17e275d6a788d20766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 29/44] fix: generated Go decoders clear what an absent value
 leaves behind in a reused message

---
 generator/golang/templates/decode.templ    | 3 +++
 v2/generator/golang/templates/decode.templ | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 83873fd..f84335a 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -12,6 +12,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.Decoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -81,6 +82,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if x.{{ CamelCaseName $field.Name }} == nil {
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 5a48a5c..6d8415d 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -10,6 +10,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.BufferDecoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -79,6 +80,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
@@ -87,6 +90,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From 5876cbfacd0877e5c333d3252c5318f952a682f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 30/44] fix: generated Go v1 code can make recursive messages

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 24 ++++++++++++++++++++++++
 generator/golang/templates/structs.templ |  2 ++
 3 files changed, 27 insertions(+)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..a762df8 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsRecursive":        IsRecursive,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..a4df729 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -242,3 +242,27 @@ func GetLUTDecoder(kind protoreflect.Kind) string {
 func GetKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// IsRecursive reports whether the message of a singular field contains, by way of
+// further singular fields, the message the field belongs to.
+func IsRecursive(field protoreflect.FieldDescriptor) bool {
+	seen := make(map[protoreflect.FullName]bool)
+	var contains func(message protoreflect.MessageDescriptor) bool
+	contains = func(message protoreflect.MessageDescriptor) bool {
+		if message.FullName() == field.ContainingMessage().FullName() {
+			return true
+		}
+		if seen[message.FullName()] {
+			return false
+		}
+		seen[message.FullName()] = true
+		for i := 0; i < message.Fields().Len(); i++ {
+			f := message.Fields().Get(i)
+			if f.Kind() == protoreflect.MessageKind && f.Cardinality() != protoreflect.Repeated && contains(f.Message()) {
+				return true
+			}
+		}
+		return false
+	}
+	return contains(field.Message())
+}
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 94fb0ae..c2742f5 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -46,7 +46,9 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
             {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+                {{ if not (IsRecursive $field) -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
+                {{end -}}
             {{end -}}
         {{end -}}
     }
-- 
2.43.0


From b2e375fed412ea31d56177f168d517de5865aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 31/44] fix: generated Go code for fields named encode, decode
 or error compiles

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 15 +++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 15 +++++++++++++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index a762df8..a764ecf 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index a4df729..5ad84f6 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -167,9 +167,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
@@ -266,3 +266,14 @@ func IsRecursive(field protoreflect.FieldDescriptor) bool {
 	}
 	return contains(field.Message())
 }
+
+// FieldName returns the Go name of a field, which must differ from the names of the
+// methods every message has.
+func FieldName(name protoreflect.Name) string {
+	n := utils.CamelCaseName(name)
+	switch n {
+	case "Encode", "Decode", "Error":
+		return n + "_"
+	}
+	return n
+}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..0acbc2d 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..70af48c 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -167,9 +167,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
@@ -242,3 +242,14 @@ func GetLUTDecoder(kind protoreflect.Kind) string {
 func GetKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// FieldName returns the Go name of a field, which must differ from the names of the
+// methods every message has.
+func FieldName(name protoreflect.Name) string {
+	n := utils.CamelCaseName(name)
+	switch n {
+	case "Encode", "Decode", "Error":
+		return n + "_"
+	}
+	return n
+}
-- 
2.43.0


From 3accd51365119923344758392d46191700917117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 32/44] fix: generated Go decoders of endlessly recursive
 messages end

---
 generator/golang/generator.go              |  1 +
 generator/golang/structs.go                | 59 ++++++++++++++++++++++
 generator/golang/templates/decode.templ    |  5 ++
 v2/generator/golang/generator.go           |  1 +
 v2/generator/golang/structs.go             | 59 ++++++++++++++++++++++
 v2/generator/golang/templates/decode.templ |  5 ++
 6 files changed, 130 insertions(+)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index a764ecf..10c672a 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsLeftRecursive":    IsLeftRecursive,
 		"IsRecursive":        IsRecursive,
 		"CustomFields": func() string {
 			return g.CustomFields()
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 5ad84f6..50eeef2 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -277,3 +277,62 @@ func FieldName(name protoreflect.Name) string {
 	}
 	return n
 }
+
+// IsLeftRecursive reports whether decoding a message that is present may reach the same
+// message again before anything of the input is consumed. No encoding of such a message
+// starts with anything but nil.
+func IsLeftRecursive(message protoreflect.MessageDescriptor) bool {
+	seen := make(map[protoreflect.FullName]bool)
+	var reaches func(m protoreflect.MessageDescriptor) bool
+	reaches = func(m protoreflect.MessageDescriptor) bool {
+		for _, l := range leading(m) {
+			if l.FullName() == message.FullName() {
+				return true
+			}
+			if !seen[l.FullName()] {
+				seen[l.FullName()] = true
+				if reaches(l) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return reaches(message)
+}
+
+// leading returns the messages that decoding a present message may start with.
+func leading(message protoreflect.MessageDescriptor) []protoreflect.MessageDescriptor {
+	decoding := GetDecodingFields(message.Fields())
+	if len(decoding.Other) > 0 || len(decoding.SliceFields) > 0 {
+		return nil
+	}
+	var messages []protoreflect.MessageDescriptor
+	for _, field := range decoding.MessageFields {
+		if field.IsMap() {
+			break
+		}
+		messages = append(messages, field.Message())
+		if !encodesEmpty(field.Message(), nil) {
+			break
+		}
+	}
+	return messages
+}
+
+// encodesEmpty reports whether a message that is present may be encoded in no bytes.
+func encodesEmpty(message protoreflect.MessageDescriptor, within []protoreflect.FullName) bool {
+	for _, name := range within {
+		if name == message.FullName() {
+			return false
+		}
+	}
+	within = append(within, message.FullName())
+	for i := 0; i < message.Fields().Len(); i++ {
+		field := message.Fields().Get(i)
+		if field.Kind() != protoreflect.MessageKind || field.Cardinality() == protoreflect.Repeated || !encodesEmpty(field.Message(), within) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index f84335a..870ecd4 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -18,6 +18,10 @@ func (x *{{CamelCase .FullName}}) decode(d *polyglot.Decoder) error {
 
 {{ $decoding := GetDecodingFields .Fields -}}
 {{ $customDecode := CustomDecode -}}
+{{ if and (not $customDecode) (IsLeftRecursive .) -}}
+    return errors.New("invalid message encoding")
+}
+{{ else -}}
 {{ if or $customDecode $decoding.Other $decoding.SliceFields $decoding.MessageFields -}}
 var err error
 {{ end -}}
@@ -97,4 +101,5 @@ var err error
 {{end -}}
     return nil
 }
+{{ end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 0acbc2d..a90f851 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsLeftRecursive":    IsLeftRecursive,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 70af48c..5e7c26d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -253,3 +253,62 @@ func FieldName(name protoreflect.Name) string {
 	}
 	return n
 }
+
+// IsLeftRecursive reports whether decoding a message that is present may reach the same
+// message again before anything of the input is consumed. No encoding of such a message
+// starts with anything but nil.
+func IsLeftRecursive(message protoreflect.MessageDescriptor) bool {
+	seen := make(map[protoreflect.FullName]bool)
+	var reaches func(m protoreflect.MessageDescriptor) bool
+	reaches = func(m protoreflect.MessageDescriptor) bool {
+		for _, l := range leading(m) {
+			if l.FullName() == message.FullName() {
+				return true
+			}
+			if !seen[l.FullName()] {
+				seen[l.FullName()] = true
+				if reaches(l) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	return reaches(message)
+}
+
+// leading returns the messages that decoding a present message may start with.
+func leading(message protoreflect.MessageDescriptor) []protoreflect.MessageDescriptor {
+	decoding := GetDecodingFields(message.Fields())
+	if len(decoding.Other) > 0 || len(decoding.SliceFields) > 0 {
+		return nil
+	}
+	var messages []protoreflect.MessageDescriptor
+	for _, field := range decoding.MessageFields {
+		if field.IsMap() {
+			break
+		}
+		messages = append(messages, field.Message())
+		if !encodesEmpty(field.Message(), nil) {
+			break
+		}
+	}
+	return messages
+}
+
+// encodesEmpty reports whether a message that is present may be encoded in no bytes.
+func encodesEmpty(message protoreflect.MessageDescriptor, within []protoreflect.FullName) bool {
+	for _, name := range within {
+		if name == message.FullName() {
+			return false
+		}
+	}
+	within = append(within, message.FullName())
+	for i := 0; i < message.Fields().Len(); i++ {
+		field := message.Fields().Get(i)
+		if field.Kind() != protoreflect.MessageKind || field.Cardinality() == protoreflect.Repeated || !encodesEmpty(field.Message(), within) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 6d8415d..fb0fcc9 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -16,6 +16,10 @@ func (x *{{CamelCase .FullName}}) decode(d *polyglot.BufferDecoder) error {
 
 {{ $decoding := GetDecodingFields .Fields -}}
 {{ $customDecode := CustomDecode -}}
+{{ if and (not $customDecode) (IsLeftRecursive .) -}}
+    return errors.New("invalid message encoding")
+}
+{{ else -}}
 {{ if or $customDecode $decoding.Other $decoding.SliceFields $decoding.MessageFields -}}
 var err error
 {{ end -}}
@@ -97,4 +101,5 @@ var err error
 {{end -}}
     return nil
 }
+{{ end -}}
 {{end}}
-- 
2.43.0


From cce4d9ae52441a6345b2d30b89b41efeef0cd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 33/44] fix: generators put the version, without its line
 break, into what they generate

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From dde0024233835896648b9fbfabf73e556dffee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 34/44] fix: generated Go code names the element type of
 repeated enums

---
 generator/golang/structs.go    | 2 +-
 v2/generator/golang/structs.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 50eeef2..e74a3c8 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 5e7c26d..fc370c7 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
-- 
2.43.0


From 26368bec741527d390724e30d5c7e5c0488f0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 35/44] fix: Rust generator ends on recursive messages and
 imports what nested declarations need

---
 generator/rust/imports.go    | 28 ++++++++++------------------
 v2/generator/rust/imports.go | 28 ++++++++++------------------
 2 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..5e27e6c 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -36,30 +36,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.Kind() == protoreflect.MessageKind && field.Desc.Message().IsMapEntry() {
+			dependencies.Maps = true
 		}
 	}
+	for _, nested := range message.Messages {
+		dependencies = traverseMessage(nested, dependencies)
+	}
 	return dependencies
 }
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..5e27e6c 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -36,30 +36,22 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.Kind() == protoreflect.MessageKind && field.Desc.Message().IsMapEntry() {
+			dependencies.Maps = true
 		}
 	}
+	for _, nested := range message.Messages {
+		dependencies = traverseMessage(nested, dependencies)
+	}
 	return dependencies
 }
-- 
2.43.0


From a192f7cbf43bc3f8ca4ff30b298aa3ea28599b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 36/44] fix: generated Rust code declares the enums of nested
 messages

---
 generator/rust/templates/messages.templ    | 4 ----
 generator/rust/templates/structs.templ     | 4 ++++
 v2/generator/rust/templates/messages.templ | 4 ----
 v2/generator/rust/templates/structs.templ  | 4 ++++
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..afb06dc 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..afb06dc 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 5ed4421284e03e3d12da0e6fb425a1d0f422f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 37/44] fix: generated Rust code encodes repeated and map
 fields

---
 generator/rust/templates/encode.templ    | 16 ++++++++++------
 v2/generator/rust/templates/encode.templ | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..851f0f3 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..851f0f3 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -28,10 +28,12 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ if or (eq $field.Kind 9) (eq $field.Kind 12) -}} {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +53,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
+                b{{$keyEncoder}}(k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +66,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From 1637257742469afd806d6e7e131cb45186d3da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 38/44] fix: generated Rust code decodes repeated enums

---
 generator/rust/templates/decode.templ    | 2 ++
 v2/generator/rust/templates/decode.templ | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
-- 
2.43.0


From b922ad620c34cda462e0e5dced62662eb835b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 39/44] fix: generated Rust decoders do not allocate for
 elements their input does not hold

---
 generator/rust/templates/decode.templ    | 2 +-
 v2/generator/rust/templates/decode.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 9b49e80dc25a51205f24ef8a0a5220de559f0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:10 +0000
Subject: [PATCH 40/44] fix: generated files of one Go package declare the
 decode error once

---
 generator/golang/generator.go               | 16 +++++++++++++++-
 generator/golang/templates/base.templ       |  2 ++
 generator/golang/templates/imports.templ    |  1 +
 v2/generator/golang/generator.go            | 16 +++++++++++++++-
 v2/generator/golang/templates/base.templ    |  2 ++
 v2/generator/golang/templates/imports.templ |  1 +
 6 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 10c672a..c8bd3ba 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -92,6 +92,8 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		return nil, err
 	}
 
+	// The errors are declared once per Go package, in its first file.
+	errorsIn := make(map[protogen.GoImportPath]bool)
 	for _, f := range plugin.Files {
 		if !f.Generate {
 			continue
@@ -103,10 +105,11 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 			packageName = string(f.GoPackageName)
 		}
 
-		err = g.ExecuteTemplate(genFile, f, packageName, true)
+		err = g.executeTemplate(genFile, f, packageName, true, !errorsIn[f.GoImportPath])
 		if err != nil {
 			return nil, err
 		}
+		errorsIn[f.GoImportPath] = true
 	}
 
 	return plugin.Response(), nil
@@ -117,6 +120,16 @@ func (g *Generator) ExecuteTemplate(
 	protoFile *protogen.File,
 	packageName string,
 	header bool,
+) error {
+	return g.executeTemplate(genFile, protoFile, packageName, header, true)
+}
+
+func (g *Generator) executeTemplate(
+	genFile *protogen.GeneratedFile,
+	protoFile *protogen.File,
+	packageName string,
+	header bool,
+	errors bool,
 ) error {
 	return g.templ.ExecuteTemplate(genFile, "base.templ", map[string]interface{}{
 		"pluginVersion":   version.Version(),
@@ -126,5 +139,6 @@ func (g *Generator) ExecuteTemplate(
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
+		"errors":          errors,
 	})
 }
diff --git a/generator/golang/templates/base.templ b/generator/golang/templates/base.templ
index 20e0b5f..f5b1044 100644
--- a/generator/golang/templates/base.templ
+++ b/generator/golang/templates/base.templ
@@ -4,7 +4,9 @@
 {{template "imports" .}}
 {{ end -}}
 
+{{ if .errors -}}
 {{template "errors" .}}
+{{ end -}}
 
 {{template "enums" .}}
 
diff --git a/generator/golang/templates/imports.templ b/generator/golang/templates/imports.templ
index 014bd68..9aaf576 100644
--- a/generator/golang/templates/imports.templ
+++ b/generator/golang/templates/imports.templ
@@ -6,4 +6,5 @@ import (
 )
 
 var _ polyglot.Kind // a file without messages has no other use of the import
+var _ = errors.New // only the first file of a package declares the errors
 {{end}}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index a90f851..52440a2 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -91,6 +91,8 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		return nil, err
 	}
 
+	// The errors are declared once per Go package, in its first file.
+	errorsIn := make(map[protogen.GoImportPath]bool)
 	for _, f := range plugin.Files {
 		if !f.Generate {
 			continue
@@ -102,10 +104,11 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 			packageName = string(f.GoPackageName)
 		}
 
-		err = g.ExecuteTemplate(genFile, f, packageName, true)
+		err = g.executeTemplate(genFile, f, packageName, true, !errorsIn[f.GoImportPath])
 		if err != nil {
 			return nil, err
 		}
+		errorsIn[f.GoImportPath] = true
 	}
 
 	return plugin.Response(), nil
@@ -116,6 +119,16 @@ func (g *Generator) ExecuteTemplate(
 	protoFile *protogen.File,
 	packageName string,
 	header bool,
+) error {
+	return g.executeTemplate(genFile, protoFile, packageName, header, true)
+}
+
+func (g *Generator) executeTemplate(
+	genFile *protogen.GeneratedFile,
+	protoFile *protogen.File,
+	packageName string,
+	header bool,
+	errors bool,
 ) error {
 	return g.templ.ExecuteTemplate(genFile, "base.templ", map[string]interface{}{
 		"pluginVersion":   version.Version(),
@@ -125,5 +138,6 @@ func (g *Generator) ExecuteTemplate(
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
+		"errors":          errors,
 	})
 }
diff --git a/v2/generator/golang/templates/base.templ b/v2/generator/golang/templates/base.templ
index 20e0b5f..f5b1044 100644
--- a/v2/generator/golang/templates/base.templ
+++ b/v2/generator/golang/templates/base.templ
@@ -4,7 +4,9 @@
 {{template "imports" .}}
 {{ end -}}
 
+{{ if .errors -}}
 {{template "errors" .}}
+{{ end -}}
 
 {{template "enums" .}}
 
diff --git a/v2/generator/golang/templates/imports.templ b/v2/generator/golang/templates/imports.templ
index 014bd68..9aaf576 100644
--- a/v2/generator/golang/templates/imports.templ
+++ b/v2/generator/golang/templates/imports.templ
@@ -6,4 +6,5 @@ import (
 )
 
 var _ polyglot.Kind // a file without messages has no other use of the import
+var _ = errors.New // only the first file of a package declares the errors
 {{end}}
-- 
2.43.0


From d88adebbf1d7a1c5fd4266ac09b9fc4fab0de255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:29 +0000
Subject: [PATCH 41/44] fix: Go decoders reject sizes over 2 GiB where int has
 32 bits

---
 decode.go    | 4 ++--
 v2/decode.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decode.go b/decode.go
index ebc53f7..d69e481 100644
--- a/decode.go
+++ b/decode.go
@@ -88,7 +88,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 			if err != nil {
 				return b, nil, InvalidBytes
 			}
-			if len(rest) > int(size)-1 {
+			if uint64(len(rest)) >= uint64(size) {
 				if len(ret) < int(size) {
 					if ret == nil {
 						ret = make([]byte, size)
@@ -114,7 +114,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 			if err != nil {
 				return b, emptyString, InvalidString
 			}
-			if len(rest) > int(size)-1 {
+			if uint64(len(rest)) >= uint64(size) {
 				return rest[size:], string(rest[:size]), nil
 			}
 		}
diff --git a/v2/decode.go b/v2/decode.go
index 4db847a..298b993 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -112,7 +112,7 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 				}
 			}
 		}
-		if len(b)-offset > size-1 {
+		if uint64(len(b)-offset) >= uint64(uint32(size)) {
 			return b[size+offset:], append(ret[:0], b[offset:size+offset]...), nil
 		}
 	}
@@ -125,7 +125,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 		if err != nil {
 			return b, emptyString, ErrInvalidString
 		}
-		if len(rest) > int(size)-1 {
+		if uint64(len(rest)) >= uint64(size) {
 			return rest[size:], string(rest[:size]), nil
 		}
 	}
-- 
2.43.0


From 7aa9cc5589af7efa846dd8f33bfabbd28cc620cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:29 +0000
Subject: [PATCH 42/44] fix: bytes decoded in TypeScript are a copy also when
 the input is a Buffer

---
 decoder.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index e18c9e8..55a3c24 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -343,7 +343,10 @@ export class Decoder {
       this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
       const size = this.uint32();
       this.need(size, InvalidUint8ArrayError);
-      const value = this.buf.slice(this.#pos, this.#pos + size);
+      // a copy: slice of a Buffer would share the input's memory
+      const value = new Uint8Array(
+        this.buf.subarray(this.#pos, this.#pos + size),
+      );
       this.#pos += size;
       return value;
     });
-- 
2.43.0


From 88a546aa2b2d86168808fce28767897aedadf811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:42 +0000
Subject: [PATCH 43/44] fix: generated names of fields and types that start
 with a digit or an underscore can be used

---
 utils/utils.go    | 4 ++++
 v2/utils/utils.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index edadb04..b8de0df 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -70,6 +70,10 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if len(t) == 0 || t[0] < 'A' || t[0] > 'Z' {
+		// A digit or an underscore cannot start an exported name.
+		return "X" + string(t)
+	}
 	return string(t)
 }
 
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index edadb04..b8de0df 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -70,6 +70,10 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if len(t) == 0 || t[0] < 'A' || t[0] > 'Z' {
+		// A digit or an underscore cannot start an exported name.
+		return "X" + string(t)
+	}
 	return string(t)
 }
 
-- 
2.43.0


From 8615732550cac64eab6ce23a553afc80a853835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:42 +0000
Subject: [PATCH 44/44] fix: a protobuf package called like a Go keyword, or _,
 no longer gives Go code with that as its package name

---
 generator/golang/generator.go    | 3 ++-
 v2/generator/golang/generator.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index c8bd3ba..eb84010 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -101,7 +102,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if !token.IsIdentifier(packageName) || packageName == "_" {
 			packageName = string(f.GoPackageName)
 		}
 
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 52440a2..e647418 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -100,7 +101,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if !token.IsIdentifier(packageName) || packageName == "_" {
 			packageName = string(f.GoPackageName)
 		}
 
-- 
2.43.0

