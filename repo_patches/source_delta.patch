From efe2ae5e7321cde800ed8dd0eaced95c5793cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 01/55] fix: RLEv2 short repeat dropped the zero bytes of the
 repeated value

---
 orc/encoding/int.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..a140afd 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1106,26 +1106,18 @@ func findRepeatsInBytes(values []byte, minRepeat int) (repeats []repeat) {
 func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	header := byte(count & 0x07)         // count
 	header |= Encoding_SHORT_REPEAT << 6 // encoding
-	var w byte
-	bb := bytes.NewBuffer(make([]byte, 8))
-	bb.Reset()
-	for j := 7; j >= 0; j-- { //
-		b := byte(x >> uint(8*j))
-		if b != 0x00 {
-			if byte(j) > w { // [1, 8]
-				w = byte(j)
-			}
-			if err := bb.WriteByte(b); err != nil {
-				return errors.WithStack(err)
-			}
-		}
+	w := 1 // width in bytes, [1, 8]
+	for w < 8 && x>>uint(8*w) != 0 {
+		w++
 	}
-	header |= w << 3 // W
+	header |= byte(w-1) << 3 // W
 	if err := out.WriteByte(header); err != nil {
 		return errors.WithStack(err)
 	}
-	if _, err := bb.WriteTo(out); err != nil {
-		return errors.WithStack(err)
+	for j := w - 1; j >= 0; j-- { // big endian
+		if err := out.WriteByte(byte(x >> uint(8*j))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 019de9f9c26d58a454488b97b5defd82b6184590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 02/55] fix: RLEv2 direct run of zeros had a one bit width
 header but no data

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index a140afd..ec0a1cf 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -516,6 +516,9 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 		}
 	}
 
+	if width == 0 { // direct width code 0 means 1 bit
+		width = 1
+	}
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From a96596949bc4c04e5f08caa9af56d94d7b0cc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 03/55] fix: RLEv2 delta run panicked when a varint needed more
 than 8 bytes

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ec0a1cf..274a543 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -913,7 +913,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From fd50dfcb5ebc564c29b62e0f350af2978eb7c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 04/55] fix: RLEv2 delta widths: 12 bit deltas failed, fixed
 delta did not accumulate

---
 orc/encoding/int.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 274a543..522d6b9 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,13 +166,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
@@ -894,6 +895,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 	if width == 1 { // delta width no 1?
 		width = 2
 	}
+	if width == 0 && len(deltas) != 0 { // width 0 would mean a fixed delta of deltaBase
+		width = 2
+	}
+	if width == 12 { // not written below
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 8449c2db778d1e73ef19c963393f3e038bf7f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 05/55] fix: RLEv2 encoder overran the 512 values of a run when
 nothing could be written early

---
 orc/encoding/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 522d6b9..1b64ca0 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -487,7 +487,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			if len(e.values) != 0 && (toEnd || len(e.values) >= MaxIntRunLength) {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From a48cf1d2288f090d577d701976594c49fe91cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 06/55] fix: RLEv2 patched base width histogram overflowed at
 256 values

---
 orc/encoding/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 1b64ca0..4092646 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -707,7 +707,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			width = width_
 		}
 	}
-	deltaValuesWidthHist := make([]byte, BITS_SLOTS) // values bits width 0 to 64
+	deltaValuesWidthHist := make([]int, BITS_SLOTS) // values bits width 0 to 64
 	for i := 0; i < count; i++ {
 		deltaValuesWidthHist[deltaValuesWidths[i]] += 1
 	}
@@ -715,7 +715,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	p90len := int(float64(count) * 0.9)
 	l := 0
 	for i := 0; i < BITS_SLOTS; i++ {
-		l += int(deltaValuesWidthHist[i])
+		l += deltaValuesWidthHist[i]
 		if l >= p90len && deltaValuesWidthHist[i] != 0 {
 			w = byte(i)
 			break
-- 
2.43.0


From 45f6e292567cc9dd84b9709714e315b076b4a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 07/55] fix: RLEv2 patched base chose widths, gaps, bases and
 patch counts that cannot be encoded

---
 orc/encoding/int.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 4092646..e5e6d7b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -657,6 +657,22 @@ type patchedValues struct {
 	patches []uint64 // patch values, already shifted valuebits
 }
 
+// a patch and its gap (8 bits at most) are written together behind up to 7 left bits
+const maxPatchWidth = 64 - 7 - 8
+
+// smallest width not less than w that has a width encoding
+func encodableWidth(w int) int {
+	switch {
+	case w < 1:
+		return 1
+	case w <= 21 || w == 26 || w == 28 || w == 30:
+		return w
+	case w == 25 || w == 27 || w == 29:
+		return w + 1
+	}
+	return (w + 7) / 8 * 8
+}
+
 // analyze bit widths, if return encoding Patch then fill the patchValues, else return encoding Direct
 // todo: patch 0
 // todo: try how many values to determine patch
@@ -723,7 +739,11 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	}
 
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
+	w = byte(encodableWidth(int(w)))
 	if width > w {
+		if base == math.MinInt64 || encodableWidth(int(width-w)) > maxPatchWidth {
+			return false
+		}
 		pvs.base = base
 		pvs.values = deltaValues
 		pvs.width = w
@@ -748,9 +768,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 				previousGap = i
 			}
 		}
-		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+		if len(pvs.patches) > 31 { // patch list length has 5 bits
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -803,6 +822,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 			patchWidth = patchWidth_
 		}
 	}
+	patchWidth = encodableWidth(patchWidth)
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -811,7 +831,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
+	pgw := 1
 	for _, g := range pvs.gaps {
 		pgw_ := getBitsWidth(uint64(g))
 		if pgw_ > pgw {
-- 
2.43.0


From cf554a686c456831edf590a012704080cad01644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 08/55] fix: RLEv2 decoder lost the high bits of unaligned
 values wider than 56 bits

---
 orc/encoding/int.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index e5e6d7b..e3797a1 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -226,7 +226,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -292,23 +292,31 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 }
 
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
+	// lastByte holds bitsLeft bits, the rest of it is zero
+	value = uint64(d.lastByte)
 	hasBits := d.bitsLeft
-	data := uint64(d.lastByte)
-	for ; hasBits < bits; hasBits += 8 {
+	for ; hasBits+8 <= bits; hasBits += 8 {
 		b, err := in.ReadByte()
 		if err != nil {
 			return 0, errors.WithStack(err)
 		}
-		data <<= 8
-		data |= uint64(b)
+		value = value<<8 | uint64(b)
 	}
 
-	d.bitsLeft = hasBits - bits
-	value = data >> uint(d.bitsLeft)
+	if hasBits >= bits {
+		d.bitsLeft = hasBits - bits
+		d.lastByte = byte(value & (uint64(1)<<d.bitsLeft - 1))
+		value >>= uint(d.bitsLeft)
+		return
+	}
 
-	// clear leadZeros
-	mask := (uint64(1) << d.bitsLeft) - 1
-	d.lastByte = byte(data & mask)
+	b, err := in.ReadByte()
+	if err != nil {
+		return 0, errors.WithStack(err)
+	}
+	d.bitsLeft = hasBits + 8 - bits
+	value = value<<uint(bits-hasBits) | uint64(b)>>uint(d.bitsLeft)
+	d.lastByte = byte(uint64(b) & (uint64(1)<<d.bitsLeft - 1))
 	return
 }
 
-- 
2.43.0


From e785750d4108d17a5a2978dd63fb878d231040c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 09/55] fix: RLEv2 decoder panicked on a patch position outside
 the run

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index e3797a1..a0580c9 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -276,6 +276,9 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 
 		patchGap := int(pp >> pw)
 		mark += patchGap
+		if mark >= len(d.uvs) {
+			return errors.New("decoding: int rl v2, patch position out of run")
+		}
 		patch := pp & ((1 << pw) - 1)
 
 		// todo: check gap==255 and patch==0
-- 
2.43.0


From 5554fc002807fbab6b4e0d8510a9372245390edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 10/55] fix: RLEv2 decoder returned two values for a delta run
 of length 1

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index a0580c9..4a26325 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -151,6 +151,9 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		if err != nil {
 			return errors.WithStack(err)
 		}
+		if length == 1 { // only the base value
+			return nil
+		}
 
 		if d.signed {
 			d.uvs = append(d.uvs, Zigzag(base+deltaBase))
-- 
2.43.0


From 8fab1929bf1dcc686e3d037f27cf7d8fbe103c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 11/55] fix: encoders kept a stale position after Flush

---
 orc/encoding/bool.go | 3 +++
 orc/encoding/byte.go | 3 +++
 orc/encoding/int.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..eb83997 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,9 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 4a26325..6f79f21 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -433,6 +433,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From 676d4634041426eca1406e8428cb413c6f1b4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 12/55] fix: bool encoder leaked the last partial byte into the
 values written after Flush

---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index eb83997..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	if e.position != -1 {
 		e.position = 0
 	}
-- 
2.43.0


From 882d3adcc5d4a8020ff91992c70752f46051440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 13/55] fix: ReadVUint looped forever at the end of its input

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..1d8bb41 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From bd5edcebf2fd16545506764c05e905fed1b0d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 14/55] fix: date encoder handed an int32 to the int64 encoder
 and always failed

---
 orc/encoding/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index c124e56..fa26365 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -16,7 +16,7 @@ type dateV2Encoder struct {
 func (e *dateV2Encoder) Encode(v interface{}, out *bytes.Buffer) error {
 	date := v.(api.Date)
 	days := api.ToDays(date)
-	if err := e.intEncoder.Encode(days, out); err != nil {
+	if err := e.intEncoder.Encode(int64(days), out); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 783345a8008811a562f8d07c3cf63c5d85950f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 15/55] fix: float columns were big endian, ORC floats are
 little endian

---
 orc/encoding/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..fedf548 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,7 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From 75b2efa15d629623d1fc97ef439654743f81929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 16/55] fix: files without compression could not be written

---
 orc/common/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..ea0eae2 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -145,7 +145,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
-- 
2.43.0


From eb9dc012682a48ecbae046817b50913475a146ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 17/55] fix: compressing more than one chunk wrote to a closed
 compressor

---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index ea0eae2..93793e0 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From cd6ec25cd9cbcb00c9761bc598950104c08906ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 18/55] fix: truncated chunk header was decoded as if it were
 complete

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 93793e0..cfa37ff 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -235,7 +235,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From e26b5cb753d05bc77c0f92c7f9c4f813249adf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 19/55] fix: stream writer Reset panicked without compression

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From c448cf0ef097c94579fd825f1b137c09f80fb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 20/55] fix: stream seek without compression, at the end of a
 stream and over several chunks

---
 orc/stream/reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..b0e269d 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -95,12 +95,28 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		chunk, chunkOffset = chunk+chunkOffset, 0
+	}
+	if chunk > r.info.GetLength() {
+		return errors.Errorf("seeking to %d, stream %s length %d", chunk, r.info.GetKind(), r.info.GetLength())
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
 	r.readLength = chunk
-	if err := r.readAChunk(); err != nil {
-		return err
+	// positions of uncompressed data or after the last value need no chunk
+	if chunkOffset == 0 {
+		return nil
+	}
+	// data not yet compressed when the position was taken may be split to several chunks
+	for uint64(r.buf.Len()) < chunkOffset && r.readLength < r.info.GetLength() {
+		if err := r.readAChunk(); err != nil {
+			return err
+		}
+	}
+	if uint64(r.buf.Len()) < chunkOffset {
+		return errors.Errorf("seeking to chunk offset %d, stream %s has only %d bytes left", chunkOffset, r.info.GetKind(), r.buf.Len())
 	}
 	r.buf.Next(int(chunkOffset))
 	return nil
-- 
2.43.0


From 43ba37f8e95f9e5a585b8d4afcc476549706d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 21/55] fix: the last row of a stripe and of a file was not
 read

---
 orc/reader.go | 4 ++--
 orc/stripe.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..e841677 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,7 +172,7 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
@@ -193,7 +193,7 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		br.stripeIndex--
 	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..f3ca773 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -325,7 +325,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From b9d241486ee869965ddc871a9e0cd8f8c42cfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 22/55] fix: row index entries and column statistics described
 the wrong rows

---
 orc/column/binary.go  |  48 ++++---------
 orc/column/bool.go    |  48 +++----------
 orc/column/byte.go    |  37 ++--------
 orc/column/decimal.go | 142 +++++++++++++++++++++----------------
 orc/column/float.go   |  53 ++------------
 orc/column/int.go     |  51 ++------------
 orc/column/list.go    |  37 ++--------
 orc/column/reader.go  |  10 ++-
 orc/column/string.go  | 120 +++----------------------------
 orc/column/struct.go  |  49 +++----------
 orc/column/time.go    | 122 ++++----------------------------
 orc/column/writer.go  | 160 ++++++++++++++++++++++++++++++++++++++++--
 12 files changed, 320 insertions(+), 557 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..10dd94e 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -13,21 +13,17 @@ import (
 )
 
 func NewBinaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	stats := newBinaryStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &binaryV2Writer{base, data, length}
@@ -40,6 +36,8 @@ type binaryV2Writer struct {
 }
 
 func (w *binaryV2Writer) Write(value api.Value) error {
+	w.startRow(newBinaryStats, w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -47,35 +45,17 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
-			return err
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
+		if err := w.data.Write(data); err != nil {
+			return err
 		}
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		if err := w.length.Write(uint64(len(data))); err != nil {
+			return err
 		}
+		w.addStats(func(stats *pb.ColumnStatistics) { *stats.BinaryStatistics.Sum += int64(len(data)) })
 	}
 	return nil
 }
@@ -96,7 +76,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -197,7 +177,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..5ac5033 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -11,24 +11,17 @@ import (
 )
 
 func newBoolWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	stats := newBucketStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 		*stats.HasNull = true
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, present: present, stats: stats, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, present: present, stats: stats, index: index}
 	data := stream.NewBoolWriter(schema.Id, pb.Stream_DATA, opts)
 	return &boolWriter{base, data}
 }
@@ -39,6 +32,8 @@ type boolWriter struct {
 }
 
 func (w *boolWriter) Write(value api.Value) error {
+	w.startRow(newBucketStats, w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -48,35 +43,12 @@ func (w *boolWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		if value.V.(bool) {
-			// true count
-			(*w.stats.BucketStatistics).Count[0]++
-		}
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
+		w.addStats(func(stats *pb.ColumnStatistics) {
+			if value.V.(bool) {
+				// true count
+				stats.BucketStatistics.Count[0]++
 			}
-			w.indexInRows = 0
-		}
-		// no bytes on disk index stats
-		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
-			*w.indexStats.NumberOfValues++
-		}
+		})
 	}
 	return nil
 }
@@ -92,7 +64,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..d871fa6 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -11,19 +11,17 @@ import (
 )
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	stats := newBinaryStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index}
 	data := stream.NewByteWriter(schema.Id, pb.Stream_DATA, opts)
 	return &byteWriter{base, data}
 }
@@ -34,6 +32,8 @@ type byteWriter struct {
 }
 
 func (w *byteWriter) Write(value api.Value) error {
+	w.startRow(newBinaryStats, w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -44,32 +44,7 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++ // makeSure:
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// java impl does not write index statistic bytes on disk, has nulls ...
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { *stats.BinaryStatistics.Sum++ })
 	}
 	return nil
 }
@@ -94,7 +69,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..6722b3e 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
 
 	"github.com/pkg/errors"
 
@@ -15,33 +14,98 @@ import (
 )
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+	stats := newDecimalStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, true)
-	return &decimalV2Writer{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &decimalV2Writer{writer: &writer{schema: schema, opts: opts, stats: stats, present: present, index: index},
+		data: data, secondary: secondary}
 }
 
 type decimalV2Writer struct {
 	*writer
 	data      stream.Writer
 	secondary stream.Writer
+
+	fileRange, indexRange decimalRange
+}
+
+// decimalRange keeps minimum, maximum and sum of the values counted by stats,
+// they are left out of stats when values have different scales or the sum overflows
+type decimalRange struct {
+	stats         *pb.ColumnStatistics
+	scale         int
+	min, max, sum int64
+}
+
+func (r *decimalRange) add(stats *pb.ColumnStatistics, d api.Decimal64) {
+	s := stats.DecimalStatistics
+	if r.stats != stats { // first value
+		*r = decimalRange{stats: stats, scale: d.Scale, min: d.Precision, max: d.Precision, sum: d.Precision}
+		if text, ok := decimalText(d.Precision, d.Scale); ok {
+			min, max, sum := text, text, text
+			s.Minimum, s.Maximum, s.Sum = &min, &max, &sum
+		}
+		return
+	}
+	if s.Minimum == nil {
+		return
+	}
+	if d.Scale != r.scale {
+		s.Minimum, s.Maximum, s.Sum = nil, nil, nil
+		return
+	}
+	if d.Precision < r.min {
+		r.min = d.Precision
+		*s.Minimum, _ = decimalText(r.min, r.scale)
+	}
+	if d.Precision > r.max {
+		r.max = d.Precision
+		*s.Maximum, _ = decimalText(r.max, r.scale)
+	}
+	if s.Sum != nil {
+		if sum := r.sum + d.Precision; (sum > r.sum) == (d.Precision > 0) {
+			r.sum = sum
+			*s.Sum, _ = decimalText(r.sum, r.scale)
+		} else {
+			s.Sum = nil
+		}
+	}
+}
+
+// decimalText is unscaled/10^scale
+func decimalText(unscaled int64, scale int) (string, bool) {
+	if scale < 0 || scale > 38 {
+		return "", false
+	}
+	if scale == 0 {
+		return fmt.Sprintf("%d", unscaled), true
+	}
+	sign, abs := "", uint64(unscaled)
+	if unscaled < 0 {
+		sign, abs = "-", -abs
+	}
+	unit := uint64(1)
+	for i := 0; i < scale && i < 19; i++ {
+		unit *= 10
+	}
+	if scale > 19 {
+		return fmt.Sprintf("%s0.%0*d", sign, scale, abs), true
+	}
+	return fmt.Sprintf("%s%d.%0*d", sign, abs/unit, scale, abs%unit), true
 }
 
 func (w *decimalV2Writer) Write(value api.Value) error {
+	w.startRow(newDecimalStats, w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -56,59 +120,13 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
-		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
-		*w.stats.NumberOfValues++
-
-		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
+		w.addStats(func(stats *pb.ColumnStatistics) {
+			if stats == w.stats {
+				w.fileRange.add(stats, d)
+			} else {
+				w.indexRange.add(stats, d)
 			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
-			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
-			*w.indexStats.NumberOfValues++
-		}
+		})
 	}
 
 	return nil
@@ -119,7 +137,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
@@ -162,7 +180,7 @@ func (w decimalV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.data.Info(), w.secondary.Info()}
 }
 
-func (w decimalV2Writer) Reset() {
+func (w *decimalV2Writer) Reset() {
 	w.reset()
 	w.data.Reset()
 	w.secondary.Reset()
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..103d537 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -162,21 +162,17 @@ func (r *FloatReader) Close() {
 }
 
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+	stats := newDoubleStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
+	base := &writer{schema: schema, opts: opts, present: present, index: index, stats: stats}
 	data := stream.NewFloatWriter(schema.Id, pb.Stream_DATA, opts, is64)
 	return &floatWriter{base, data, is64}
 }
@@ -188,6 +184,8 @@ type floatWriter struct {
 }
 
 func (w *floatWriter) Write(value api.Value) error {
+	w.startRow(newDoubleStats, w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -205,46 +203,7 @@ func (w *floatWriter) Write(value api.Value) error {
 			v = float64(value.V.(float32))
 		}
 
-		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
-		}
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			v := value.V.(float64)
-			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
-				*w.indexStats.DoubleStatistics.Minimum = v
-			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
-				*w.indexStats.DoubleStatistics.Maximum = v
-			}
-
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { addDoubleStats(stats.DoubleStatistics, v) })
 	}
 	return nil
 }
@@ -261,7 +220,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..8332c6c 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -11,21 +11,17 @@ import (
 )
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+	stats := newIntStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &intWriter{base, data, bits}
 }
@@ -52,6 +48,8 @@ func (w *intWriter) Writes(values []api.Value) error {
 }
 
 func (w *intWriter) Write(value api.Value) error {
+	w.startRow(newIntStats, w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -72,44 +70,7 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
-			*w.stats.IntStatistics.Minimum = v
-		}
-		if v > *w.stats.IntStatistics.Maximum {
-			*w.stats.IntStatistics.Maximum = v
-		}
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
-				*w.indexStats.IntStatistics.Minimum = v
-			}
-			if v > *w.indexStats.IntStatistics.Maximum {
-				*w.indexStats.IntStatistics.Maximum = v
-			}
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { addIntStats(stats.IntStatistics, v) })
 	}
 	return nil
 }
@@ -126,7 +87,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..627e15f 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -187,22 +187,17 @@ func (r *ListV2Reader) Close() {
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	stats := newCountStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	return &structWriter{&writer{schema: schema, opts: opts, present: present, stats: stats, index: index}}
 }
 
 type listV2Writer struct {
@@ -211,6 +206,8 @@ type listV2Writer struct {
 }
 
 func (w *listV2Writer) Write(value api.Value) error {
+	w.startRow(newCountStats, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -221,29 +218,7 @@ func (w *listV2Writer) Write(value api.Value) error {
 		if err := w.length.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) {})
 	}
 	return nil
 }
@@ -261,7 +236,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..322d20a 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -63,14 +63,12 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		err = errors.New("no index")
 		return
 	}
-	if stride < 1 {
-		err = errors.New("stride < 1")
-		return
-	}
-	if stride > len(r.index.Entry) {
+	// entry is where the row group starts
+	if stride < 0 || stride >= len(r.index.Entry) {
 		err = errors.Errorf("stride %d does not exist", stride)
+		return
 	}
-	pos = r.index.Entry[stride-1].Positions
+	pos = r.index.Entry[stride].Positions
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..ad4df44 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -16,22 +16,17 @@ const (
 )
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	stats := newStringStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &stringDirectV2Writer{base, data, length}
@@ -44,13 +39,14 @@ type stringDirectV2Writer struct {
 }
 
 func (w *stringDirectV2Writer) Write(value api.Value) error {
+	w.startRow(newStringStats, w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -58,84 +54,14 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
-		if err := w.length.Write(uint64(dataLength)); err != nil {
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
-		}
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { addStringStats(stats.StringStatistics, s) })
 	}
 	return nil
 }
@@ -154,7 +80,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -541,22 +467,17 @@ func (r *StringDictionaryV2Reader) Close() {
 }
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	stats := newStringStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
@@ -585,32 +506,13 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
-
 		vs := w.data[s]
 		w.count++
 		vs = append(vs, w.count)
 		w.data[s] = vs
 
+		addStringStats(w.stats.StringStatistics, s)
 		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
-		}
 	}
 
 	// todo: index writing
@@ -703,7 +605,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..da55c50 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -156,24 +156,17 @@ func (r *StructReader) Close() {
 }
 
 func newStructWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	stats := newBucketStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	return &structWriter{&writer{schema: schema, opts: opts, present: present, stats: stats, index: index}}
 }
 
 type structWriter struct {
@@ -181,39 +174,15 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
-	if !w.schema.HasNulls {
-		return nil
-	}
+	w.startRow(newBucketStats)
 
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
+		}
 	}
 	if !value.Null {
-		(*w.stats.BucketStatistics).Count[0]++
-	}
-	*w.stats.NumberOfValues++
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// no bytes on disk index stats
-		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
-		}
-		*w.indexStats.NumberOfValues++
+		w.addStats(func(stats *pb.ColumnStatistics) { stats.BucketStatistics.Count[0]++ })
 	}
 	return nil
 }
@@ -223,7 +192,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..5b9ef3a 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -13,21 +13,17 @@ import (
 )
 
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+	stats := newDateStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &dateV2Writer{base, data}
 }
@@ -38,55 +34,21 @@ type dateV2Writer struct {
 }
 
 func (w *dateV2Writer) Write(value api.Value) error {
+	w.startRow(newDateStats, w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
 
-	var days int32
 	if !value.Null {
 		date := value.V.(api.Date)
-		days = api.ToDays(date)
+		days := api.ToDays(date)
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
-			*w.stats.DateStatistics.Minimum = days
-		}
-		if days > w.stats.DateStatistics.GetMaximum() {
-			*w.stats.DateStatistics.Maximum = days
-		}
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
-			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
-			}
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { addDateStats(stats.DateStatistics, days) })
 	}
 	return nil
 }
@@ -102,7 +64,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -277,24 +239,19 @@ func (r *DateV2Reader) Close() {
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+	stats := newTimestampStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, false)
-	return &timestampWriter{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &timestampWriter{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index}, data, secondary}
 }
 
 type timestampWriter struct {
@@ -304,6 +261,8 @@ type timestampWriter struct {
 }
 
 func (w *timestampWriter) Write(value api.Value) error {
+	w.startRow(newTimestampStats, w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -319,62 +278,7 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
-		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
-
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
-			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
-			}
-
-			*w.indexStats.NumberOfValues++
-		}
+		w.addStats(func(stats *pb.ColumnStatistics) { addTimestampStats(stats.TimestampStatistics, t) })
 	}
 
 	return nil
@@ -385,7 +289,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..a0c1aa0 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -1,6 +1,8 @@
 package column
 
 import (
+	"math"
+
 	"github.com/patrickhuang888/goorc/orc/api"
 	"github.com/patrickhuang888/goorc/orc/config"
 	"github.com/patrickhuang888/goorc/orc/stream"
@@ -33,16 +35,159 @@ func (w *writer) reset() {
 
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
-		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.index = &pb.RowIndex{}
+		w.indexStats = nil
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// startRow is called before a row is written. The first row of a row group adds an index entry
+// with the positions where that row starts, entry statistics are updated as rows are written.
+func (w *writer) startRow(newStats func() *pb.ColumnStatistics, streams ...stream.Writer) {
+	if !w.opts.WriteIndex {
+		return
+	}
+	if w.indexStats == nil || w.indexInRows >= w.opts.IndexStride {
+		w.indexInRows = 0
+		var pp []uint64
+		if w.schema.HasNulls {
+			pp = append(pp, w.present.GetPosition()...)
+		}
+		for _, s := range streams {
+			pp = append(pp, s.GetPosition()...)
+		}
+		w.indexStats = newStats()
+		*w.indexStats.HasNull = w.schema.HasNulls
+		w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+	}
+	w.indexInRows++
+}
+
+// addStats counts a value in the statistics of the file and of the current row group
+func (w *writer) addStats(add func(stats *pb.ColumnStatistics)) {
+	add(w.stats)
+	*w.stats.NumberOfValues++
+	if w.opts.WriteIndex {
+		add(w.indexStats)
+		*w.indexStats.NumberOfValues++
+	}
+}
+
+// minimum and maximum are not set until there is a value
+
+func newIntStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
+}
+
+func addIntStats(s *pb.IntegerStatistics, v int64) {
+	if s.Minimum == nil || v < *s.Minimum {
+		s.Minimum = &v
+	}
+	if s.Maximum == nil || v > *s.Maximum {
+		s.Maximum = &v
+	}
+	if s.Sum != nil {
+		if sum := *s.Sum + v; (sum > *s.Sum) == (v > 0) {
+			*s.Sum = sum
+		} else { // overflow, there is no sum
+			s.Sum = nil
+		}
+	}
+}
+
+func newDoubleStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64)}}
+}
+
+func addDoubleStats(s *pb.DoubleStatistics, v float64) {
+	*s.Sum += v
+	if math.IsNaN(v) { // not ordered
+		return
+	}
+	if s.Minimum == nil || v < *s.Minimum {
+		s.Minimum = &v
+	}
+	if s.Maximum == nil || v > *s.Maximum {
+		s.Maximum = &v
+	}
+}
+
+func newStringStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		StringStatistics: &pb.StringStatistics{Sum: new(int64)}}
+}
+
+// long strings are bounds instead of minimum and maximum
+func addStringStats(s *pb.StringStatistics, v string) {
+	*s.Sum += int64(len(v))
+	if (s.Minimum == nil && s.LowerBound == nil) || v < s.GetMinimum()+s.GetLowerBound() {
+		if len(v) >= MaxByteLength {
+			s.Minimum, s.LowerBound = nil, &v
+		} else {
+			s.Minimum, s.LowerBound = &v, nil
+		}
+	}
+	if (s.Maximum == nil && s.UpperBound == nil) || v > s.GetMaximum()+s.GetUpperBound() {
+		if len(v) >= MaxByteLength {
+			s.Maximum, s.UpperBound = nil, &v
+		} else {
+			s.Maximum, s.UpperBound = &v, nil
+		}
+	}
+}
+
+func newBucketStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)}}
+}
+
+func newBinaryStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+}
+
+func newDateStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		DateStatistics: &pb.DateStatistics{}}
+}
+
+func addDateStats(s *pb.DateStatistics, days int32) {
+	if s.Minimum == nil || days < *s.Minimum {
+		s.Minimum = &days
+	}
+	if s.Maximum == nil || days > *s.Maximum {
+		s.Maximum = &days
+	}
+}
+
+func newTimestampStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		TimestampStatistics: &pb.TimestampStatistics{}}
+}
+
+func addTimestampStats(s *pb.TimestampStatistics, t api.Timestamp) {
+	ms, msUtc := t.GetMilliSeconds(), t.GetMilliSecondsUtc()
+	if s.Minimum == nil || ms < *s.Minimum {
+		s.Minimum = &ms
+	}
+	if s.Maximum == nil || ms > *s.Maximum {
+		s.Maximum = &ms
+	}
+	if s.MinimumUtc == nil || msUtc < *s.MinimumUtc {
+		s.MinimumUtc = &msUtc
+	}
+	if s.MaximumUtc == nil || msUtc > *s.MaximumUtc {
+		s.MaximumUtc = &msUtc
+	}
+}
+
+func newCountStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
@@ -50,3 +195,8 @@ func (w writer) GetIndex() *pb.RowIndex {
 func (w writer) GetStats() *pb.ColumnStatistics {
 	return w.stats
 }
+
+func newDecimalStats() *pb.ColumnStatistics {
+	return &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+		DecimalStatistics: &pb.DecimalStatistics{}}
+}
-- 
2.43.0


From fd62e42ae0c8f38eb27cf7e1a9a8afb8ae22b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 23/55] fix: seeking with an index that has too few positions
 panicked

---
 orc/column/binary.go  |  2 +-
 orc/column/bool.go    |  2 +-
 orc/column/byte.go    |  2 +-
 orc/column/decimal.go |  2 +-
 orc/column/float.go   |  2 +-
 orc/column/int.go     |  2 +-
 orc/column/list.go    |  2 +-
 orc/column/map.go     |  2 +-
 orc/column/reader.go  | 18 +++++++++++++++++-
 orc/column/string.go  |  4 ++--
 orc/column/struct.go  |  2 +-
 orc/column/time.go    |  4 ++--
 12 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 10dd94e..dfeec6a 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -226,7 +226,7 @@ func (r *BinaryV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 5ac5033..b866df5 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -198,7 +198,7 @@ func (r *BoolReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset1, dataOffset2 uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 3)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index d871fa6..2e508ab 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -195,7 +195,7 @@ func (r *ByteReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 6722b3e..57e1b51 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -299,7 +299,7 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/float.go b/orc/column/float.go
index 103d537..8c1f7b9 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -113,7 +113,7 @@ func (r *FloatReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/int.go b/orc/column/int.go
index 8332c6c..cc6f03f 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -236,7 +236,7 @@ func (r *IntV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index 627e15f..11c7a01 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -128,7 +128,7 @@ func (r *ListV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..4538ecb 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -149,7 +149,7 @@ func (r *MapV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index 322d20a..7996994 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/orc/common"
 	"github.com/patrickhuang888/goorc/orc/config"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
+	"github.com/patrickhuang888/goorc/orc/stream"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
@@ -58,7 +59,8 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	return nil
 }
 
-func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
+// getStridePositions get positions of the row group, streams are how many positions each stream has without compression
+func (r *reader) getStridePositions(stride int, present *stream.BoolReader, streams ...int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
 		return
@@ -69,6 +71,20 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		return
 	}
 	pos = r.index.Entry[stride].Positions
+
+	n := 0
+	if present != nil {
+		streams = append(streams, 3)
+	}
+	for _, s := range streams {
+		n += s
+		if r.opts.CompressionKind != pb.CompressionKind_NONE { // chunk
+			n++
+		}
+	}
+	if len(pos) < n {
+		err = errors.Errorf("stride %d has %d positions, should be %d", stride, len(pos), n)
+	}
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index ad4df44..57a37c1 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -228,7 +228,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 1, 2)
 	if err != nil {
 		return err
 	}
@@ -408,7 +408,7 @@ func (r *StringDictionaryV2Reader) SeekStride(stride int) error {
 	// need data index only
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index da55c50..003aea4 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -65,7 +65,7 @@ func (r *StructReader) SeekStride(stride int) error {
 	if r.present != nil {
 		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
 
-		pos, err := r.getStridePositions(stride)
+		pos, err := r.getStridePositions(stride, r.present)
 		if err != nil {
 			return err
 		}
diff --git a/orc/column/time.go b/orc/column/time.go
index 5b9ef3a..8d4abb0 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -183,7 +183,7 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
 	}
@@ -456,7 +456,7 @@ func (r *TimestampV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present, 2, 2)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 90961a40024c6e69c4b1f0f89f8082298fc0e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 24/55] fix: decimal index positions had a position that varint
 streams do not have

---
 orc/column/decimal.go | 30 +++++++++++++-----------------
 orc/encoding/int.go   |  3 ++-
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 57e1b51..6fb6878 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -296,10 +296,10 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 		return nil
 	}
 
-	var dataChunk, dataChunkOffset, dataOffset uint64
+	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride, r.present, 2, 2)
+	pos, err := r.getStridePositions(stride, r.present, 1, 2)
 	if err != nil {
 		return err
 	}
@@ -312,9 +312,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 			pOffset2 = pos[2]
 
 			dataChunkOffset = pos[3]
-			dataOffset = pos[4]
-			secondaryChunkOffset = pos[5]
-			secondaryOffset = pos[6]
+			secondaryChunkOffset = pos[4]
+			secondaryOffset = pos[5]
 
 		} else {
 			pChunk = pos[0]
@@ -324,10 +323,9 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
-			dataOffset = pos[6]
-			secondaryChunk = pos[7]
-			secondaryChunkOffset = pos[8]
-			secondaryOffset = pos[9]
+			secondaryChunk = pos[6]
+			secondaryChunkOffset = pos[7]
+			secondaryOffset = pos[8]
 		}
 
 		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
@@ -338,20 +336,18 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 		if r.opts.CompressionKind == pb.CompressionKind_NONE {
 			dataChunkOffset = pos[0]
-			dataOffset = pos[1]
-			secondaryChunkOffset = pos[2]
-			secondaryOffset = pos[3]
+			secondaryChunkOffset = pos[1]
+			secondaryOffset = pos[2]
 		} else {
 			dataChunk = pos[0]
 			dataChunkOffset = pos[1]
-			dataOffset = pos[2]
-			secondaryChunk = pos[3]
-			secondaryChunkOffset = pos[4]
-			secondaryOffset = pos[5]
+			secondaryChunk = pos[2]
+			secondaryChunkOffset = pos[3]
+			secondaryOffset = pos[4]
 		}
 	}
 
-	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
+	if err = r.data.Seek(dataChunk, dataChunkOffset, 0); err != nil {
 		return err
 	}
 	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 6f79f21..53374ac 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1192,7 +1192,8 @@ func (e *varint64Encoder) Flush(out *bytes.Buffer) error {
 }
 
 func (e *varint64Encoder) GetPosition() []uint64 {
-	return []uint64{1}
+	// no need, always 0
+	return []uint64{}
 }
 
 func DecodeVarInt64(in BufferedReader) (value int64, err error) {
-- 
2.43.0


From a871fd4a38d2e55888b09aa5961683fd1fd0883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 25/55] fix: decimal values read were not stored in the batch

---
 orc/column/decimal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 6fb6878..0e4849c 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -249,9 +249,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
-- 
2.43.0


From 7ffda9683f21d79adcc5b7d4cdc592918d866fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 26/55] fix: timestamp values read were not stored in the batch

---
 orc/column/time.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 8d4abb0..4c33d9e 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -406,9 +406,7 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = api.Timestamp{Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
 		}
 	}
 	return nil
-- 
2.43.0


From 6f29acc044fa41209b5d28e13d914d67891085a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 27/55] fix: date reader could not seek to the start

---
 orc/column/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 4c33d9e..e9449f6 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -183,6 +183,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride, r.present, 2)
 	if err != nil {
 		return err
@@ -209,7 +218,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -217,7 +226,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
-- 
2.43.0


From 5ca041eeac06243784d748b0ef796cbec874e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 28/55] fix: list and map readers kept only the elements of the
 last row

---
 orc/column/list.go | 41 ++++++++++++++++++++++++++++-------------
 orc/column/map.go  | 42 ++++++++++++++++--------------------------
 2 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 11c7a01..102e245 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -49,6 +49,7 @@ func (r *ListV2Reader) SetChild(child Reader) {
 
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	total := 0
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
@@ -65,24 +66,37 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = v
-		}
-
-		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
-			l := vec.Vector[i].V.(uint64)
-			for j := 0; j < int(l); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
+			if total, err = addLength(total, v); err != nil {
+				return err
 			}
 		}
+	}
 
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
-			return err
+	// elements of all the rows, null row has no element
+	setLength(vec.Children[0], total)
+	return r.child.NextBatch(vec.Children[0])
+}
+
+// maxLength is how many elements lists or maps of a batch can have
+const maxLength = 1 << 31
+
+func addLength(total int, l uint64) (int, error) {
+	if l > uint64(maxLength-total) {
+		return total, errors.Errorf("%d more elements in a batch", l)
+	}
+	return total + int(l), nil
+}
+
+// setLength prepare child vector for elements of list or map
+func setLength(vec *api.ColumnVector, l int) {
+	if vec.Kind != pb.Type_STRUCT || vec.Vector != nil {
+		vec.Vector = append(vec.Vector[:0], make([]api.Value, l)...)
+	}
+	if vec.Kind == pb.Type_STRUCT {
+		for _, c := range vec.Children {
+			setLength(c, l)
 		}
 	}
-	return nil
 }
 
 func (r *ListV2Reader) Skip(rows uint64) error {
@@ -184,6 +198,7 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	r.child.Close()
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 4538ecb..02b1256 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -57,6 +57,7 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	total := 0
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
@@ -73,29 +74,19 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = int(v)
-		}
-
-		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
-			for j := 0; j < vec.Vector[i].V.(int); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
+			if total, err = addLength(total, v); err != nil {
+				return err
 			}
 		}
+	}
 
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
+	// keys and values of all the rows, null row has no element
+	setLength(vec.Children[0], total)
+	setLength(vec.Children[1], total)
+	if err = r.key.NextBatch(vec.Children[0]); err != nil {
+		return err
 	}
-	return nil
+	return r.value.NextBatch(vec.Children[1])
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
@@ -114,13 +105,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
@@ -209,6 +198,7 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
+	r.length.Close()
 	r.key.Close()
 	r.value.Close()
 }
-- 
2.43.0


From bcccab9681c5ad69fc1cdddc3a60dde6ae9b0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 29/55] fix: nulls of a struct panicked in nested structs and
 in list or map elements

---
 orc/column/struct.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index 003aea4..0fc08cc 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -125,7 +125,7 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
+		fillNulls(vec, vec.Vector)
 	}
 
 	for i, c := range r.children {
@@ -136,12 +136,16 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	return nil
 }
 
-func fillNulls(vec *api.ColumnVector) {
+// fillNulls rows null in the struct are null in its descendants, a struct without nulls has no vector,
+// elements of lists and maps have their own vectors
+func fillNulls(vec *api.ColumnVector, nulls []api.Value) {
 	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+		for i := range c.Vector {
+			c.Vector[i].Null = nulls[i].Null
+		}
+		if c.Kind == pb.Type_STRUCT {
+			fillNulls(c, nulls)
 		}
-		fillNulls(c)
 	}
 }
 
-- 
2.43.0


From 239e0c3e87886964d5d33f7052250590cec90077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 30/55] fix: values and nulls of previous rows remained in
 reused batches

---
 orc/stripe.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index f3ca773..2f82c72 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -341,19 +341,19 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	switch vec.Kind {
 	case pb.Type_STRUCT:
 		if stripe.schemas[vec.Id].HasNulls {
-			vec.Vector = vec.Vector[:size]
+			vec.Vector = clearedVector(vec.Vector, size)
 		}
 		for _, c := range vec.Children {
 			stripe.setVectorSize(size, c)
 		}
 
 	case pb.Type_LIST:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = clearedVector(vec.Vector, size)
 		// list's children maybe struct
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 
 	case pb.Type_MAP:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = clearedVector(vec.Vector, size)
 		// toClarify: will map's children be struct or just primary?
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 		vec.Children[1].Vector = vec.Children[1].Vector[:0]
@@ -361,10 +361,22 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	case pb.Type_UNION:
 		panic("not impl")
 	default:
-		vec.Vector = vec.Vector[:size]
+		vec.Vector = clearedVector(vec.Vector, size)
 	}
 }
 
+// clearedVector batch may be reused, values and nulls of previous rows should not remain
+func clearedVector(vector []api.Value, size int) []api.Value {
+	if cap(vector) < size {
+		return make([]api.Value, size)
+	}
+	vector = vector[:size]
+	for i := range vector {
+		vector[i] = api.Value{}
+	}
+	return vector
+}
+
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	var offset uint64
-- 
2.43.0


From bcad1b8ae23a295512f2e078b98fe8045097a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 31/55] fix: string readers panicked on a missing present
 stream and on a dictionary index out of range

---
 orc/column/string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 57a37c1..32db2db 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -287,7 +287,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
@@ -367,6 +367,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary has %d strings, no index %d", len(r.dictStrings), data)
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
-- 
2.43.0


From 798dca4337946bf76e966ac71f8f2e34dde2661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 32/55] fix: string dictionary writer numbered values from one
 and gave its streams values they reject

---
 orc/column/string.go | 82 ++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 52 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 32db2db..6fd89d7 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -495,9 +495,18 @@ type stringDictionaryV2Writer struct {
 
 	count int
 	data  map[string][]int
+
+	// how many values are before every index entry
+	starts []int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
+	// data is not encoded until flush, its positions are added then
+	w.startRow(newStringStats)
+	if w.opts.WriteIndex && len(w.starts) < len(w.index.Entry) {
+		w.starts = append(w.starts, w.count)
+	}
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -510,56 +519,12 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 			return errors.New("string column writing, value should be string")
 		}
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
 		w.data[s] = vs
+		w.count++
 
-		addStringStats(w.stats.StringStatistics, s)
-		*w.stats.NumberOfValues++
+		w.addStats(func(stats *pb.ColumnStatistics) { addStringStats(stats.StringStatistics, s) })
 	}
-
-	// todo: index writing
-	/*if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.dataStream.GetPosition()...)
-			pp = append(pp, w.lengthStream.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-			s := value.V.(string)
-			if l >= MaxByteLength {
-				if s < *w.indexStats.StringStatistics.LowerBound {
-					*w.indexStats.StringStatistics.LowerBound = s
-				}
-				if s > *w.indexStats.StringStatistics.UpperBound {
-					*w.indexStats.StringStatistics.UpperBound = s
-				}
-			} else {
-				if s < *w.indexStats.StringStatistics.Minimum {
-					*w.indexStats.StringStatistics.Minimum = s
-				}
-				if s > *w.indexStats.StringStatistics.Maximum {
-					*w.indexStats.StringStatistics.Maximum = s
-				}
-			}
-		}
-	}*/
 	return nil
 }
 
@@ -570,23 +535,26 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 	sort.Strings(dict)
 
-	data := make([]int, w.count)
+	data := make([]uint64, w.count)
 	for dictIndex, keyString := range dict {
 		positions := w.data[keyString]
 		for _, position := range positions {
-			data[position] = dictIndex
+			data[position] = uint64(dictIndex)
 		}
 	}
-	for _, v := range data {
+	entry := 0
+	for i, v := range data {
+		entry = w.addPositions(entry, i)
 		if err := w.dataStream.Write(v); err != nil {
 			return err
 		}
 	}
+	w.addPositions(entry, len(data))
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -618,6 +586,15 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	return nil
 }
 
+// addPositions index entries which start at this value get data position
+func (w *stringDictionaryV2Writer) addPositions(entry int, start int) int {
+	for ; entry < len(w.starts) && w.starts[entry] == start; entry++ {
+		e := w.index.Entry[entry]
+		e.Positions = append(e.Positions, w.dataStream.GetPosition()...)
+	}
+	return entry
+}
+
 func (w *stringDictionaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
 	var pn, dn, dcn, ln int64
 	if w.schema.HasNulls {
@@ -644,7 +621,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
@@ -652,6 +629,7 @@ func (w stringDictionaryV2Writer) Reset() {
 
 	w.data = map[string][]int{}
 	w.count = 0
+	w.starts = nil
 }
 
 func (w stringDictionaryV2Writer) Size() int {
-- 
2.43.0


From 62f55df7d659c14112c3f01db512cac03cacea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 33/55] fix: char and varchar columns written could not be read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..2e214e8 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From 7229f4a85629180d6172b80cdf379f41ac33668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 34/55] fix: columns without a data stream panicked

---
 orc/column/binary.go  |  4 +++-
 orc/column/bool.go    |  2 +-
 orc/column/byte.go    |  2 +-
 orc/column/decimal.go |  4 +++-
 orc/column/float.go   |  3 ++-
 orc/column/int.go     |  3 ++-
 orc/column/list.go    |  2 +-
 orc/column/map.go     |  2 +-
 orc/column/string.go  |  9 +++++++--
 orc/column/time.go    |  6 ++++--
 orc/stream/reader.go  | 15 ++++++++++++---
 11 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index dfeec6a..61e24e6 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -123,7 +123,9 @@ func (w binaryV2Writer) Size() int {
 }
 
 func NewBinaryV2Reader(opts *config.ReaderOptions, schema *api.TypeDescription, f orcio.File) Reader {
-	return &BinaryV2Reader{reader: reader{opts: opts, schema: schema, f: f}}
+	return &BinaryV2Reader{reader: reader{opts: opts, schema: schema, f: f},
+		data:   stream.NewStringContentsReader(opts, nil, 0, nil),
+		length: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type BinaryV2Reader struct {
diff --git a/orc/column/bool.go b/orc/column/bool.go
index b866df5..2534900 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -109,7 +109,7 @@ func (w boolWriter) Size() int {
 }
 
 func NewBoolReader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &BoolReader{reader: reader{opts: opts, schema: schema, f: f}}
+	return &BoolReader{reader: reader{opts: opts, schema: schema, f: f}, data: stream.NewBoolReader(opts, nil, 0, nil)}
 }
 
 type BoolReader struct {
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 2e508ab..35856df 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -115,7 +115,7 @@ type ByteReader struct {
 }
 
 func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &ByteReader{reader: reader{opts: opts, schema: schema, f: f}}
+	return &ByteReader{reader: reader{opts: opts, schema: schema, f: f}, data: stream.NewByteReader(opts, nil, 0, nil)}
 }
 
 func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 0e4849c..59e3c05 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -194,7 +194,9 @@ func (w decimalV2Writer) Size() int {
 }
 
 func NewDecimal64V2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &DecimalV2Reader{reader: reader{schema: schema, opts: opts, f: f}}
+	return &DecimalV2Reader{reader: reader{schema: schema, opts: opts, f: f},
+		data:      stream.NewVarIntReader(opts, nil, 0, nil),
+		secondary: stream.NewIntRLV2Reader(opts, nil, 0, true, nil)}
 }
 
 type DecimalV2Reader struct {
diff --git a/orc/column/float.go b/orc/column/float.go
index 8c1f7b9..1f8e33b 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -12,7 +12,8 @@ import (
 )
 
 func NewFloatReader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File, is64 bool) Reader {
-	return &FloatReader{reader: reader{f: f, schema: schema, opts: opts}, is64: is64}
+	return &FloatReader{reader: reader{f: f, schema: schema, opts: opts}, is64: is64,
+		data: stream.NewFloatReader(opts, nil, 0, nil, is64)}
 }
 
 type FloatReader struct {
diff --git a/orc/column/int.go b/orc/column/int.go
index cc6f03f..a309782 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -134,7 +134,8 @@ func (w *intWriter) Reset() {
 }
 
 func NewIntV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File, bits int) Reader {
-	return &IntV2Reader{reader: reader{f: f, schema: schema, opts: opts}, bits: bits}
+	return &IntV2Reader{reader: reader{f: f, schema: schema, opts: opts}, bits: bits,
+		data: stream.NewIntRLV2Reader(opts, nil, 0, true, nil)}
 }
 
 type IntV2Reader struct {
diff --git a/orc/column/list.go b/orc/column/list.go
index 102e245..7fc8cfc 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -11,7 +11,7 @@ import (
 )
 
 func NewListV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &ListV2Reader{reader: reader{schema: schema, opts: opts, f: f}}
+	return &ListV2Reader{reader: reader{schema: schema, opts: opts, f: f}, length: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type ListV2Reader struct {
diff --git a/orc/column/map.go b/orc/column/map.go
index 02b1256..1537cda 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -11,7 +11,7 @@ import (
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &MapV2Reader{reader: reader{schema: schema, opts: opts, f: f}}
+	return &MapV2Reader{reader: reader{schema: schema, opts: opts, f: f}, length: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type MapV2Reader struct {
diff --git a/orc/column/string.go b/orc/column/string.go
index 6fd89d7..fe9d6a5 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -129,7 +129,9 @@ func (w stringDirectV2Writer) Size() int {
 }
 
 func NewStringDirectV2Reader(opts *config.ReaderOptions, schema *api.TypeDescription, f orcio.File) Reader {
-	return &StringDirectV2Reader{reader: reader{opts: opts, schema: schema, f: f}}
+	return &StringDirectV2Reader{reader: reader{opts: opts, schema: schema, f: f},
+		data:   stream.NewStringContentsReader(opts, nil, 0, nil),
+		length: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type StringDirectV2Reader struct {
@@ -295,7 +297,10 @@ func (r *StringDirectV2Reader) Close() {
 }
 
 func NewStringDictionaryV2Reader(opts *config.ReaderOptions, schema *api.TypeDescription, f orcio.File) Reader {
-	return &StringDictionaryV2Reader{reader: reader{opts: opts, schema: schema, f: f}}
+	return &StringDictionaryV2Reader{reader: reader{opts: opts, schema: schema, f: f},
+		data:   stream.NewIntRLV2Reader(opts, nil, 0, false, nil),
+		dict:   stream.NewStringContentsReader(opts, nil, 0, nil),
+		length: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type StringDictionaryV2Reader struct {
diff --git a/orc/column/time.go b/orc/column/time.go
index e9449f6..896c816 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -104,7 +104,7 @@ func (w dateV2Writer) Size() int {
 }
 
 func NewDateV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
-	return &DateV2Reader{reader: reader{schema: schema, opts: opts, f: f}}
+	return &DateV2Reader{reader: reader{schema: schema, opts: opts, f: f}, data: stream.NewDateV2Reader(opts, nil, 0, nil)}
 }
 
 type DateV2Reader struct {
@@ -358,7 +358,9 @@ func NewTimestampV2Reader(schema *api.TypeDescription, opts *config.ReaderOption
 	if loc == nil {
 		loc = time.Local
 	}
-	return &TimestampV2Reader{reader: reader{schema: schema, opts: opts, f: f}, loc: loc}
+	return &TimestampV2Reader{reader: reader{schema: schema, opts: opts, f: f}, loc: loc,
+		data:      stream.NewIntRLV2Reader(opts, nil, 0, true, nil),
+		secondary: stream.NewIntRLV2Reader(opts, nil, 0, false, nil)}
 }
 
 type TimestampV2Reader struct {
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index b0e269d..4396403 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -31,9 +31,13 @@ type reader struct {
 	f orcio.File
 }
 
+// newReader f nil is for a stream without data, which may be left out of a file
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
+	if info == nil {
+		info = &pb.Stream{}
+	}
 	var cmpBuf *bytes.Buffer
-	if opts.CompressionKind != pb.CompressionKind_NONE {
+	if f != nil && opts.CompressionKind != pb.CompressionKind_NONE {
 		cmpBuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
 		cmpBuf.Reset()
 	}
@@ -101,8 +105,10 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	if chunk > r.info.GetLength() {
 		return errors.Errorf("seeking to %d, stream %s length %d", chunk, r.info.GetKind(), r.info.GetLength())
 	}
-	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
-		return err
+	if r.f != nil {
+		if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
+			return err
+		}
 	}
 	r.readLength = chunk
 	// positions of uncompressed data or after the last value need no chunk
@@ -178,6 +184,9 @@ func (r reader) finished() bool {
 }
 
 func (r *reader) Close() {
+	if r.f == nil {
+		return
+	}
 	if err := r.f.Close(); err != nil {
 		logger.Errorf("stream %s closing error,  %s", r.info.String(), err)
 	}
-- 
2.43.0


From f002300c56d6abeda1678052c621d9321a3821a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 35/55] fix: reading a string of a wrong length panicked

---
 orc/encoding/string.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..97da70c 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -34,10 +34,23 @@ func (e *stringContents) GetPosition() []uint64 {
 	return []uint64{}
 }
 
+const maxAlloc = 1 << 20
+
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
-	value := make([]byte, length)
-	if _, err := io.ReadFull(in, value); err != nil {
+	if length < 0 {
+		return nil, errors.Errorf("length %d error", length)
+	}
+	// length may be wrong, do not trust it before there is that much data
+	if length <= maxAlloc {
+		value := make([]byte, length)
+		if _, err := io.ReadFull(in, value); err != nil {
+			return nil, err
+		}
+		return value, nil
+	}
+	value := &bytes.Buffer{}
+	if _, err := io.CopyN(value, in, int64(length)); err != nil {
 		return nil, err
 	}
-	return value, nil
+	return value.Bytes(), nil
 }
-- 
2.43.0


From da834594740d7a2f2484dd75238423eba5405673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 36/55] fix: dates more than 292 years from 1970 were wrong

---
 orc/api/vector.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..9ba8b2b 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -116,17 +116,21 @@ func (d *Date) String() string {
 	return time.Time(*d).Format("2006-01-02")
 }
 
+const secondsOfDay = 24 * 60 * 60
+
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
-	return t
+	return Date(time.Unix(int64(days)*secondsOfDay, 0).UTC())
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	s := time.Time(d).Unix()
+	days := s / secondsOfDay
+	if s%secondsOfDay < 0 { // before 1970
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
-- 
2.43.0


From 861fe05b21c26b596370e3042af503941559195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 37/55] fix: timestamp milliseconds and timestamps not in UTC
 were wrong

---
 orc/api/vector.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 9ba8b2b..f8172b3 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -148,25 +148,19 @@ func (t Timestamp) Time() time.Time {
 	return time.Unix(base+t.Seconds, int64(t.Nanos)).In(loc)
 }
 
+// GetMilliSeconds from 1970 UTC
 func (t Timestamp) GetMilliSeconds() int64 {
-	loc := t.Loc
-	if loc == nil {
-		loc = time.UTC
-	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	return t.Time().Unix()*1_000 + int64(t.Nanos/1_000_000)
 }
 
+// GetMilliSecondsUtc if local time were UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	_, offset := t.Time().Zone()
+	return t.GetMilliSeconds() + int64(offset)*1_000
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 568a2bceb03c8732205b09684fc13e96d23e9b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 38/55] fix: decimal as float64 was scaled by 10*scale

---
 orc/api/vector.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index f8172b3..ec10200 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -2,6 +2,7 @@ package api
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/patrickhuang888/goorc/pb/pb"
@@ -97,12 +98,9 @@ func (d Decimal64) Float64() float64 {
 		return float64(d.Precision)
 	}
 	if d.Scale > 0 {
-		return float64(d.Precision) * float64(10*d.Scale)
+		return float64(d.Precision) / math.Pow10(d.Scale)
 	}
-	if d.Scale < 0 {
-		return float64(d.Precision) / float64(10*d.Scale)
-	}
-	return 0
+	return float64(d.Precision) * math.Pow10(-d.Scale)
 }
 
 // enhance: UTC
-- 
2.43.0


From 342589a64b0d0d25acb7a84ab95545a0f1ab1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 39/55] fix: schema verification stopped at the first child

---
 orc/api/type.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..cf57c21 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -160,15 +160,32 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 func (td TypeDescription) verifySchema() error {
 	if td.Kind == pb.Type_STRUCT || td.Kind == pb.Type_UNION || td.Kind == pb.Type_MAP || td.Kind == pb.Type_LIST {
 		for _, c := range td.Children {
-			if td.HasNulls && c.HasNulls {
+			if td.Kind == pb.Type_STRUCT && td.HasNulls && c.hasNulls() {
 				return errors.New("struct column has nulls cannot have nulls children")
 			}
-			return c.verifySchema()
+			if err := c.verifySchema(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
+// hasNulls rows of this column or of structs in it may be null
+func (td TypeDescription) hasNulls() bool {
+	if td.HasNulls {
+		return true
+	}
+	if td.Kind == pb.Type_STRUCT {
+		for _, c := range td.Children {
+			if c.hasNulls() {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 const DefaultRowSize = 10_000
 
 type BatchOption struct {
-- 
2.43.0


From fbf78a6c85cfc5f14d7aad26ac3357c531b70bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 40/55] fix: schemas normalized or flattened at the same time
 shared their ids and nodes

---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index cf57c21..d63983b 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -226,17 +226,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	id := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = id
+		id++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -266,25 +262,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 9833f3ef506d76061674bf61a74f4b6e91992c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 41/55] fix: files without rows or ending with a full stripe
 could not be read

---
 orc/reader.go | 9 ++-------
 orc/writer.go | 8 +++++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index e841677..4f44fcb 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -50,9 +49,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
@@ -260,9 +256,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		// todo: empty tail
+		return nil, errors.New("file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..3df0f8d 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -112,10 +112,12 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	if w.stripe.info.GetNumberOfRows() > 0 {
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From 550b3bd63499114524efc3f2f5737956413f30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 42/55] fix: structs without nulls were not counted in
 statistics and index

---
 orc/stripe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 2f82c72..a56e63e 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -59,10 +59,12 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 }
 
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
+	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
-			return err
-		}
+		value = vec.Vector[index]
+	}
+	if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
+		return err
 	}
 
 	for _, c := range vec.Children {
-- 
2.43.0


From d438cfd349f9dc348244fa3d16b5ccf12119cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 43/55] fix: row indexes written could not be found by readers

---
 orc/config/opts.go | 10 ++++++++++
 orc/stripe.go      | 22 ++++++++++++++--------
 orc/writer.go      |  9 ++++++++-
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 1bf8e56..91ff253 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -1,6 +1,8 @@
 package config
 
 import (
+	"math"
+
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 )
@@ -41,6 +43,14 @@ type WriterOptions struct {
 	//CreateVector bool
 }
 
+// CheckIndexOpts row groups should have rows
+func CheckIndexOpts(opts *WriterOptions) error {
+	if opts.WriteIndex && (opts.IndexStride <= 0 || opts.IndexStride > math.MaxInt32) {
+		return errors.Errorf("IndexStride %d error", opts.IndexStride)
+	}
+	return nil
+}
+
 func CheckWriteOpts(opts * WriterOptions) error {
 	if opts.ChunkSize > opts.StripeSize {
 		return errors.Errorf("ChunkSize %d larger than StripeSize %d ", opts.ChunkSize, opts.StripeSize)
diff --git a/orc/stripe.go b/orc/stripe.go
index a56e63e..3187864 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -90,19 +90,25 @@ func (stripe *stripeWriter) flushOut() error {
 		}
 	}
 
+	var indexInfos []*pb.Stream
 	if stripe.opts.WriteIndex {
-		for _, c := range stripe.columnWriters {
-			index := c.GetIndex()
-			var indexData []byte
-			indexData, err := proto.Marshal(index)
+		for i, c := range stripe.columnWriters {
+			indexData, err := proto.Marshal(c.GetIndex())
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			buf := &bytes.Buffer{}
+			if err = common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, buf, bytes.NewBuffer(indexData)); err != nil {
+				return err
+			}
+			nd, err := buf.WriteTo(stripe.out)
 			if err != nil {
 				return errors.WithStack(err)
 			}
 			*stripe.info.IndexLength += uint64(nd)
+
+			length := uint64(nd)
+			indexInfos = append(indexInfos, &pb.Stream{Kind: pb.Stream_ROW_INDEX.Enum(), Column: &stripe.schemas[i].Id, Length: &length})
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
@@ -115,14 +121,14 @@ func (stripe *stripeWriter) flushOut() error {
 		*stripe.info.DataLength += uint64(ns)
 	}
 
-	if err := stripe.writeFooter(); err != nil {
+	if err := stripe.writeFooter(indexInfos); err != nil {
 		return errors.WithStack(err)
 	}
 	return nil
 }
 
-func (stripe *stripeWriter) writeFooter() error {
-	footer := &pb.StripeFooter{}
+func (stripe *stripeWriter) writeFooter(indexInfos []*pb.Stream) error {
+	footer := &pb.StripeFooter{Streams: indexInfos}
 
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
diff --git a/orc/writer.go b/orc/writer.go
index 3df0f8d..1047462 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -43,6 +43,10 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}*/
 
+	if err = config.CheckIndexOpts(opts); err != nil {
+		return
+	}
+
 	var schemas []*api.TypeDescription
 	if schemas, err = schema.Flat(); err != nil {
 		return
@@ -141,7 +145,6 @@ var Magic = "ORC"
 
 func (w *writer) writeFileTail() error {
 	// Encode footer
-	// todo: rows in stride
 	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
 
 	for _, si := range w.stripe.infos {
@@ -151,6 +154,10 @@ func (w *writer) writeFileTail() error {
 	ft.Stripes = w.stripe.infos
 	ft.Types = api.SchemasToTypes(w.schemas)
 	ft.Statistics = w.columnStats
+	if w.opts.WriteIndex {
+		stride := uint32(w.opts.IndexStride)
+		ft.RowIndexStride = &stride
+	}
 
 	// metadata
 
-- 
2.43.0


From f054a55f6e74f181817e4d4c7a9b1ea4ef8788da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 44/55] fix: seek used neither the row index nor the reader
 position

---
 orc/reader.go | 31 +++++++++++++++++++++++--------
 orc/stripe.go | 30 ++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 4f44fcb..9432626 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -193,18 +193,33 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
-		return errors.New("row number larger than number of rows")
+	if rowNumber >= br.numberOfRows {
+		return errors.Errorf("no row %d found, number of rows %d", rowNumber, br.numberOfRows)
 	}
 	var rows uint64
-	for i := 0; i < len(br.stripes); i++ {
-		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+	found := false
+	for i, stripe := range br.stripes {
+		if found {
+			// may have been read
+			if err := stripe.Seek(0); err != nil {
+				return err
+			}
+			continue
+		}
+		if rows+stripe.numberOfRows > rowNumber {
+			if err := stripe.Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			found = true
 		}
-		rows += br.stripes[i].numberOfRows
+		rows += stripe.numberOfRows
 	}
-	br.cursor = rowNumber
-	return errors.New("no row found")
+	if !found {
+		return errors.Errorf("no row %d found", rowNumber)
+	}
+	return nil
 }
 
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
diff --git a/orc/stripe.go b/orc/stripe.go
index 3187864..d7a91db 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -211,6 +211,9 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// all the columns have row index
+	indexed bool
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -268,6 +271,8 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
+	indexes := make(map[uint32]bool)
+
 	// streams has sequence
 	indexStart := info.GetOffset()
 	dataStart := indexStart + info.GetIndexLength()
@@ -281,6 +286,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
 					return err
 				}
+				indexes[id] = true
 			}
 			indexStart += length
 			continue
@@ -294,6 +300,13 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		dataStart += length
 	}
 
+	stripe.indexed = stripe.ropts.IndexStride > 0
+	for _, schema := range stripe.schemas {
+		if readers[schema.Id] != nil && !indexes[schema.Id] {
+			stripe.indexed = false
+		}
+	}
+
 	// build tree
 	for _, schema := range stripe.schemas {
 		for i, c := range schema.Children {
@@ -387,23 +400,24 @@ func clearedVector(vector []api.Value, size int) []api.Value {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
-	var stride uint64
+	if rowNumber > stripe.numberOfRows {
+		return errors.Errorf("stripe %d has %d rows, no row %d", stripe.index, stripe.numberOfRows, rowNumber)
+	}
 
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	var stride uint64
+	offset := rowNumber
+	if stripe.indexed && rowNumber < stripe.numberOfRows {
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
+		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
 		return err
 	}
-
 	if err := stripe.columnReader.Skip(offset); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From 1b5bcb377304c7b4361f701985022529fd8bdfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 45/55] fix: bloom filter streams shifted data streams

---
 orc/stripe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index d7a91db..53bf0dc 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -291,6 +291,10 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			indexStart += length
 			continue
 		}
+		if streamKind == pb.Stream_BLOOM_FILTER || streamKind == pb.Stream_BLOOM_FILTER_UTF8 { // not used, it's among indexes
+			indexStart += length
+			continue
+		}
 
 		if readers[id] != nil {
 			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
-- 
2.43.0


From 150daa1cc44943ae0d32ce4ade54f9b89701f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 46/55] fix: file tails larger than the first read were put
 together in the wrong order, wrong lengths panicked

---
 orc/reader.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 9432626..f76fc17 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -292,10 +292,17 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.Errorf("not a valid orc file, postscript length %d", psLen)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
+	maxSize := uint64(size - psLen - 1)
+	if ps.GetFooterLength() > maxSize || ps.GetMetadataLength() > maxSize-ps.GetFooterLength() {
+		return nil, errors.Errorf("not a valid orc file, footer length %d, metadata length %d", ps.GetFooterLength(), ps.GetMetadataLength())
+	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
 
@@ -310,16 +317,16 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 		if _, err = io.ReadFull(f, ebuf); err != nil {
 			return nil, errors.WithStack(err)
 		}
-		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		// extra bytes are before those have been read
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From e72a0e408daede20d229556ffb64c56a169ba142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 47/55] fix: malformed file footers panicked

---
 orc/config/opts.go |  1 +
 orc/reader.go      | 68 +++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 91ff253..8065ec6 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -17,6 +17,7 @@ const (
 	DEFAULT_LENGTH_SIZE          = 100 * 1024
 	DEFAULT_ENCODING_BUFFER_SIZE = 100 * 1024
 	DefaultChunkSize             = 256 * 1024
+	MaxChunkSize                 = 1<<23 - 1 // length in chunk header
 	MAX_CHUNK_LENGTH             = uint64(32768) // 15 bit
 	DefaultEncoderBufferSize     = 8 * 1024
 	DefaultIndexStride           = 1_000
diff --git a/orc/reader.go b/orc/reader.go
index f76fc17..01f054e 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -50,7 +50,13 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	rows := tail.GetFooter().GetNumberOfRows()
 
+	if err = checkTypes(tail.Footer.Types); err != nil {
+		return nil, err
+	}
 	schemas := unmarshallSchema(tail.Footer.Types)
+	if len(tail.Footer.Statistics) > len(schemas) {
+		return nil, errors.Errorf("file footer error, %d statistics of %d columns", len(tail.Footer.Statistics), len(schemas))
+	}
 	for i, stat := range tail.Footer.Statistics {
 		schemas[i].HasNulls = stat.GetHasNull()
 	}
@@ -58,6 +64,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.CompressionKind = tail.Postscript.GetCompression()
 	if opts.CompressionKind != pb.CompressionKind_NONE { // compression_none no block size
 		opts.ChunkSize = tail.Postscript.GetCompressionBlockSize()
+		if opts.ChunkSize == 0 || opts.ChunkSize > config.MaxChunkSize {
+			return nil, errors.Errorf("compression block size %d error", opts.ChunkSize)
+		}
 	} else {
 		opts.ChunkSize = config.DefaultChunkSize
 	}
@@ -65,7 +74,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 	stats := tail.Footer.GetStatistics()
 	stripes := tail.Footer.GetStripes()
 
-	// todo: check opts chunksize !=0
+	if err = checkStripes(stripes, tail.GetFileLength(), rows); err != nil {
+		return nil, err
+	}
 
 	r = &reader{f: f, opts: opts, schemas: schemas, numberOfRows: rows, stats: stats, stripes: stripes}
 	return
@@ -222,6 +233,61 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	return nil
 }
 
+// checkTypes types should be a tree in pre-order
+func checkTypes(types []*pb.Type) error {
+	if len(types) == 0 {
+		return errors.New("file footer error, no types")
+	}
+	parents := make([]bool, len(types))
+	for i, t := range types {
+		for _, sub := range t.Subtypes {
+			if uint64(sub) >= uint64(len(types)) || int(sub) <= i || parents[sub] {
+				return errors.Errorf("file footer error, type %d has subtype %d", i, sub)
+			}
+			parents[sub] = true
+		}
+		children := len(t.Subtypes)
+		switch t.GetKind() {
+		case pb.Type_STRUCT:
+			if len(t.FieldNames) < children {
+				return errors.Errorf("file footer error, struct %d has %d names of %d fields", i, len(t.FieldNames), children)
+			}
+			children = 0
+		case pb.Type_UNION:
+			children = 0
+		case pb.Type_LIST:
+			children -= 1
+		case pb.Type_MAP:
+			children -= 2
+		}
+		if children != 0 {
+			return errors.Errorf("file footer error, type %d has %d subtypes", i, len(t.Subtypes))
+		}
+	}
+	return nil
+}
+
+// checkStripes stripes should be in the file and have all the rows
+func checkStripes(stripes []*pb.StripeInformation, size uint64, rows uint64) error {
+	for i, s := range stripes {
+		left := size
+		for _, l := range []uint64{s.GetOffset(), s.GetIndexLength(), s.GetDataLength(), s.GetFooterLength()} {
+			if l > left {
+				return errors.Errorf("file footer error, stripe %d is not in the file", i)
+			}
+			left -= l
+		}
+		if s.GetNumberOfRows() > rows {
+			return errors.Errorf("file footer error, stripe %d has %d rows", i, s.GetNumberOfRows())
+		}
+		rows -= s.GetNumberOfRows()
+	}
+	if rows != 0 {
+		return errors.Errorf("file footer error, %d rows are in no stripe", rows)
+	}
+	return nil
+}
+
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 	schemas = make([]*api.TypeDescription, len(types))
 	for i, t := range types {
-- 
2.43.0


From e5fa66fbdee43fd2a3626992540e1587236852b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 48/55] fix: malformed stripe footers panicked

---
 orc/stripe.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 53bf0dc..45f2651 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -255,7 +255,12 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
-	// make sure len(columns)==len(all schemas)
+	if len(footer.GetColumns()) < len(stripe.schemas) {
+		return errors.Errorf("stripe %d footer error, %d columns should be %d", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
+	}
+	if err := checkStreams(info, footer, len(stripe.schemas)); err != nil {
+		return err
+	}
 	readers := make([]column.Reader, len(stripe.schemas))
 	for _, schema := range stripe.schemas {
 		if stripe.bopt.IsInclude(schema.Id) {
@@ -340,6 +345,23 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	return nil
 }
 
+// checkStreams streams should be in the stripe, indexes before data
+func checkStreams(info *pb.StripeInformation, footer *pb.StripeFooter, columns int) error {
+	indexLeft, dataLeft := info.GetIndexLength(), info.GetDataLength()
+	for _, s := range footer.GetStreams() {
+		left := &dataLeft
+		switch s.GetKind() {
+		case pb.Stream_ROW_INDEX, pb.Stream_BLOOM_FILTER, pb.Stream_BLOOM_FILTER_UTF8:
+			left = &indexLeft
+		}
+		if s.GetColumn() >= uint32(columns) || s.GetLength() > *left {
+			return errors.Errorf("stripe footer error, stream %s", s.String())
+		}
+		*left -= s.GetLength()
+	}
+	return nil
+}
+
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 	stripe.prepareVector(vec)
-- 
2.43.0


From a4e58e65a2184de75f568560d4d9d235ddac74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 49/55] fix: projections that are not a tree panicked, batches
 without capacity never ended

---
 orc/reader.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 01f054e..3b3f8c8 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -87,7 +87,9 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 		return nil, errors.New("Batch option RowSize == 0")
 	}
 
-	// todo: includes verification, make sure includes is a tree
+	if err := checkIncludes(r.schemas, bopt); err != nil {
+		return nil, err
+	}
 	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
@@ -96,6 +98,38 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	return br, nil
 }
 
+// checkIncludes included columns should be a tree, list or map is included together with its elements
+func checkIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
+	if len(bopt.Includes) == 0 {
+		return nil
+	}
+	for _, id := range bopt.Includes {
+		if id >= uint32(len(schemas)) {
+			return errors.Errorf("included column %d does not exist", id)
+		}
+	}
+	if !bopt.IsInclude(0) {
+		return errors.New("root column is not included")
+	}
+	for _, schema := range schemas {
+		included := 0
+		for _, c := range schema.Children {
+			if bopt.IsInclude(c.Id) {
+				included++
+			}
+		}
+		if included > 0 && !bopt.IsInclude(schema.Id) {
+			return errors.Errorf("column %d is not included but its child is", schema.Id)
+		}
+		if bopt.IsInclude(schema.Id) && len(schema.Children) > 0 {
+			if included == 0 || (schema.Kind != pb.Type_STRUCT && included != len(schema.Children)) {
+				return errors.Errorf("column %d is included but its children are not", schema.Id)
+			}
+		}
+	}
+	return nil
+}
+
 func (r *reader) GetSchema() *api.TypeDescription {
 	return r.schemas[0]
 }
@@ -182,6 +216,9 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
+	if batch.Cap() == 0 {
+		return false, errors.New("batch has no capacity")
+	}
 
 	for br.stripeIndex < len(br.stripes) {
 		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
-- 
2.43.0


From ebdf7ee73055340728af681c0543f93b0ad13883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 50/55] fix: chunk sizes that do not fit in chunk headers wrote
 broken files

---
 orc/config/opts.go | 8 ++++++++
 orc/writer.go      | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 8065ec6..23d303a 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -52,6 +52,14 @@ func CheckIndexOpts(opts *WriterOptions) error {
 	return nil
 }
 
+// CheckChunkSize length should fit in chunk header
+func CheckChunkSize(opts *WriterOptions) error {
+	if opts.ChunkSize <= 0 || opts.ChunkSize > MaxChunkSize {
+		return errors.Errorf("ChunkSize %d error", opts.ChunkSize)
+	}
+	return nil
+}
+
 func CheckWriteOpts(opts * WriterOptions) error {
 	if opts.ChunkSize > opts.StripeSize {
 		return errors.Errorf("ChunkSize %d larger than StripeSize %d ", opts.ChunkSize, opts.StripeSize)
diff --git a/orc/writer.go b/orc/writer.go
index 1047462..70d78da 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -43,6 +43,9 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}*/
 
+	if err = config.CheckChunkSize(opts); err != nil {
+		return
+	}
 	if err = config.CheckIndexOpts(opts); err != nil {
 		return
 	}
-- 
2.43.0


From 9bb187347981465543335a04a76789cf52f58d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 51/55] fix: RLEv2 patched base runs of unsigned integers were
 rejected

---
 orc/encoding/int.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 53374ac..d99de51 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -266,7 +261,11 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 			return err
 		}
 		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		if d.signed {
+			d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		} else {
+			d.uvs = append(d.uvs, uint64(base)+delta)
+		}
 	}
 
 	// decode patch values, PGW+PW must < 64
@@ -286,6 +285,11 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 
 		// todo: check gap==255 and patch==0
 
+		if !d.signed {
+			d.uvs[mark] = (d.uvs[mark]-uint64(base) | patch<<width) + uint64(base)
+			continue
+		}
+
 		// patchValue should be at largest 63 bits?
 		v := UnZigzag(d.uvs[mark])
 		v -= base // remove added base first
-- 
2.43.0


From 3fe869cf69e14b2e3c42ec391545e332b967c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 52/55] fix: RLEv2 patch list entries wider than 24 bits were
 not aligned to a fixed width

---
 orc/encoding/int.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index d99de51..4267b0f 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -268,10 +268,10 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		}
 	}
 
-	// decode patch values, PGW+PW must < 64
+	// decode patch values, PGW+PW must < 64, entries are as wide as its closest fixed bits
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, closestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -694,6 +694,19 @@ func encodableWidth(w int) int {
 	return (w + 7) / 8 * 8
 }
 
+// closestFixedBits is how many bits a patch list entry of w bits takes
+func closestFixedBits(w int) int {
+	switch {
+	case w <= 24:
+		return w
+	case w <= 30:
+		return w + w%2
+	case w <= 32:
+		return 32
+	}
+	return (w + 7) / 8 * 8
+}
+
 // analyze bit widths, if return encoding Patch then fill the patchValues, else return encoding Direct
 // todo: patch 0
 // todo: try how many values to determine patch
@@ -893,11 +906,11 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 		return errors.New("pgw+pw must less than or equal to 64")
 	}
 
-	// write patch list, (PLL*(PGW+PW) bytes
+	// write patch list, entries are as wide as the closest fixed bits of PGW+PW
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, closestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From f6eb81bb0168ecf4f604d7071f85fd76e0119446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 53/55] fix: chunk lengths beyond the end of the data allocated
 memory for the whole chunk

---
 orc/common/misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index cfa37ff..e830d11 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -240,6 +240,9 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 			}
 
 			chunkLength, original := DecChunkHeader(header)
+			if chunkLength > src.Len() {
+				return errors.Errorf("chunk length %d longer than the %d bytes left", chunkLength, src.Len())
+			}
 
 			if original {
 				if _, err = io.CopyN(dst, src, int64(chunkLength)); err != nil {
-- 
2.43.0


From 13b63b6fa792a2fbb15f6c6ff104f827fa8e492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 54/55] fix: errors closing the file written were only logged

---
 orc/writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 70d78da..f5d0979 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -129,10 +129,7 @@ func (w *writer) Close() error {
 	if err := w.writeFileTail(); err != nil {
 		return err
 	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
-	}
-	return nil
+	return w.f.Close()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From b336de78e7e1bfa10b9e69b4be5190d2ff60cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:30 +0000
Subject: [PATCH 55/55] fix: structs inside of null structs were counted,
 values inside of null structs shifted the rows after them

---
 orc/stripe.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 45f2651..42a9363 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -37,7 +37,7 @@ type stripeWriter struct {
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	count := uint64(0)
 	for i := 0; i < vec.Len(); i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -58,9 +58,10 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
-	var value api.Value
-	if vec.Vector != nil { // maybe no present struct vector
+// writeValue writes a row, the columns inside of a null struct are null
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, null bool) error {
+	value := api.Value{Null: null}
+	if vec.Vector != nil && !null { // maybe no present struct vector
 		value = vec.Vector[index]
 	}
 	if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
@@ -68,7 +69,7 @@ func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, value.Null); err != nil {
 			return err
 		}
 	}
-- 
2.43.0

