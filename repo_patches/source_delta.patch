From d18b905bc325c5113fcb742f23590a9b4998e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/89] fix: encode doubles with their 8 octet length

---
 encoding/appdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..e71395e 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -93,7 +93,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
-- 
2.43.0


From b70537f121f4b4a0397654cfc779acebaff4bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/89] fix: encode signed integers with a length that keeps
 their sign

---
 encoding/appdata.go |  5 ++---
 encoding/encoder.go | 13 +++++++++++++
 encoding/general.go | 13 +++++++++++++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index e71395e..c02e9e2 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -106,10 +106,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..6b4d387 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,19 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..945788c 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,19 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength calculates how many octets are necessary to hold the value in
+// two's complement, as per 20.2.5
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From c1f8bfed171290ee74f937053b324ef6137093ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/89] fix: extend the sign of 24 bit signed integers

---
 encoding/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..883dea8 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -155,7 +155,7 @@ func (d *Decoder) signed24() int32 {
 	d.decode(&c)
 
 	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
+	x = int32(int32(a) << 16)
 	x |= int32((int32(b) << 8) & 0x0000ff00)
 	x |= int32(int32(c) & 0x000000ff)
 	return x
-- 
2.43.0


From 1672448d7aac4dce8eaace72bde86ee918c10109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 04/89] fix: never trust a received length before reading the
 data it announces

---
 encoding/date.go    |  9 +++++++++
 encoding/decoder.go | 23 ++++++++++++++++++++++-
 encoding/string.go  | 11 +++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..1646cbd 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -46,6 +46,9 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 	if length <= 0 {
 		return
 	}
+	if !d.available(length) {
+		return
+	}
 	data := make([]byte, length)
 	_, d.err = d.Read(data)
 	if d.err != nil {
@@ -78,10 +81,16 @@ func (d *Decoder) time(t *btypes.Time, length int) {
 	if length <= 0 {
 		return
 	}
+	if !d.available(length) {
+		return
+	}
 	data := make([]byte, length)
 	if _, d.err = d.Read(data); d.err != nil {
 		return
 	}
+	if len(data) < 4 {
+		return
+	}
 
 	t.Hour = int(data[0])
 	t.Minute = int(data[1])
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 883dea8..e3e81ec 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -39,10 +40,26 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	if d.available(int(n)) {
+		d.buff.Next(int(n))
+	}
 	return d.err
 }
 
+// available checks that the given number of bytes is still left to be read. A
+// peer can claim any length, so this has to be checked before making space for
+// the data. The error is set if there is not enough data.
+func (d *Decoder) available(length int) bool {
+	if d.err != nil {
+		return false
+	}
+	if length < 0 || length > d.len() {
+		d.err = io.ErrUnexpectedEOF
+		return false
+	}
+	return true
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -186,6 +203,10 @@ func (d *Decoder) bitString(length int) *btypes.BitString {
 	if length <= 0 {
 		return nil
 	}
+	if !d.available(length) {
+		return nil
+	}
+
 	data := make([]uint8, length)
 	d.decode(data)
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..e6b4d20 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -30,6 +30,14 @@ func decodeUCS2(s string) (string, error) {
 }
 
 func (d *Decoder) string(s *string, len int) error {
+	// The encoding byte isn't part of the length
+	if len < 0 || !d.available(len+1) {
+		if d.err == nil {
+			d.err = fmt.Errorf("string without an encoding")
+		}
+		return d.Error()
+	}
+
 	var t stringType
 	d.decode(&t)
 	switch t {
@@ -58,6 +66,9 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
+	if !d.available(len) {
+		return
+	}
 	*b = make([]byte, len)
 	d.decode(b)
 }
-- 
2.43.0


From 441787fa2ed695b537e83f3553a8b5f909a2812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 05/89] fix: report values with an impossible length instead of
 misreading them

---
 encoding/appdata.go | 16 +++++++++++++++-
 encoding/date.go    | 12 ++++--------
 encoding/decoder.go | 11 +++++++++++
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index c02e9e2..994c55a 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -35,6 +35,14 @@ const (
 	objectIDLen uint32 = 4
 )
 
+// fixedLength is the length of the values that can't have variable length
+var fixedLength = map[uint8]uint32{
+	tagNull:     0,
+	tagReal:     realLen,
+	tagDouble:   doubleLen,
+	tagObjectID: objectIDLen,
+}
+
 // All app layer is non-context specific
 const appLayerContext = false
 
@@ -130,9 +138,15 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 }
 
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
+	// Values that always have the same size can't have any other length
+	fixed, ok := fixedLength[tag]
+	if ok && uint32(len) != fixed {
+		d.invalidLength(fmt.Sprintf("tag %d", tag), len)
+		return nil, d.Error()
+	}
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
diff --git a/encoding/date.go b/encoding/date.go
index 1646cbd..af31205 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -43,7 +43,8 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
+	if length != int(dateLen) {
+		d.invalidLength("date", length)
 		return
 	}
 	if !d.available(length) {
@@ -54,9 +55,6 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	if dt.Year != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
@@ -78,7 +76,8 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
+	if length != int(timeLen) {
+		d.invalidLength("time", length)
 		return
 	}
 	if !d.available(length) {
@@ -88,9 +87,6 @@ func (d *Decoder) time(t *btypes.Time, length int) {
 	if _, d.err = d.Read(data); d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	t.Hour = int(data[0])
 	t.Minute = int(data[1])
diff --git a/encoding/decoder.go b/encoding/decoder.go
index e3e81ec..b619b26 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"github.com/NubeDev/bacnet/btypes"
 )
@@ -60,6 +61,13 @@ func (d *Decoder) available(length int) bool {
 	return true
 }
 
+// invalidLength sets the error when a value can't have the length it came with
+func (d *Decoder) invalidLength(name string, length int) {
+	if d.err == nil {
+		d.err = fmt.Errorf("invalid length %d for a value of type %s", length, name)
+	}
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -161,6 +169,7 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength("unsigned", length)
 		return 0
 	}
 }
@@ -195,12 +204,14 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength("signed", length)
 		return 0
 	}
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
 	if length <= 0 {
+		d.invalidLength("bit string", length)
 		return nil
 	}
 	if !d.available(length) {
-- 
2.43.0


From c3ba829cc0a0e49f334382c59784491cfd0888c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 06/89] fix: count the years of dates from 1900 as the standard
 does

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index af31205..c90a5f8 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -3,9 +3,9 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
-- 
2.43.0


From fe2ce8d9bc8d4342eadbbc8e718c973b6912ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 07/89] fix: keep the year of a received date unspecified

---
 encoding/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/date.go b/encoding/date.go
index c90a5f8..ce49ef6 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -56,7 +56,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != notDefined {
 		dt.Year = int(data[0]) + epochYear
 	} else {
 		dt.Year = int(data[0])
-- 
2.43.0


From 25575051a5ff31066667927d1eb8f98ddfe8df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 08/89] fix: refuse bit strings that are too long or miss their
 bits

---
 encoding/decoder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b619b26..175c836 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -4,8 +4,8 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"io"
 	"github.com/NubeDev/bacnet/btypes"
+	"io"
 )
 
 // Decoder used
@@ -218,8 +218,18 @@ func (d *Decoder) bitString(length int) *btypes.BitString {
 		return nil
 	}
 
+	if length-1 > btypes.MaxBitStringBytes {
+		d.err = fmt.Errorf("bit string of %d bytes is too long", length-1)
+		return nil
+	}
+
 	data := make([]uint8, length)
 	d.decode(data)
+	// There can't be any unused bits without the byte that holds them
+	if data[0] > 7 || (length == 1 && data[0] > 0) {
+		d.err = fmt.Errorf("bit string of %d bytes can't have %d unused bits", length-1, data[0])
+		return nil
+	}
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
-- 
2.43.0


From 7833550b67e7a4b7275e00378691d551d4919d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 09/89] fix: keep bit string operations inside the buffer of
 the bit string

---
 btypes/bitstring.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..a907aaf 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -10,6 +10,9 @@ type BitString struct {
 }
 
 func NewBitString(bufferSize int) *BitString {
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
@@ -39,7 +42,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if byteNumber < MaxBitStringBytes && int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +59,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if bitNumber < (MaxBitStringBytes*8) && int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +78,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && index < MaxBitStringBytes && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && index < MaxBitStringBytes && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
@@ -90,7 +93,7 @@ func (bs *BitString) SetByte(index uint8, value byte) bool {
 }
 
 func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
-	if bs != nil {
+	if bs != nil && int(byteUsed) <= len(bs.Value) && int(bitsUnused) <= int(byteUsed)*8 {
 		bs.BitUsed = byteUsed*8 - bitsUnused
 		return true
 	}
-- 
2.43.0


From d22ebf62d9084c1384704540ba231e1b2073cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 10/89] fix: decode the class and code of errors that are not
 enclosed in tags

---
 encoding/apdu.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..5750892 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -112,29 +112,31 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
 	d.decode(&a.Service)
 
-	_, meta := d.tagNumber()
+	tag, meta := d.tagNumber()
 	if meta.isOpening() {
-		_, _, value := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
-		_, _, value = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
+		tag, meta = d.tagNumber()
+		a.Error.Class = bacerr.ErrorClass(d.errorValue(tag, meta))
+		tag, meta = d.tagNumber()
+		a.Error.Code = bacerr.ErrorCode(d.errorValue(tag, meta))
 		_, meta = d.tagNumber()
-		if !meta.isClosing() {
+		if d.err == nil && !meta.isClosing() {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
+		a.Error.Class = bacerr.ErrorClass(d.errorValue(tag, meta))
+		tag, meta = d.tagNumber()
+		a.Error.Code = bacerr.ErrorCode(d.errorValue(tag, meta))
+	}
+	return d.Error()
+}
 
+// errorValue reads an error class or an error code, both are enumerated
+func (d *Decoder) errorValue(tag uint8, meta tagMeta) uint32 {
+	value := d.value(meta)
+	if d.err == nil && (tag != tagEnumerated || meta.isContextSpecific()) {
+		d.err = &ErrorIncorrectTag{Expected: tagEnumerated, Given: tag}
 	}
-	return nil
+	return d.enumerated(int(value))
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From 2b2f9d95a28dfa855e212a8bd87b5a6e925e3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 11/89] fix: do not take a closing tag for an opening tag

---
 encoding/general.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/general.go b/encoding/general.go
index 945788c..104e39b 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -64,7 +64,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return ((*t & tagMask) == openingMask)
 }
 
 func (t *tagMeta) Clear() {
-- 
2.43.0


From dd5bfe5b4a3eea93f0199a0272038b950bb8fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 12/89] fix: announce the largest size when more than it is
 accepted

---
 encoding/general.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/general.go b/encoding/general.go
index 104e39b..788b89f 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -137,7 +137,7 @@ func encodeMaxSegsMaxApdu(maxSegs uint, maxApdu uint) uint8 {
 	} else if maxApdu <= 1024 {
 		octet |= 0x04
 		/* fits in an ISO 8802-3 frame */
-	} else if maxApdu <= 1476 {
+	} else {
 		octet |= 0x05
 	}
 	return octet
-- 
2.43.0


From 1efde48010abf72b1a338e615d74e1900a1b5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/89] fix: decode the vendor id of the first proprietary
 network message

---
 encoding/npdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..5bb2a70 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
-- 
2.43.0


From ec04f14ec221dd44aaab1acb44cf789d576fb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 14/89] fix: decode every network a router announces

---
 encoding/npdu.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index 5bb2a70..5c9308e 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -116,14 +116,18 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
+			for d.err == nil && d.len() > 0 {
 				d.decode(&n.Source.Net)
+				known := false
 				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
+					if adr.Net == n.Source.Net { //make sure that a network is only added once
+						known = true
+						break
 					}
 				}
+				if !known {
+					nets = append(nets, *n.Source)
+				}
 			}
 			addr = nets
 		}
-- 
2.43.0


From ee1532fe5acac9dc4497877e7eccf96310488e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 15/89] fix: send the priority of multiple writes with its own
 tag

---
 encoding/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 6b4d387..0217972 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -205,7 +205,9 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
 			if prop.Priority != btypes.Normal {
+				tag = 3
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
 		}
-- 
2.43.0


From 375c2243769dc087529d53665cb7fa303c0892ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 16/89] fix: encode the values of multiple property replies as
 application data

---
 encoding/appdata.go         | 14 ++++++++++++++
 encoding/readmultipleack.go |  4 +---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 994c55a..349a0cc 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -137,6 +137,20 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	return nil
 }
 
+// propertyValue encodes the value of a property, which may be a list of values
+func (e *Encoder) propertyValue(i interface{}) error {
+	list, ok := i.([]interface{})
+	if !ok {
+		return e.AppData(i, false)
+	}
+	for _, v := range list {
+		if err := e.AppData(v, false); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	// Values that always have the same size can't have any other length
 	fixed, ok := fixedLength[tag]
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..158daa4 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.propertyValue(prop.Data)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
-- 
2.43.0


From 30cbb66447bd4ba91a0a1a9a89706a622e1a2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 17/89] fix: close the value of a read property reply with the
 tag that opened it

---
 encoding/readprop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..84d421e 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,9 +69,8 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
-	e.AppData(prop.Data, false)
+	e.propertyValue(prop.Data)
 	e.closingTag(tagID)
 	return e.Error()
 }
-- 
2.43.0


From 6a584bf99e922aeda62d173dd0f0e8e576209357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 18/89] fix: refuse identifiers that do not fit and requests
 without a property

---
 encoding/appdata.go  |  1 +
 encoding/encoder.go  | 27 +++++++++++++++++++++++++++
 encoding/readprop.go |  9 +++++++--
 encoding/validate.go |  9 +++++++++
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 349a0cc..8932c64 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -126,6 +126,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	case btypes.ObjectID:
 		e.tag(tagInfo{ID: tagObjectID, Context: appLayerContext, Value: objectIDLen})
 		e.objectId(val.Type, val.Instance)
+		return e.Error()
 	case null.Null:
 		e.tag(tagInfo{ID: tagNull, Context: appLayerContext})
 	default:
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 0217972..670b897 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -25,6 +25,14 @@ func (e *Encoder) Error() error {
 	return e.err
 }
 
+// fail keeps the first error, nothing is written after that
+func (e *Encoder) fail(err error) error {
+	if e.err == nil {
+		e.err = err
+	}
+	return e.err
+}
+
 func (e *Encoder) Bytes() []byte {
 	return e.buff.Bytes()
 }
@@ -117,6 +125,15 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	// Never address another object by cutting off what doesn't fit
+	if err := isValidObjectType(objectType); err != nil {
+		e.fail(err)
+		return
+	}
+	if err := isValidObjectInstance(instance); err != nil {
+		e.fail(err)
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
@@ -171,7 +188,13 @@ func (e *Encoder) signed(value int32) {
 
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
+	if len(objects) == 0 {
+		return e.fail(errNoProperty)
+	}
 	for _, obj := range objects {
+		if len(obj.Properties) == 0 {
+			return e.fail(errNoProperty)
+		}
 		tag = 0
 		e.contextObjectID(tag, obj.ID.Type, obj.ID.Instance)
 		// Tag 1 - Opening Tag
@@ -188,6 +211,10 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 	// for each property
 	var tag uint8
 	for _, prop := range properties {
+		if err := isValidPropertyType(uint32(prop.Type)); err != nil {
+			return e.fail(err)
+		}
+
 		// Tag 0 - Property ID
 		tag = 0
 		e.contextEnumerated(tag, uint32(prop.Type))
diff --git a/encoding/readprop.go b/encoding/readprop.go
index 84d421e..5ccec11 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -9,10 +9,15 @@ import (
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
 	if err := isValidObjectType(data.Object.ID.Type); err != nil {
-		return 0, err
+		return 0, e.fail(err)
 	}
+
+	if len(data.Object.Properties) == 0 {
+		return 0, e.fail(errNoProperty)
+	}
+
 	if err := isValidPropertyType(uint32(data.Object.Properties[0].Type)); err != nil {
-		return 0, err
+		return 0, e.fail(err)
 	}
 
 	// Tag - Object Type and Instance
diff --git a/encoding/validate.go b/encoding/validate.go
index dad8923..ce14382 100644
--- a/encoding/validate.go
+++ b/encoding/validate.go
@@ -6,6 +6,15 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 )
 
+var errNoProperty = fmt.Errorf("at least one property is needed")
+
+func isValidObjectInstance(instance btypes.ObjectInstance) error {
+	if instance > MaxInstance {
+		return fmt.Errorf("Object instance is %d which must not be more than %d", instance, MaxInstance)
+	}
+	return nil
+}
+
 func isValidObjectType(idType btypes.ObjectType) error {
 	if idType > MaxObject {
 		return fmt.Errorf("Object btypes is %d which must be less then %d", idType, MaxObject)
-- 
2.43.0


From ef7d9b84a087ecb63669cd4d8d99531182384a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 19/89] fix: report binary values of a wrong type instead of
 panicking

---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 8932c64..fb866f0 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -82,7 +82,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From 6f4b7d1f44617c91e367fd3eb8e1641ec58d75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 20/89] fix: read the values of a multiple property reply up to
 their closing tag

---
 encoding/readmultipleack.go | 150 +++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 63 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 158daa4..938fa76 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -147,68 +147,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 4 - Opening Tag
 			if tag == 4 && meta.isOpening() {
-				var array []interface{}
-				tag, meta = d.tagNumber()
-				if d.err != nil {
-					return d.err
-				}
-				for {
-					if meta.isContextSpecific() {
-						if meta.isClosing() {
-							_ = d.UnreadByte()
-						} else if meta.isOpening() {
-							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
-								dt := &btypes.DataTime{}
-								for {
-									tag, meta, length = d.tagNumberAndValue()
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
-									} else if tag == tagDate {
-										d.date(&dt.Date, int(length))
-									} else if tag == tagTime {
-										d.time(&dt.Time, int(length))
-									} else if length > 0 {
-										d.Skip(length)
-									}
-								}
-								array = append(array, dt)
-							}
-						} else {
-							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
-							lenValue := d.value(meta)
-							tag = tagTypeInContext(prop.Type, tag)
-							if tag == maxTag {
-								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
-								}
-							} else {
-								data, err := d.AppDataOfTag(tag, int(lenValue))
-								if err != nil {
-									return err
-								}
-								array = append(array, data)
-							}
-						}
-					} else {
-						data, err := d.AppDataOfTag(tag, int(d.value(meta)))
-						if err != nil {
-							return err
-						}
-						array = append(array, data)
-					}
-					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+				array, err := d.propertyValue(prop.Type, tag)
+				if err != nil {
+					return err
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
@@ -216,7 +157,6 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 					prop.Data = array
 				}
 				obj.Properties = append(obj.Properties, prop)
-
 				tag, meta, length = d.tagNumberAndValue()
 			} else if tag == 5 && meta.isOpening() {
 				//Tag 5 error
@@ -239,3 +179,87 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 	}
 	return d.Error()
 }
+
+// propertyValue decodes the values of a property up to the closing tag that
+// belongs to the given opening tag, which must have been read already.
+// Constructed values may be nested.
+func (d *Decoder) propertyValue(property btypes.PropertyType, openedTag uint8) ([]interface{}, error) {
+	var array []interface{}
+	depth := 0
+	for {
+		tag, meta := d.tagNumber()
+		if d.err != nil {
+			return nil, d.err
+		}
+		if meta.isClosing() {
+			if depth == 0 {
+				if tag != openedTag {
+					return nil, &ErrorIncorrectTag{Expected: openedTag, Given: tag}
+				}
+				return array, nil
+			}
+			depth--
+		} else if meta.isOpening() {
+			if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
+				dt := &btypes.DataTime{}
+				d.dateTime(dt)
+				array = append(array, dt)
+			} else {
+				depth++
+			}
+		} else if meta.isContextSpecific() {
+			length := int(d.value(meta))
+			if !d.available(length) {
+				return nil, d.err
+			}
+			// The type is only a guess, what follows must not depend on it
+			content := NewDecoder(d.buff.Next(length))
+			data, err := content.contextData(tagTypeInContext(property, tag), length)
+			if err == nil {
+				array = append(array, data)
+			}
+		} else {
+			data, err := d.AppDataOfTag(tag, int(d.value(meta)))
+			if err != nil {
+				return nil, err
+			}
+			array = append(array, data)
+		}
+	}
+}
+
+// contextData decodes context tagged data of the given application type
+func (d *Decoder) contextData(tag uint8, length int) (interface{}, error) {
+	if tag == tagBool {
+		// Unlike in application data, the value isn't part of the tag
+		if length != 1 {
+			d.invalidLength("boolean", length)
+		}
+		return d.unsigned(length) > 0, d.Error()
+	}
+	return d.AppDataOfTag(tag, length)
+}
+
+// dateTime decodes the date and the time up to the closing tag
+func (d *Decoder) dateTime(dt *btypes.DataTime) {
+	depth := 0
+	for d.err == nil {
+		tag, meta, length := d.tagNumberAndValue()
+		if meta.isOpening() {
+			depth++
+		} else if meta.isClosing() {
+			if depth == 0 {
+				return
+			}
+			depth--
+		} else if meta.isContextSpecific() {
+			d.Skip(length)
+		} else if depth == 0 && tag == tagDate {
+			d.date(&dt.Date, int(length))
+		} else if depth == 0 && tag == tagTime {
+			d.time(&dt.Time, int(length))
+		} else if tag != tagBool {
+			d.Skip(length)
+		}
+	}
+}
-- 
2.43.0


From 8705b929901d540f4a48ea45bd0bc65c867adafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 21/89] fix: report multiple property replies that end too
 early

---
 encoding/readmultipleack.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 938fa76..bd4dec7 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -117,11 +117,12 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 		// Tag 2 - Property Tag
 		tag, meta, length = d.tagNumberAndValue()
-		if tag != 2 {
-			return &ErrorIncorrectTag{Expected: 2, Given: tag}
-		}
 
-		for d.len() > 0 && tag == 2 && !meta.isClosing() {
+		// The properties end at the closing tag that belongs to tag 1
+		for d.err == nil && !(tag == 1 && meta.isClosing()) {
+			if tag != 2 {
+				return &ErrorIncorrectTag{Expected: 2, Given: tag}
+			}
 			if !meta.isContextSpecific() {
 				return &ErrorWrongTagType{ContextTag}
 			}
@@ -131,9 +132,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 3 - (Optional) Array Length
 			tag, meta = d.tagNumber()
-			if tag == 2 {
-				continue
-			} else if tag == 3 {
+			if tag == 3 {
 				if !meta.isContextSpecific() {
 					return &ErrorWrongTagType{ContextTag}
 				}
@@ -175,6 +174,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			}
 		}
 
+		if d.err != nil {
+			return d.err
+		}
 		*objects = append(*objects, obj)
 	}
 	return d.Error()
-- 
2.43.0


From 8931d1aa711f6ace7c5f1a3ec947f20e42d4a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 22/89] fix: treat context tagged values of other properties as
 unknown

---
 encoding/context_tag.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..635edff 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -5,11 +5,10 @@ import "github.com/NubeDev/bacnet/btypes"
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
 /* returns the fixed tag type for certain context tagged properties */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	// Unless it is known better the type is unknown
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
-- 
2.43.0


From 26abc2daf12f19888b101fcdc6e3710f4baf3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 23/89] fix: read the value of a read property reply up to its
 closing tag

---
 encoding/readmultipleack.go |  2 +-
 encoding/readprop.go        | 56 +++++++++++++------------------------
 2 files changed, 21 insertions(+), 37 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index bd4dec7..e09dbaa 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -186,7 +186,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 // belongs to the given opening tag, which must have been read already.
 // Constructed values may be nested.
 func (d *Decoder) propertyValue(property btypes.PropertyType, openedTag uint8) ([]interface{}, error) {
-	var array []interface{}
+	array := make([]interface{}, 0)
 	depth := 0
 	for {
 		tag, meta := d.tagNumber()
diff --git a/encoding/readprop.go b/encoding/readprop.go
index 5ccec11..62ef501 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -100,6 +100,10 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if !meta.isContextSpecific() {
 		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
 	}
+	if length := d.value(meta); length != objectIDLen {
+		d.invalidLength("object id", int(length))
+		return d.Error()
+	}
 	objectType, instance = d.objectId()
 	data.Object.ID.Type = objectType
 	data.Object.ID.Instance = instance
@@ -116,46 +120,32 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	var prop btypes.Property
 	prop.Type = btypes.PropertyType(d.enumerated(int(lenValue)))
 
+	// Check to see if we still have bytes to read.
+	prop.ArrayIndex = ArrayAll
 	if d.len() != 0 {
 		tag, meta = d.tagNumber()
-	}
 
-	// Check to see if we still have bytes to read.
-	if d.buff.Len() != 0 || tag >= 2 {
 		// If we do then that means we are reading the optional argument,
 		// arra length
 
 		// Tag 2: Array Length (OPTIONAL)
-		var lenValue uint32
-		lenValue = d.value(meta)
-
-		var openTag uint8
-		// I tried to not use magic numbers but it doesn't look like it can be avoided
-		// If the attag we receive is a tag of 2 then set the value
-		if tag == 2 {
-			prop.ArrayIndex = d.unsigned(int(lenValue))
-			if d.len() > 0 {
-				openTag, meta = d.tagNumber()
+		more := true
+		if tag == 2 && !meta.isOpening() {
+			prop.ArrayIndex = d.unsigned(int(d.value(meta)))
+			if more = d.len() > 0; more {
+				tag, meta = d.tagNumber()
 			}
-		} else {
-			openTag = tag
-			prop.ArrayIndex = ArrayAll
 		}
 
-		if openTag == 3 {
-			var err error
-			// We subtract one to ignore the closing tag.
-			datalist := make([]interface{}, 0)
-
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
-			for i := 0; d.buff.Len() > 1; i++ {
-				data, err := d.AppData()
-				if err != nil {
-					d.err = err
-					return err
-				}
-				datalist = append(datalist, data)
+		// Tag 3: The value, up to its closing tag
+		if more && d.err == nil {
+			if tag != 3 || !meta.isOpening() {
+				return &ErrorIncorrectTag{3, tag}
+			}
+			datalist, err := d.propertyValue(prop.Type, tag)
+			if err != nil {
+				d.err = err
+				return err
 			}
 			prop.Data = datalist
 
@@ -163,13 +153,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			if len(datalist) == 1 {
 				prop.Data = datalist[0]
 			}
-			if err != nil {
-				d.err = err
-				return err
-			}
 		}
-	} else {
-		prop.ArrayIndex = ArrayAll
 	}
 
 	// We now assemble all the values that we have read above
-- 
2.43.0


From e7e94033599d694f47cb3fdbca3f73b11c372199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 24/89] fix: do not decode context tagged data as application
 data

---
 encoding/appdata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index fb866f0..2591e01 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -210,6 +210,12 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	}
 }
 func (d *Decoder) AppData() (interface{}, error) {
-	tag, _, lenvalue := d.tagNumberAndValue()
+	tag, meta, lenvalue := d.tagNumberAndValue()
+	if d.err == nil && meta.isContextSpecific() {
+		d.err = fmt.Errorf("tag %d is not an application tag", tag)
+	}
+	if d.err != nil {
+		return nil, d.err
+	}
 	return d.AppDataOfTag(tag, int(lenvalue))
 }
-- 
2.43.0


From b96b31bd630d4d16cd0e9a6b5f7c5203f129b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 25/89] fix: refuse an I-Am with missing or wrong values

---
 encoding/iam.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..3530799 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,20 +25,31 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
+	i, ok := objID.(btypes.ObjectID)
+	if !ok {
+		return fmt.Errorf("expected the object id of a device, got %T", objID)
 	}
-	maxapdu, _ := d.AppData()
-	if m, ok := maxapdu.(uint32); ok {
-		id.MaxApdu = m
+	id.ID = i
+	if id.MaxApdu, err = d.iamValue(tagUint); err != nil {
+		return err
 	}
-	segmentation, _ := d.AppData()
-	if m, ok := segmentation.(uint32); ok {
-		id.Segmentation = btypes.Enumerated(m)
+	segmentation, err := d.iamValue(tagEnumerated)
+	if err != nil {
+		return err
 	}
-	vendor, err := d.AppData()
-	if v, ok := vendor.(uint32); ok {
-		id.Vendor = v
+	id.Segmentation = btypes.Enumerated(segmentation)
+	if id.Vendor, err = d.iamValue(tagUint); err != nil {
+		return err
 	}
 	return d.Error()
 }
+
+// iamValue decodes one of the numbers of an I-Am, all of them are mandatory
+func (d *Decoder) iamValue(expected uint8) (uint32, error) {
+	tag, meta, length := d.tagNumberAndValue()
+	if d.err == nil && (tag != expected || meta.isContextSpecific()) {
+		d.err = &ErrorIncorrectTag{Expected: expected, Given: tag}
+	}
+	value := d.unsigned(int(length))
+	return value, d.err
+}
-- 
2.43.0


From 985114ce0f50e41948cd9070ae6d568fbe0c6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 26/89] fix: do not take the sequence number of a segmented
 reply for its service

---
 encoding/apdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 5750892..bd0a0ca 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -141,6 +145,10 @@ func (d *Decoder) errorValue(tag uint8, meta tagMeta) uint32 {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
-- 
2.43.0


From 89c6d2713e0a514be67a07f9a72371a09b61dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 27/89] fix: announce the real length of the hardware address
 of a device

---
 btypes/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..1a79f95 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -27,7 +27,7 @@ func (a *Address) IsBroadcast() bool {
 //SetLength if device is of type ms-tp then set address len to 1
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
-- 
2.43.0


From 57acb7e9338702e74ccd05cb1c04db3cd9fca6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 28/89] fix: load the objects of types without a name under
 their own type

---
 btypes/object.go     | 19 +++++++++++++++++--
 btypes/object_map.go | 21 +++++++++++++++------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..b941500 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -89,18 +89,33 @@ var objStrTypeMap = map[string]ObjectType{
 	CharacterStringStr:   CharacterString,
 }
 
+// unknownTypeFormat is used for the types that don't have a name
+const unknownTypeFormat = "Unknown (%d)"
+
 func GetType(s string) ObjectType {
-	t, ok := objStrTypeMap[s]
+	t, ok := parseType(s)
 	if !ok {
 		return 0
 	}
 	return t
 }
 
+// parseType is the reverse of String
+func parseType(s string) (ObjectType, bool) {
+	if t, ok := objStrTypeMap[s]; ok {
+		return t, true
+	}
+	var t ObjectType
+	if _, err := fmt.Sscanf(s, unknownTypeFormat, &t); err != nil || t.String() != s {
+		return 0, false
+	}
+	return t, true
+}
+
 func (t ObjectType) String() string {
 	s, ok := objTypeMap[t]
 	if !ok {
-		return fmt.Sprintf("Unknown (%d)", t)
+		return fmt.Sprintf(unknownTypeFormat, uint16(t))
 	}
 	return fmt.Sprintf("%s", s)
 }
diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..cf3ad8c 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -1,6 +1,9 @@
 package btypes
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"fmt"
+)
 
 type ObjectMap map[ObjectType]map[ObjectInstance]Object
 
@@ -30,20 +33,26 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil {
+		*om = make(ObjectMap)
+	}
 	for t, sub := range m {
-		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		key, ok := parseType(t)
+		if !ok {
+			return fmt.Errorf("unknown object type %q", t)
+		}
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From e8fde1424609f4583d80462c632b91d346241f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 29/89] fix: build the priority array of analog points

---
 btypes/priority/priority.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..92f3068 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,15 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch v := value.(type) {
+		case uint32: //binary and multi-state points
+			returnValue = nils.NewFloat32(float32(v))
+		case int32:
+			returnValue = nils.NewFloat32(float32(v))
+		case float32: //analog points
+			returnValue = nils.NewFloat32(v)
+		case float64:
+			returnValue = nils.NewFloat32(float32(v))
 		}
 		switch i {
 		case 0:
-- 
2.43.0


From eb37430e08ae135ba2404c173c3083fa1e2f66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 30/89] fix: accept replies without a property in every typed
 accessor

---
 helpers/data/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From b3b0dcca50cefe04b8efb4a366591fd2d88687bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 31/89] fix: do not crash when a transaction ends while a
 duplicate reply is delivered

---
 tsm/transactions.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..c603350 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -21,6 +21,8 @@ type state struct {
 	state        int
 	requestTimer int
 	data         chan interface{}
+	// done is closed once the id isn't used anymore
+	done chan struct{}
 }
 
 // TSM is the transaction state manager. It handles passing data to other
@@ -63,26 +65,36 @@ func New(size int) *TSM {
 	return t
 }
 
-// Send data to invoked id
-func (t *TSM) Send(id int, b interface{}) error {
+// channels returns the channels of the transaction that currently uses the id.
+// The state itself can't be used without the lock, it is reused by other ids
+func (t *TSM) channels(id int) (data chan interface{}, done chan struct{}, ok bool) {
 	t.mutex.Lock()
+	defer t.mutex.Unlock()
 	s, ok := t.states[id]
-	t.mutex.Unlock()
+	if !ok {
+		return nil, nil, false
+	}
+	return s.data, s.done, true
+}
 
+// Send data to invoked id
+func (t *TSM) Send(id int, b interface{}) error {
+	data, done, ok := t.channels(id)
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case data <- b:
+		return nil
+	case <-done:
+		return fmt.Errorf("id %d is not receiving anymore", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
 // period has passed then an error is returned
 func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
-	t.mutex.Lock()
-	s, ok := t.states[id]
-	t.mutex.Unlock()
-
+	data, done, ok := t.channels(id)
 	if !ok {
 		return nil, fmt.Errorf("id %d is not sending", id)
 	}
@@ -92,8 +104,10 @@ func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 
 	// Wait for data
 	select {
-	case b := <-s.data:
+	case b := <-data:
 		return b, nil
+	case <-done:
+		return nil, fmt.Errorf("id %d is not sending anymore", id)
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
 	}
@@ -121,6 +135,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
 	s.data = make(chan interface{})
+	s.done = make(chan struct{})
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
@@ -138,7 +153,8 @@ func (t *TSM) Put(id int) error {
 		return fmt.Errorf("id %d does not exist in the transactions", id)
 	}
 
-	close(s.data)
+	// The data channel stays open, somebody may still be sending to it
+	close(s.done)
 	t.pool.Put(s)
 	t.free.id <- id
 	t.free.space <- struct{}{}
-- 
2.43.0


From d38dfaa45794f24a6c17d7879a04829931a0bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 32/89] fix: never block the publisher while a subscriber is
 busy

---
 utsm/subscriber.go | 44 ++++++++++++++++++++++++++++++++++++--------
 utsm/utsm.go       |  7 ++-----
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..6414a64 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -13,9 +13,32 @@ type subscriber struct {
 	timeout             time.Duration
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
-	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
-	mutex *sync.Mutex
+	// Data is handed over from the publisher to the subscriber. The publisher
+	// never waits, it only leaves a notification that there is something new.
+	data   []interface{}
+	notify chan struct{}
+	mutex  *sync.Mutex
+}
+
+// publish adds data without waiting for the subscriber to take it
+func (s *subscriber) publish(data interface{}) {
+	s.mutex.Lock()
+	s.lastReceived = time.Now()
+	s.data = append(s.data, data)
+	s.mutex.Unlock()
+	select {
+	case s.notify <- struct{}{}:
+	default: // the subscriber has been notified already
+	}
+}
+
+// take returns everything that was published since it was called the last time
+func (s *subscriber) take() []interface{} {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	data := s.data
+	s.data = nil
+	return data
 }
 
 // SubscriberOption are options passed to a particular subscribe function
@@ -60,13 +83,18 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 
 	for {
 		c, can := context.WithTimeout(ctx, s.getTimeout())
-		defer can()
-
 		select {
 		case <-c.Done():
-			return store, nil
-		case b := <-s.data:
-			store = append(store, b)
+			can()
+			if ctx.Err() == nil && s.getTimeout() > 0 {
+				// Something was received just before the time ran out
+				continue
+			}
+			m.removeSubscriber(s)
+			return append(store, s.take()...), nil
+		case <-s.notify:
+			can()
+			store = append(store, s.take()...)
 		}
 	}
 }
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..157377c 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -64,10 +64,7 @@ func (m *Manager) Publish(id int, data interface{}) {
 
 	for _, s := range m.subs {
 		if id >= s.start && id <= s.end {
-			s.mutex.Lock()
-			s.lastReceived = time.Now()
-			s.data <- data
-			s.mutex.Unlock()
+			s.publish(data)
 		}
 	}
 }
@@ -77,7 +74,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		start:        start,
 		end:          end,
 		lastReceived: time.Now(),
-		data:         make(chan interface{}, 1),
+		notify:       make(chan struct{}, 1),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From a068235d27eb2ecc88b5b0abe2d29c87fec8c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 33/89] fix: listen for announcements before asking for them

---
 utsm/subscriber.go |  7 +++++++
 whatnetwork.go     | 16 +++++++++-------
 whois.go           | 15 +++++++++------
 whoisrouter.go     | 16 +++++++++-------
 4 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index 6414a64..68354d2 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -63,6 +63,13 @@ func (s *subscriber) LastReceivedTimeout(d time.Duration) SubscriberOption {
 	}
 }
 
+// Subscribed is called as soon as everything that is published will be received
+func Subscribed(f func()) SubscriberOption {
+	return func(s *subscriber) {
+		f()
+	}
+}
+
 // getTimeout returns the expiration time based on when we last received a message
 func (s *subscriber) getTimeout() time.Duration {
 	s.mutex.Lock()
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..d0668b3 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -17,7 +18,6 @@ in bacnet.handleMsg() the npdu.IsNetworkLayerMessage is always rejected so this
 */
 
 func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -33,13 +33,15 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	}
+	values, err := c.utsm.Subscribe(1, 65534, utsm.Subscribed(send)) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
diff --git a/whois.go b/whois.go
index 95888b1..f6eab3f 100644
--- a/whois.go
+++ b/whois.go
@@ -4,6 +4,7 @@ import "C"
 import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 type WhoIsOpts struct {
@@ -58,12 +59,14 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		end = high
 	}
 	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
+	errChan := make(chan error, 1)
+	send := func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			errChan <- err
+		}()
+	}
+	values, err := c.utsm.Subscribe(start, end, utsm.Subscribed(send))
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..81b1de2 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -12,7 +13,6 @@ Is in beta
 */
 
 func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -28,13 +28,15 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	}
+	values, err := c.utsm.Subscribe(1, 65534, utsm.Subscribed(send)) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-- 
2.43.0


From 1ae9091b005ead7649ec325e13825ff58072fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 34/89] fix: mark a Who-Is on the local network as a broadcast

---
 whois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index f6eab3f..2b3e04e 100644
--- a/whois.go
+++ b/whois.go
@@ -62,7 +62,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	errChan := make(chan error, 1)
 	send := func() {
 		go func() {
-			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			_, err := c.Send(dest, npdu, enc.Bytes(), &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast})
 			errChan <- err
 		}()
 	}
-- 
2.43.0


From 69e3ebaa5a0ff7152da7edd2a17040567add7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 35/89] fix: find all devices when the whole range is asked for

---
 whois.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index 2b3e04e..2837332 100644
--- a/whois.go
+++ b/whois.go
@@ -26,10 +26,10 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	if wh.GlobalBroadcast {
 		wh.NetworkNumber = btypes.GlobalBroadcast //65535
 	}
-	if low <= 0 {
+	if low <= 0 || uint32(low) == ArrayAll {
 		low = 0
 	}
-	if high <= 0 {
+	if high <= 0 || uint32(high) == ArrayAll {
 		high = 4194304 //max dev id
 	}
 
-- 
2.43.0


From 4a906605dae5da1c63413a2c85aec0cdd3eb8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 36/89] fix: leave the options of a Who-Is as they were given

---
 whois.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index 2837332..4b711b3 100644
--- a/whois.go
+++ b/whois.go
@@ -23,8 +23,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	enc := encoding.NewEncoder()
 	low := wh.Low
 	high := wh.High
+	networkNumber := wh.NetworkNumber
 	if wh.GlobalBroadcast {
-		wh.NetworkNumber = btypes.GlobalBroadcast //65535
+		networkNumber = btypes.GlobalBroadcast //65535
 	}
 	if low <= 0 || uint32(low) == ArrayAll {
 		low = 0
@@ -33,7 +34,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		high = 4194304 //max dev id
 	}
 
-	dest.Net = wh.NetworkNumber
+	dest.Net = networkNumber
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dest,
-- 
2.43.0


From 7de29eb7cb9f733c1eb48fa1f58000b0e0dccfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 37/89] fix: pass the prefix length and the port of a client in
 the right order

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 9413d79..6bd955e 100644
--- a/device.go
+++ b/device.go
@@ -89,7 +89,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From f34d815bb934fedd61a92a8111c1cfaf7c6eb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 38/89] fix: use the data link a client is built with

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 6bd955e..ff903e8 100644
--- a/device.go
+++ b/device.go
@@ -77,7 +77,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if cb.DataLink != nil {
+		dataLink = cb.DataLink
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
 			//log.Fatal(err)
-- 
2.43.0


From 34cf6d1242e07e1bb3d4adefbe5a1a936c34d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 39/89] fix: receive replies of the largest size together with
 their headers

---
 device.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index ff903e8..79aaac5 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,13 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// npduHeaderLength is the size of the largest network header: a message with a
+// routed source and destination
+const npduHeaderLength = 2 + 2*(2+1+maxMacLength) + 1
+
+// maxMacLength is the longest hardware address there is
+const maxMacLength = 18
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -76,6 +83,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 	if maxPDU == 0 {
 		maxPDU = btypes.MaxAPDU
 	}
+	//the largest request that is announced to be accepted must fit with all its headers
+	bufferSize := max(int(maxPDU), encoding.MaxAPDU) + forwardHeaderLength + npduHeaderLength
+
 	//build datalink
 	if cb.DataLink != nil {
 		dataLink = cb.DataLink
@@ -109,7 +119,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, bufferSize)
 		}},
 		log: l,
 	}
-- 
2.43.0


From 2a6cdb891b71c74c3a4cfeac44aba7ede094f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 40/89] fix: understand messages that are forwarded by a
 broadcast distributor

---
 device.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 79aaac5..c6de2a8 100644
--- a/device.go
+++ b/device.go
@@ -154,6 +154,16 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The message has been relayed, its real source comes first
+			mac := make([]byte, forwardHeaderLength-mtuHeaderLength)
+			if n, err := dec.Read(mac); err != nil || n != len(mac) {
+				c.log.Debug("Ignored incomplete forwarded message")
+				return
+			}
+			src = &btypes.Address{Mac: mac, MacLen: uint8(len(mac))}
+			b = b[len(mac):]
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -242,14 +252,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From 7b6fbc5140d2eb67e97ac5228269c54f2fd1854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 41/89] fix: do not look for a reply in network layer messages

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index c6de2a8..bce58e3 100644
--- a/device.go
+++ b/device.go
@@ -179,7 +179,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
 				//return
 			}
-
+			// There is no application data in a network layer message
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
-- 
2.43.0


From 101fa6f453fe5891eb4521e6147cb4bd86f8ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 42/89] fix: do not take a request of another device for the
 reply to a request

---
 device.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index bce58e3..4262814 100644
--- a/device.go
+++ b/device.go
@@ -237,11 +237,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// The invoke id belongs to the sender of the request, it isn't a reply
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From fc8ea3b2c0b17005352a8ca0480bb140d0f4e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 43/89] fix: ignore packets that are not BACnet/IP

---
 device.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/device.go b/device.go
index 4262814..80f0efe 100644
--- a/device.go
+++ b/device.go
@@ -151,6 +151,11 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		return
 	}
 
+	if header.Type != btypes.BVLCTypeBacnetIP {
+		c.log.Debug("Ignored a packet that is not BACnet/IP")
+		return
+	}
+
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
-- 
2.43.0


From b881ec7998a624e47a5d34670b1e02e176dc6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 44/89] fix: close the connection of a client along with its
 logs

---
 device.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 80f0efe..c019f30 100644
--- a/device.go
+++ b/device.go
@@ -300,12 +300,16 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 }
 
 func (c *client) ClientClose(closeLogs bool) error {
+	var logErr error
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
-			return f.Close()
+			logErr = f.Close()
 		}
 	}
-	return c.Close()
+	if err := c.Close(); err != nil {
+		return err
+	}
+	return logErr
 }
 
 // Close free resources for the client. Always call this function when using NewClient
-- 
2.43.0


From 4ba0b89d7f5e98307f5d462139c8bfd5a264cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 45/89] fix: a reply without a value is not a successful read

---
 readprop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readprop.go b/readprop.go
index 73f1b57..7e0bf4b 100644
--- a/readprop.go
+++ b/readprop.go
@@ -71,6 +71,10 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
+		if len(out.Object.Properties) == 0 || out.Object.Properties[0].Data == nil {
+			err = fmt.Errorf("reply ends before the value of the property")
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
-- 
2.43.0


From 3a45e6331207385062582308a2fa629f44ba41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 46/89] fix: multiple writes address devices behind a router
 like the other requests

---
 writemulti.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writemulti.go b/writemulti.go
index e65a189..d283e8d 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From c874bccc6971aaa53c9192957bf82f7f8824fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 47/89] fix: an I-Am that can not be encoded is not sent, and
 routed ones carry the hardware address

---
 iam.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iam.go b/iam.go
index aa0a677..05623b8 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
@@ -22,7 +23,10 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
-	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+	err := enc.IAm(iam)
+	if err != nil {
+		return err
+	}
+	_, err = c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From 307fef11c9643768269e648a6ba8b12ed76dc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 48/89] fix: an object scan does not accept fewer or other list
 elements than it asked for

---
 objectlist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..d50822e 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -57,9 +57,16 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 		return nil, fmt.Errorf("no data was returned")
 	}
 
+	if given, expected := len(resp.Objects[0].Properties), end-start+1; given != expected {
+		return nil, fmt.Errorf("expected %d objects, got %d", expected, given)
+	}
+
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
 	for i, prop := range resp.Objects[0].Properties {
+		if prop.Type != btypes.PropObjectList || prop.ArrayIndex != uint32(start+i) {
+			return nil, fmt.Errorf("expected object %d, got property %d index %d", start+i, prop.Type, prop.ArrayIndex)
+		}
 		id, ok := prop.Data.(btypes.ObjectID)
 		if !ok {
 			return nil, fmt.Errorf("expected type Object ID, got %T", prop.Data)
-- 
2.43.0


From 86ed12a72c14bc4bcceeb416a5287a5beb6fcf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 49/89] fix: scanning a device with a tiny or unknown size does
 not divide by zero

---
 objectlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index d50822e..43e760c 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -98,7 +98,7 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	scanSize := max(int(dev.MaxApdu)/readPropRequestSize, 1)
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
-- 
2.43.0


From df2eae29680e7e09ebc9bd2eed828c0a6a2fe5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 50/89] fix: an object scan does not ask about an empty set of
 objects

---
 objectlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index 43e760c..a0627c7 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -153,6 +153,9 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
-- 
2.43.0


From bd6a4a7d727f622a1fb268db91fde5fbfa744a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 51/89] fix: an object scan checks that names and descriptions
 are those of the objects asked for

---
 objectlist.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index a0627c7..103db9f 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -162,7 +162,16 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 	}
 	var name, description string
 	var ok bool
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expected %d objects, got %d", counter, len(resp.Objects))
+	}
 	for i, r := range resp.Objects {
+		if r.ID != keys[i] {
+			return fmt.Errorf("expected object %v, got %v", keys[i], r.ID)
+		}
+		if len(r.Properties) != 2 || r.Properties[0].Type != btypes.PropObjectName || r.Properties[1].Type != btypes.PropDescription {
+			return fmt.Errorf("expected the name and description of object %v", r.ID)
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From bd20d0bd44df6db4d202be30b5d7c8ebb8d34c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 52/89] fix: an object scan keeps its requests within the size
 a small device accepts

---
 objectlist.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 103db9f..ad787e9 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -79,6 +79,11 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 
 const readPropRequestSize = 20
 
+// objectInfoRequestSize is the space the name and description of an object need
+// in a request, requestHeaderSize what all the headers need at most
+const objectInfoRequestSize = 11
+const requestHeaderSize = npduHeaderLength + 4
+
 func objectCopy(dest btypes.ObjectMap, src []btypes.Object) {
 	for _, o := range src {
 		if dest[o.ID.Type] == nil {
@@ -190,7 +195,8 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 
 func (c *client) allObjectInformation(dev *btypes.Device) error {
 	objs := dev.ObjectSlice()
-	incrSize := 5
+	// The request must not be larger than what the device accepts
+	incrSize := max(min((int(dev.MaxApdu)-requestHeaderSize)/objectInfoRequestSize, 5), 1)
 
 	var err error
 	for i := 0; i < len(objs); i += incrSize {
-- 
2.43.0


From 1d82481e7d225d75772024714eae5c22efdf554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 53/89] fix: a non IPv4 data link address is an error and does
 not panic

---
 datalink/udp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..b92b6ec 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,6 +67,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
-- 
2.43.0


From 5427e0088edc20e8beda040fb6781880c087627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 54/89] fix: converting any kind of IP address neither panics
 nor yields a wrong address

---
 datalink/udp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index b92b6ec..9417d8e 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -77,7 +77,7 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 	}
 
 	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
-	conn, err := net.ListenUDP("udp", udp)
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
@@ -135,13 +135,18 @@ func IPPortToAddress(ip net.IP, port int) *btypes.Address {
 // UDPToAddress converts a given udp address into a bacnet address
 func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	a := &btypes.Address{}
+	ip := n.IP.To4()
+	if ip == nil {
+		// There is no way to express anything but an IPv4 address
+		return a
+	}
 	p := uint16(n.Port)
 	// Length of IP plus the port
 	length := net.IPv4len + 2
 	a.Mac = make([]uint8, length)
 	//Encode ip
 	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
+		a.Mac[i] = ip[i]
 	}
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
-- 
2.43.0


From 02e57d8f3f1d3063bb51f75e1daa6f96114a3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 55/89] fix: devices of the network layer are addressed with
 their own port

---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..b4bfed2 100644
--- a/network/store.go
+++ b/network/store.go
@@ -60,6 +60,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 101a84d6ab8a91154f1a8c184fbcaccb25b018d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 56/89] fix: writing with a priority that does not exist is
 refused

---
 network/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network/write.go b/network/write.go
index 0a1761f..5ef60b0 100644
--- a/network/write.go
+++ b/network/write.go
@@ -21,6 +21,9 @@ func (device *Device) Write(write *Write) error {
 	var err error
 	writeValue := write.WriteValue
 
+	if write.WritePriority > 16 { //0 is a write without a priority
+		return fmt.Errorf("invalid priority %d", write.WritePriority)
+	}
 	rp := btypes.PropertyData{
 		Object: btypes.Object{
 			ID: btypes.ObjectID{
-- 
2.43.0


From 56a4fca7718a695936de6da5ea21c7ddcf405cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 57/89] fix: listing objects copes with failed reads, single
 objects and values that are no object ids

---
 network/objects.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..317543f 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,23 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	return objectIDs(out)
+}
+
+//objectIDs returns the object ids a device answered with, a list with only one id is given as the id itself
+func objectIDs(out btypes.PropertyData) (objectList []btypes.ObjectID, err error) {
+	if len(out.Object.Properties) == 0 {
+		return nil, fmt.Errorf("no value returned")
+	}
+	ok, ids := data.ToArr(out)
+	if !ok {
+		ids = []interface{}{out.Object.Properties[0].Data}
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -69,14 +83,26 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("unable to get the size of the object list")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
-		objectList = append(objectList, objectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		ids, err := objectIDs(out)
+		if err != nil {
+			return nil, err
+		}
+		if len(ids) != 1 {
+			return nil, fmt.Errorf("expected one object at index %d of the object list, got %d", i, len(ids))
+		}
+		objectList = append(objectList, ids[0])
 	}
 	return objectList, err
 
-- 
2.43.0


From 0e3a6af92135fb10364611323cc871a98e029ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 58/89] fix: looking up a stored entry of the other kind is an
 error and does not panic

---
 network/store.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/store.go b/network/store.go
index b4bfed2..29d9e98 100644
--- a/network/store.go
+++ b/network/store.go
@@ -51,7 +51,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
+	}
 	return parse, nil
 }
 
@@ -88,6 +91,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
+	}
 	return parse, nil
 }
-- 
2.43.0


From b9200f614e8d0a911087e8160fbc50e19c6d5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 59/89] fix: device discovery describes every device found
 instead of the last one several times

---
 network/discover.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..13e31db 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,29 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
+		//every device found is described, and asked for its details, on its own
+		found := &Device{
+			StoreID: device.StoreID,
+			dev:     dev,
+			network: device.network,
+		}
 		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
+			found.MacMSTP = int(dev.Addr.Adr[0])
 		}
 		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		found.DeviceID = int(dev.ID.Instance)
+		found.Ip = host.IP.String()
+		found.Port = host.Port
+		found.NetworkNumber = int(dev.Addr.Net)
+		found.MaxApdu = dev.MaxApdu
+		found.Segmentation = uint32(dev.Segmentation)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, found)
 
 	}
 	count := 1
-- 
2.43.0


From 9e7812b3a8d9338f9196a23937b96189f0d8d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 60/89] fix: network discovery asks devices with long hardware
 addresses at their whole address

---
 network/whois.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index 74cb953..cf27ffa 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -24,17 +24,7 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		details, err := net.GetDeviceDetails(*dev)
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 30c77732e5a3fc8b7736da28be1df543a12a4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 61/89] fix: network discovery keeps the announced size and
 segmentation when they can not be read

---
 network/whois.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/network/whois.go b/network/whois.go
index cf27ffa..2e75cf7 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -38,12 +38,14 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 }
 
 func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails, err error) {
-	resp = &DeviceDetails{}
+	//what is known already stays when it can't be read
+	resp = &DeviceDetails{MaxApdu: device.MaxApdu, Segmentation: uint32(device.Segmentation)}
 	props := []btypes.PropertyType{btypes.PropObjectName, btypes.PropMaxAPDU, btypes.PropVendorName, btypes.PropSegmentationSupported}
 	for _, prop := range props {
 		property, err := net.bacnet.ReadProperty(device, buildObj(device.DeviceID, prop))
 		if err != nil {
 			log.Errorln("bacnet-master-GetDeviceDetails()", err.Error())
+			continue
 		}
 		switch prop {
 		case btypes.PropObjectName:
-- 
2.43.0


From 7ee3512f533b936e6f3fefc12d7af1f6f9170307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 62/89] fix: a device without a network is an error

---
 network/device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/device.go b/network/device.go
index 79b6558..c650233 100644
--- a/network/device.go
+++ b/network/device.go
@@ -1,6 +1,7 @@
 package network
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
@@ -26,7 +27,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	var err error
 	if net == nil {
 		fmt.Println("network can not be nil")
-		return nil, err
+		return nil, errors.New("network can not be nil")
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
-- 
2.43.0


From d05d71e199b18a1ce1d5c0371a4e94467ad6e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 63/89] fix: a network taken from the store knows its store, so
 devices can be added to it

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index 29d9e98..55239ce 100644
--- a/network/store.go
+++ b/network/store.go
@@ -34,9 +34,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		bacnet:     bc,
+		Store:      store,
 	}
 	if store.BacStore != nil {
 		store.BacStore.Set(storeID, bacnetNet, -1)
-- 
2.43.0


From be12706c47f6e230f60a5123fc0ceb3269fdad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 64/89] fix: odd and even days of the month are 33 and 34, 32
 is only the last day

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index ce49ef6..7324baa 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -23,11 +23,11 @@ func IsLastDayOfMonth(day int) bool {
 }
 
 func IsEvenDayOfMonth(day int) bool {
-	return day == 33
+	return day == 34
 }
 
 func IsOddDayOfMonth(day int) bool {
-	return day == 32
+	return day == 33
 }
 
 func (e *Encoder) date(dt btypes.Date) {
-- 
2.43.0


From e6cebdf2e1afec5a80d11d6d4dd02c751cf05829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 65/89] fix: the single host prefix of an address has to be the
 one of its own family

---
 helpers/validation/vaildation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/validation/vaildation.go b/helpers/validation/vaildation.go
index bae16e8..7d84c5d 100644
--- a/helpers/validation/vaildation.go
+++ b/helpers/validation/vaildation.go
@@ -34,10 +34,10 @@ func ValidIP(ip string) bool {
 
 // NormaliseIPAddr return ip address without /32 (IPv4 or /128 (IPv6)
 func NormaliseIPAddr(ip string) string {
-	if strings.HasSuffix(ip, "/32") && strings.Contains(ip, ".") { // single host (IPv4)
+	if strings.HasSuffix(ip, "/32") && strings.Contains(ip, ".") && !strings.Contains(ip, ":") { // single host (IPv4)
 		ip = strings.TrimSuffix(ip, "/32")
 	} else {
-		if strings.HasSuffix(ip, "/128") { // single host (IPv6)
+		if strings.HasSuffix(ip, "/128") && strings.Contains(ip, ":") { // single host (IPv6)
 			ip = strings.TrimSuffix(ip, "/128")
 		}
 	}
-- 
2.43.0


From bc586e2ef071573c2f7cbc262338a4343b5eca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 66/89] fix: an address in IPv6 form is refused instead of
 using a wrong broadcast address

---
 datalink/udp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index 9417d8e..e16fdfc 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,7 +67,7 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
-	if ip.To4() == nil {
+	if len(ipNet.IP) != net.IPv4len {
 		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
 	}
 
-- 
2.43.0


From e43bfcb1dae3fb9cd2edf59bb5186592c93202fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 67/89] fix: a network without a store is usable instead of
 crashing

---
 network/base.go   | 15 ++++++++++-----
 network/device.go |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/network/base.go b/network/base.go
index ffd4269..04aba36 100644
--- a/network/base.go
+++ b/network/base.go
@@ -18,6 +18,15 @@ type Network struct {
 
 // New returns a new instance of bacnet network
 func New(net *Network) (*Network, error) {
+	if net == nil {
+		return nil, errors.New("network can not be nil")
+	}
+	if net.Store == nil { //a network can be used without sharing a store
+		net.Store = NewStore()
+	}
+	if net.Store.BacStore == nil {
+		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  net.Interface,
 		Ip:         net.Ip,
@@ -29,11 +38,7 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
-	if net.Store.BacStore != nil {
-		net.Store.BacStore.Set(net.StoreID, net, -1)
-	} else {
-		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
-	}
+	net.Store.BacStore.Set(net.StoreID, net, -1)
 	return net, nil
 }
 
diff --git a/network/device.go b/network/device.go
index c650233..15dbe44 100644
--- a/network/device.go
+++ b/network/device.go
@@ -48,7 +48,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if net.Store.BacStore != nil {
+	if net.Store != nil && net.Store.BacStore != nil {
 		net.Store.BacStore.Set(device.StoreID, device, -1)
 	}
 	return device, nil
-- 
2.43.0


From bd88c75c405d598797d6b3aa363aa2130db8880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 68/89] fix: updating a device without a network is an error, a
 failed network keeps no port

---
 network/store.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/network/store.go b/network/store.go
index 55239ce..908ad53 100644
--- a/network/store.go
+++ b/network/store.go
@@ -23,6 +23,9 @@ func NewStore() *Store {
 
 //NewNetwork updated a cached
 func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) error {
+	if store.BacStore == nil {
+		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  iface,
 		Ip:         ip,
@@ -42,12 +45,8 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		bacnet:     bc,
 		Store:      store,
 	}
-	if store.BacStore != nil {
-		store.BacStore.Set(storeID, bacnetNet, -1)
-		return nil
-	} else {
-		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
-	}
+	store.BacStore.Set(storeID, bacnetNet, -1)
+	return nil
 }
 
 func (store *Store) GetNetwork(uuid string) (*Network, error) {
@@ -65,6 +64,9 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 //UpdateDevice updated a cached device
 func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) error {
 	var err error
+	if net == nil {
+		return errors.New("network can not be nil")
+	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
 		Port:          device.Port,
-- 
2.43.0


From 7481b0a1ca7edca8a2ba083d3e3846732d00d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 69/89] fix: points without units are not reported in square
 meters

---
 network/points.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/network/points.go b/network/points.go
index 120aab7..b005fcd 100644
--- a/network/points.go
+++ b/network/points.go
@@ -54,8 +54,10 @@ func (device *Device) PointDetails(pnt *Point) (resp *PointDetails, err error) {
 		case btypes.PropObjectName:
 			resp.Name = device.toStr(read)
 		case btypes.PropUnits:
-			resp.Unit = device.toUint32(read)
-			resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
+			if ok, unit := data.ToUint32(read); ok { //without units there is no unit, zero is one of them
+				resp.Unit = unit
+				resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
+			}
 		}
 	}
 	return resp, nil
-- 
2.43.0


From f769fb02c48e5b90d50fb2593a2d9fcb3473cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:00 +0000
Subject: [PATCH 70/89] fix: a port that does not exist is an error instead of
 a random port

---
 datalink/udp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index e16fdfc..7546d64 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -76,7 +76,10 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
 	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9a3480a39f6e55a784e4e405f860b1311c08c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 71/89] fix: an error reply closed with another tag than it was
 opened with is accepted

---
 encoding/apdu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index bd0a0ca..ccdfdde 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -118,14 +118,18 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 
 	tag, meta := d.tagNumber()
 	if meta.isOpening() {
+		openedTag := tag
 		tag, meta = d.tagNumber()
 		a.Error.Class = bacerr.ErrorClass(d.errorValue(tag, meta))
 		tag, meta = d.tagNumber()
 		a.Error.Code = bacerr.ErrorCode(d.errorValue(tag, meta))
-		_, meta = d.tagNumber()
+		tag, meta = d.tagNumber()
 		if d.err == nil && !meta.isClosing() {
 			return &ErrorWrongTagType{ClosingTag}
 		}
+		if d.err == nil && tag != openedTag {
+			return &ErrorIncorrectTag{Expected: openedTag, Given: tag}
+		}
 	} else {
 		a.Error.Class = bacerr.ErrorClass(d.errorValue(tag, meta))
 		tag, meta = d.tagNumber()
-- 
2.43.0


From ca50c3590e412a86f46d6de29b3eac27607fbbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 72/89] fix: a value of a reply is taken for the property
 identifier

---
 encoding/readprop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index 62ef501..847df5c 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -113,6 +113,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{expectedTag, tag}
 	}
+	if d.err == nil && !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
+	}
 	expectedTag++
 
 	lenValue := d.value(meta)
-- 
2.43.0


From 4a28fdb3465c08cdc1c9976852cc8b97ba7a03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 73/89] fix: application values are taken for the range of a
 Who-Is

---
 encoding/whois.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoding/whois.go b/encoding/whois.go
index 1fa11cb..71da91c 100644
--- a/encoding/whois.go
+++ b/encoding/whois.go
@@ -34,19 +34,25 @@ func (d *Decoder) WhoIs(low, high *int32) error {
 	}
 	// Tag 0 - Low Value
 	var expectedTag uint8
-	tag, _, value := d.tagNumberAndValue()
+	tag, meta, value := d.tagNumberAndValue()
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
 	}
+	if d.err == nil && !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
+	}
 	l := d.unsigned(int(value))
 	*low = int32(l)
 
 	// Tag 1 - High Value
 	expectedTag = 1
-	tag, _, value = d.tagNumberAndValue()
+	tag, meta, value = d.tagNumberAndValue()
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
 	}
+	if d.err == nil && !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
+	}
 	h := d.unsigned(int(value))
 	*high = int32(h)
 
-- 
2.43.0


From 7ea1f7cb184a6ae3c8044f55d79d9864625dd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 74/89] fix: a value of a reply is taken for the array index

---
 encoding/readprop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index 847df5c..c3713e0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -134,6 +134,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 		// Tag 2: Array Length (OPTIONAL)
 		more := true
 		if tag == 2 && !meta.isOpening() {
+			if d.err == nil && !meta.isContextSpecific() {
+				return &ErrorWrongTagType{ContextTag}
+			}
 			prop.ArrayIndex = d.unsigned(int(d.value(meta)))
 			if more = d.len() > 0; more {
 				tag, meta = d.tagNumber()
-- 
2.43.0


From ee0bf3b5971c7fe2acd0936f5699fe87b6347770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 75/89] fix: the object of a multiple property reply is read
 whatever length it is said to have

---
 encoding/readmultipleack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index e09dbaa..836b46a 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -104,6 +104,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorIncorrectTag{Expected: 0, Given: tag}
 		} else if !meta.isContextSpecific() {
 			return &ErrorWrongTagType{ContextTag}
+		} else if length != objectIDLen {
+			d.invalidLength("object id", int(length))
+			return d.Error()
 		}
 		obj.ID.Type, obj.ID.Instance = d.objectId()
 
-- 
2.43.0


From 2cc75b8cfeef5f1d65ede4bb8544f3054ee8d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 76/89] fix: repeated discoveries through the network layer
 don't start another receive loop each time

---
 device.go        | 10 ++++++++++
 network/whois.go | 14 +++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index c019f30..44cbfd8 100644
--- a/device.go
+++ b/device.go
@@ -12,6 +12,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"io"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -47,6 +48,8 @@ type client struct {
 	utsm           *utsm.Manager
 	readBufferPool sync.Pool
 	log            *log.Logger
+	// running is the number of receive loops
+	running int32
 }
 
 type ClientBuilder struct {
@@ -127,6 +130,8 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 }
 
 func (c *client) ClientRun() {
+	atomic.AddInt32(&c.running, 1)
+	defer atomic.AddInt32(&c.running, -1)
 	var err error = nil
 	for err == nil {
 		b := c.readBufferPool.Get().([]byte)
@@ -140,6 +145,11 @@ func (c *client) ClientRun() {
 	}
 }
 
+// ClientIsRunning tells whether messages are being received already
+func (c *client) ClientIsRunning() bool {
+	return atomic.LoadInt32(&c.running) > 0
+}
+
 func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	var header btypes.BVLC
 	var npdu btypes.NPDU
diff --git a/network/whois.go b/network/whois.go
index 2e75cf7..dcffccf 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -7,20 +7,28 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+//receive starts to receive messages unless that is being done already
+func receive(client bacnet.Client) {
+	if c, ok := client.(interface{ ClientIsRunning() bool }); ok && c.ClientIsRunning() {
+		return
+	}
+	go client.ClientRun()
+}
+
 func (device *Device) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go device.network.ClientRun()
+	receive(device.network)
 	resp, err := device.network.WhoIs(options)
 	return resp, err
 }
 
 func (net *Network) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go net.NetworkRun()
+	receive(net.bacnet)
 	resp, err := net.bacnet.WhoIs(options)
 	return resp, err
 }
 
 func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
-	go net.NetworkRun()
+	receive(net.bacnet)
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-- 
2.43.0


From a362aeb4b5fae48b38cc04f0aacd18b080499ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 77/89] fix: members of nested data aren't taken for those of
 the record around it

---
 encoding/readmultipleack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 836b46a..0ae2525 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -217,9 +217,14 @@ func (d *Decoder) propertyValue(property btypes.PropertyType, openedTag uint8) (
 			if !d.available(length) {
 				return nil, d.err
 			}
+			// What is nested has tags of its own, their types aren't known
+			tagType := maxTag
+			if depth == 0 {
+				tagType = tagTypeInContext(property, tag)
+			}
 			// The type is only a guess, what follows must not depend on it
 			content := NewDecoder(d.buff.Next(length))
-			data, err := content.contextData(tagTypeInContext(property, tag), length)
+			data, err := content.contextData(tagType, length)
 			if err == nil {
 				array = append(array, data)
 			}
-- 
2.43.0


From 2e0963799cfbfc1b05476fec5949bbb27c01c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 78/89] fix: a value of another type is an error, not zero,
 when a point or name is read

---
 network/points.go  | 35 ++++++++++++++++++++++++++++++++---
 network/strings.go |  6 +++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/network/points.go b/network/points.go
index b005fcd..4b17741 100644
--- a/network/points.go
+++ b/network/points.go
@@ -2,6 +2,7 @@ package network
 
 import (
 	"errors"
+	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/priority"
@@ -83,7 +84,11 @@ func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toFloat(read), nil
+	ok, out := data.ToFloat32(read)
+	if !ok { //zero would be a value the point doesn't have
+		return 0, errWrongType(read)
+	}
+	return out, nil
 }
 
 //PointReadPriority use this when wanting to read point values for an AI, AV, AO
@@ -122,7 +127,7 @@ func (device *Device) PointReadBool(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	return readUint32(read)
 }
 
 //PointReadMultiState use this when wanting to read point values for an MI, MV, MO
@@ -141,7 +146,7 @@ func (device *Device) PointReadMultiState(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	return readUint32(read)
 }
 
 //PointReleasePriority use this when releasing a priority
@@ -231,6 +236,30 @@ func (device *Device) PointWriteMultiState(pnt *Point, value uint32) error {
 ***** HELPERS *****
  */
 
+//errWrongType tells that the value that was read isn't of the type it was asked for
+func errWrongType(d btypes.PropertyData) error {
+	if len(d.Object.Properties) == 0 {
+		return errors.New("no value returned")
+	}
+	return fmt.Errorf("the value is of another type: %T", d.Object.Properties[0].Data)
+}
+
+func readUint32(d btypes.PropertyData) (uint32, error) {
+	ok, out := data.ToUint32(d)
+	if !ok {
+		return 0, errWrongType(d)
+	}
+	return out, nil
+}
+
+func readStr(d btypes.PropertyData) (string, error) {
+	ok, out := data.ToStr(d)
+	if !ok {
+		return "", errWrongType(d)
+	}
+	return out, nil
+}
+
 func (device *Device) toFloat(d btypes.PropertyData) float32 {
 	_, out := data.ToFloat32(d)
 	return out
diff --git a/network/strings.go b/network/strings.go
index 9f5f26d..5d988cd 100644
--- a/network/strings.go
+++ b/network/strings.go
@@ -11,7 +11,7 @@ func (device *Device) ReadString(obj *Object) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readStr(read)
 }
 
 func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, error) {
@@ -25,7 +25,7 @@ func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, er
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readStr(read)
 }
 
 func (device *Device) WriteDeviceName(ObjectID btypes.ObjectInstance, value string) error {
@@ -53,7 +53,7 @@ func (device *Device) ReadPointName(pnt *Point) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readStr(read)
 }
 
 func (device *Device) WritePointName(pnt *Point, value string) error {
-- 
2.43.0


From 8d98915ee50cdf41a48f7eb1cbe6a64c12b22971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:11 +0000
Subject: [PATCH 79/89] fix: late replies of another station or to another
 service don't complete a request

---
 device.go     | 11 +++++++++++
 readmulti.go  |  2 ++
 readprop.go   |  2 ++
 replies.go    | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 writemulti.go |  2 ++
 writeprop.go  |  2 ++
 6 files changed, 66 insertions(+)
 create mode 100644 replies.go

diff --git a/device.go b/device.go
index 44cbfd8..bc5aa7e 100644
--- a/device.go
+++ b/device.go
@@ -50,6 +50,8 @@ type client struct {
 	log            *log.Logger
 	// running is the number of receive loops
 	running int32
+	// questions are the requests that wait for an answer, by their ids
+	questions sync.Map
 }
 
 type ClientBuilder struct {
@@ -241,12 +243,18 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			}
 		case btypes.SimpleAck:
 			c.log.Debug("Received Simple Ack")
+			if !c.isAnswer(int(apdu.InvokeId), apdu.Service, src, npdu.Source) {
+				return
+			}
 			err := c.tsm.Send(int(apdu.InvokeId), send)
 			if err != nil {
 				return
 			}
 		case btypes.ComplexAck:
 			c.log.Debug("Received Complex Ack")
+			if !c.isAnswer(int(apdu.InvokeId), apdu.Service, src, npdu.Source) {
+				return
+			}
 			err := c.tsm.Send(int(apdu.InvokeId), send)
 			if err != nil {
 				return
@@ -255,6 +263,9 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			// The invoke id belongs to the sender of the request, it isn't a reply
 			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
+			if !c.isAnswer(int(apdu.InvokeId), apdu.Service, src, npdu.Source) {
+				return
+			}
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
 			if err != nil {
diff --git a/readmulti.go b/readmulti.go
index 67377e1..6992e18 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -28,6 +28,8 @@ func (c *client) ReadMultiProperty(device btypes.Device, rp btypes.MultiplePrope
 	}
 	defer c.tsm.Put(id)
 	device.Addr.SetLength()
+	c.questions.Store(id, question{to: device.Addr, service: btypes.ServiceConfirmedReadPropMultiple})
+	defer c.questions.Delete(id)
 	err = device.CheckADPU()
 	if err != nil {
 		return btypes.MultiplePropertyData{}, err
diff --git a/readprop.go b/readprop.go
index 7e0bf4b..3d4ae1a 100644
--- a/readprop.go
+++ b/readprop.go
@@ -20,6 +20,8 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 	defer c.tsm.Put(id)
 	enc := encoding.NewEncoder()
 	device.Addr.SetLength()
+	c.questions.Store(id, question{to: device.Addr, service: btypes.ServiceConfirmedReadProperty})
+	defer c.questions.Delete(id)
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &device.Addr,
diff --git a/replies.go b/replies.go
new file mode 100644
index 0000000..30e0ceb
--- /dev/null
+++ b/replies.go
@@ -0,0 +1,47 @@
+package bacnet
+
+import (
+	"bytes"
+
+	"github.com/NubeDev/bacnet/btypes"
+)
+
+// question is a request that waits for its answer
+type question struct {
+	to      btypes.Address
+	service btypes.ServiceConfirmed
+}
+
+// isAnswer tells whether a reply with the given id is the answer to the request
+// that currently uses the id: ids are used again, and the reply to an earlier
+// request may arrive late
+func (c *client) isAnswer(id int, service btypes.ServiceConfirmed, src *btypes.Address, remote *btypes.Address) bool {
+	v, ok := c.questions.Load(id)
+	if !ok {
+		return false
+	}
+	q := v.(question)
+	if service != q.service {
+		return false
+	}
+	if q.to.Net != 0 {
+		if q.to.Net == btypes.GlobalBroadcast || len(q.to.Adr) == 0 {
+			return true // any station of the network
+		}
+		// Whichever router it comes through
+		return remote != nil && remote.Net == q.to.Net && bytes.Equal(remote.Adr, q.to.Adr)
+	}
+	return c.isAnyStation(&q.to) || bytes.Equal(src.Mac, q.to.Mac)
+}
+
+// isAnyStation tells whether anybody could answer what is sent to the address
+func (c *client) isAnyStation(a *btypes.Address) bool {
+	if a.IsBroadcast() || len(a.Mac) == 0 {
+		return true
+	}
+	if bytes.Equal(a.Mac, c.dataLink.GetBroadcastAddress().Mac) {
+		return true
+	}
+	udp, err := a.UDPAddr()
+	return err == nil && udp.IP.IsUnspecified()
+}
diff --git a/writemulti.go b/writemulti.go
index d283e8d..4eae775 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -18,6 +18,8 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 	}
 	defer c.tsm.Put(id)
 	dev.Addr.SetLength()
+	c.questions.Store(id, question{to: dev.Addr, service: btypes.ServiceConfirmedWritePropMultiple})
+	defer c.questions.Delete(id)
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..0c1479c 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -17,6 +17,8 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	defer c.tsm.Put(id)
 	device.Addr.SetLength()
+	c.questions.Store(id, question{to: device.Addr, service: btypes.ServiceConfirmedWriteProperty})
+	defer c.questions.Delete(id)
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &device.Addr,
-- 
2.43.0


From 62262195e7f979cdd123c396f60fbd03f91e67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:26 +0000
Subject: [PATCH 80/89] fix: the late reply to another question of the same
 device isn't taken for the answer

---
 readmulti.go |  7 +++++--
 readprop.go  |  3 +++
 replies.go   | 44 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/readmulti.go b/readmulti.go
index 6992e18..80066f9 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -60,7 +60,7 @@ func (c *client) ReadMultiProperty(device btypes.Device, rp btypes.MultiplePrope
 	err = fmt.Errorf("go")
 
 	for count := 0; err != nil && count < maxReattempt; count++ {
-		out, err = c.sendReadMultipleProperty(id, device, npdu, pack)
+		out, err = c.sendReadMultipleProperty(id, device, npdu, pack, rp)
 		if err == nil {
 			return out, nil
 		}
@@ -68,7 +68,7 @@ func (c *client) ReadMultiProperty(device btypes.Device, rp btypes.MultiplePrope
 	return out, fmt.Errorf("failed %d tries: %v", maxReattempt, err)
 }
 
-func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte) (btypes.MultiplePropertyData, error) {
+func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte, rp btypes.MultiplePropertyData) (btypes.MultiplePropertyData, error) {
 	var out btypes.MultiplePropertyData
 	_, err := c.Send(dev.Addr, npdu, request, nil)
 	if err != nil {
@@ -105,5 +105,8 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
 		return out, err
 	}
+	if err = checkAnswer(rp.Objects, out.Objects); err != nil {
+		return btypes.MultiplePropertyData{}, err
+	}
 	return out, err
 }
diff --git a/readprop.go b/readprop.go
index 3d4ae1a..b579a5e 100644
--- a/readprop.go
+++ b/readprop.go
@@ -77,6 +77,9 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("reply ends before the value of the property")
 			continue
 		}
+		if err = checkAnswer([]btypes.Object{rp.Object}, []btypes.Object{out.Object}); err != nil {
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
diff --git a/replies.go b/replies.go
index 30e0ceb..11fd24a 100644
--- a/replies.go
+++ b/replies.go
@@ -2,6 +2,7 @@ package bacnet
 
 import (
 	"bytes"
+	"fmt"
 
 	"github.com/NubeDev/bacnet/btypes"
 )
@@ -45,3 +46,46 @@ func (c *client) isAnyStation(a *btypes.Address) bool {
 	udp, err := a.UDPAddr()
 	return err == nil && udp.IP.IsUnspecified()
 }
+
+// wildcardInstance may be used to ask for the device object, whatever its
+// instance is
+const wildcardInstance = 0x3FFFFF
+
+func sameObjectID(asked, given btypes.ObjectID) bool {
+	if asked.Type == btypes.DeviceType && asked.Instance == wildcardInstance {
+		return given.Type == btypes.DeviceType
+	}
+	return asked == given
+}
+
+// checkAnswer returns an error if the reply is about something else than what
+// was asked for
+func checkAnswer(asked, given []btypes.Object) error {
+	for _, g := range given {
+		for _, p := range g.Properties {
+			if !asksFor(asked, g.ID, p) {
+				return fmt.Errorf("received the answer to another request: object %v %d property %d", g.ID.Type, g.ID.Instance, p.Type)
+			}
+		}
+	}
+	return nil
+}
+
+func asksFor(asked []btypes.Object, id btypes.ObjectID, p btypes.Property) bool {
+	for _, a := range asked {
+		if !sameObjectID(a.ID, id) {
+			continue
+		}
+		for _, ap := range a.Properties {
+			switch ap.Type {
+			case btypes.PROP_ALL, btypes.PROP_OPTIONAL, btypes.PROP_REQUIRED:
+				return true
+			case p.Type:
+				if ap.ArrayIndex == p.ArrayIndex {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From cf743e00a8f0d45895bfc1aed75142647b376a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 81/89] fix: a segment of a longer reply isn't taken for the
 whole reply

---
 readmulti.go | 3 +++
 readprop.go  | 3 +++
 replies.go   | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/readmulti.go b/readmulti.go
index 80066f9..3df9d7d 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -96,6 +96,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 	if err = dec.APDU(&apdu); err != nil {
 		return out, err
 	}
+	if err = checkWhole(&apdu); err != nil {
+		return out, err
+	}
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
diff --git a/readprop.go b/readprop.go
index b579a5e..c2cbdfe 100644
--- a/readprop.go
+++ b/readprop.go
@@ -66,6 +66,9 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 		if err = dec.APDU(&apdu); err != nil {
 			continue
 		}
+		if err = checkWhole(&apdu); err != nil {
+			continue
+		}
 		if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
diff --git a/replies.go b/replies.go
index 11fd24a..da8e527 100644
--- a/replies.go
+++ b/replies.go
@@ -47,6 +47,15 @@ func (c *client) isAnyStation(a *btypes.Address) bool {
 	return err == nil && udp.IP.IsUnspecified()
 }
 
+// checkWhole returns an error if the reply is only a part of a longer one, which
+// the device was told not to send
+func checkWhole(apdu *btypes.APDU) error {
+	if apdu.SegmentedMessage && (apdu.MoreFollows || apdu.Sequence != 0) {
+		return fmt.Errorf("received segment %d of a segmented reply, which is not supported", apdu.Sequence)
+	}
+	return nil
+}
+
 // wildcardInstance may be used to ask for the device object, whatever its
 // instance is
 const wildcardInstance = 0x3FFFFF
-- 
2.43.0


From 63ceec866e1d79ab0440e0053a7c4c63c964f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 82/89] fix: a datagram that arrived incomplete isn't taken for
 a shorter message

---
 device.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/device.go b/device.go
index bc5aa7e..3bad887 100644
--- a/device.go
+++ b/device.go
@@ -168,6 +168,11 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		return
 	}
 
+	if int(header.Length) > len(b) {
+		c.log.Debug("Ignored an incomplete packet")
+		return
+	}
+
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
-- 
2.43.0


From a3ac0805f3c86ca90a0d828d6bd0792a938d6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 83/89] fix: a device whose address can't be expressed is
 refused, not given the address of another

---
 btypes/device.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..0ede2e6 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
 	"github.com/NubeDev/bacnet/helpers/validation"
+	"math"
+	"net"
 )
 
 type Enumerated uint32
@@ -64,20 +66,29 @@ func NewDevice(device *Device) (*Device, error) {
 
 	port := device.Port
 	//check ip
-	ok := validation.ValidIP(device.Ip)
-	if !ok {
+	host := validation.NormaliseIPAddr(device.Ip)
+	if ip := net.ParseIP(host); host != "" && ip.To4() == nil { //without an ip the device can only be used to find others
 		fmt.Println("fail ip")
+		return nil, fmt.Errorf("%q is not an IPv4 address", device.Ip)
 	}
 	//check port
 	if port == 0 {
 		port = 0xBAC0
 	}
-	ok = validation.ValidPort(port)
+	ok := validation.ValidPort(port)
 	if !ok {
 		fmt.Println("fail port")
+		return nil, fmt.Errorf("%d is not a port", port)
+	}
+	//what doesn't fit would become the address of another device
+	if device.NetworkNumber < 0 || device.NetworkNumber > math.MaxUint16 {
+		return nil, fmt.Errorf("%d is not a network number", device.NetworkNumber)
+	}
+	if device.MacMSTP < 0 || device.MacMSTP > math.MaxUint8 {
+		return nil, fmt.Errorf("%d is not an mstp mac address", device.MacMSTP)
 	}
 
-	ip, err := ip2bytes.New(device.Ip, uint16(port))
+	ip, err := ip2bytes.New(host, uint16(port))
 	if err != nil {
 		fmt.Println("fail ip2bytes")
 		return nil, err
-- 
2.43.0


From baea461bd769f188e66a2316771fbc2619e84776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:56 +0000
Subject: [PATCH 84/89] fix: refuse a multiple read's reply that lacks what was
 asked for

The late answer to an earlier request for some of the same properties was
taken for the answer to the one that has its invoke id now.
---
 replies.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/replies.go b/replies.go
index da8e527..97584c1 100644
--- a/replies.go
+++ b/replies.go
@@ -77,9 +77,36 @@ func checkAnswer(asked, given []btypes.Object) error {
 			}
 		}
 	}
+	for _, a := range asked {
+		for _, p := range a.Properties {
+			if !answers(given, a.ID, p) {
+				return fmt.Errorf("received no answer for object %v %d property %d", a.ID.Type, a.ID.Instance, p.Type)
+			}
+		}
+	}
 	return nil
 }
 
+// answers tells whether what was given has the property that was asked for.
+// What a device has of a group of properties is up to the device.
+func answers(given []btypes.Object, id btypes.ObjectID, p btypes.Property) bool {
+	for _, g := range given {
+		if !sameObjectID(id, g.ID) {
+			continue
+		}
+		switch p.Type {
+		case btypes.PROP_ALL, btypes.PROP_OPTIONAL, btypes.PROP_REQUIRED:
+			return true
+		}
+		for _, gp := range g.Properties {
+			if gp.Type == p.Type && gp.ArrayIndex == p.ArrayIndex {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func asksFor(asked []btypes.Object, id btypes.ObjectID, p btypes.Property) bool {
 	for _, a := range asked {
 		if !sameObjectID(a.ID, id) {
-- 
2.43.0


From 026d12033a64458db53838b646aa7b2d5255ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:12 +0000
Subject: [PATCH 85/89] fix: ignore messages of other versions of the protocol

---
 device.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/device.go b/device.go
index 3bad887..8988bd0 100644
--- a/device.go
+++ b/device.go
@@ -191,6 +191,11 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			return
 		}
 
+		if npdu.Version != btypes.ProtocolVersion {
+			c.log.Debugf("Ignored a message of protocol version %d", npdu.Version)
+			return
+		}
+
 		if npdu.IsNetworkLayerMessage {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
-- 
2.43.0


From 41e2b764e96ca6b244d612138a4c74b654afcad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 86/89] fix: the address of a constructed device is not a
 broadcast

---
 btypes/device.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/btypes/device.go b/btypes/device.go
index 0ede2e6..2591f5b 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -94,9 +94,10 @@ func NewDevice(device *Device) (*Device, error) {
 		return nil, err
 	}
 	addr := Address{
-		Net: uint16(device.NetworkNumber),
-		Mac: ip,
-		Adr: []uint8{uint8(device.MacMSTP)},
+		Net:    uint16(device.NetworkNumber),
+		MacLen: uint8(len(ip)), //without it the address counts as a broadcast
+		Mac:    ip,
+		Adr:    []uint8{uint8(device.MacMSTP)},
 	}
 	object := ObjectID{
 		Type:     DeviceType,
-- 
2.43.0


From 23cdbf773d008daa4f2e23b76da30540d8bf155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:51 +0000
Subject: [PATCH 87/89] fix: a device's announced size stays when it is read
 with another type

---
 network/whois.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index dcffccf..6607fb4 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -60,14 +60,16 @@ func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails,
 			_, read := data.ToStr(property)
 			resp.Name = read
 		case btypes.PropMaxAPDU:
-			_, read := data.ToUint32(property)
-			resp.MaxApdu = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.MaxApdu = read
+			}
 		case btypes.PropVendorName:
 			_, read := data.ToStr(property)
 			resp.VendorName = read
 		case btypes.PropSegmentationSupported:
-			_, read := data.ToUint32(property)
-			resp.Segmentation = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.Segmentation = read
+			}
 		case btypes.ProtocolServicesSupported:
 			_, read := data.ToBitString(property)
 			resp.ProtocolServicesSupported = read
-- 
2.43.0


From 8aaa58106f377d06967547beca29d1ec929d2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:27 +0000
Subject: [PATCH 88/89] fix: a scan asks for no more objects at once than fit a
 reply

---
 objectlist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index ad787e9..aefe293 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -103,7 +103,12 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := max(int(dev.MaxApdu)/readPropRequestSize, 1)
+	// A device that accepts more must not answer with more than is accepted here
+	accepted := dev.MaxApdu
+	if accepted > btypes.MaxAPDU {
+		accepted = btypes.MaxAPDU
+	}
+	scanSize := max(int(accepted)/readPropRequestSize, 1)
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
-- 
2.43.0


From e8386ab590d3652be635b7095b211bad91a1d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:28 +0000
Subject: [PATCH 89/89] fix: refuse a message that is longer than its link
 header can say

---
 device.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/device.go b/device.go
index 8988bd0..80286ea 100644
--- a/device.go
+++ b/device.go
@@ -11,6 +11,7 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -319,6 +320,9 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 		}
 	}
 
+	if mtuHeaderLength+len(data) > math.MaxUint16 {
+		return 0, fmt.Errorf("a message of %d octets is too long to be sent", len(data))
+	}
 	header.Length = uint16(mtuHeaderLength + len(data))
 	header.Data = data
 	e := encoding.NewEncoder()
-- 
2.43.0

