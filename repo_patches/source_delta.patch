From 7fb1be8a36deb5854a2375394f4392094e67d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 01/30] fix: write the zero property length of a packet without
 properties

property.encode returned 1 without writing the byte, so encoding into a
buffer that was not zeroed put garbage in place of the property length.
---
 mqttp/property.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..181b8fe 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -439,6 +439,7 @@ func (p *property) encode(to []byte) (int, error) {
 	}
 
 	if pLen == 1 {
+		to[0] = 0
 		return 1, nil
 	}
 
-- 
2.43.0


From d48c80023db917137179331283cf543482ed41fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 02/30] fix: keep the property set and its length consistent in
 property.Set

Overwriting a property counted its length twice, a value of a wrong type
was stored without error and made Encode panic later, a list was accepted
for properties that must not repeat, and setting a property on a packet
created for 3.x and switched to 5.0 panicked on a nil map.
---
 mqttp/property.go | 51 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 181b8fe..c11d52c 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -350,10 +350,43 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
+	if isPropertyList(id, val) && !id.DupAllowed(t) {
+		return ErrPropertyDuplicate
+	}
+
+	if p.properties == nil {
+		p.reset()
+	}
+
+	// value being replaced does not count anymore
+	if old, ok := p.properties[id]; ok {
+		var oldLen int
+		if oldLen, err = fn(id, old); err != nil {
+			return err
+		}
+		p.len -= oldLen
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
+}
+
+// isPropertyList checks if value holds many occurrences of the property
+func isPropertyList(id PropertyID, val interface{}) bool {
+	switch val.(type) {
+	case []uint8:
+		return propertyTypeMap[id] == PropertyTypeByte
+	case []uint16, []uint32, []string, [][]byte, []StringPair:
+		return true
+	}
+
+	return false
 }
 
 // Get property value
@@ -475,7 +508,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -496,7 +529,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -517,7 +550,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -538,7 +571,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -559,7 +592,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -575,12 +608,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -601,7 +634,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From 8f93ad4dbb6d3fc7776ff676834a56b3cf633a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 03/30] fix: keep every subscription identifier of an incoming
 PUBLISH

A repeated subscription identifier replaced the previous one while the
lengths of both were counted, so identifiers were lost and the packet
could not be encoded again.
---
 mqttp/property.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index c11d52c..59e0ff5 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,14 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	if v, ok := t.v.([]uint32); ok {
+		return v, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -689,7 +698,15 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	// property might be provided many times
+	switch old := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{old, v}
+	case []uint32:
+		p.properties[id] = append(old, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 2638d2354c1a700b43a889acaf5aafd9eed8a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 04/30] fix: reject variable byte integers longer than four
 bytes

MQTT limits them to four bytes, five byte encodings were accepted both as
remaining length and within properties.
---
 mqttp/header.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..9ec4332 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -56,6 +56,9 @@ const (
 	maskSubscriptionReservedV5     byte = 0xC0
 )
 
+// maxVarIntLen max bytes a variable byte integer might take
+const maxVarIntLen = 4
+
 func (h *header) init(t Type, v ProtocolVersion, sz func() int, enc, dec func([]byte) (int, error)) {
 	h.setType(t)
 
@@ -276,7 +279,9 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m < 0 {
+		return offset, CodeMalformedPacket
+	} else if m == 0 {
 		return offset, ErrInsufficientDataSize
 	}
 
@@ -315,7 +320,7 @@ func (h *header) decode(from []byte) (int, error) {
 // and the number of bytes n is <= 0 meaning:
 //
 //	n == 0: buf too small
-//	n  < 0: value larger than 32 bits (overflow)
+//	n  < 0: value takes more than 4 bytes (overflow)
 //              and -n is the number of bytes read
 //
 // copied from binary.Uvariant
@@ -323,10 +328,10 @@ func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
+		if i >= maxVarIntLen {
+			return 0, -(i + 1) // overflow
+		}
 		if b < 0x80 {
-			if i > 4 || i == 4 && b > 1 {
-				return 0, -(i + 1) // overflow
-			}
 			return x | uint32(b)<<s, i + 1
 		}
 		x |= uint32(b&0x7f) << s
-- 
2.43.0


From a1e066f06da8ae8214f527e08f429d6bf6e83934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 05/30] fix: do not read properties beyond the property length
 or in non-minimal form

A value running past the property block took bytes of the fields after it
and made the remaining length of the block wrap around; over-long variable
byte integers left the property length inconsistent with the encoding.
---
 mqttp/property.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 59e0ff5..9db0cc6 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -433,18 +433,33 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 		return offset, CodeMalformedPacket
 	}
 
+	// [MQTT-1.5.5-1] value must be encoded with minimum number of bytes
+	if lCount != uvarintCalc(pLen) {
+		return offset, CodeMalformedPacket
+	}
+
 	offset += lCount
 
+	// properties must not go out of the property length
+	if int(pLen) > len(from[offset:]) {
+		return offset, CodeMalformedPacket
+	}
+
 	var err error
 
 	for pLen != 0 {
-		slice := from[offset:]
+		slice := from[offset : offset+int(pLen)]
 
 		idVal, count := uvarint(slice)
 		if count <= 0 {
 			return offset - count, CodeMalformedPacket
 		}
 
+		// [MQTT-1.5.5-1]
+		if count != uvarintCalc(idVal) {
+			return offset, CodeMalformedPacket
+		}
+
 		id := PropertyID(idVal)
 
 		if !id.IsValidPacketType(t) {
@@ -693,7 +708,8 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
 	v, cnt := uvarint(from[offset:])
-	if cnt <= 0 {
+	// [MQTT-1.5.5-1] value must be encoded with minimum number of bytes
+	if cnt <= 0 || cnt != uvarintCalc(v) {
 		return offset, CodeMalformedPacket
 	}
 	offset += cnt
-- 
2.43.0


From 132a87910099fde171269350d014cc61550bcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 06/30] fix: do not overwrite the AUTH reason code with the
 properties when encoding

---
 mqttp/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..ed5886f 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 4a55a103d45f75cbfcc1868f7f2d75be19a7cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 07/30] fix: let Auth.SetReasonCode accept exactly the codes
 valid for AUTH

It tested the previous code, with the condition inverted, so no valid code
could ever be set.
---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index ed5886f..7bd73b8 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From d763a5a94b9678145cdd17138aa6bf8eb80c72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 08/30] fix: encode the properties of a 5.0 UNSUBSCRIBE

Both the property length and the properties were missing from the encoded
packet, which 5.0 peers cannot parse.
---
 mqttp/unsubscribe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..4ed8e85 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,15 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0
+	if msg.version == ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +151,11 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// V5.0
+	if msg.version == ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From 0056408b5ce6bcec97b86b278714f988483a2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 09/30] fix: count UNSUBSCRIBE topics right when decoding

Every topic was taken for one byte longer than it is, as in SUBSCRIBE,
which left short trailing topics undecoded.
---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 4ed8e85..5221c39 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From cf1aefdf5bcdc572787479f2efaee623e070f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 10/30] fix: accept every 5.0 reason code in an incoming SUBACK

---
 mqttp/suback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From 14db90b5b71ce41a0cdabee6a8eec624b8519f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 11/30] fix: let UNSUBACK take every 5.0 reason code defined
 for it

---
 mqttp/unsuback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..75448a6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-- 
2.43.0


From 278494bb446ac7d6b571ae300e51406832d6289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 12/30] fix: decode 5.0 UNSUBACK packets carrying reason codes

The codes were not counted as consumed, hence every such packet was
reported as malformed.
---
 mqttp/unsuback.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 75448a6..7ef401b 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -83,6 +83,7 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 
 		for _, c := range from[offset:msg.remLen] {
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+			offset++
 		}
 	}
 
-- 
2.43.0


From cff2378aaa8797e61dc75cabad9f9910157a5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 13/30] fix: reject undefined reason codes in an incoming
 UNSUBACK

---
 mqttp/unsuback.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 7ef401b..2efaaa1 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -82,6 +82,10 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 		}
 
 		for _, c := range from[offset:msg.remLen] {
+			if !ReasonCode(c).IsValidForType(msg.mType) {
+				return offset, CodeProtocolError
+			}
+
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 			offset++
 		}
-- 
2.43.0


From a9aa9da3171e7ced91a4d020e8f78c2918e9fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 14/30] fix: reject packets whose packet identifier is missing
 or truncated

Absent bytes of the identifier were silently taken for zero.
---
 mqttp/header.go      | 13 +++++++++++--
 mqttp/puback.go      |  5 ++++-
 mqttp/publish.go     |  6 +++++-
 mqttp/suback.go      |  5 ++++-
 mqttp/subscribe.go   |  5 ++++-
 mqttp/unsuback.go    |  5 ++++-
 mqttp/unsubscribe.go |  5 ++++-
 7 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 9ec4332..26b35ce 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -199,12 +199,21 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	// packet identifier must be presented completely
+	if len(src) < 2 {
+		rejectCode := CodeRefusedServerUnavailable
+		if h.version == ProtocolV50 {
+			rejectCode = CodeMalformedPacket
+		}
+		return 0, rejectCode
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..612f8cc 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 2efaaa1..90d14e6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 5221c39..7be3db8 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From d967baef8dba97f5bba007dc7c5f3d0866b2a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 15/30] fix: judge and store the new credentials in
 Connect.SetCredentials

The password-without-user-name rule looked at the previous values, a
rejected call cleared the flags, and values left out stayed readable.
---
 mqttp/connect.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..05c91b3 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,21 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	if !utf8.Valid(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From 2dca425ebedec765b4e63c167217d89bf3ed8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 16/30] fix: clone a PUBLISH for the version of the session it
 goes to

The clone kept the version of the original, so a session of another
version sent a packet its peer cannot parse.
---
 mqttp/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..45062b1 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -71,7 +71,7 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 // qos, topic, payload, retain and properties
 func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
 	// message version should be same as session as encode/decode depends on it
-	pkt := NewPublish(msg.version)
+	pkt := NewPublish(v)
 
 	// [MQTT-3.3.1-9]
 	// [MQTT-3.3.1-3]
-- 
2.43.0


From 03d0684746e6c473310dc916cd0a43df70852609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 17/30] fix: accept protocol error and payload format invalid
 in CONNACK

MQTT 5.0 table 3-1 lists 0x82 and 0x99 for CONNACK.
---
 mqttp/reasonCodes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..e5cdedc 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
-- 
2.43.0


From e0355bb4165086a43ab24ad09ae1a6421e6db7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 18/30] fix: accept packet identifier in use in PUBACK

MQTT 5.0 table 3-4 lists 0x91 for PUBACK.
---
 mqttp/reasonCodes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index e5cdedc..91ba733 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -103,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From 61df84fbb0199108cdb84a13d105c44c2f6c0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 19/30] fix: report the error of PacketTypeDir for undefined
 codes, not for defined ones

---
 mqttp/reasonCodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 91ba733..9e2370d 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -252,10 +252,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From 45ef4dcd1e1070964fb250e62912071064a7979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 20/30] fix: tell the issuers of reason codes apart

The issuer constants all had the same value, and the 3.x CONNACK codes
were attributed to the client.
---
 mqttp/reasonCodes.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 9e2370d..04aa66f 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -69,11 +69,11 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 }{
 	CONNACK: {
 		CodeSuccess:                            {iss: CodeIssuerServer, desc: "The Connection is accepted"},
-		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerClient, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
-		CodeRefusedIdentifierRejected:          {iss: CodeIssuerClient, desc: "The Client identifier is not allowed"},
-		CodeRefusedServerUnavailable:           {iss: CodeIssuerClient, desc: "Server refused connection"},
-		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerClient, desc: "The data in the user name or password is malformed"},
-		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
+		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
+		CodeRefusedIdentifierRejected:          {iss: CodeIssuerServer, desc: "The Client identifier is not allowed"},
+		CodeRefusedServerUnavailable:           {iss: CodeIssuerServer, desc: "Server refused connection"},
+		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerServer, desc: "The data in the user name or password is malformed"},
+		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
 		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
@@ -174,8 +174,8 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeNotSupportedQoS:                   {iss: CodeIssuerServer, desc: "The Client specified a QoS greater then the QoS specified in a Maximum QoS in the CONNACK"},
 		CodeUseAnotherServer:                  {iss: CodeIssuerServer, desc: "The Client should temporarily change its Server"},
 		CodeServerMoved:                       {iss: CodeIssuerServer, desc: "The Server is moved and the client should permanently change its server location"},
-		CodeSharedSubscriptionNotSupported:    {iss: 0, desc: ""},
-		CodeConnectionRateExceeded:            {iss: 0, desc: ""},
+		CodeSharedSubscriptionNotSupported:    {iss: CodeIssuerServer, desc: "The Server does not support Shared Subscriptions"},
+		CodeConnectionRateExceeded:            {iss: CodeIssuerServer, desc: "This connection is closed because the connection rate is too high"},
 		CodeMaximumConnectTime:                {iss: CodeIssuerServer, desc: "The maximum connection time authorized for this connection has been exceeded"},
 		CodeSubscriptionIDNotSupported:        {iss: CodeIssuerServer, desc: "The Server does not support subscription identifiers; the subscription is not accepted"},
 		CodeWildcardSubscriptionsNotSupported: {iss: CodeIssuerServer, desc: "The Server does not support Wildcard subscription; the subscription is not accepted"},
-- 
2.43.0


From db589835561760366e137adf293479c3ba412bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 21/30] fix: do not report undefined reason codes as valid for
 5.0

---
 mqttp/reasonCodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 04aa66f..8204a33 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -278,7 +278,7 @@ func (c ReasonCode) IsValidV3() bool {
 
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
-	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
+	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c.IsValid()) {
 		return true
 	}
 	return false
-- 
2.43.0


From 945bb24b90d111ade60f3d45ad790883064c919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 22/30] fix: do not lose the maximum to a concurrent increment

The check and the store of Max.AddU64 were separate, so a goroutine that
reached a lower level could overwrite a higher maximum.
---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..6336210 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 87d9cd6238146c312b6660e11e520f281c58e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 23/30] fix: describe every packet error

Five errors had the text of unknown ones and the protocol version error
spoke of the protocol name.
---
 mqttp/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/errors.go b/mqttp/errors.go
index 5f58331..1418be1 100644
--- a/mqttp/errors.go
+++ b/mqttp/errors.go
@@ -101,6 +101,16 @@ func (e Error) Error() string {
 	case ErrInvalidUtf8:
 		return "String is not UTF8"
 	case ErrInvalidProtocolVersion:
+		return "Invalid protocol version"
+	case ErrInvalid:
+		return "Invalid value"
+	case ErrNotSet:
+		return "Value is not set"
+	case ErrPanicDetected:
+		return "Panic detected"
+	case ErrNotSupported:
+		return "Not supported"
+	case ErrProtocolInvalidName:
 		return "Invalid protocol name"
 	}
 
-- 
2.43.0


From fc7522047c7dfd15118423e0e6c028d867c55bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 24/30] fix: reject SUBSCRIBE with retain handling 3

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e6b411e..fb13833 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -115,6 +115,11 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeMalformedPacket
 		}
 
+		// V5.0   [MQTT-3.8.3.1] Retain Handling value of 3 is a protocol error
+		if msg.version == ProtocolV50 && subsOptions.RetainHandling() > 2 {
+			return offset, CodeProtocolError
+		}
+
 		var topic *Topic
 		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
 			return offset, CodeProtocolError
-- 
2.43.0


From ef829b019de7c931062b916eaf35d5c2b64eec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 25/30] fix: compare the remaining length with its limit before
 narrowing it

A remaining length of 4 GiB or more wrapped around to a small one and was
accepted, and encoding then panicked.
---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 26b35ce..04e3552 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -151,6 +151,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	if int64(ml) > int64(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 1ff81e4b5f500782a2b203bd6d35379dfa4ab6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 26/30] fix: refuse property values no variable byte integer
 can hold

PropertySet accepted subscription identifiers above 268435455 and the
packet was then encoded with a five byte integer [MQTT-1.5.5].
---
 mqttp/property.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 9db0cc6..fb49206 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -589,9 +589,15 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > uint32(maxRemainingLength) {
+			return 0, ErrInvalidArgs
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > uint32(maxRemainingLength) {
+				return 0, ErrInvalidArgs
+			}
 			l += calc(v)
 		}
 	default:
-- 
2.43.0


From 5428296dd0d145d136facd05d87820324a15313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 27/30] fix: an expiry further than 2^32 seconds away has not
 elapsed

The remaining time was cut to 32 bits, so Expired could report a message
as expired (or nearly so) centuries too early.
---
 mqttp/publish.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 45062b1..04db728 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,7 +57,12 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
+			left := msg.expireAt.Sub(now) / time.Second
+			if left > math.MaxUint32 {
+				left = math.MaxUint32
+			}
+
+			if df = uint32(left); df > 0 {
 				expired = false
 			}
 		}
-- 
2.43.0


From 21f7d0cd33e9f28df5bdb6655b0ded1ca4d5e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 28/30] fix: a complete packet is not refused for insufficient
 data

A length prefix at the very end of a packet that promises more than there
is (e.g. PUBLISH 30 02 00 05, CONNECT 10 00) made Decode report
ErrInsufficientDataSize for the whole packet, telling the reader to wait
for bytes that cannot help.
---
 mqttp/header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 04e3552..55b397f 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -319,6 +319,15 @@ func (h *header) decode(from []byte) (int, error) {
 		offset += msgTotal
 	}
 
+	// the packet is complete, data it lacks is not going to arrive
+	if err == ErrInsufficientDataSize {
+		rejectCode := CodeRefusedServerUnavailable
+		if h.version == ProtocolV50 {
+			rejectCode = CodeMalformedPacket
+		}
+		err = rejectCode
+	}
+
 	// this is malformed packet if packed was decoded but there is still
 	// payload remaining
 	if int32(offset-fhLen) != h.remLen {
-- 
2.43.0


From c238b152d610a96165e3f2b311ea88d8ca189da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 29/30] fix: a refused CONNECT keeps its reason

Unless the fault was in the last field, the reason found by the CONNECT
decoder (unsupported protocol version, identifier rejected, bad user name
...) was replaced by CodeMalformedPacket, which is no CONNACK code of 3.x,
so a server could not answer as [MQTT-3.1.2-2] and [MQTT-3.1.3-8] require.
---
 mqttp/header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 55b397f..36e5cf0 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -329,8 +329,8 @@ func (h *header) decode(from []byte) (int, error) {
 	}
 
 	// this is malformed packet if packed was decoded but there is still
-	// payload remaining
-	if int32(offset-fhLen) != h.remLen {
+	// payload remaining. Refused CONNECT keeps the reason it is answered with
+	if int32(offset-fhLen) != h.remLen && (err == nil || h.mType != CONNECT) {
 		return offset, CodeMalformedPacket
 	}
 
-- 
2.43.0


From e5d508024bb63440a8535e42760ce9cd91090db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 30/30] fix: refuse truncated CONNECT and CONNACK without
 panicking

---
 mqttp/connack.go |  5 +++++
 mqttp/connect.go | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/mqttp/connack.go b/mqttp/connack.go
index da1444c..2b05478 100644
--- a/mqttp/connack.go
+++ b/mqttp/connack.go
@@ -73,6 +73,11 @@ func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
 func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	offset := 0
 
+	// flags and return code must be presented
+	if len(from) < 2 {
+		return offset, ErrInsufficientDataSize
+	}
+
 	// [MQTT-3.2.2.1]
 	b := from[offset]
 	if b&(^maskConnAckSessionPresent) != 0 {
diff --git a/mqttp/connect.go b/mqttp/connect.go
index 05c91b3..b800b18 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -335,6 +335,10 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		return offset, ErrProtocolInvalidName
 	}
 
+	if len(from[offset:]) < 1 {
+		return offset, ErrInsufficientDataSize
+	}
+
 	// V3.1.1 [MQTT-3.1.2.2]
 	// V5.0   [MQTT-3.1.2.2]
 	msg.version = ProtocolVersion(from[offset])
@@ -346,6 +350,10 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		return offset, ErrInvalidProtocolVersion
 	}
 
+	if len(from[offset:]) < 1 {
+		return offset, ErrInsufficientDataSize
+	}
+
 	// V3.1.1 [MQTT-3.1.2.3]
 	// V5.0   [MQTT-3.1.2.3]
 	msg.connectFlags = from[offset]
@@ -393,6 +401,10 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		return offset, CodeRefusedBadUsernameOrPassword
 	}
 
+	if len(from[offset:]) < 2 {
+		return offset, ErrInsufficientDataSize
+	}
+
 	// V3.1.1 [MQTT-3.1.2.10]
 	// V5.0   [MQTT-3.1.2.10]
 	msg.keepAlive = binary.BigEndian.Uint16(from[offset:])
-- 
2.43.0

