From 334142fdaea4d6bce2d9c7932ba8141875b91d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 01/25] fix: reject packets too short to hold their packet
 identifier

---
 mqttp/header.go      | 8 ++++++--
 mqttp/puback.go      | 5 ++++-
 mqttp/publish.go     | 6 +++++-
 mqttp/suback.go      | 5 ++++-
 mqttp/subscribe.go   | 5 ++++-
 mqttp/unsuback.go    | 5 ++++-
 mqttp/unsubscribe.go | 5 ++++-
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..f05866d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,16 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	if len(src) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..7bf85b5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..01480ec 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -70,7 +70,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..7ae89ce 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From 10f75aa13185d759dcbf5653eb00fe6ee69b4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 02/25] fix: reject property identifiers and integers that are
 not minimal variable byte integers

---
 mqttp/property.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..c4c32ca 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -403,6 +403,11 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 			return offset - count, CodeMalformedPacket
 		}
 
+		// [MQTT-1.5.5-1]
+		if count != uvarintCalc(idVal) {
+			return offset, CodeMalformedPacket
+		}
+
 		id := PropertyID(idVal)
 
 		if !id.IsValidPacketType(t) {
@@ -650,7 +655,8 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
 	v, cnt := uvarint(from[offset:])
-	if cnt <= 0 {
+	// [MQTT-1.5.5-1]
+	if cnt <= 0 || cnt != uvarintCalc(v) || v > uint32(maxRemainingLength) {
 		return offset, CodeMalformedPacket
 	}
 	offset += cnt
-- 
2.43.0


From c759ab6b601057c9d443d37579a83c7c98af1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 03/25] fix: accept every V5.0 return code of SUBACK and
 UNSUBACK and no other

---
 mqttp/suback.go   |  6 ++++--
 mqttp/unsuback.go | 14 +++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 7bf85b5..612f8cc 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -90,8 +90,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 01480ec..096be4d 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
@@ -83,7 +85,13 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 		}
 
 		for _, c := range from[offset:msg.remLen] {
-			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+			code := ReasonCode(c)
+			if !code.IsValidForType(msg.mType) {
+				return offset, CodeProtocolError
+			}
+
+			msg.returnCodes = append(msg.returnCodes, code)
+			offset++
 		}
 	}
 
-- 
2.43.0


From bc86eeea422653594ec0e6b5c6b8763d025ca126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 04/25] fix: decode every topic of an UNSUBSCRIBE packet

---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 7ae89ce..0013043 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -94,7 +94,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From ba27353dda2a1878b7a62dc218ef51439f3af6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 05/25] fix: encode the properties of a V5.0 UNSUBSCRIBE packet

---
 mqttp/unsubscribe.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 0013043..40218fb 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -124,6 +124,16 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0
+	// [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version == ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -145,6 +155,11 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// v5.0 [MQTT-3.10.2.1]
+	if msg.version == ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From a910e1b85f060e57a3b36758417b1a001fb2d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 06/25] fix: write the zero length of an empty property block

---
 mqttp/property.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index c4c32ca..4891e79 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -444,6 +444,7 @@ func (p *property) encode(to []byte) (int, error) {
 	}
 
 	if pLen == 1 {
+		to[0] = 0
 		return 1, nil
 	}
 
-- 
2.43.0


From 6a4503047e9de33cdb5b5b0b44debbba7be5be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 07/25] fix: do not overwrite the AUTH reason code with the
 properties

---
 mqttp/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..ed5886f 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From f6780d0a79732ace5ed0be15843837c98eafda99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 08/25] fix: AUTH accepts valid reason codes and rejects others

---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index ed5886f..7bd73b8 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From 8a6ff33c2ef64f20808dd50747d0ff41a98aa6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 09/25] fix: keep the property length right when a property is
 set again

---
 mqttp/property.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4891e79..c79a8f5 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -350,10 +350,19 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
+	if prev, ok := p.properties[id]; ok {
+		prevLen, _ := fn(id, prev)
+		p.len -= prevLen
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
 }
 
 // Get property value
-- 
2.43.0


From 79d6792d2a540d4ee654f8c9401b919b779af7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 10/25] fix: setting a property does not panic after switching
 a V3 message to V5.0

---
 mqttp/property.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index c79a8f5..1352acc 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -354,6 +354,10 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	if p.properties == nil {
+		p.reset()
+	}
+
 	if prev, ok := p.properties[id]; ok {
 		prevLen, _ := fn(id, prev)
 		p.len -= prevLen
-- 
2.43.0


From 1f0e5a35496e50fa20711608bf4fa67dd68de548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 11/25] fix: reject property values which cannot be encoded

---
 mqttp/property.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 1352acc..07bfbbb 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -344,8 +344,10 @@ func (p *property) FullLen() int {
 func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	if mT, ok := propertyAllowedMessageTypes[id]; !ok {
 		return ErrPropertyInvalidID
-	} else if _, ok = mT[t]; !ok {
+	} else if dup, ok := mT[t]; !ok {
 		return ErrPropertyPacketTypeMismatch
+	} else if !dup && isPropertyList(id, val) {
+		return ErrPropertyDuplicate
 	}
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
@@ -369,6 +371,18 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	return nil
 }
 
+// isPropertyList check if value holds many values of the property
+func isPropertyList(id PropertyID, val interface{}) bool {
+	switch val.(type) {
+	case []uint16, []uint32, []string, []StringPair, [][]byte:
+		return true
+	case []uint8:
+		return propertyTypeMap[id] == PropertyTypeByte
+	}
+
+	return false
+}
+
 // Get property value
 func (p *property) Get(id PropertyID) PropertyToType {
 	if val, ok := p.properties[id]; ok {
@@ -493,7 +507,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -514,7 +528,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -535,7 +549,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -550,13 +564,19 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > uint32(maxRemainingLength) {
+			return 0, ErrPropertyTypeMismatch
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > uint32(maxRemainingLength) {
+				return 0, ErrPropertyTypeMismatch
+			}
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -577,7 +597,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -593,12 +613,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -619,7 +639,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From 9be21c3cfffce3af7e55de63e8028bbeed51b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 12/25] fix: keep every subscription identifier of a PUBLISH
 packet

---
 mqttp/property.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 07bfbbb..f5dfa29 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -695,7 +695,15 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	// property might be presented more than once
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 3195a19a5d130e7b05e9bbc01a3b427442a6a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 13/25] fix: reject the reserved retain handling value in
 SUBSCRIBE

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e6b411e..7841a4f 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -115,6 +115,11 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeMalformedPacket
 		}
 
+		// [MQTT-3.8.3.1] retain handling value 3 is reserved
+		if subsOptions.Raw()&maskSubscriptionRetainHandling == maskSubscriptionRetainHandling {
+			return offset, CodeProtocolError
+		}
+
 		var topic *Topic
 		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
 			return offset, CodeProtocolError
-- 
2.43.0


From 82fe7f3521b6bedb0db70e394d3de82e9eade2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 14/25] fix: reject a V5.0 CONNECT with an empty will topic

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..dfc3bf1 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -473,6 +473,11 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		}
 		offset += n
 
+		// [MQTT-4.7.3-1] will has no topic alias to stand for an empty topic
+		if len(buf) == 0 {
+			return offset, ErrInvalidTopic
+		}
+
 		if err = msg.will.SetTopic(string(buf)); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From d3ca25115beba3950f0b74a7f5c962339b4e0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 15/25] fix: do not encode a PUBLISH without topic and topic
 alias

---
 mqttp/publish.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..d0c8b8a 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -372,6 +372,17 @@ func (msg *Publish) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidTopic
 	}
 
+	// topic might be empty only if there is topic alias
+	if len(msg.topic) == 0 {
+		prop := msg.PropertyGet(PropertyTopicAlias)
+		if prop == nil {
+			return 0, ErrInvalidTopic
+		}
+		if val, err := prop.AsShort(); err != nil || val == 0 {
+			return 0, ErrInvalidTopic
+		}
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From 3c6099431cb45969791a69598817703968e7359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 16/25] fix: do not encode a SUBSCRIBE without topics

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 7841a4f..197b91b 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -148,6 +148,11 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 		return 0, ErrPackedIDZero
 	}
 
+	// [MQTT-3.8.3-3]
+	if len(msg.topics) == 0 {
+		return 0, ErrInvalidLength
+	}
+
 	offset := msg.encodePacketID(to)
 
 	// V5.0   [MQTT-3.1.2.11]
-- 
2.43.0


From 82f46c83fa76b9f7de53e46490de78fbef7743d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 17/25] fix: CONNECT credentials are those of the last
 successful call

---
 mqttp/connect.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index dfc3bf1..f2dabe3 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,22 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	// [MQTT-3.1.3-11]
+	if !IsValidUTF(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From 03b374b24970217974d8e06527719796bbbb51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 18/25] fix: report the direction of a reason code

---
 mqttp/reasonCodes.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..4527cc0 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -69,11 +69,11 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 }{
 	CONNACK: {
 		CodeSuccess:                            {iss: CodeIssuerServer, desc: "The Connection is accepted"},
-		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerClient, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
-		CodeRefusedIdentifierRejected:          {iss: CodeIssuerClient, desc: "The Client identifier is not allowed"},
-		CodeRefusedServerUnavailable:           {iss: CodeIssuerClient, desc: "Server refused connection"},
-		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerClient, desc: "The data in the user name or password is malformed"},
-		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
+		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
+		CodeRefusedIdentifierRejected:          {iss: CodeIssuerServer, desc: "The Client identifier is not allowed"},
+		CodeRefusedServerUnavailable:           {iss: CodeIssuerServer, desc: "Server refused connection"},
+		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerServer, desc: "The data in the user name or password is malformed"},
+		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
@@ -249,10 +249,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From 990afb1a71db86cfc0e1f0efb123f91eeec422ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 19/25] fix: detect packet sizes which do not fit 32 bits

---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index f05866d..36697d7 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	if int64(ml) > int64(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 1e832a1dbdc577b1a8c38e09342d28ca168a27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 20/25] fix: do not lose the peak of concurrent updates

---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..6336210 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From de10e6b753192b072794e2dbb03442a071c1addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 21/25] fix: reject a remaining length of more than four bytes

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 36697d7..572a0ce 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -288,6 +288,11 @@ func (h *header) decode(from []byte) (int, error) {
 		return offset, ErrInsufficientDataSize
 	}
 
+	// [MQTT-2.2.3] remaining length takes four bytes at most
+	if m > 4 {
+		return offset, CodeMalformedPacket
+	}
+
 	fhLen := m + 1
 
 	offset += m
-- 
2.43.0


From 29c8d21b051814582b04d762ed6b604253b8e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 22/25] fix: add missing reason codes of CONNACK and PUBACK

---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 4527cc0..b29c9b4 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT Packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From 95dde5c561b79696907af0c06fc528df61acbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 23/25] fix: reject a property length that is not a minimal
 variable byte integer

---
 mqttp/property.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index f5dfa29..e5a264b 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -418,6 +418,11 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 		return offset, CodeMalformedPacket
 	}
 
+	// [MQTT-1.5.5-1]
+	if lCount != uvarintCalc(pLen) || pLen > uint32(maxRemainingLength) {
+		return offset, CodeMalformedPacket
+	}
+
 	offset += lCount
 
 	var err error
-- 
2.43.0


From 965835e160a1e1fa503a1c41765e027824b41f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 24/25] fix: give every error its own text

---
 mqttp/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/errors.go b/mqttp/errors.go
index 5f58331..dc6a32c 100644
--- a/mqttp/errors.go
+++ b/mqttp/errors.go
@@ -101,6 +101,16 @@ func (e Error) Error() string {
 	case ErrInvalidUtf8:
 		return "String is not UTF8"
 	case ErrInvalidProtocolVersion:
+		return "Invalid protocol version"
+	case ErrInvalid:
+		return "Invalid"
+	case ErrNotSet:
+		return "Not set"
+	case ErrPanicDetected:
+		return "Panic detected"
+	case ErrNotSupported:
+		return "Not supported"
+	case ErrProtocolInvalidName:
 		return "Invalid protocol name"
 	}
 
-- 
2.43.0


From f7efe0f364e37309532669853f0167230e830ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 25/25] fix: a message that lives longer than 32-bit seconds is
 not expired

The seconds left were cut to their low 32 bits, so that a message whose
expiry lies a multiple of 2^32 seconds ahead counted as expired.
---
 mqttp/publish.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index d0c8b8a..36290ae 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,9 +57,11 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
-				expired = false
+			left := msg.expireAt.Sub(now) / time.Second
+			if df = uint32(left); time.Duration(df) != left {
+				df = math.MaxUint32
 			}
+			expired = df == 0
 		}
 
 		return msg.expireAt, df, expired
-- 
2.43.0

