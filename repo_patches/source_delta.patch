From bdc39f2ce326ae4f16b3f211ad5b32be2a3a5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 01/93] fix: count the bytes of the MQTT 5 property length
 itself, not those of the last identifier

With 128 or more bytes of properties the decoder reported one byte too few,
so that the fields after the properties were read from the wrong position.
---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..712f84a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -641,8 +641,8 @@ class Properties(object):
   def unpack(self, buffer):
     self.clear()
     # deserialize properties into attributes from buffer received from network
-    propslen, VBIlen = VBIs.decode(buffer)
-    buffer = buffer[VBIlen:] # strip the bytes used by the VBI
+    propslen, lenlen = VBIs.decode(buffer)
+    buffer = buffer[lenlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
@@ -657,7 +657,7 @@ class Properties(object):
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise MQTTException("Property '%s' must not exist more than once" % property)
       setattr(self, propname, value)
-    return self, propslen + VBIlen
+    return self, propslen + lenlen
 
 
 class Connects(Packets):
-- 
2.43.0


From 8669c5a037bd9a45a5f87a3fd355438fa6195f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 02/93] fix: refuse MQTT 5 properties that run past the
 property length or the packet

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 712f84a..5919603 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -643,11 +643,15 @@ class Properties(object):
     # deserialize properties into attributes from buffer received from network
     propslen, lenlen = VBIs.decode(buffer)
     buffer = buffer[lenlen:] # strip the bytes used by the VBI
+    if propslen > len(buffer):
+      raise MalformedPacket("Property length runs past the end of the packet")
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
       buffer = buffer[VBIlen:] # strip the bytes used by the VBI
       propslenleft -= VBIlen
+      if identifier not in self.properties:
+        raise MalformedPacket("Unknown property identifier %d" % identifier)
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
@@ -657,6 +661,8 @@ class Properties(object):
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise MQTTException("Property '%s' must not exist more than once" % property)
       setattr(self, propname, value)
+    if propslenleft != 0:
+      raise MalformedPacket("Property runs past the end of the properties")
     return self, propslen + lenlen
 
 
-- 
2.43.0


From c124448f53b56165c3fe179c30e92a22af058726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 03/93] fix: MQTT 5 CONNECT: user name flag is bit 7 and
 password flag bit 6 when encoding too

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 5919603..da98cbf 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -704,7 +704,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From b50930c4b7646546ed6fb24bc88d77347452d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 04/93] fix: MQTT 5 strings: write the length in bytes, not in
 characters

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index da98cbf..0db6cb4 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -382,7 +382,9 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From 1ba2027570dad3c68e4618113ca645a767e9a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 05/93] fix: import traceback, which reporting a malformed MQTT
 5 CONNECT needs

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 0db6cb4..a69abae 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct
+import logging, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
-- 
2.43.0


From 884cf4e5ddbc434e0509ab39c7de0041baff4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 06/93] fix: accept MQTT 5 acknowledgements with properties,
 and refuse bytes left over after them

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a69abae..9960e42 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1113,7 +1113,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
@@ -1132,7 +1132,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From 9c3d4aa1d147f6f20a5ee1729f2965b13a53bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 07/93] fix: accept every reason code the standard allows in
 MQTT 5 SUBACK and UNSUBACK, and compare their reason codes

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 9960e42..031139d 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1344,8 +1344,7 @@ class UnsubSubacks(Packets):
         reasonCode = ReasonCodes(self.packetType, "Granted QoS 0")
       else:
         reasonCode = ReasonCodes(self.packetType, "Success")
-      reasonCode.unpack(buffer[-leftlen:])
-      assert reasonCode.value in [0, 1, 2, 0x80], "[MQTT5-3.9.3-2] return code in QoS must be 0, 1, 2 or 0x80"
+      reasonCode.unpack(buffer[-leftlen:]) # refuses codes which do not apply to this packet type
       leftlen -= 1
       self.reasonCodes.append(reasonCode)
     assert leftlen == 0
@@ -1372,7 +1371,7 @@ class UnsubSubacks(Packets):
   def __eq__(self, packet):
     return Packets.__eq__(self, packet) and \
            self.packetIdentifier == packet.packetIdentifier and \
-           self.data == packet.data
+           [rc.value for rc in self.reasonCodes] == [rc.value for rc in packet.reasonCodes]
 
 
 class Subacks(UnsubSubacks):
-- 
2.43.0


From 58d67202bd4ae67b0445b9c11c12fe2be333b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 08/93] fix: refuse an MQTT 5 CONNACK with bytes left over

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 031139d..8cb86c2 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -907,6 +907,7 @@ class Connacks(Packets):
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == len(buffer), "CONNACK packet is wrong length"
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From 7fcb32a1265160f3cfc05f6a64d2c1d40599bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 09/93] fix: stop reading an MQTT 5 variable byte integer after
 four bytes

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8cb86c2..12afc64 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -265,6 +265,8 @@ class VBIs:  # Variable Byte Integer
       value += (digit & 127) * multiplier
       if digit & 128 == 0:
         break
+      if bytes == 4:
+        raise MalformedPacket("Variable byte integer of more than four bytes")
       multiplier *= 128
     assert len(VBIs.encode(value)) == bytes, "[MQTT5-1.5.5-1] The encoded value MUST use the minimum number of bytes necessary"
     return (value, bytes)
@@ -293,6 +295,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) == 5:
+      raise MalformedPacket("Remaining length of more than four bytes")
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
-- 
2.43.0


From 47a07bdef6ebe4907ce0ccc39a776360492f9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 10/93] fix: allow MQTT 5 packets to be constructed from a
 buffer

The constructors call unpack without a maximum packet size.
---
 .../mqtt/formats/MQTTV5/MQTTV5.py             | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 12afc64..8e2f494 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -354,7 +354,7 @@ class FixedHeaders(object):
     buffer += VBIs.encode(length)
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     "unpack data from string buffer into separate fields"
     b0 = buffer[0]
     self.PacketType = b0 >> 4
@@ -727,7 +727,7 @@ class Connects(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.CONNECT
 
@@ -902,7 +902,7 @@ class Connacks(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 4
     assert PacketType(buffer) == PacketTypes.CONNACK
     curlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -960,7 +960,7 @@ class Disconnects(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     self.properties.clear()
     self.reasonCode.set("Normal disconnection")
     assert len(buffer) >= 2
@@ -1028,7 +1028,7 @@ class Publishes(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.PUBLISH
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -1112,7 +1112,7 @@ class Acks(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     self.properties.clear()
     self.reasonCode.set("Success")
     assert len(buffer) >= 2
@@ -1261,7 +1261,7 @@ class Subscribes(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     self.properties.clear()
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.SUBSCRIBE
@@ -1335,7 +1335,7 @@ class UnsubSubacks(Packets):
     assert len(buffer) >= 3 # must have property field, even if empty
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 3
     assert PacketType(buffer) == self.packetType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -1410,7 +1410,7 @@ class Unsubscribes(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.UNSUBSCRIBE
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -1470,7 +1470,7 @@ class Pingreqs(Packets):
     if buffer != None:
       self.unpack(buffer)
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.PINGREQ
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -1501,7 +1501,7 @@ class Pingresps(Packets):
     if buffer != None:
       self.unpack(buffer)
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.PINGRESP
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
@@ -1546,7 +1546,7 @@ class Disconnects(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     self.properties.clear()
     self.reasonCode.set("Normal disconnection")
     assert len(buffer) >= 2
@@ -1605,7 +1605,7 @@ class Auths(Packets):
     buffer = self.fh.pack(len(buffer)) + buffer
     return buffer
 
-  def unpack(self, buffer, maximumPacketSize):
+  def unpack(self, buffer, maximumPacketSize=MAX_PACKET_SIZE):
     assert len(buffer) >= 2
     assert PacketType(buffer) == PacketTypes.AUTH
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-- 
2.43.0


From 64e3a525ab903c4f332258d6fbf41e04048cfc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 11/93] fix: MQTT 3.1.1 packet constructors: set the retain
 flag that is encoded

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..d60bf48 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -376,7 +376,7 @@ class Connacks(Packets):
     self.fh = FixedHeaders(CONNACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     self.flags = 0
     self.returnCode = ReturnCode
     if buffer != None:
@@ -413,7 +413,7 @@ class Disconnects(Packets):
     self.fh = FixedHeaders(DISCONNECT)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -437,7 +437,7 @@ class Publishes(Packets):
     self.fh = FixedHeaders(PUBLISH)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.topicName = TopicName
     self.messageIdentifier = MsgId
@@ -503,7 +503,7 @@ class Pubacks(Packets):
     self.fh = FixedHeaders(PUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -540,7 +540,7 @@ class Pubrecs(Packets):
     self.fh = FixedHeaders(PUBREC)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -577,7 +577,7 @@ class Pubrels(Packets):
     self.fh = FixedHeaders(PUBREL)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -615,7 +615,7 @@ class Pubcomps(Packets):
     self.fh = FixedHeaders(PUBCOMP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -652,7 +652,7 @@ class Subscribes(Packets):
     self.fh = FixedHeaders(SUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topic, qos pairs
@@ -707,7 +707,7 @@ class Subacks(Packets):
     self.fh = FixedHeaders(SUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of qos
@@ -757,7 +757,7 @@ class Unsubscribes(Packets):
     self.fh = FixedHeaders(UNSUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topics
@@ -809,7 +809,7 @@ class Unsubacks(Packets):
     self.fh = FixedHeaders(UNSUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -847,7 +847,7 @@ class Pingreqs(Packets):
     self.fh = FixedHeaders(PINGREQ)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -871,7 +871,7 @@ class Pingresps(Packets):
     self.fh = FixedHeaders(PINGRESP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
-- 
2.43.0


From 809ebc1b7a5566751cec23f032b9794abdfb2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 12/93] fix: MQTT 3.1.1 strings: count bytes, not characters,
 when writing and reading

---
 .../mqtt/formats/MQTTV311/MQTTV311.py          | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index d60bf48..65cefd2 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -170,7 +170,9 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
@@ -271,7 +273,7 @@ class Connects(Packets):
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
       self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      curlen += len(self.ProtocolName.encode("utf-8")) + 2
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -298,11 +300,11 @@ class Connects(Packets):
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
       self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      curlen += len(self.ClientIdentifier.encode("utf-8")) + 2
 
       if self.WillFlag:
         self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        curlen += len(self.WillTopic.encode("utf-8")) + 2
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -312,7 +314,7 @@ class Connects(Packets):
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        curlen += len(self.username.encode("utf-8")) + 2
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -467,7 +469,7 @@ class Publishes(Packets):
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += len(self.topicName.encode("utf-8")) + 2
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -679,7 +681,7 @@ class Subscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= len(topic.encode("utf-8")) + 2
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -784,7 +786,7 @@ class Unsubscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= len(topic.encode("utf-8")) + 2
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From e8c70c209874542359211635542ff7b7f9f614c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 13/93] fix: refuse MQTT 3.1.1 binary data that runs past the
 end of the packet

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 65cefd2..bdaca28 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -200,6 +200,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MQTTException("Length delimited data too long")
   return buffer[2:2+length]
 
 
-- 
2.43.0


From ce602b5cbe0f8fe61d287cb977381e76b72b2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 14/93] fix: stop reading an MQTT 3.1.1 remaining length after
 four bytes

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index bdaca28..5fc7946 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -81,6 +81,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) == 5:
+      raise MQTTException("Remaining length of more than four bytes")
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
@@ -158,6 +160,8 @@ class FixedHeaders:
       value += (digit & 127) * multiplier
       if digit & 128 == 0:
         break
+      if bytes == 4:
+        raise MQTTException("Remaining length of more than four bytes")
       multiplier *= 128
     return (value, bytes)
 
-- 
2.43.0


From f2920a346fdb481be16fbde9e37a884569d17746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 15/93] fix: MQTT 3.1.1 broker: grant the lower QoS for the
 test topics instead of failing

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..f0e42ca 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -352,9 +352,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
-- 
2.43.0


From d9a2da255aae5d037a6e1fb2a001d9df52f34e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 16/93] fix: MQTT 3.1.1 broker: unsubscribe from every filter
 of an UNSUBSCRIBE, not only up to the first match

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..3829153 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -79,8 +79,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From ee45addbeabf20e98b30d58aee27866cded67e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 17/93] fix: reinitializing a broker empties the shared
 subscriptions and retained messages, and keeps sharing them

Calling the constructor again without arguments attached the broker to the
class's default dictionary: after that the MQTT 3.1.1 and 5 brokers no longer
shared anything, and a second reinitialization kept the old data.
---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 +++-
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index 3829153..3f0560a 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -44,7 +44,9 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"]  
 
    def reinitialize(self):
-     self.__init__()
+     # empty the data shared with the other brokers, and go on sharing it
+     for store in [self.__subscriptions, self.__dollar_subscriptions, self.__retained, self.__dollar_retained]:
+       store.clear()
 
    def subscribe(self, aClientid, topic, qos):
      if type(topic) == type([]):
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..f8809ba 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -48,7 +48,9 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"] 
 
    def reinitialize(self):
-     self.__init__()
+     # empty the data shared with the other brokers, and go on sharing it
+     for store in [self.__subscriptions, self.__dollar_subscriptions, self.__retained, self.__dollar_retained]:
+       store.clear()
 
    def subscribe(self, aClientid, topic, options):
      if type(topic) == type([]):
-- 
2.43.0


From c2e6e1e14de8ec1eff0a95ade3a6aa32b6420e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 18/93] fix: MQTT 5 broker: put a queued message on the list of
 outstanding ones once, not twice

The second entry was never removed, so it took up the client's receive maximum
for good and was sent again at each reconnection; queued QoS 0 messages stayed
there as well.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..6618fa2 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -163,8 +163,7 @@ class MQTTClients:
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+      self.sendFirst(self.queued.pop(0)) # adds QoS 1 and 2 messages to outbound
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
-- 
2.43.0


From 504b740621e1c9ea2946f3deb64fb6a2188051b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 19/93] fix: MQTT 5 broker: do not give a message the packet
 identifier of an unfinished one

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 6618fa2..1a2625a 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -148,6 +148,8 @@ class MQTTClients:
 
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
+      while self.msgid in self.outmsgs: # still used by an unfinished message
+        self.msgid = 1 if self.msgid == MQTTV5.MAX_PACKETID else self.msgid + 1
       pub.packetIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == MQTTV5.MAX_PACKETID:
-- 
2.43.0


From 9eba3df0edc59f12b23df6a440d722423ccfb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 20/93] fix: MQTT 3.1.1 broker: do not give a message the
 packet identifier of an unfinished one

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index f0e42ca..8945cca 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -99,6 +99,8 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      while self.msgid in self.outmsgs and len(self.outmsgs) < 65535: # still used by an unfinished message
+        self.msgid = 1 if self.msgid == 65535 else self.msgid + 1
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == 65535:
-- 
2.43.0


From 0274514c69ab407e9c421c7fc656fbf2427ab7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 21/93] fix: MQTT 3.1.1 broker: send a stored QoS 0 message
 once, not at every reconnection

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 8945cca..32261be 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -61,10 +61,11 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       logger.debug("resending "+str(pub))
       logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
       if pub.fh.QoS == 0:
+        self.outbound.remove(pub) # no acknowledgement will do it
         respond(self.socket, pub)
       elif pub.fh.QoS == 1:
         pub.fh.DUP = 1
-- 
2.43.0


From 2ee0718bd75cbee00e5984bd2df333ec994eddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 22/93] fix: MQTT 5 broker: give each recipient of a message
 its own properties

All recipients and the retained message shared one object, so that the topic
alias, subscription identifiers and remaining expiry interval set for one were
sent to the others. The properties of a will message could not take a
subscription identifier or topic alias at all.
---
 interoperability/mqtt/brokers/V5/Brokers.py     | 17 ++++++++++-------
 interoperability/mqtt/brokers/V5/MQTTBrokers.py |  8 +++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..4dea6a8 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -16,11 +16,11 @@
 *******************************************************************
 """
 
-import types, time, logging, random
+import types, time, logging, random, copy
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
-from mqtt.formats.MQTTV5 import ProtocolError
+from mqtt.formats.MQTTV5 import ProtocolError, Properties, PacketTypes
 
 logger = logging.getLogger('MQTT broker')
 
@@ -122,17 +122,20 @@ class Brokers:
     """
 
     def publishAction(options, subsprops, subsids=None):
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
+      # each recipient has its own properties, without affecting those of others or the retained message
+      outprops = copy.deepcopy(properties) if properties else Properties(PacketTypes.PUBLISH)
+      outprops.packetType = PacketTypes.PUBLISH # could have been those of a will message
+      if hasattr(outprops, "SubscriptionIdentifier"):
+        delattr(outprops, "SubscriptionIdentifier")
       if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
         if subsids:
           for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
+            outprops.SubscriptionIdentifier = subsid
         else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
+          outprops.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
       out_qos = min(options.QoS, qos)
       outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
+      self.__clients[subscriber].publishArrived(topic, message, out_qos, outprops, receivedTime, outretain)
 
     # topic alias
     if hasattr(properties, "TopicAlias"):
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1a2625a..103abeb 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -170,9 +170,11 @@ class MQTTClients:
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
     if properties:
-      if hasattr(properties, 'TopicAlias'):
-        del properties.TopicAlias
-      pub.properties = properties
+      # each client has its own properties: they are changed for one recipient only
+      pub.properties = copy.deepcopy(properties)
+      pub.properties.packetType = MQTTV5.PacketTypes.PUBLISH # could have been those of a will message
+      if hasattr(pub.properties, 'TopicAlias'):
+        del pub.properties.TopicAlias
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
     # Topic alias
     if self.topicAliasMaximum == 0:
-- 
2.43.0


From f8073b373a110511802bd4f6e63b5997ea93d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 23/93] fix: MQTT 5 broker: do not subtract the waiting time
 again when a message is resent

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 103abeb..4959a55 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -39,6 +39,7 @@ def respond(sock, packet, maximumPacketSize=500):
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
           packet.properties.MessageExpiryInterval -= timespent
+          packet.receivedTime += timespent # so that it is not subtracted again when resent
         except:
           traceback.print_exc()
   packed = packet.pack()
-- 
2.43.0


From b6ea442e169bc36f268b68756c509b4fe0d05a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 24/93] fix: MQTT 5 broker: forget QoS 1 and 2 messages that
 were discarded instead of sent

Messages which have expired or are too big for the client stayed outstanding
for ever, taking up its receive maximum.
---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 4959a55..08a5611 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -28,13 +28,14 @@ logger = logging.getLogger('MQTT broker')
 mybroker = None
 
 def respond(sock, packet, maximumPacketSize=500):
+  "returns False if the packet has been discarded instead of sent"
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
@@ -48,7 +49,7 @@ def respond(sock, packet, maximumPacketSize=500):
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -78,6 +79,7 @@ def respond(sock, packet, maximumPacketSize=500):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -124,15 +126,17 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
       pub.fh.DUP = 1
+      if not respond(self.socket, pub, self.maximumPacketSize):
+        self.discard(pub)
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
         pub.fh.DUP = 1
+        if not respond(self.socket, pub, self.maximumPacketSize):
+          self.discard(pub)
       else:
         resp = MQTTV5.Pubrels()
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
@@ -143,7 +147,7 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       self.resendPub(pub)
     self.sendQueued()
 
@@ -160,10 +164,17 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
-    if pub.fh.QoS > 0:
+    if not respond(self.socket, pub, self.maximumPacketSize):
+      self.discard(pub)
+    elif pub.fh.QoS > 0:
       pub.fh.DUP = 1
 
+  def discard(self, pub):
+    "forget a message which was discarded: no acknowledgement will come for it"
+    if pub.fh.QoS > 0:
+      self.outbound.remove(pub)
+      del self.outmsgs[pub.packetIdentifier]
+
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
       self.sendFirst(self.queued.pop(0)) # adds QoS 1 and 2 messages to outbound
-- 
2.43.0


From 3fc81a1866ce7c2020f2a468b8c3791f69c9e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 25/93] fix: MQTT 5 broker: limit packets other than PUBLISH by
 the client's maximum packet size, not by 500 bytes

An acknowledgement of more than 500 bytes was dropped, and one larger than the
client's own smaller maximum was sent. A reason string and user properties are
left out if the packet would be too large with them.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 08a5611..fe8ea7a 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,7 +27,7 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
   "returns False if the packet has been discarded instead of sent"
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
@@ -45,6 +45,14 @@ def respond(sock, packet, maximumPacketSize=500):
           traceback.print_exc()
   packed = packet.pack()
   # deal with packet size
+  if maximumPacketSize == None: # use the client's own, or none if it is not known yet
+    maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
+  if len(packed) > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH:
+    # these must be left out of a packet which would be too large with them
+    for name in ["UserProperty", "ReasonString"]:
+      if hasattr(packet, "properties") and hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+    packed = packet.pack()
   packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
-- 
2.43.0


From 1d7b28296ae5acc4c4a420e7a11152d5580a2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 26/93] fix: MQTT 5 broker: send delayed will messages while
 holding the broker's lock, and always release it

---
 .../mqtt/brokers/V5/MQTTBrokers.py             | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index fe8ea7a..fafc9a4 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -304,12 +304,16 @@ class cleanupThreads(threading.Thread):
       # will delay
       if self.lock:
         self.lock.acquire()
-      for clientid in self.broker.willMessageClients.copy():
-        client = self.broker.getClient(clientid)
-        if client and time.monotonic() >= client.delayedWillTime:
-          self.broker.sendWillMessage(clientid)
-      if self.lock:
-        self.lock.release()
+      try:
+        for clientid in self.broker.willMessageClients.copy():
+          client = self.broker.getClient(clientid)
+          if client and time.monotonic() >= client.delayedWillTime:
+            self.broker.sendWillMessage(clientid)
+      except:
+        traceback.print_exc() # one will message must not keep the others from being sent
+      finally:
+        if self.lock:
+          self.lock.release()
 
   def stop(self):
     self.running = False
@@ -331,7 +335,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
-- 
2.43.0


From d327d613c96bd22c6c4d96278f2a972c0ec4f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 27/93] fix: brokers: take the lock for keep alive timeouts,
 shutdown and reinitialization

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 21 +++++++++++--------
 .../mqtt/brokers/V5/MQTTBrokers.py            | 21 +++++++++++--------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 32261be..7f65c29 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -208,15 +208,17 @@ class MQTTBrokers:
     logger.info("Optional behaviour, support zero length clientids: %s", self.zero_length_clientids)
 
   def shutdown(self):
-    self.disconnectAll()
+    with self.lock:
+      self.disconnectAll()
 
   def setBroker5(self, broker5):
     self.broker.setBroker5(broker5.broker)
 
   def reinitialize(self):
     logger.info("Reinitializing broker")
-    self.clients = {}
-    self.broker.reinitialize()
+    with self.lock:
+      self.clients = {}
+      self.broker.reinitialize()
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
@@ -464,9 +466,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.messageIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, terminate=True)
+    with self.lock: # called from the thread of the connection
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, terminate=True)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index fafc9a4..1a455a7 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -346,7 +346,8 @@ class MQTTBrokers:
       self.mscfile.write("msc {\n broker;\n")
 
   def shutdown(self):
-    self.disconnectAll(reasonCode="Server shutting down")
+    with self.lock:
+      self.disconnectAll(reasonCode="Server shutting down")
     self.cleanupThread.stop()
 
   def setBroker3(self, broker3):
@@ -354,8 +355,9 @@ class MQTTBrokers:
 
   def reinitialize(self):
     logger.info("Reinitializing broker")
-    self.clients = {}
-    self.broker.reinitialize()
+    with self.lock:
+      self.clients = {}
+      self.broker.reinitialize()
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
@@ -771,9 +773,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.packetIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, sendWillMessage=True)
+    with self.lock: # called from the thread of the connection
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, sendWillMessage=True)
-- 
2.43.0


From 7a42bbfed8889a21db0f2f273a0c22ced9ff8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 28/93] fix: MQTT 5 broker: close the connection of a client
 that has not connected successfully

Refusing a packet before CONNECT, or a bad CONNECT, failed with a KeyError.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1a455a7..c0dff52 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -545,7 +545,10 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
-    me = self.clients[sock]
+    me = self.clients[sock] if sock in self.clients.keys() else None
+    if me == None: # not connected yet, so there is only the socket to close
+      self.closeSocket(sock)
+      return
     me.clearTopicAliases()
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
@@ -562,6 +565,9 @@ class MQTTBrokers:
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
+    self.closeSocket(sock)
+
+  def closeSocket(self, sock):
     try:
       sock.shutdown(socket.SHUT_RDWR) # must call shutdown to close socket immediately
     except:
-- 
2.43.0


From a99181a372a434437bebf160dcf82a02fcd366ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 29/93] fix: MQTT 5 broker: use the standard's reason code
 names for the reasons of a disconnection

The reason code of these DISCONNECT packets was not a known one, so an exception
was raised instead of the client being disconnected.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c0dff52..5657537 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -553,7 +553,7 @@ class MQTTBrokers:
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        raise MQTTV5.ProtocolError("Protocol error", "[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
     if reasonCode:
@@ -631,14 +631,14 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
         if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
+          logger.error("Receive maximum of %d exceeded: %d", self.options["receiveMaximum"], len(self.clients[sock].inbound)+1)
+          self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
           return
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
-- 
2.43.0


From c007a0feca100f74a59598d528307c979c135c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 30/93] fix: MQTT 5 broker: make the cmd/disconnectWithRC topic
 work again

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 5657537..29a69cd 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -721,11 +721,11 @@ class MQTTBrokers:
         props = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
         props.ReasonString = "This is a custom Reason String"
         props.ServerReference = "tcp://localhost:1883"
-        props.UserPropertyList = [("key", "value")]
+        props.UserProperty = [("key", "value")]
         self.disconnect(sock,
                         None,
                         sendWillMessage=False,
-                        reasonCode=returnCode,
+                        reasonCode=MQTTV5.ReasonCodes(MQTTV5.PacketTypes.DISCONNECT, identifier=returnCode).getName(),
                         properties=props)
 
 
-- 
2.43.0


From 45bd41427e0b8c295e94b8de4db86d1124b84aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 31/93] fix: brokers: disconnect a client, and send its will
 message, whatever goes wrong with its packet

After an assertion or other unexpected error the client stayed registered as
connected, and its will message was never sent.
---
 interoperability/mqtt/brokers/V311/Brokers.py    |  5 ++++-
 .../mqtt/brokers/V311/MQTTBrokers.py             | 16 +++++++++++-----
 interoperability/mqtt/brokers/V5/Brokers.py      |  5 ++++-
 interoperability/mqtt/brokers/V5/MQTTBrokers.py  | 15 +++++++++++----
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..609cd6e 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -71,7 +71,10 @@ class Brokers:
           logger.info("[MQTT-3.1.2-17] sending will message retained for client %s", aClientid)
         else:
           logger.info("[MQTT-3.1.2-16] sending will message non-retained for client %s", aClientid)
-        self.publish(aClientid, willtopic, willmsg, willQoS, willRetain, time.monotonic())
+        try:
+          self.publish(aClientid, willtopic, willmsg, willQoS, willRetain, time.monotonic())
+        except Exception:
+          logger.exception("sending will message for client %s", aClientid) # the client is still to be disconnected
       self.disconnect(aClientid)
 
   def disconnect(self, aClientid):
diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 7f65c29..3175942 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -236,11 +236,17 @@ class MQTTBrokers:
         self.disconnect(sock, None, terminate=True)
         terminate = True
       else:
-        packet = MQTTV3.unpackPacket(raw_packet)
-        if packet:
-          terminate = self.handlePacket(packet, sock)
-        else:
-          raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        try:
+          packet = MQTTV3.unpackPacket(raw_packet)
+          if packet:
+            terminate = self.handlePacket(packet, sock)
+          else:
+            raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        except Exception:
+          # whatever the problem was, don't leave the client half connected
+          traceback.print_exc()
+          self.disconnect(sock, None, terminate=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 4dea6a8..513d0b6 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -93,7 +93,10 @@ class Brokers:
 
   def disconnect(self, aClientid, willMessage=False, sessionExpiryInterval=-1):
     if willMessage:
-      self.setupWillMessage(aClientid)
+      try:
+        self.setupWillMessage(aClientid)
+      except Exception:
+        logger.exception("sending will message for client %s", aClientid) # the client is still to be disconnected
     if aClientid in self.__clients.keys():
       self.__clients[aClientid].connected = False
       if sessionExpiryInterval == 0:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 29a69cd..9c609fb 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -406,6 +406,11 @@ class MQTTBrokers:
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except Exception:
+          # whatever the problem was, don't leave the client half connected
+          traceback.print_exc()
+          self.disconnect(sock, reasonCode="Unspecified error", sendWillMessage=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
@@ -562,10 +567,12 @@ class MQTTBrokers:
         resp.properties = properties
       respond(sock, resp)
     if sock in self.clients.keys():
-      self.broker.disconnect(me.id, willMessage=sendWillMessage,
-          sessionExpiryInterval=me.sessionExpiryInterval)
-      del self.clients[sock]
-    self.closeSocket(sock)
+      try:
+        self.broker.disconnect(me.id, willMessage=sendWillMessage,
+            sessionExpiryInterval=me.sessionExpiryInterval)
+      finally:
+        del self.clients[sock]
+        self.closeSocket(sock)
 
   def closeSocket(self, sock):
     try:
-- 
2.43.0


From ee9739559a25ae30665da716d933c6b1dbb20c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 32/93] fix: brokers: send the will message of a client
 disconnected for a second CONNECT

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 +-
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 3175942..37fe034 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -282,7 +282,7 @@ class MQTTBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, terminate=True)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 9c609fb..9ab0ff0 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -454,7 +454,7 @@ class MQTTBrokers:
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, sendWillMessage=True, reasonCode="Protocol error")
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
-- 
2.43.0


From a7e96bbc616071f958373d4670f939a9ba7c3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 33/93] fix: MQTT 5 broker: send the will message of a client
 that disconnects with another reason than normal

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 9ab0ff0..406fed7 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -561,6 +561,9 @@ class MQTTBrokers:
         raise MQTTV5.ProtocolError("Protocol error", "[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+        me.willDelayInterval = min(me.willDelayInterval, me.sessionExpiryInterval)
+    if packet and packet.fh.PacketType == MQTTV5.PacketTypes.DISCONNECT and packet.reasonCode.value != 0:
+      sendWillMessage = True # only a normal disconnection discards the will message
     if reasonCode:
       resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
       if properties:
-- 
2.43.0


From b59f71fd2f99fe490faa485e67aff7e62237b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 34/93] fix: MQTT 5 broker: send a delayed will message when a
 clean start ends the session

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 406fed7..796d20b 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -517,6 +517,8 @@ class MQTTBrokers:
       delattr(packet.WillProperties, "WillDelayInterval") # must not be sent with will message
     if willDelayInterval > sessionExpiryInterval:
       willDelayInterval = sessionExpiryInterval
+    if me == None and packet.ClientIdentifier in self.broker.willMessageClients:
+      self.broker.sendWillMessage(packet.ClientIdentifier) # the previous session ends before its will delay
     if me == None:
       me = MQTTClients(packet.ClientIdentifier, packet.CleanStart, sessionExpiryInterval, willDelayInterval, keepalive, sock, self)
     else:
-- 
2.43.0


From 1bab5f42dc9767c3413ab12d7e6a7cb9f48d95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 35/93] fix: MQTT 5 broker: do not count a redelivered QoS 2
 message against the receive maximum again

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 796d20b..e916e3f 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -648,7 +648,8 @@ class MQTTBrokers:
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
+        redelivered = packet.fh.QoS == 2 and packet.packetIdentifier in self.clients[sock].inbound # already counted
+        if packet.fh.QoS > 0 and not redelivered and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
           logger.error("Receive maximum of %d exceeded: %d", self.options["receiveMaximum"], len(self.clients[sock].inbound)+1)
           self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
           return
-- 
2.43.0


From 187cd43fa4fbdbf79073089058966b58369a174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 36/93] fix: MQTT 5 broker: forget the delayed will messages of
 the clients that reinitialization removes

---
 interoperability/mqtt/brokers/V5/Brokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 513d0b6..110dd39 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -40,6 +40,7 @@ class Brokers:
 
   def reinitialize(self):
     self.__clients = {}
+    self.willMessageClients = set()
     self.se.reinitialize()
 
   def getClients(self):
-- 
2.43.0


From 0ca38b5a3eaac0d50fd517bb0f55c0a5778b69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 37/93] fix: MQTT 5 broker: serve a shared subscription only
 when it was chosen, and apart from the client's others

A client which received a message for another reason was also served for its
shared subscriptions that had not been chosen, and twice for those that had.
---
 interoperability/mqtt/brokers/V5/Brokers.py            | 10 +++++++---
 .../mqtt/brokers/V5/SubscriptionEngines.py             |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 110dd39..ac22258 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -178,10 +178,14 @@ class Brokers:
       subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
     
     subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
+    for chosen in subscriptions:  # all subscribed clients
+      subscriber = chosen.getClientid()
       # qos is lower of publication and subscription
       overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
+      if chosen in shared: # a shared subscription is served by itself
+        subscriptions = [chosen]
+      else:
+        subscriptions = [s for s in self.se.getSubscriptions(topic, subscriber) if not s.getTopic().startswith('$share/')]
       if len(subscriptions) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
         overlapping = True
@@ -189,7 +193,7 @@ class Brokers:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
       if self.overlapping_single:
         if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
+          options, subsprops = self.se.optionsOf(subscriber, topic, subscriptions)
           # any other subscription ids?
           subsids = []
           nolocalfilter = []
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index f8809ba..09d178f 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -130,10 +130,10 @@ class SubscriptionEngines:
          rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and Topics.topicMatches(sub.getTopic(), aTopic)]
      return rc
 
-   def optionsOf(self, clientid, topic):
+   def optionsOf(self, clientid, topic, subscriptions=None):
      # if there are overlapping subscriptions, choose maximum QoS
      chosen = None
-     for sub in self.getSubscriptions(topic, clientid):
+     for sub in self.getSubscriptions(topic, clientid) if subscriptions == None else subscriptions:
        if chosen == None:
          if hasattr(sub, "getOptions"):
            chosen = sub.getOptions()
-- 
2.43.0


From e88fd1d91c6ac3c5b97dd863bc4998afa63fc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 38/93] fix: a websocket closed within a frame is an error, not
 an endless loop; the mask is read whole

---
 .../mqtt/brokers/listeners/TCPListeners.py       | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..cb7c205 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -39,6 +39,16 @@ class BufferedSockets:
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def wsread(self, length):
+    "read exactly length bytes of a websocket frame"
+    data = bytearray()
+    while len(data) < length:
+      received = self.socket.recv(length - len(data))
+      if len(received) == 0:
+        raise ConnectionError("websocket closed within a frame")
+      data += received
+    return data
+
   def wsrecv(self):
     header1 = ord(self.socket.recv(1))
     header2 = ord(self.socket.recv(1))
@@ -56,10 +66,8 @@ class BufferedSockets:
         length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
     assert maskbit == True
     if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      mask = self.wsread(4)
+    mpayload = self.wsread(length)
     buffer = bytearray()
     if maskbit:
       mi = 0
-- 
2.43.0


From 0b49f29a46d73672c18a37489827f2462ba79eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 39/93] fix: websocket control frames are not MQTT data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index cb7c205..3d76469 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -76,7 +76,12 @@ class BufferedSockets:
         mi = (mi+1)%4
     else:
       buffer = mpayload
-    self.buffer += buffer
+    if opcode == 0x8: # close
+      raise ConnectionError("websocket closed")
+    elif opcode == 0x9: # ping, at most 125 bytes
+      self.socket.sendall(bytearray([0x8a, len(buffer)]) + buffer)
+    elif opcode != 0xa: # ignore pong
+      self.buffer += buffer
 
   def recv(self, bufsize):
     if self.websockets:
-- 
2.43.0


From ba6fcb30c933a8c5cf2943071499b95d5f57236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 40/93] fix: packets already read (websocket frame, TLS record)
 are handled without waiting for more data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 3d76469..1056bdb 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -36,6 +36,10 @@ class BufferedSockets:
     self.buffer = bytearray()
     self.websockets = False
 
+  def pending(self):
+    "data already read from the network, which select knows nothing of"
+    return len(self.buffer) > 0 or (isinstance(self.socket, ssl.SSLSocket) and self.socket.pending() > 0)
+
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
@@ -168,8 +172,8 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
-        if i == [sock]:
+        (i, o, e) = select.select([sock], [], [], 0 if sock.pending() else 1)
+        if i == [sock] or sock.pending():
           if first:
             char = sock.recv(1)
             sock.rebuffer(char)
-- 
2.43.0


From 7071bbea09469cd89407b32c7a324f5f60d09651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 41/93] fix: HTTP operations read the brokers' data under the
 shared lock

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..3cce1fb 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -106,7 +106,8 @@ class APIs:
             args = tuple(list(args) + [body])
           else:
             args = (body,)
-        rc = op[1](*args)
+        with lock:
+          rc = op[1](*args)
         found = True
         break
     if not found:
-- 
2.43.0


From a29ffad159a1625b58956108c7ef3f2d4071aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 42/93] fix: --port is the port listened to

---
 interoperability/mqtt/brokers/start.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..5c26f3f 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -130,7 +130,7 @@ def process_config(config, options):
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None):
+def run(config=None, port=1883):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -194,7 +194,7 @@ def run(config=None):
     if config == None:
       #TCPBridges.setBroker5(broker5)
       #TCPBridges.create(1886)
-      servers.append(TCPListeners.create(1883, serve_forever=True))
+      servers.append(TCPListeners.create(port, serve_forever=True))
     else:
       for server in servers_to_create:
         servers.append(server[0].create(**server[1]))
@@ -270,7 +270,7 @@ def main(argv):
     else:
       assert False, "unhandled option"
 
-  run(config=cfg)
+  run(config=cfg, port=port)
 
 def usage():
   print(
-- 
2.43.0


From b721236c00dd1b4e8d84e93b666f50d5f572aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 43/93] fix: server_keep_alive of the configuration file takes
 effect

---
 interoperability/mqtt/brokers/start.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 5c26f3f..b8e99d7 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -87,6 +87,8 @@ def process_config(config, options):
           except:
             pass
         options[words[0]] = result
+        if words[0] == "server_keep_alive":
+          options["serverKeepAlive"] = result
       elif words[0] == "listener":
         ca_certs = certfile = keyfile = None
         cert_reqs=ssl.CERT_REQUIRED
-- 
2.43.0


From cb1f58052f225788512f8c83efc2fd674a8ee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 44/93] fix: MQTT 5 broker: set topic aliases when a message is
 sent, so that none is used on another connection or before the client knows
 it

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index e916e3f..38f6001 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -172,11 +172,33 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    if not respond(self.socket, pub, self.maximumPacketSize):
+    if not self.respondWithAlias(pub):
       self.discard(pub)
     elif pub.fh.QoS > 0:
       pub.fh.DUP = 1
 
+  def respondWithAlias(self, pub):
+    "aliases belong to the connection, so they are not kept in the message, which may be sent again on another"
+    topic = pub.topicName
+    newAlias = False
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
+    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
+      self.outgoingTopicNamesToAliases.append(topic)       # add alias
+      newAlias = True # include topic name as well as alias first time
+    elif topic in self.outgoingTopicNamesToAliases:
+      pub.topicName = ""
+    if topic in self.outgoingTopicNamesToAliases:
+      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
+    sent = respond(self.socket, pub, self.maximumPacketSize)
+    pub.topicName = topic
+    if hasattr(pub.properties, "TopicAlias"):
+      del pub.properties.TopicAlias
+    if newAlias and not sent:
+      self.outgoingTopicNamesToAliases.pop() # the client does not know it
+    return sent
+
   def discard(self, pub):
     "forget a message which was discarded: no acknowledgement will come for it"
     if pub.fh.QoS > 0:
@@ -196,17 +218,7 @@ class MQTTClients:
       if hasattr(pub.properties, 'TopicAlias'):
         del pub.properties.TopicAlias
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
-- 
2.43.0


From 77337b7af167c61d9fc0145f2c2daaae6ad57cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 45/93] fix: MQTT 5 broker: send retained messages with the
 subscription's own identifier, not the publisher's

---
 interoperability/mqtt/brokers/V5/Brokers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index ac22258..211e8bf 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -225,7 +225,7 @@ class Brokers:
             self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds, subsprops=None):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
@@ -247,6 +247,12 @@ class Brokers:
             properties = None
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
+          properties = copy.deepcopy(properties) if properties else Properties(PacketTypes.PUBLISH)
+          if hasattr(properties, "SubscriptionIdentifier"):
+            delattr(properties, "SubscriptionIdentifier")
+          if subsprops and hasattr(subsprops[i], "SubscriptionIdentifier"):
+            properties.packetType = PacketTypes.PUBLISH # could have been those of a will message
+            properties.SubscriptionIdentifier = subsprops[i].SubscriptionIdentifier[0]
           thisqos = min(ret_qos, subsoptions[i].QoS)
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
@@ -254,7 +260,8 @@ class Brokers:
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds,
+                        [props for (options, props) in optionsprops])
     return rc
 
   def unsubscribe(self, aClientid, topic):
-- 
2.43.0


From 8f2f6508cf2c937ecc1f4e890d51149a6bbf9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 46/93] fix: MQTT 5 broker: do not send retained messages for
 shared subscriptions

---
 interoperability/mqtt/brokers/V5/Brokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 211e8bf..4662eb5 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -232,7 +232,7 @@ class Brokers:
       suboptions = [subsoptions]
     i = 0
     for t in topic: # t is a wildcard subscription topic
-      if subsoptions[i].retainHandling == 2 or \
+      if t.startswith('$share/') or subsoptions[i].retainHandling == 2 or \
         (subsoptions[i].retainHandling == 1 and resubscribeds[i]):
         i += 1
         continue
-- 
2.43.0


From 0a89a830e2e39afc2efbb1310effbba679e8b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 47/93] fix: brokers: disconnectAll, and unsubscribing from a
 single topic filter, fail no longer

---
 interoperability/mqtt/brokers/V311/Brokers.py           | 2 +-
 interoperability/mqtt/brokers/V5/Brokers.py             | 2 +-
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 609cd6e..b9fb224 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -96,7 +96,7 @@ class Brokers:
         self.__clients[aClientid].will = None
 
   def disconnectAll(self):
-    for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
+    for c in list(self.__clients.keys()): # copy the array because disconnect will remove an element
       self.disconnect(c)
 
   def publish(self, aClientid, topic, message, qos, retained, receivedTime):
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 4662eb5..297ae18 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -109,7 +109,7 @@ class Brokers:
         self.__clients[aClientid].connected = False
 
   def disconnectAll(self):
-    for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
+    for c in list(self.__clients.keys()): # copy the array because disconnect will remove an element
       self.disconnect(c)
 
   def getAliasTopic(self, aClientid, topicAlias):
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 09d178f..5a6a869 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -94,7 +94,8 @@ class SubscriptionEngines:
            matchedAny = matched
      else:
        matchedAny = self.__unsubscribe(aClientid, aTopic)
-       rc.append(ReasonCodes(UNSUBACK, "Success") if matched else ReasonCodes(UNSUBACK, "No subscription found"))
+       rc.append(MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "Success") if matchedAny else
+                 MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "No subscription found"))
      if not matchedAny:
        logger.info("[MQTT-3.10.4-5] Unsuback must be sent even if no topics are matched")
      return rc
-- 
2.43.0


From b9ebd32fe8e4ca336d5b8b93aa8aad0a30c31718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 48/93] fix: a No Local subscription does not determine the QoS
 and options of the publisher's own copy

---
 interoperability/mqtt/brokers/V5/Brokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 297ae18..43323ae 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -208,6 +208,7 @@ class Brokers:
             if not options.noLocal or subscriber != aClientid: # noLocal
               nolocalfilter = subscriptions
           if len(nolocalfilter) > 0:
+            options, subsprops = self.se.optionsOf(subscriber, topic, nolocalfilter)
             publishAction(options, subsprops, subsids=subsids)
         else:
           # MQTT V3 subscription
-- 
2.43.0


From 910003ae373c18609657cb698a5ee3cfc0429b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 49/93] fix: subscribing to $share/x or $shared does not make
 every later publication fail

---
 interoperability/mqtt/brokers/V5/Topics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..0007718 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -65,9 +65,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
+  if wild.startswith('$share/') and wild.count('/') >= 2:
     # strip shared prefix $share/sharename/
-    assert wild.count('/') >= 2
     wild = wild.split('/', 2)[2]
 
   rc = False
-- 
2.43.0


From 126cbdae28f93ea2ef3d6969a8b7f2d5b5ad89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 50/93] fix: MQTT 3.1.1 CONNECT: the user name flag is bit 7
 and the password flag bit 6 when encoding too

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 5fc7946..f61183e 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -251,7 +251,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
-- 
2.43.0


From 4f50a9eacdf70f6ed44dde3e07194341ee2cfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 51/93] fix: MQTT 3.1.1 CONNACK: the fields are read after the
 fixed header, however long it is

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index f61183e..1807b1f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -398,11 +398,11 @@ class Connacks(Packets):
   def unpack(self, buffer):
     assert len(buffer) >= 4
     assert MessageType(buffer) == CONNACK
-    self.fh.unpack(buffer)
+    fhlen = self.fh.unpack(buffer)
     assert self.fh.remainingLength == 2, "Connack packet is wrong length %d" % self.fh.remainingLength
-    assert buffer[2] in  [0, 1], "Connect Acknowledge Flags"
-    self.flags = buffer[2]
-    self.returnCode = buffer[3]
+    assert buffer[fhlen] in  [0, 1], "Connect Acknowledge Flags"
+    self.flags = buffer[fhlen]
+    self.returnCode = buffer[fhlen + 1]
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 0, "[MQTT-2.1.2-1]"
     assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From 7d6388ed48848a62b69511f64095ddfc40d1d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 52/93] fix: CONNECT: an empty user name or password at the end
 of the packet is valid

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 1807b1f..e71e3bb 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -318,7 +318,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
         curlen += len(self.username.encode("utf-8")) + 2
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -327,7 +327,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8e2f494..6f82d5d 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -790,7 +790,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -800,7 +800,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From 5143806e195f8c8b1316e4879c11ae68f5977406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 53/93] fix: MQTT 5 CONNECT: a password without a user name is
 valid

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6f82d5d..2fb843f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -797,7 +797,6 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.3-12] username must be next and UTF-8 encoded string")
       else:
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
-        assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
         assert len(buffer) >= curlen+2, "Buffer too short to read password length"
-- 
2.43.0


From 1c8ba1c77fe69dce720b4104e26b0760df40e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 54/93] fix: MQTT 5 SUBSCRIBE: a second subscription identifier
 is refused

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 2fb843f..d00550f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -664,8 +664,9 @@ class Properties(object):
       propslenleft -= valuelen
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
-      if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-        raise MQTTException("Property '%s' must not exist more than once" % property)
+      if hasattr(self, compressedName) and (not self.allowsMultiple(compressedName) or \
+          (compressedName == "SubscriptionIdentifier" and self.packetType == PacketTypes.SUBSCRIBE)):
+        raise MQTTException("Property '%s' must not exist more than once" % propname)
       setattr(self, propname, value)
     if propslenleft != 0:
       raise MalformedPacket("Property runs past the end of the properties")
-- 
2.43.0


From 521dd42567716520d1de5164f325a1bfb47ec251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 55/93] fix: UNSUBSCRIBE without a topic filter is refused

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index e71e3bb..4459f86 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -794,6 +794,7 @@ class Unsubscribes(Packets):
       topic = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= len(topic.encode("utf-8")) + 2
       self.data.append(topic)
+    assert len(self.data) > 0, "[MQTT-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 1, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d00550f..c82ffc2 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1425,6 +1425,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From edf60ba1b4621d07757174d5ab945eb2b74e5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 56/93] fix: MQTT 3.1.1 UNSUBACK with more than a packet
 identifier is refused

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 4459f86..76d9719 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -834,9 +834,9 @@ class Unsubacks(Packets):
     assert MessageType(buffer) == UNSUBACK
     fhlen = self.fh.unpack(buffer)
     assert len(buffer) >= fhlen + self.fh.remainingLength
+    assert self.fh.remainingLength == 2, "Unsuback packet is wrong length %d" % self.fh.remainingLength
     self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.messageIdentifier > 0, "[MQTT-2.3.1-1] packet indentifier must be > 0"
-    self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 0, "[MQTT-2.1.2-1]"
     assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From 25648fcfc876ec88bd78abb8374d7be2b1c896eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 57/93] fix: MQTT 5 subscription options: reserved bits must be
 0

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index c82ffc2..6cf4c43 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1216,6 +1216,7 @@ class SubscribeOptions(object):
     self.retainAsPublished = True if ((b0 >> 3) & 0x01) == 1 else False
     self.noLocal = True if ((b0 >> 2) & 0x01) == 1 else False
     self.QoS = (b0 & 0x03)
+    assert (b0 >> 6) == 0, "[MQTT5-3.8.3-5] reserved bits must be 0"
     assert self.retainHandling in [0, 1, 2], "Retain handling should be 0, 1 or 2, not %d" % self.retainHandling
     assert self.QoS in [0, 1, 2], "QoS should be 0, 1 or 2, not %d" % self.QoS
     return 1
-- 
2.43.0


From 09528eb34c19fe70274746e3fbe462ea4d5fbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 58/93] fix: MQTT 5 AUTH: reason code and properties may be
 left out

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6cf4c43..34b68df 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1616,8 +1616,11 @@ class Auths(Packets):
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     curlen = fhlen
-    curlen += self.reasonCode.unpack(buffer[curlen:])
-    curlen += self.properties.unpack(buffer[curlen:])[1]
+    self.properties.clear()
+    self.reasonCode.set("Success")
+    if self.fh.remainingLength > 0: # success without properties if there is nothing
+      curlen += self.reasonCode.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
     assert curlen == fhlen + self.fh.remainingLength, \
             "AUTH packet is wrong length %d %d" % (self.fh.remainingLength, curlen)
     return fhlen + self.fh.remainingLength
-- 
2.43.0


From c6fe6d15f88c28e7b3893d9317da1afeba9c55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 59/93] fix: MQTT 5 reason codes: CONNACK may say that the
 will's payload format is invalid

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 34b68df..3444249 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -202,7 +202,7 @@ class ReasonCodes:
           PacketTypes.PUBREC, PacketTypes.SUBACK, PacketTypes.DISCONNECT], },
     152 : { "Administrative action" : [PacketTypes.DISCONNECT] },
     153 : { "Payload format invalid" :
-            [PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
+            [PacketTypes.CONNACK, PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
     154 : { "Retain not supported" :
             [PacketTypes.CONNACK, PacketTypes.DISCONNECT] },
     155 : { "QoS not supported" :
-- 
2.43.0


From 61610d1c82842e2ce7e865d165eafb8adf1a25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 60/93] fix: the end of the stream within the first bytes of a
 CONNECT ends the connection instead of looping forever

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 1056bdb..19f6b79 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -188,7 +188,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
                 while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
-                  connbuf += sock.recv(1)
+                  char = sock.recv(1)
+                  if len(char) == 0: # the client has closed the connection
+                    break
+                  connbuf += char
                 connbuf += sock.recv(1)
                 version = connbuf[-1]
                 if version == 4:
-- 
2.43.0


From 539e9f36a3c0d2fa6de9ff5dc237d60574b09b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 61/93] fix: read the whole websocket handshake request,
 however it is split, and nothing after it

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 19f6b79..3670301 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -150,8 +150,13 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
 
   def handshake(self, client):
     GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
-    data = client.recv(1024).decode('utf-8')
-    headers = self.getheaders(data)
+    data = bytearray()
+    while not data.endswith(b"\r\n\r\n"):
+      char = client.recv(1)
+      if len(char) == 0:
+        raise ConnectionError("connection closed within the websocket handshake")
+      data += char
+    headers = self.getheaders(data.decode('utf-8'))
     digest = base64.b64encode(hashlib.sha1((headers['SEC-WEBSOCKET-KEY'] + GUID).encode("utf-8")).digest())
     resp = b"HTTP/1.1 101 Switching Protocols\r\n" +\
            b"Upgrade: websocket\r\n" +\
-- 
2.43.0


From 9cd0f20d79119eef0dc7a7524a02dcb786fdae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 62/93] fix: the end of the stream within an MQTT-SN message
 ends the read instead of looping forever

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..edfa97e 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -108,7 +108,10 @@ def getPacket(aSocket):
   rest = bytes([])
   if remlength > 0:
     while len(rest) < remlength:
-      rest += aSocket.recv(remlength-len(rest))
+      next = aSocket.recv(remlength-len(rest))
+      if len(next) == 0:
+        return None
+      rest += next
   assert len(rest) == remlength
   return buf + rest
 
-- 
2.43.0


From cea552fca05842acf4822e36bd48c429e67c38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 63/93] fix: the two bytes of a long MQTT-SN length may arrive
 separately

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index edfa97e..9fa69a2 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -100,7 +100,8 @@ def getPacket(aSocket):
   # now get the remaining length - the length field is the length of the
   # entire packet including the length field itself
   if buf[0] == 1: # indicates following two bytes are the length
-    buf += aSocket.recv(2)
+    buf += aSocket.recv(1)
+    buf += aSocket.recv(1)
     remlength = buf[1]*256 + buf[2] - 3
   else:
     remlength = buf[0] - 1
-- 
2.43.0


From 21e48cc1fea294cf20d6041d4340f0b194e3a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 64/93] fix: the length of an MQTT-SN PUBLISH counts the whole
 message

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 9fa69a2..90b6f5e 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -290,7 +290,7 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.Data)
+    msglen = 7 + len(self.Data)
     buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
       writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
     return buffer
-- 
2.43.0


From 678b52c69372ceae1ac3fcc9e7c0d70d733182b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 65/93] fix: MQTT-SN messages of more than 255 bytes have the
 long form of length, and text counts as bytes

---
 .../mqtt/formats/MQTTSN/MQTTSN.py             | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 90b6f5e..d7cfac5 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -148,6 +148,13 @@ class MessageLens:
       value = buffer[0]
     return (value, bytes)
 
+def writeMessage(messageType, body):
+  "a whole message: its length, which counts the length field itself, its type and the rest"
+  length = len(body) + 2
+  if length > 255:
+    length += 2
+  return MessageLens.encode(length) + bytes([messageType]) + body
+
 class Flags:
 
   def __init__(self):
@@ -214,10 +221,8 @@ class Connects(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.ClientId)
-    buffer = bytes([msglen, MessageTypes.CONNECT]) + self.Flags.pack() +\
-      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId)
-    return buffer
+    return writeMessage(MessageTypes.CONNECT, self.Flags.pack() +\
+      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
@@ -290,10 +295,8 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 7 + len(self.Data)
-    buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
-      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
-    return buffer
+    return writeMessage(self.messageType, self.Flags.pack() +\
+      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
-- 
2.43.0


From 02117d2c027b1fe0844cf3d49220bff037c76e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 66/93] fix: proxies close the connection to the broker when
 the client's has ended

---
 interoperability/mqtt/proxy/mqttsas.py    | 1 +
 interoperability/mqtt/proxy/wmqttsas.py   | 1 +
 interoperability/mqtt/restart/netproxy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/interoperability/mqtt/proxy/mqttsas.py b/interoperability/mqtt/proxy/mqttsas.py
index c888263..58be440 100755
--- a/interoperability/mqtt/proxy/mqttsas.py
+++ b/interoperability/mqtt/proxy/mqttsas.py
@@ -82,6 +82,7 @@ class MyHandler(socketserver.StreamRequestHandler):
     except:
       print(repr((i, o, e)), repr(inbuf))
       traceback.print_exc()
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
diff --git a/interoperability/mqtt/proxy/wmqttsas.py b/interoperability/mqtt/proxy/wmqttsas.py
index 9c4b8ea..6f79676 100755
--- a/interoperability/mqtt/proxy/wmqttsas.py
+++ b/interoperability/mqtt/proxy/wmqttsas.py
@@ -94,6 +94,7 @@ class MyHandler(socketserver.StreamRequestHandler):
     except:
       print(repr((i, o, e)), repr(inbuf))
       traceback.print_exc()
+    brokers.close()
     if self.ids.has_key(id(clients)):
       del self.ids[id(clients)]
     elif self.versions.has_key(id(clients)):
diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index a823017..dbbe760 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -137,6 +137,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
     except:
       #logger.debug(repr((i, o, e)) + " " + repr(inbuf))
       traceback.print_exc()
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
-- 
2.43.0


From ed2093b533fd223b0dd35f8c74130927e3533433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 67/93] fix: wmqttsas: dictionaries have no has_key in Python 3

---
 interoperability/mqtt/proxy/wmqttsas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/proxy/wmqttsas.py b/interoperability/mqtt/proxy/wmqttsas.py
index 6f79676..9dfeab5 100755
--- a/interoperability/mqtt/proxy/wmqttsas.py
+++ b/interoperability/mqtt/proxy/wmqttsas.py
@@ -95,9 +95,9 @@ class MyHandler(socketserver.StreamRequestHandler):
       print(repr((i, o, e)), repr(inbuf))
       traceback.print_exc()
     brokers.close()
-    if self.ids.has_key(id(clients)):
+    if id(clients) in self.ids:
       del self.ids[id(clients)]
-    elif self.versions.has_key(id(clients)):
+    elif id(clients) in self.versions:
       del self.versions[id(clients)]
 
 class ThreadingTCPServer(socketserver.ThreadingMixIn, socketserver.TCPServer):
-- 
2.43.0


From 3b52f2fbb24dd327eea2e30f17f402fb88f38506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 68/93] fix: wmqttsas passes on packets which it cannot show

---
 interoperability/mqtt/proxy/wmqttsas.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/interoperability/mqtt/proxy/wmqttsas.py b/interoperability/mqtt/proxy/wmqttsas.py
index 9dfeab5..ce42d09 100755
--- a/interoperability/mqtt/proxy/wmqttsas.py
+++ b/interoperability/mqtt/proxy/wmqttsas.py
@@ -70,9 +70,7 @@ class MyHandler(socketserver.StreamRequestHandler):
                         self.ids[id(clients)], repr(packet))
             except:
               traceback.print_exc()
-              # next line should not be needed once things work properly
               print("C to S", timestamp(), repr(inbuf))
-              sys.exit()
             #print "C to S", timestamp(), repr(inbuf)
             brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
@@ -84,9 +82,7 @@ class MyHandler(socketserver.StreamRequestHandler):
                                repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-              # next line should not be needed once things work properly
               print("S to C", timestamp(), repr(inbuf))
-              sys.exit()
             #print "S to C", timestamp(), repr(inbuf)
             clients.sendall(inbuf)
       wx.CallAfter(myWindow.status, timestamp()+" client "+self.ids[id(clients)]+\
-- 
2.43.0


From c11232f254eb7b87495162ef3a0b467ed4c5befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 69/93] fix: restart proxy sends the whole of each packet

---
 interoperability/mqtt/restart/netproxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index dbbe760..5f77e19 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -122,7 +122,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.send(inbuf)       # pass it on
+            brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
             inbuf = MQTTV3.getPacket(brokers) # get one packet
             if inbuf == None:
@@ -131,7 +131,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.send(inbuf)
+            clients.sendall(inbuf)
       if id(clients) in self.ids.keys():
         logger.info("client "+self.ids[id(clients)]+" connection closing")
     except:
-- 
2.43.0


From 7a5badd6e7ba28ed5d2d01dac1266c961a1574ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 70/93] fix: restart proxy keeps the sockets of concurrent
 connections apart

---
 interoperability/mqtt/restart/netproxy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index 5f77e19..a4b63a8 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -91,10 +91,15 @@ class ControlBrokers:
       rc = self.messages.pop(0)
     return rc
 
+def setConnection(aClients, aBrokers):
+  "the connection which a control message breaks"
+  global clients, brokers
+  clients, brokers = aClients, aBrokers
+
 class MQTTHandler(socketserver.StreamRequestHandler):
 
   def handle(self):
-    global brokers, clients, options, break_connections, control_broker
+    global options, break_connections, control_broker
     if not hasattr(self, "ids"):
       self.ids = {}
     if not hasattr(self, "versions"):
@@ -105,6 +110,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
       clients = self.request
       brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       brokers.connect((brokerhost, brokerport))
+      setConnection(clients, brokers)
       while inbuf != None:
         (i, o, e) = select.select([clients, brokers], [], [])
         for s in i:
-- 
2.43.0


From bf060574299dcdac79c91eb678d133631d7c55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 71/93] fix: broker options which follow a listener in the
 configuration file take effect

---
 interoperability/mqtt/brokers/start.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index b8e99d7..887ae1c 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -102,9 +102,11 @@ def process_config(config, options):
         if len(words) >= 4:
           if words[3] in ["mqttsn", "http"]:
             protocol = words[3]
-        while lineno < len(config) and not config[lineno].strip().startswith("listener"):
-          curline = config[lineno].strip()
-          lineno += 1
+        # look ahead for the options of this listener: those of the broker are left to the outer loop
+        listenerline = lineno
+        while listenerline < len(config) and not config[listenerline].strip().startswith("listener"):
+          curline = config[listenerline].strip()
+          listenerline += 1
           if curline.startswith('#') or len(curline) == 0:
             continue
           words = curline.split()
-- 
2.43.0


From 8ed8ba40fe79a9f9a4c714d9921ccdccc03bddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 72/93] fix: a configuration file without a listener starts the
 default one

---
 interoperability/mqtt/brokers/start.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 887ae1c..c7b65b8 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -131,7 +131,8 @@ def process_config(config, options):
         elif protocol == "http":
           servers_to_create.append((HTTPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
               "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile}))
-    servers_to_create[-1][1]["serve_forever"] = True
+    if len(servers_to_create) > 0:
+      servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
 def run(config=None, port=1883):
@@ -166,6 +167,8 @@ def run(config=None, port=1883):
 
   if config != None:
     servers_to_create, options = process_config(config, options)
+    if len(servers_to_create) == 0:
+      servers_to_create = [(TCPListeners, {"port":port, "serve_forever":True})]
 
   if options["persistence"]:
     logger.info("Using persistence")    
-- 
2.43.0


From b442ba086592fd91cebd5c5aec91c4212cd4bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 73/93] fix: the command line options for the broker's
 behaviour are accepted, and given to the brokers

---
 interoperability/mqtt/brokers/start.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index c7b65b8..04859ae 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -135,7 +135,7 @@ def process_config(config, options):
       servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None, port=1883):
+def run(config=None, port=1883, given={}):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -170,6 +170,8 @@ def run(config=None, port=1883):
     if len(servers_to_create) == 0:
       servers_to_create = [(TCPListeners, {"port":port, "serve_forever":True})]
 
+  options.update(given) # on the command line
+
   if options["persistence"]:
     logger.info("Using persistence")    
     connection, sharedData = setup_persistence("sharedData") # location for data shared between brokers - subscriptions for example
@@ -262,8 +264,10 @@ def main(argv):
     print(err) # will print something like "option -a not recognized"
     usage()
     sys.exit(2)
-  overlapping_single = dropQoS0 = zero_length_clientids = True
-  publish_on_pubrel = False
+  behaviours = {"-o":"overlapping_single", "-d":"dropQoS0", "-z":"zero_length_clientids",
+    "--overlapping_single":"overlapping_single", "--dropQoS0":"dropQoS0",
+    "--zero_length_clientids":"zero_length_clientids", "--publish_on_pubrel":"publish_on_pubrel"}
+  given = {}
   port = 1883
   cfg = None
   for o, a in opts:
@@ -274,10 +278,12 @@ def main(argv):
       port = int(a)
     elif o in ("-c", "--config-file"):
       cfg = read_config(a)
+    elif o in behaviours.keys():
+      given[behaviours[o]] = a.lower() not in ["off", "false", "0"]
     else:
       assert False, "unhandled option"
 
-  run(config=cfg, port=port)
+  run(config=cfg, port=port, given=given)
 
 def usage():
   print(
@@ -286,7 +292,11 @@ Eclipse Paho combined MQTT V311 and MQTT V5 broker
 
  -h --help: print this message
  -c --confile-file: the name of a configuration file
- --port= port number to listen to
+ -p --port= port number to listen to
+ -o --overlapping_single= whether overlapping subscriptions get one message (true) or one each (false), default true
+ -d --dropQoS0= whether QoS 0 messages for disconnected clients are dropped, default true
+ -z --zero_length_clientids= whether zero length client identifiers are accepted, default true
+ --publish_on_pubrel= whether QoS 2 messages are published on the PUBREL instead of the PUBLISH, default false
 
 """)
 
-- 
2.43.0


From 221d34a5041b867bc0d7f131ba64e92bad2b9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 74/93] fix: HTTP listeners with TLS: ssl.wrap_socket is no
 longer in Python

---
 .../mqtt/brokers/listeners/HTTPListeners.py           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 3cce1fb..fa61bde 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -255,12 +255,17 @@ def create(port, host="", TLS=False, serve_forever=False,
     bind_address = host
   httpd = http.server.HTTPServer((bind_address, port), requestHandler)
   if TLS:
-    httpd.socket = ssl.wrap_socket(httpd.socket,
-      ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-      cert_reqs=cert_reqs, server_side=True)
+    context = ssl.SSLContext(protocol=ssl.PROTOCOL_TLS_SERVER)
+    if certfile:
+      context.load_cert_chain(certfile, keyfile)
+    if ca_certs:
+      context.load_verify_locations(ca_certs)
+    context.verify_mode = cert_reqs
+    httpd.socket = context.wrap_socket(httpd.socket, server_side=True)
   if serve_forever:
     httpd.serve_forever()
   else:
     thread = threading.Thread(target = httpd.serve_forever)
     thread.daemon = True
     thread.start()
+  return httpd
-- 
2.43.0


From 1e8d9a2f6e6a86a32fc5710155dc6d3de1a0fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 75/93] fix: a second CONNECT with a wrong protocol name or
 version also publishes the will

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 8 ++++----
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 37fe034..50cda6f 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -269,6 +269,10 @@ class MQTTBrokers:
     return terminate
 
   def connect(self, sock, packet):
+    if sock in self.clients.keys():    # is socket is already connected?
+      self.disconnect(sock, None, terminate=True)
+      logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
+      raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if packet.ProtocolName != "MQTT":
       self.disconnect(sock, None)
       raise MQTTV3.MQTTException("[MQTT-3.1.2-1] Wrong protocol name %s" % packet.ProtocolName)
@@ -281,10 +285,6 @@ class MQTTBrokers:
       self.disconnect(sock, None)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
-    if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None, terminate=True)
-      logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
-      raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
       if self.zero_length_clientids == False or packet.CleanSession == False:
         if self.zero_length_clientids:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 38f6001..448c43b 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -451,6 +451,10 @@ class MQTTBrokers:
 
   def connect(self, sock, packet):
     resp = MQTTV5.Connacks()
+    if sock in self.clients.keys():    # is socket is already connected?
+      self.disconnect(sock, None, sendWillMessage=True, reasonCode="Protocol error")
+      logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
+      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if packet.ProtocolName != "MQTT":
       self.disconnect(sock, None)
       raise MQTTV5.MQTTException("[MQTT5-3.1.2-1-error] Wrong protocol name %s" % packet.ProtocolName)
@@ -465,10 +469,6 @@ class MQTTBrokers:
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
-    if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None, sendWillMessage=True, reasonCode="Protocol error")
-      logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
-      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
       packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
       logger.info("[MQTT5-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
-- 
2.43.0


From ac20b25d7633477aef1d7b112690970f7c528347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 76/93] fix: a change of the system clock made the MQTT 3.1.1
 broker disconnect clients that were active

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 50cda6f..21ebc05 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -263,7 +263,7 @@ class MQTTBrokers:
     else:
       getattr(self, MQTTV3.packetNames[packet.fh.MessageType].lower())(sock, packet)
       if sock in self.clients.keys():
-        self.clients[sock].lastPacket = time.time()
+        self.clients[sock].lastPacket = time.monotonic()
     if packet.fh.MessageType == MQTTV3.DISCONNECT:
       terminate = True
     return terminate
@@ -475,7 +475,7 @@ class MQTTBrokers:
     with self.lock: # called from the thread of the connection
       if sock in self.clients.keys():
         client = self.clients[sock]
-        if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
           # keep alive timeout
           logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
           self.disconnect(sock, None, terminate=True)
-- 
2.43.0


From 1a704ed535d989a8ed16417d200c88edf83ddba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 77/93] fix: topic aliases of QoS 2 messages were set at PUBREL
 time, and not at all by a redelivery

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 29 +++++++++++--------
 .../mqtt/brokers/V5/MQTTBrokers.py            |  5 +---
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 43323ae..1503d7c 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -120,6 +120,23 @@ class Brokers:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
+  def resolveAlias(self, aClientid, topic, properties):
+    "the topic of a message received: aliases belong to the connection, so they are dealt with when it arrives"
+    if hasattr(properties, "TopicAlias"):
+      if properties.TopicAlias == 0:
+        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
+      if len(topic) == 0:
+        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
+      else: # set incoming topic alias
+        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
+            properties.TopicAlias <= self.topicAliasMaximum:
+          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
+        else:
+          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
+      del properties.TopicAlias
+    assert len(topic) > 0
+    return topic
+
   def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
     """publish to all subscribed connected clients
        also to any disconnected non-cleanstart clients with qos in [1,2]
@@ -141,18 +158,6 @@ class Brokers:
       outretain = retained if options.retainAsPublished else False
       self.__clients[subscriber].publishArrived(topic, message, out_qos, outprops, receivedTime, outretain)
 
-    # topic alias
-    if hasattr(properties, "TopicAlias"):
-      if properties.TopicAlias == 0:
-        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
-      if len(topic) == 0:
-        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
-      else: # set incoming topic alias
-        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
-            properties.TopicAlias <= self.topicAliasMaximum:
-          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
-        else:
-          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
     assert len(topic) > 0
 
     if retained:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 448c43b..1b6ed4d 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -656,6 +656,7 @@ class MQTTBrokers:
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
+    packet.topicName = self.broker.resolveAlias(self.clients[sock].id, packet.topicName, packet.properties)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
@@ -699,8 +700,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -711,8 +710,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From 53c6953d3e087709560406acfff2cf29e67d7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:23 +0000
Subject: [PATCH 78/93] fix: a CONNECT announcing a Maximum Packet Size above
 268435455 was refused

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1b6ed4d..9360815 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -547,7 +547,6 @@ class MQTTBrokers:
     # the topic alias maximum in the connect properties sets the maximum outgoing topic aliases for a client
     me.topicAliasMaximum = packet.properties.TopicAliasMaximum if hasattr(packet.properties, "TopicAliasMaximum") else 0
     me.maximumPacketSize = packet.properties.MaximumPacketSize if hasattr(packet.properties, "MaximumPacketSize") else MQTTV5.MAX_PACKET_SIZE
-    assert me.maximumPacketSize <= MQTTV5.MAX_PACKET_SIZE # is this the correct value?
     me.receiveMaximum = packet.properties.ReceiveMaximum if hasattr(packet.properties, "ReceiveMaximum") else MQTTV5.MAX_PACKETID
     assert me.receiveMaximum <= MQTTV5.MAX_PACKETID
     logger.info("[MQTT-4.1.0-1] server must store data for at least as long as the network connection lasts")
-- 
2.43.0


From 458bb73ca307440bac01f557d57466cee40e158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 79/93] fix: the MQTT-SN broker was reinitialized without
 holding the lock

---
 interoperability/mqtt/brokers/SN/MQTTSNBrokers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 26c2879..08cb716 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -210,8 +210,9 @@ class MQTTSNBrokers:
 
   def reinitialize(self):
     logger.info("Reinitializing broker")
-    self.clients = {}
-    self.broker.reinitialize()
+    with self.lock:
+      self.clients = {}
+      self.broker.reinitialize()
 
   def handleRequest(self, raw_packet, client_address, callback):
     "this is going to be called from multiple threads, so synchronize"
-- 
2.43.0


From 7138d170174bfca5c0f3c75f3d9a0756f3a5162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 80/93] fix: HTTP DELETE, PATCH, POST and PUT requests call the
 API, not the module http

---
 .../mqtt/brokers/listeners/HTTPListeners.py           | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index fa61bde..b5f6210 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -158,7 +158,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
 
   def do_DELETE(self):
     logger.debug("do_DELETE")
-    rc = http.delete(urllib.request.unquote(self.path))
+    rc = api.delete(urllib.request.unquote(self.path))
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -171,6 +171,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
   def do_PATCH(self):
     logger.debug("do_PATCH")
     self.headers["Content-Disposition"] = 'inline; filename=""'
+    import cgi # only needed here, and not in all versions of Python
     form = cgi.FieldStorage(fp=self.rfile,
                             headers=self.headers,
                             environ={"REQUEST_METHOD": 'PATCH',
@@ -179,7 +180,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
       if type(form.value) == type(b""):
         form.value = form.value.decode()
       body = json.loads(form.value)
-    rc = http.patch(urllib.request.unquote(self.path), body)
+    rc = api.patch(urllib.request.unquote(self.path), body)
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -188,9 +189,6 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
     self.end_headers()
     if value:
       self.wfile.write(bytes(value + "\n", 'utf8'))
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
 
   def do_POST(self):
     logger.debug("do_POST")
@@ -203,6 +201,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
   def do_postput(self, op):
     # next line is workaround for bug: https://bugs.python.org/issue27308
     self.headers["Content-Disposition"] = 'inline; filename=""'
+    import cgi # only needed here, and not in all versions of Python
     form = cgi.FieldStorage(fp=self.rfile,
                             headers=self.headers,
                             environ={"REQUEST_METHOD": op.upper(),
@@ -220,7 +219,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
           body["schemaFileName"] = form[key].disposition_options["filename"]
           body["Content-Type"] = form[key].type
         body[key] = form[key].value
-    rc = getattr(http, op)(self.path, body)
+    rc = getattr(api, op)(self.path, body)
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
-- 
2.43.0


From d5199aabec3090bbefcd5971c57d8ae4ac108671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 81/93] fix: MQTT-SN Flags refuse an unknown attribute with the
 exception of their module

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index d7cfac5..86243e3 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -176,7 +176,7 @@ class Flags:
   def __setattr__(self, name, value):
     names = ["DUP", "QoS", "RETAIN", "Will", "CleanSession", "TopicIdType"]
     if name not in names:
-      raise MQTTException(name + " Attribute name must be one of "+str(names))
+      raise MQTTSNException(name + " Attribute name must be one of "+str(names))
     object.__setattr__(self, name, value)
 
   def __str__(self):
-- 
2.43.0


From 06a449f5fec7485956a5f152147b7121b241ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 82/93] fix: the clients' default callback accepts what the
 receiver passes to it

---
 interoperability/mqtt/clients/V311/main.py | 4 ++--
 interoperability/mqtt/clients/V5/main.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..98d727b 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -53,8 +53,8 @@ class Callback:
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
-    logger.debug("default subscribed %d", msgid)
+  def subscribed(self, msgid, data):
+    logger.debug("default subscribed %d %s", msgid, str(data))
 
   def unsubscribed(self, msgid):
     logger.debug("default unsubscribed %d", msgid)
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..887c6cb 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -50,15 +50,15 @@ class Callback:
   def connectionLost(self, cause):
     logger.debug("default connectionLost %s", str(cause))
 
-  def publishArrived(self, topicName, payload, qos, retained, msgid):
+  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
     logger.debug("default publishArrived %s %s %d %d %d", topicName, payload, qos, retained, msgid)
     return True
 
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
-    logger.debug("default subscribed %d", msgid)
+  def subscribed(self, msgid, reasonCodes):
+    logger.debug("default subscribed %d %s", msgid, str(reasonCodes))
 
   def unsubscribed(self, msgid):
     logger.debug("default unsubscribed %d", msgid)
-- 
2.43.0


From 79f711901e3b644c090a71393386411119caac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 83/93] fix: the clients' sendtosocket goes on after a partial
 send with what has not been sent yet

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 98d727b..9d84b26 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 887c6cb..a39c4cc 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 8530dc31ac3b42af5bc9948cec1d84e4851c6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 84/93] fix: the clients refuse to look for a free message id
 when there is none, instead of looking for ever

---
 interoperability/mqtt/clients/V311/main.py | 4 ++--
 interoperability/mqtt/clients/V5/main.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 9d84b26..954758c 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -78,8 +78,8 @@ class Client:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+    if len(self.__receiver.outMsgs) >= 65534: # ids 1 to 65534 are used
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index a39c4cc..16bc4d4 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -89,8 +89,8 @@ class Client:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+    if len(self.__receiver.outMsgs) >= 65534: # ids 1 to 65534 are used
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
-- 
2.43.0


From 7bf8f3a1852592d4e94fc75b8bdafcc5a30dfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 85/93] fix: the clients acknowledge a QoS 1 message which is
 received without a callback

---
 interoperability/mqtt/clients/V311/internal.py | 3 +++
 interoperability/mqtt/clients/V5/internal.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..e5e8133 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -120,6 +120,9 @@ class Receivers:
                         packet.fh.RETAIN, packet.messageIdentifier)
       elif packet.fh.QoS == 1:
         if callback == None:
+          self.puback.messageIdentifier = packet.messageIdentifier
+          logging.debug("out: %s", str(self.puback))
+          self.socket.send(self.puback.pack())
           return (packet.topicName, packet.data, 1,
                            packet.fh.RETAIN, packet.messageIdentifier)
         else:
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..89656c6 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -127,6 +127,9 @@ class Receivers:
                         packet.fh.RETAIN, packet.packetIdentifier, packet.properties)
       elif packet.fh.QoS == 1:
         if callback == None:
+          self.puback.packetIdentifier = packet.packetIdentifier
+          logger.debug("out: %s", str(self.puback))
+          self.socket.send(self.puback.pack())
           return (packet.topicName, packet.data, 1,
                            packet.fh.RETAIN, packet.packetIdentifier)
         else:
-- 
2.43.0


From 51d0a0e9a8bf37b5902e1fc24a8fb4f91c530109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 86/93] fix: the clients answer a PUBREL with PUBCOMP also if
 they have released the message before

---
 interoperability/mqtt/clients/V311/internal.py | 5 ++++-
 interoperability/mqtt/clients/V5/internal.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index e5e8133..cbe7af2 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -84,7 +84,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # already released, but the PUBCOMP may not have been received
+        self.pubcomp.messageIdentifier = packet.messageIdentifier
+        logging.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 89656c6..9818353 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -91,7 +91,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # already released, but the PUBCOMP may not have been received
+        self.pubcomp.packetIdentifier = packet.packetIdentifier
+        logger.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
-- 
2.43.0


From 05b4a0466ed3ab7a63aee5d2f804d70911fcc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 87/93] fix: PUBREC and PUBCOMP do not end or advance the
 exchange of a client's QoS 1 message

---
 interoperability/mqtt/clients/V311/internal.py | 6 ++++--
 interoperability/mqtt/clients/V5/internal.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index cbe7af2..75689b8 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -71,7 +71,8 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.MessageType == MQTTV3.PUBREC:
-      if packet.messageIdentifier in self.outMsgs.keys():
+      if packet.messageIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.messageIdentifier].fh.QoS == 2:
         self.outMsgs[packet.messageIdentifier].pubrec_received == True
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
@@ -103,7 +104,8 @@ class Receivers:
 
     elif packet.fh.MessageType == MQTTV3.PUBCOMP:
       "finished with this message id"
-      if packet.messageIdentifier in self.outMsgs.keys():
+      if packet.messageIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.messageIdentifier].fh.QoS == 2:
         del self.outMsgs[packet.messageIdentifier]
         if hasattr(callback, "published"):
           callback.published(packet.messageIdentifier)
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 9818353..7d22e9b 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -78,7 +78,8 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.packetIdentifier].fh.QoS == 2:
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
@@ -110,7 +111,8 @@ class Receivers:
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBCOMP:
       "finished with this message id"
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.packetIdentifier].fh.QoS == 2:
         del self.outMsgs[packet.packetIdentifier]
         if hasattr(callback, "published"):
           callback.published(packet.packetIdentifier)
-- 
2.43.0


From 02ae1849eb57064b9f080bd9e280faa51a0ebdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:50 +0000
Subject: [PATCH 88/93] fix: a PUBREC with an error code ends the exchange of
 the MQTT 5 client, without PUBREL

---
 interoperability/mqtt/clients/V5/internal.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 7d22e9b..b2b035d 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -80,10 +80,15 @@ class Receivers:
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
       if packet.packetIdentifier in self.outMsgs.keys() and \
         self.outMsgs[packet.packetIdentifier].fh.QoS == 2:
-        #self.outMsgs[packet.packetIdentifier].pubrec_received = True
-        self.pubrel.packetIdentifier = packet.packetIdentifier
-        logger.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        if packet.reasonCode.value >= 0x80: # the message was not accepted, which ends the exchange
+          del self.outMsgs[packet.packetIdentifier]
+          if hasattr(callback, "published"):
+            callback.published(packet.packetIdentifier)
+        else:
+          #self.outMsgs[packet.packetIdentifier].pubrec_received = True
+          self.pubrel.packetIdentifier = packet.packetIdentifier
+          logger.debug("out: %s", str(self.pubrel))
+          self.socket.send(self.pubrel.pack())
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.packetIdentifier))
-- 
2.43.0


From e4f31f6583b72e863a1149d12a9e28bbfdf0a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:26 +0000
Subject: [PATCH 89/93] fix: a filter with + matches names with an empty level

---
 interoperability/mqtt/brokers/V311/Topics.py | 2 +-
 interoperability/mqtt/brokers/V5/Topics.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..58d5ceb 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -85,7 +85,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
+    wild = wild.replace('+', '[^/]*?') # + matches an empty level too
     if re.compile(wild+'$').match(nonwild) != None:
       rc = True
   return rc
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 0007718..ac26b26 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -89,7 +89,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
+    wild = wild.replace('+', '[^/]*?') # + matches an empty level too
     if re.compile(wild+'$').match(nonwild) != None:
       rc = True
   return rc
-- 
2.43.0


From 7cc3d3bf9e473ea17f777ad237dd080eeeb025ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:26 +0000
Subject: [PATCH 90/93] fix: a filter with wildcards matches names with line
 ends, and only whole names

---
 interoperability/mqtt/brokers/V311/Topics.py | 2 +-
 interoperability/mqtt/brokers/V5/Topics.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 58d5ceb..5211dde 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -86,7 +86,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/]*?') # + matches an empty level too
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index ac26b26..a63ca70 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -90,7 +90,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/]*?') # + matches an empty level too
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 8030eb5ddaca93473d03dcded6b6365c61c7b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 91/93] fix: no message is retained under a name with
 wildcards, which made all later subscriptions fail

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 1 +
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index 3f0560a..a8fb320 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -148,6 +148,7 @@ class SubscriptionEngines:
    def setRetained(self, aTopic, aMessage, aQoS, receivedTime):
      "set a retained message on a non-wildcard topic"
      if Topics.isValidTopicName(aTopic):
+       assert aTopic.find("+") == aTopic.find("#") == -1 # could be the topic of a will message
        retained = self.__retained if aTopic[0] != "$" else self.__dollar_retained
        if len(aMessage) == 0:
          if aTopic in retained.keys():
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 5a6a869..0a657ba 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -165,6 +165,7 @@ class SubscriptionEngines:
    def setRetained(self, aTopic, aMessage, aQoS, receivedTime, properties):
      "set a retained message on a non-wildcard topic"
      if Topics.isValidTopicName(aTopic):
+       assert aTopic.find("+") == aTopic.find("#") == -1 # could be the topic of a will message
        retained = self.__retained if not isDollarTopic(aTopic) else self.__dollar_retained
        if len(aMessage) == 0:
          if aTopic in retained.keys():
-- 
2.43.0


From 0f0af42db5f1756d960c75893a4bb482a83c18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:24 +0000
Subject: [PATCH 92/93] fix: model-based test driver: waiting for an
 observation without a callback raised AttributeError

---
 interoperability/mbt/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index af2f505..7b29b94 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -549,7 +549,7 @@ class Tests:
 		else:
 			observation1 = observation
 			while observation not in [x for x, y in self.added_results] and count < max_wait_count:
-				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results.keys()])
+				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results])
 				time.sleep(wait_interval)
 				count += 1
 		if count == max_wait_count:
-- 
2.43.0


From 23ec66433aa995cfd4836e7d83d4ffc06744b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:24 +0000
Subject: [PATCH 93/93] fix: model-based test driver: an observation found at
 the last look was counted as missing

---
 interoperability/mbt/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 7b29b94..5bea85b 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -552,7 +552,9 @@ class Tests:
 				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results])
 				time.sleep(wait_interval)
 				count += 1
-		if count == max_wait_count:
+			if observation not in [x for x, y in self.added_results]:
+				observation1 = None
+		if observation1 == None:
 			self.logger.warn("### line %d, observation not found %s", self.lineno, observation)
 			self.failures += 1
 		else:
-- 
2.43.0

