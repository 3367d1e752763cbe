From 01d386536f987ad739351b32d3b8f2b0758d150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 01/31] fix: serialising a ForwardAction no longer reads a
 group flag it does not have

---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 7d36fe989826bb704703d6a091f3e4045390c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 02/31] fix: D7ASP status rx_level is an unsigned byte, values
 above 127 made a valid status undecodable

---
 d7a/sp/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..1733bb5 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From f4b47e8d67f124d3c7f20415ef8ff4b5c21ab18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 03/31] fix: the NBID of an addressee is a compressed value,
 decode it as such

---
 d7a/d7anp/addressee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..dfc3cc4 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -123,9 +123,10 @@ class Addressee(Validatable):
     nls_method = NlsMethod(s.read("uint:4"))
     cl    = s.read("uint:8")
     l     = Addressee.length_for(id_type)
-    id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id = CT.parse(s)
+    else:
+      id = s.read("uint:"+str(l*8)) if l > 0 else None
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From adb5d3c730f8843e5be8e7b0c12c1af4e53cea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 04/31] fix: an operation with an empty data operand is
 serialised with its offset and length

---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From 2a9789b53e22b24a112e76bcc33c2a3b1f049a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 05/31] fix: an interface status operand without status can be
 serialised

---
 d7a/alp/operands/interface_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
-- 
2.43.0


From 2b33ddd8056d827a9c275072a2067edd78c11ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 06/31] fix: a payload rejected by an exception without
 arguments is reported, it no longer escapes the serial parser

---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..4b5273a 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else repr(e),
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 71fa6d2f1b3e5d4d82a261448ab068758e20908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 07/31] fix: the payload of a serial frame is decoded within
 the frame, a truncated payload no longer stalls the parser or consumes the
 next frame

---
 d7a/serial_modem_interface/parser.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 4b5273a..8028253 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -102,18 +102,11 @@ class Parser(object):
       try:
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
-        if message_type == MessageType.REBOOTED.value:
-          cmd = s.read("uint:8")
-        elif message_type == MessageType.LOGGING.value:
-          cmd = (s.readlist('bytes:b', b=cmd_length)[0])
-        else:
-          if self.skip_alp_parsing:
-            if s.length < cmd_length:
-              raise ReadError
-
-            cmd = s.read("bytes:" + str(cmd_length))
-          else:
-            cmd = AlpParser().parse(s, cmd_length)
+        payload = s.readlist('bytes:b', b=cmd_length)[0]
+        try:
+          cmd = self.parse_payload(message_type, payload)
+        except ReadError as e: # the frame is complete, so waiting for more won't help
+          raise ParseError("payload is too short: {0}".format(e))
 
         bits_parsed = s.pos
         self.shift_buffer(bits_parsed/8)
@@ -135,6 +128,15 @@ class Parser(object):
     }
     return (message_type, cmd, info)
 
+  def parse_payload(self, message_type, payload):
+    s = ConstBitStream(bytes=payload)
+    if message_type == MessageType.REBOOTED.value:
+      return s.read("uint:8")
+    elif message_type == MessageType.LOGGING.value or self.skip_alp_parsing:
+      return payload
+    else:
+      return AlpParser().parse(s, len(payload))
+
   def skip_bad_buffer_content(self):
     # skip until we find 0xc0, which might be a valid starting point
     try:
-- 
2.43.0


From 3687c2782e9a9958251109a1d130372226d284e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 08/31] fix: DLL frame length and subnet are unsigned bytes

---
 d7a/dll/background_frame.py | 2 +-
 d7a/dll/foreground_frame.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..440a5e6 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -59,7 +59,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..f32d215 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -63,8 +63,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
-- 
2.43.0


From a918b85b634b4e177fcd7657ea3534aac3cbeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 09/31] fix: DLL, D7ANP and D7ATP frames serialise to the bytes
 they were parsed from

---
 d7a/d7anp/control.py        | 6 +++---
 d7a/d7atp/frame.py          | 7 +++++--
 d7a/dll/background_frame.py | 5 +++--
 d7a/dll/foreground_frame.py | 3 ++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..4f96379 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.tc is not None:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index 440a5e6..27f32e8 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -75,8 +76,8 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.payload)): yield byte
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index f32d215..2f033df 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -92,7 +93,7 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 6481be4a38e9f616b9b01a30d5fdf5e93756efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 10/31] fix: ChannelClass.LORA is written as R, the letter
 from_char expects

---
 d7a/phy/channel_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..cc2be62 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self == ChannelClass.LORA:
       c = "R"
 
     return c
-- 
2.43.0


From bc0ae806a356b26f32c2609c8b5d713b245a9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 11/31] fix: ChannelID.from_string reads the whole channel
 index

---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From fa2a4e65ac39b1f67c5b3b9ee448abb2d4aab3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 12/31] fix: factory settings with a negative gain or RSSI
 offset, or read back from their bytes, keep their values

---
 d7a/system_files/factory_settings.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..c327a67 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -119,7 +119,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_hi_rate = s.read("uint:8")
 
     rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -127,7 +127,7 @@ class FactorySettingsFile(File, Validatable):
     gaussian = s.read("uint:8")
     paramp = s.read("uint:16")
 
-    return FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
+    file = FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
                                bitrate_lo_rate=bitrate_lo_rate, fdev_lo_rate=fdev_lo_rate,
                                bitrate_normal_rate=bitrate_normal_rate, fdev_normal_rate=fdev_normal_rate,
                                bitrate_hi_rate=bitrate_hi_rate, fdev_hi_rate=fdev_hi_rate,
@@ -136,12 +136,15 @@ class FactorySettingsFile(File, Validatable):
                                preamble_detector_size_normal_rate=preamble_detector_size_normal_rate, preamble_detector_size_hi_rate = preamble_detector_size_hi_rate,
                                preamble_tol_lo_rate = preamble_tol_lo_rate, preamble_tol_normal_rate = preamble_tol_normal_rate,
                                preamble_tol_hi_rate = preamble_tol_hi_rate,
-                               rssi_smoothing=rssi_smoothing, rssi_offset=rssi_offset,
+                               rssi_offset=rssi_offset,
                                lora_bw=lora_bw, lora_SF=lora_SF,
                                gaussian=gaussian, paramp=paramp)
+    file.rssi_smoothing = rssi_smoothing # the file already contains the exponent
+    return file
 
   def __iter__(self):
-    yield self.gain
+    for byte in bytearray(struct.pack("b", self.gain)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -170,7 +173,8 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    for byte in bytearray(struct.pack("b", self.rssi_offset)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From 0fafa9b9ac5cbf1a7683713409c7aa0184ef74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 13/31] fix: key files can be parsed, the key is read as the
 little endian integer that is written

---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..4a52ab9 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128") 
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 1bbbe8f13403920ef56d1e2d267ed538142b6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 14/31] fix: padding the channel list of a PhyStatusFile no
 longer changes the default lists or those of the caller

---
 d7a/system_files/phy_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..0a41e3b 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -46,11 +46,11 @@ class PhyStatusFile(File, Validatable):
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
+    self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
       self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
+    self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
       self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
 
-- 
2.43.0


From 10866d1ec3e081b24e3357b042e3b3e181c00051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 15/31] fix: system files without a dedicated class carry their
 numeric file id

---
 d7a/system_files/system_files.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/d7a/system_files/system_files.py b/d7a/system_files/system_files.py
index 42d8e64..1c0eb25 100644
--- a/d7a/system_files/system_files.py
+++ b/d7a/system_files/system_files.py
@@ -43,34 +43,34 @@ class SystemFiles:
     SystemFileIds.FACTORY_SETTINGS: FactorySettingsFile(),
     SystemFileIds.FIRMWARE_VERSION: FirmwareVersionFile(),
     SystemFileIds.DEVICE_CAPACITY: NotImplementedFile(SystemFileIds.DEVICE_CAPACITY.value, 19),
-    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS, 9),
+    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS.value, 9),
     SystemFileIds.ENGINEERING_MODE: EngineeringModeFile(),
     SystemFileIds.VID: VidFile(),
-    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07, 0),
-    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG, 9),
+    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07.value, 0),
+    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG.value, 9),
     SystemFileIds.PHY_STATUS: PhyStatusFile(),  # TODO assuming 3 channels for now
     SystemFileIds.DLL_CONFIG: DllConfigFile(),
     SystemFileIds.DLL_STATUS: DllStatusFile(),
-    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING, 1),  # TODO variable routing table
-    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY, 5),
+    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING.value, 1),  # TODO variable routing table
+    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY.value, 5),
     SystemFileIds.NWL_SECURITY_KEY: SecurityKeyFile(),
-    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR, 4),  # TODO 0 recorded devices
-    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS, 20),
-    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS, 1),  # TODO 0 TRL records
-    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG, 6),
-    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS, 10),
-    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14, 0),
-    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15, 0),
-    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16, 0),
-    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA, 1),  # TODO 0 recorded locations
+    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR.value, 4),  # TODO 0 recorded devices
+    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS.value, 20),
+    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS.value, 1),  # TODO 0 TRL records
+    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG.value, 6),
+    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS.value, 10),
+    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14.value, 0),
+    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15.value, 0),
+    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16.value, 0),
+    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA.value, 1),  # TODO 0 recorded locations
     SystemFileIds.ALP_ROOT_AUTHENTICATION_KEY: RootAuthenticationKeyFile(),
     SystemFileIds.ALP_USER_AUTHENTICATION_KEY: UserAuthenticationKeyFile(),
-    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A, 0),
-    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B, 0),
-    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C, 0),
-    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D, 0),
-    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E, 0),
-    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F, 0),
+    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A.value, 0),
+    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B.value, 0),
+    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C.value, 0),
+    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D.value, 0),
+    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E.value, 0),
+    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F.value, 0),
     SystemFileIds.ACCESS_PROFILE_0: AccessProfileFile(access_specifier=0),
     SystemFileIds.ACCESS_PROFILE_1: AccessProfileFile(access_specifier=1),
     SystemFileIds.ACCESS_PROFILE_2: AccessProfileFile(access_specifier=2),
-- 
2.43.0


From 3125da7b3406c34c35889d6a1cc320d6d85dc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 16/31] fix: only data from the start of a system file is
 interpreted as the content of that file

---
 d7a/alp/operations/responses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operations/responses.py b/d7a/alp/operations/responses.py
index d09d806..6de64b9 100644
--- a/d7a/alp/operations/responses.py
+++ b/d7a/alp/operations/responses.py
@@ -51,7 +51,8 @@ class ReturnFileData(Operation):
     except:
       return
     # if the file size is between allocated and original length, try to parse it
-    if (systemfile_type is not None) and (systemfile_type.length >= self.operand.length.value):
+    # data which does not start at the beginning of the file cannot be interpreted
+    if (systemfile_type is not None) and (self.operand.offset.offset.value == 0) and (systemfile_type.length >= self.operand.length.value):
       self.systemfile_type = systemfile_type
       try:
         self.file_data_parsed = systemfile_type.parse(ConstBitStream(bytearray(self.operand.data)))
-- 
2.43.0


From 639c24c134300506f183b34df43265c9e19f211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 17/31] fix: the modem reader reopens the serial port after a
 SerialException instead of dying on a missing method

---
 modem/modem.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..0722e4a 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -206,9 +206,9 @@ class Modem:
         data_received = self.dev.read()
       except serial.SerialException:
         self.log.warning("SerialException received, trying to reconnect")
+        data_received = bytearray()
         self.dev.close()
-        time.sleep(5)
-        self._connect_serial_modem()
+        self._reopen_serial_port()
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
@@ -243,6 +243,15 @@ class Modem:
 
     self.log.info("end read thread")
 
+  def _reopen_serial_port(self):
+    while self._read_async_active:
+      time.sleep(5)
+      try:
+        self.dev.open()
+        return
+      except serial.SerialException:
+        self.log.warning("Could not reopen the serial port, retrying")
+
 
 class ModemConnectionError(Exception):
   pass
-- 
2.43.0


From cf7448a7ed9bbf440cdb019e3333de4864a872e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 18/31] fix: frame counters are assigned in the order frames
 are written, also when several threads send commands

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 0722e4a..b2e1529 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -148,7 +148,6 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    data = self.parser.build_serial_frame(alp_command)
     self._sync_execution_response_cmds = []
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
@@ -156,6 +155,7 @@ class Modem:
       assert self._sync_execution_tag_id is None
       self._sync_execution_tag_id = alp_command.tag_id
     with self.lock:
+      data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
       self.dev.flush()
     self.log.info("Sending command of size %s" % len(data))
-- 
2.43.0


From 067309e4b807f5e2fa5214589f53c6a5fca6ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 19/31] fix: only responses to the pending synchronous command,
 up to its completion, are collected; everything else is unsolicited

---
 modem/modem.py | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index b2e1529..0a08946 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -57,6 +57,7 @@ class Modem:
       "baudrate" : baudrate
     }
     self.lock=threading.Lock()
+    self._sync_lock=threading.Lock()
     self.uid = None
     self.firmware_version = None
     self.skip_alp_parsing = skip_alp_parsing
@@ -148,12 +149,20 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
-    if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
-      self._sync_execution_tag_id = alp_command.tag_id
+    if timeout_seconds > 0:
+      with self._sync_lock:
+        self._sync_execution_response_cmds = []
+        self._sync_execution_completed = False
+        self._sync_execution_tag_id = alp_command.tag_id
+
+    try:
+      return self._send_and_wait(alp_command, timeout_seconds)
+    finally:
+      if timeout_seconds > 0:
+        with self._sync_lock: # from here on a (late) response is an unsolicited one
+          self._sync_execution_tag_id = None
+
+  def _send_and_wait(self, alp_command, timeout_seconds):
     with self.lock:
       data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
@@ -168,11 +177,13 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
-    if not self._sync_execution_completed:
-      self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
-      return []
+    with self._sync_lock:
+      if not self._sync_execution_completed:
+        self._sync_execution_tag_id = None
+        self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
+        return []
 
-    return self._sync_execution_response_cmds
+      return self._sync_execution_response_cmds
 
 
   def start_reading(self):
@@ -218,12 +229,10 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and message_types[cmd_cnt] <= MessageType.PING_RESPONSE and self._add_sync_execution_response(cmd):
             self.log.info("Received response for sync execution")
-            self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
               self.log.info("cmd with tag {} done".format(cmd.tag_id))
-              self._sync_execution_completed = True
             else:
               self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
 
@@ -243,6 +252,18 @@ class Modem:
 
     self.log.info("end read thread")
 
+  def _add_sync_execution_response(self, cmd):
+    with self._sync_lock:
+      if self._sync_execution_tag_id is None or self._sync_execution_tag_id != cmd.tag_id:
+        return False
+
+      self._sync_execution_response_cmds.append(cmd)
+      if cmd.execution_completed:
+        self._sync_execution_tag_id = None # whatever follows is not part of this execution
+        self._sync_execution_completed = True
+
+      return True
+
   def _reopen_serial_port(self):
     while self._read_async_active:
       time.sleep(5)
-- 
2.43.0


From ea083fa48feee6da846469dad9aa9181ada2bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 20/31] fix: iterating over a command yields integers only, so
 that a command can be the content of a file

---
 d7a/alp/operands/file.py | 2 +-
 d7a/sp/status.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/alp/operands/file.py b/d7a/alp/operands/file.py
index 1dee69c..428b04c 100644
--- a/d7a/alp/operands/file.py
+++ b/d7a/alp/operands/file.py
@@ -55,7 +55,7 @@ class Data(Validatable):
   def __iter__(self):
     for byte in self.offset: yield byte
     for byte in self.length: yield byte
-    for byte in self.data: yield chr(byte)
+    for byte in self.data: yield byte
 
   def __str__(self):
     return "{}, length={}, data={}".format(self.offset, self.length, self.data)
diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index 1733bb5..3a413d6 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -118,8 +118,8 @@ class Status(Validatable):
     if self.retry:  byte |= 1 << 5
     if self.unicast:  byte |= 1 << 4
     yield byte
-    yield chr(self.fifo_token)
-    yield chr(self.seq_nr)
+    yield self.fifo_token
+    yield self.seq_nr
     for byte in self.response_to: yield byte
     for byte in self.addressee: yield byte
 
-- 
2.43.0


From e08f9b5e93e1fe1df0e053615c84e566dc2e4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 21/31] fix: connect() judges the node by the response of this
 attempt, not by what an earlier failed attempt left behind

---
 modem/modem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modem/modem.py b/modem/modem.py
index 0a08946..ae897b4 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -95,6 +95,9 @@ class Modem:
       self.connected = True
       return True
 
+    self.uid = None
+    self.firmware_version = None
+
     read_modem_info_action = Command.create_with_read_file_action_system_file(UidFile())
     read_modem_info_action.add_action(
       RegularAction(
-- 
2.43.0


From 45ff2ad541927b1536ae7962d50a994f3a0173c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 22/31] fix: validate all permission bits and the action
 condition (schema keys did not name the attributes)

---
 d7a/fs/file_permissions.py | 8 ++++----
 d7a/fs/file_properties.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
-- 
2.43.0


From fc552a3fb2ede17d787fe02a6834a4569a54f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 23/31] fix: validate the unicast flag of an interface status

---
 d7a/sp/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index 3a413d6..66c7228 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
-- 
2.43.0


From c4dedde19056fb6ecbd06cccd05c2c1ebe4a8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 24/31] fix: validate the DLL configuration (schema keys did
 not name the attributes)

---
 d7a/system_files/dll_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..013ab7e 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
-- 
2.43.0


From e730ac4f4e727cdf536791a91c8c41b629896861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 25/31] fix: validate the preamble tolerances of the factory
 settings

---
 d7a/system_files/factory_settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index c327a67..12a046c 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
-- 
2.43.0


From e2a13842e542bacf2357339544d0f66de924a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 26/31] fix: exact upper bound for wide bit fields (2**128 was
 accepted as a 128 bit key)

---
 d7a/support/schema.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..966d7d4 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -25,8 +25,6 @@
 # author: Christophe VG <contact@christophe.vg>
 # base class for schema-validatable entity classes
 
-import math
-
 from cerberus import Validator
 
 import inspect
@@ -139,7 +137,7 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
+    max = max if max is not None else (1 << length) - 1
     return { "type": "integer", "min": 0x0, "max": max }
 
   @staticmethod
-- 
2.43.0


From 7ee7391c6a55be34dccb21451bde600b7945a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 27/31] fix: validate the LoRaWAN settings (negative addresses
 wrapped around, any number passed as a flag)

---
 .../lorawan_interface_configuration_abp.py         | 14 ++++++--------
 .../lorawan_interface_configuration_otaa.py        | 11 ++++-------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/d7a/alp/operands/lorawan_interface_configuration_abp.py b/d7a/alp/operands/lorawan_interface_configuration_abp.py
index c5f3d7d..cdb40d5 100644
--- a/d7a/alp/operands/lorawan_interface_configuration_abp.py
+++ b/d7a/alp/operands/lorawan_interface_configuration_abp.py
@@ -30,14 +30,12 @@ class LoRaWANInterfaceConfigurationABP(Validatable):
 
   SCHEMA = [{
     # # TODO first byte is extensible with other fields
-    # "adr_enabled": Types.BOOLEAN(),
-    # "request_ack": Types.BOOLEAN(),
-    # "application_port": Types.BYTE(),
-    # "data_rate": Types.BYTE(),
-    # "netw_session_key": Types.BYTES(),
-    # "app_session_key": Types.BYTES(),
-    # "dev_addr": Types.BYTES(),
-    # "netw_id": Types.BYTES(),
+    "adr_enabled": Types.BOOLEAN(),
+    "request_ack": Types.BOOLEAN(),
+    "app_port": Types.BYTE(),
+    "data_rate": Types.BYTE(),
+    "dev_addr": Types.INTEGER(min=0, max=0xFFFFFFFF),
+    "netw_id": Types.INTEGER(min=0, max=0xFFFFFFFF)
   }]
 
   def __init__(self, adr_enabled, request_ack, app_port, data_rate, dev_addr, netw_id):
diff --git a/d7a/alp/operands/lorawan_interface_configuration_otaa.py b/d7a/alp/operands/lorawan_interface_configuration_otaa.py
index b5b2506..258a824 100644
--- a/d7a/alp/operands/lorawan_interface_configuration_otaa.py
+++ b/d7a/alp/operands/lorawan_interface_configuration_otaa.py
@@ -30,13 +30,10 @@ class LoRaWANInterfaceConfigurationOTAA(Validatable):
 
   SCHEMA = [{
     # # TODO first byte is extensible with other fields
-    # "adr_enabled": Types.BOOLEAN(),
-    # "request_ack": Types.BOOLEAN(),
-    # "application_port": Types.BYTE(),
-    # "data_rate": Types.BYTE(),
-    # "device_eui": Types.BYTES(),
-    # "app_eui": Types.BYTES(),
-    # "app_key": Types.BYTES()
+    "adr_enabled": Types.BOOLEAN(),
+    "request_ack": Types.BOOLEAN(),
+    "app_port": Types.BYTE(),
+    "data_rate": Types.BYTE()
   }]
 
   def __init__(self, adr_enabled, request_ack, app_port, data_rate):
-- 
2.43.0


From 0e1df005ce22b1aea2d29a32a5c63d5c802a4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 28/31] fix: validate the noise floors of a PHY status file

---
 d7a/system_files/phy_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 0a41e3b..45a86ca 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -36,7 +36,7 @@ class PhyStatusFile(File, Validatable):
     "tx_duty_cycle": Types.INTEGER(min=0, max=1000),
     "channel_status_list_length": Types.INTEGER(min=0, max=0xFF),
     "channel_status_identifier": Types.LIST(ChannelStatusIdentifier, minlength=0, maxlength=0xFF),
-    "channel_noise_floor": Types.LIST(minlength=0, maxlength=0xFF)
+    "channel_noise_floor": dict(Types.BYTES(), maxlength=0xFF)
   }]
 
   def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=[], channel_noise_floor=[]):
-- 
2.43.0


From 3c4fe37084f58bb00901b317708fa8a0f46ad5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 29/31] fix: show the noise floor parameters in the text of the
 DLL configuration file

---
 d7a/system_files/dll_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 013ab7e..c8b38fd 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -69,4 +69,4 @@ class DllConfigFile(File, Validatable):
 
 
   def __str__(self):
-    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter, tx_nf_method_parameter".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
+    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter={}, tx_nf_method_parameter={}".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
-- 
2.43.0


From d1e07cd8ddc08bd3e2dd7a4e649ecea405ffc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 30/31] fix: show LoRa spreading factor and bandwidth of the
 factory settings in their places

---
 d7a/system_files/factory_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 12a046c..ebefbca 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -192,5 +192,5 @@ class FactorySettingsFile(File, Validatable):
                                                                                          self.preamble_detector_size_lo_rate, self.preamble_detector_size_normal_rate, self.preamble_detector_size_hi_rate,
                                                                                          self.preamble_tol_lo_rate, self.preamble_tol_normal_rate, self.preamble_tol_hi_rate,
                                                                                          self.rssi_smoothing, self.rssi_offset,
-                                                                                         self.lora_bw, self.lora_SF,
+                                                                                         self.lora_SF, self.lora_bw,
                                                                                          self.gaussian, self.paramp)
\ No newline at end of file
-- 
2.43.0


From 77623a04c5a5e06acf6e279455781f66c57ecb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 31/31] fix: a channel header differs from what is not a
 channel header

---
 d7a/phy/channel_header.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index cc2be62..a49f469 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -127,6 +127,4 @@ class ChannelHeader(Validatable):
     return False
 
   def __ne__(self, other):
-    if isinstance(other, self.__class__):
-      return not self.__eq__(other)
-    return False
\ No newline at end of file
+    return not self.__eq__(other)
-- 
2.43.0

