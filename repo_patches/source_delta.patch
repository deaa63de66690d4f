From 705afd5fe2785830d866d81caf81e91a4719c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/31] fix: decode the NBID addressee id as a compressed value
 instead of compressing it again

---
 d7a/d7anp/addressee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..5d4a28d 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -125,7 +125,7 @@ class Addressee(Validatable):
     l     = Addressee.length_for(id_type)
     id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id = CT(exp=id >> 5, mant=id & 0x1F)
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From a953068681e6b589f596cf2e9df2ead83e7098d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 02/31] fix: serialise ForwardAction, which has no group flag

---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 26acd9d508c748b07c749aed100d0c3f580050f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 03/31] fix: accept a host interface status and serialise an
 interface status without details

---
 d7a/alp/operands/interface_status.py | 3 ++-
 d7a/alp/parser.py                    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 1c0ab3a..6508b19 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -206,7 +206,8 @@ class Parser(object):
     return ForwardAction(resp=b6, operation=Forward(operand=InterfaceConfiguration(interface_id=interface_id,
                                                                                    interface_configuration=interface_config)))
   def parse_alp_interface_status_host(self, s, length):
-    pass # no interface status defined for host interface
+    # no interface status defined for host interface
+    return InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0x00, interface_status=None))
 
   def parse_alp_interface_status_d7asp(self, s, length):
     status = None
-- 
2.43.0


From 0013fd4ed614f7169963dfa596d08974a199e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 04/31] fix: serialise the operand of an operation carrying
 zero-length data

---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From 0e1d4538287a2c7068179fdc69cd8e10dfd302e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 05/31] fix: read the rx level of a D7ASP status as unsigned

---
 d7a/sp/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..1733bb5 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From 300f532d09bbe81849f6201c4ac2a98ffe786642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 06/31] fix: report serial payload errors which carry no
 message instead of raising

---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..f938c0d 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else type(e).__name__,
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 42bdd2db81e299bcfdb04f3b7b8536d9d195584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 07/31] fix: keep a serial payload within its frame and treat
 one which does not fit as an error

---
 d7a/serial_modem_interface/parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index f938c0d..7cd30df 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -99,9 +99,13 @@ class Parser(object):
     message_type = None
     bits_parsed = 0
     while retry and len(self.buffer) > 0:
+      frame_end     = None  # known once we have a complete frame
       try:
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
+        payload_pos, frame_end = s.pos, s.pos + cmd_length * 8
+        s           = s[:frame_end]   # the payload never reaches past its own frame
+        s.pos       = payload_pos
         if message_type == MessageType.REBOOTED.value:
           cmd = s.read("uint:8")
         elif message_type == MessageType.LOGGING.value:
@@ -115,12 +119,14 @@ class Parser(object):
           else:
             cmd = AlpParser().parse(s, cmd_length)
 
-        bits_parsed = s.pos
+        bits_parsed = frame_end
         self.shift_buffer(bits_parsed/8)
         retry = False         # got one, carry on
-      except ReadError:       # not enough to read, carry on and wait for more
-        retry = False
-      except Exception as e: # actual problem with current buffer, need to skip
+      except Exception as e:
+        if isinstance(e, ReadError) and frame_end is None: # not enough to read, carry on and wait for more
+          retry = False
+          continue
+        # actual problem with current buffer, need to skip
         errors.append({
           "error"   : e.args[0] if e.args else type(e).__name__,
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
-- 
2.43.0


From c9a7d7f56be0ac2d54fd4e1add06be5870baea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 08/31] fix: read the length and subnet of radio frames as
 unsigned

---
 d7a/dll/background_frame.py | 2 +-
 d7a/dll/foreground_frame.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..440a5e6 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -59,7 +59,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..f32d215 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -63,8 +63,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
-- 
2.43.0


From 88f53de050d6d228ad585a8ff683fcabf4b93096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 09/31] fix: serialise the D7ANP control byte

---
 d7a/d7anp/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
-- 
2.43.0


From a3d594b7b724eaf4d1abc475c15460df31fa1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 10/31] fix: serialise the Tl, Te and Tc fields of a D7ATP
 frame

---
 d7a/d7atp/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..4f96379 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.tc is not None:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
-- 
2.43.0


From 968437ab8eb00777a864666c925adbece82d90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 11/31] fix: serialise the 16 bit fields of radio frames

---
 d7a/dll/background_frame.py | 5 +++--
 d7a/dll/foreground_frame.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index 440a5e6..27f32e8 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -75,8 +76,8 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.payload)): yield byte
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index f32d215..2f033df 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -92,7 +93,7 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 3d68800e00d34743d31c6fc03cfcf488cfa302bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 12/31] fix: skip a radio frame which cannot be parsed instead
 of raising

---
 d7a/dll/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/d7a/dll/parser.py b/d7a/dll/parser.py
index 3e6eee1..457c768 100644
--- a/d7a/dll/parser.py
+++ b/d7a/dll/parser.py
@@ -65,6 +65,13 @@ class Parser(object):
     self.buffer = self.buffer[start:]
     return self
 
+  def skip_bad_buffer_content(self):
+    # there is no sync word to look for, so skip the frame which could not be parsed
+    frame_length = self.buffer[0] + 1 if self.frame_type == FrameType.FOREGROUND else 6
+    skipped = min(frame_length, len(self.buffer))
+    self.shift_buffer(skipped)
+    return skipped
+
   def parse_one_frame_from_buffer(self):
     retry       = True    # until we have one or don't have enough
     errors      = []
@@ -82,9 +89,9 @@ class Parser(object):
         retry = False         # got one, carry on
       except ReadError as e:       # not enough to read, carry on and wait for more
         retry = False
-      except ParseError as e: # actual problem with current buffer, need to skip
+      except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else type(e).__name__,
           "buffer"  : list(self.buffer),
           "pos"     : self.s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 3c18457452a3f13376c6a38df7efbb2cd127a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 13/31] fix: parse the key files into the integer which they
 serialise

---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..4a52ab9 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128") 
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 7a1c31f0cffb6f68bf714ef3f7f581ecb09d3d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 14/31] fix: use an exact maximum for wide bit fields

---
 d7a/support/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..140259d 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -139,7 +139,7 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
+    max = max if max is not None else 2 ** length - 1
     return { "type": "integer", "min": 0x0, "max": max }
 
   @staticmethod
-- 
2.43.0


From 99dc68c2ab3f3fb6d85fc7d3102a4e568a333612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 15/31] fix: encode and decode the signed fields and the rssi
 smoothing of the factory settings

---
 d7a/system_files/factory_settings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..c37f1b6 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -118,8 +118,8 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_normal_rate = s.read("uint:8")
     preamble_tol_hi_rate = s.read("uint:8")
 
-    rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_smoothing = 2 ** (s.read("uint:8") + 1) # register value to number of samples
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -141,7 +141,8 @@ class FactorySettingsFile(File, Validatable):
                                gaussian=gaussian, paramp=paramp)
 
   def __iter__(self):
-    yield self.gain
+    for byte in bytearray(struct.pack(">b", self.gain)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -170,7 +171,8 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    for byte in bytearray(struct.pack(">b", self.rssi_offset)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From 7b62b109a82eff4ca500620e823a5e5332e96fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 16/31] fix: use the numerical id for all system files which
 are not implemented

---
 d7a/system_files/system_files.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/d7a/system_files/system_files.py b/d7a/system_files/system_files.py
index 42d8e64..1c0eb25 100644
--- a/d7a/system_files/system_files.py
+++ b/d7a/system_files/system_files.py
@@ -43,34 +43,34 @@ class SystemFiles:
     SystemFileIds.FACTORY_SETTINGS: FactorySettingsFile(),
     SystemFileIds.FIRMWARE_VERSION: FirmwareVersionFile(),
     SystemFileIds.DEVICE_CAPACITY: NotImplementedFile(SystemFileIds.DEVICE_CAPACITY.value, 19),
-    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS, 9),
+    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS.value, 9),
     SystemFileIds.ENGINEERING_MODE: EngineeringModeFile(),
     SystemFileIds.VID: VidFile(),
-    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07, 0),
-    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG, 9),
+    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07.value, 0),
+    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG.value, 9),
     SystemFileIds.PHY_STATUS: PhyStatusFile(),  # TODO assuming 3 channels for now
     SystemFileIds.DLL_CONFIG: DllConfigFile(),
     SystemFileIds.DLL_STATUS: DllStatusFile(),
-    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING, 1),  # TODO variable routing table
-    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY, 5),
+    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING.value, 1),  # TODO variable routing table
+    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY.value, 5),
     SystemFileIds.NWL_SECURITY_KEY: SecurityKeyFile(),
-    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR, 4),  # TODO 0 recorded devices
-    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS, 20),
-    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS, 1),  # TODO 0 TRL records
-    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG, 6),
-    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS, 10),
-    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14, 0),
-    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15, 0),
-    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16, 0),
-    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA, 1),  # TODO 0 recorded locations
+    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR.value, 4),  # TODO 0 recorded devices
+    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS.value, 20),
+    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS.value, 1),  # TODO 0 TRL records
+    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG.value, 6),
+    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS.value, 10),
+    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14.value, 0),
+    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15.value, 0),
+    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16.value, 0),
+    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA.value, 1),  # TODO 0 recorded locations
     SystemFileIds.ALP_ROOT_AUTHENTICATION_KEY: RootAuthenticationKeyFile(),
     SystemFileIds.ALP_USER_AUTHENTICATION_KEY: UserAuthenticationKeyFile(),
-    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A, 0),
-    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B, 0),
-    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C, 0),
-    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D, 0),
-    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E, 0),
-    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F, 0),
+    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A.value, 0),
+    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B.value, 0),
+    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C.value, 0),
+    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D.value, 0),
+    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E.value, 0),
+    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F.value, 0),
     SystemFileIds.ACCESS_PROFILE_0: AccessProfileFile(access_specifier=0),
     SystemFileIds.ACCESS_PROFILE_1: AccessProfileFile(access_specifier=1),
     SystemFileIds.ACCESS_PROFILE_2: AccessProfileFile(access_specifier=2),
-- 
2.43.0


From b315f6cb0b345ec400b4c992280d2121b7bb253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 17/31] fix: use the LoRa character for the LoRa channel class

---
 d7a/phy/channel_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..cc2be62 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self == ChannelClass.LORA:
       c = "R"
 
     return c
-- 
2.43.0


From e4d0fa86a213daba4dff3907096bb020c24b2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 18/31] fix: make inequality of channel headers the opposite of
 equality

---
 d7a/phy/channel_header.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index cc2be62..9e5b769 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -127,6 +127,4 @@ class ChannelHeader(Validatable):
     return False
 
   def __ne__(self, other):
-    if isinstance(other, self.__class__):
-      return not self.__eq__(other)
-    return False
\ No newline at end of file
+    return not self.__eq__(other)
\ No newline at end of file
-- 
2.43.0


From b5dd44038d2ca8f2c6c59e22e8a8b6ddc3ac09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 19/31] fix: read all digits of the channel index

---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From 3b9879633cef0457055363222e2248061dd75f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 20/31] fix: do not extend the (default) lists passed to
 PhyStatusFile

---
 d7a/system_files/phy_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..0a41e3b 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -46,11 +46,11 @@ class PhyStatusFile(File, Validatable):
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
+    self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
       self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
+    self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
       self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
 
-- 
2.43.0


From a831de442dbe5c55a442b1cfb3bfa427633b518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 21/31] fix: validate the fields whose name was misspelled in
 the schema

---
 d7a/fs/file_permissions.py           | 8 ++++----
 d7a/fs/file_properties.py            | 2 +-
 d7a/sp/status.py                     | 2 +-
 d7a/system_files/dll_config.py       | 8 ++++----
 d7a/system_files/factory_settings.py | 4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index 1733bb5..b0870b2 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..013ab7e 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index c37f1b6..eda6cb1 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
-- 
2.43.0


From 512107a9fdfba6b77a31614369acd2cae34b5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 22/31] fix: do not take an untagged command for the response
 of a synchronous execution

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..eec8b95 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -218,7 +218,7 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
             self.log.info("Received response for sync execution")
             self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
-- 
2.43.0


From d1d1799d848b096321b1c207f0491e6a9cba960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 23/31] fix: reopen the serial port when it fails, without
 handling the last data twice

---
 modem/modem.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index eec8b95..6baf7fd 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -69,6 +69,10 @@ class Modem:
     self.unsolicited_response_received_callback = unsolicited_response_received_callback
     self.rebooted_callback = rebooted_callback
     self.connected = False
+    self._connect_serial_modem()
+    self.start_reading()
+
+  def _connect_serial_modem(self):
     self.dev = serial.Serial(
       port     = self.config["device"],
       baudrate = self.config["baudrate"],
@@ -84,8 +88,6 @@ class Modem:
 
     self.dev.flush() # ignore possible buffered data
 
-    self.start_reading()
-
   def connect(self, check_alive=True):
     if self.connected:
       return
@@ -208,7 +210,11 @@ class Modem:
         self.log.warning("SerialException received, trying to reconnect")
         self.dev.close()
         time.sleep(5)
-        self._connect_serial_modem()
+        try:
+          self._connect_serial_modem()
+        except serial.SerialException:
+          self.log.warning("Reconnecting failed") # reading fails again, so we retry
+        continue
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
-- 
2.43.0


From 1668494c80b456ac1d4162afd18b5b91ec1f3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 24/31] fix: compare enumeration-valued fields of file
 properties and channel headers without ordering them

Under Jython comparing instance dictionaries falls back to ordering their values, which enumerations refuse, so
comparing two different headers raised TypeError.
---
 d7a/fs/file_properties.py | 2 +-
 d7a/phy/channel_header.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index 4e621eb..1b7eac5 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -78,7 +78,7 @@ class FileProperties(Validatable):
 
   def __eq__(self, other):
     if isinstance(other, FileProperties):
-      return self.__dict__ == other.__dict__
+      return dict(self.__dict__) == dict(other.__dict__)
 
     return False
 
diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index 9e5b769..5f45f16 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -123,7 +123,7 @@ class ChannelHeader(Validatable):
 
   def __eq__(self, other):
     if type(other) is type(self):
-      return self.__dict__ == other.__dict__
+      return dict(self.__dict__) == dict(other.__dict__)
     return False
 
   def __ne__(self, other):
-- 
2.43.0


From 511c1b36fd0165c6da82508330d45272d8360c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 25/31] fix: show the noise floor parameters of the DLL
 configuration file

---
 d7a/system_files/dll_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 013ab7e..c8b38fd 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -69,4 +69,4 @@ class DllConfigFile(File, Validatable):
 
 
   def __str__(self):
-    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter, tx_nf_method_parameter".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
+    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter={}, tx_nf_method_parameter={}".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
-- 
2.43.0


From febb978e91921c1d5a5c6daf36cffb2315635472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 26/31] fix: show the LoRa spreading factor and bandwidth of
 the factory settings at their own places

---
 d7a/system_files/factory_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index eda6cb1..d3e6dc7 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -190,5 +190,5 @@ class FactorySettingsFile(File, Validatable):
                                                                                          self.preamble_detector_size_lo_rate, self.preamble_detector_size_normal_rate, self.preamble_detector_size_hi_rate,
                                                                                          self.preamble_tol_lo_rate, self.preamble_tol_normal_rate, self.preamble_tol_hi_rate,
                                                                                          self.rssi_smoothing, self.rssi_offset,
-                                                                                         self.lora_bw, self.lora_SF,
+                                                                                         self.lora_SF, self.lora_bw,
                                                                                          self.gaussian, self.paramp)
\ No newline at end of file
-- 
2.43.0


From 060e01b88b5b790c4a0b941a35d352ac00ec4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 27/31] fix: do not complete a modem identification with parts
 of an earlier answer

---
 modem/modem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modem/modem.py b/modem/modem.py
index 6baf7fd..03fa9a0 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -114,6 +114,9 @@ class Modem:
       self.execute_command_async(read_modem_info_action)
       return True
 
+    # both files have to be in this answer, an earlier incomplete one does not count
+    self.uid = None
+    self.firmware_version = None
     resp_cmd = self.execute_command(read_modem_info_action, timeout_seconds=10)
 
     if len(resp_cmd) == 0:
-- 
2.43.0


From c6105dce3480abd71f16f2b38497d4c12fd1332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 28/31] fix: print foreground and background frames in
 parse_hexstring

---
 tools/parse_hexstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/parse_hexstring.py b/tools/parse_hexstring.py
index e95ac94..415b0b5 100644
--- a/tools/parse_hexstring.py
+++ b/tools/parse_hexstring.py
@@ -55,7 +55,8 @@ if args.type == "systemfile":
   print(file_type.parse(ConstBitStream(data)))
   exit(0)
 
-msgtype, cmds, info = parser.parse(data)
+# the serial parser returns the message types as well
+cmds, info = parser.parse(data)[-2:]
 for cmd in cmds:
   print cmd
 
-- 
2.43.0


From 96c85a55f16c7fd605e1a6572468d6291f842038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 29/31] fix: connect the gateway to the broker before frames to
 publish arrive

---
 tools/modem2mqtt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/modem2mqtt.py b/tools/modem2mqtt.py
index 40553cd..f3b2e09 100644
--- a/tools/modem2mqtt.py
+++ b/tools/modem2mqtt.py
@@ -62,9 +62,10 @@ class Modem2Mqtt():
     self.config = argparser.parse_args()
     configure_default_logger(self.config.verbose)
 
+    # responses are published from the moment the modem is connected
+    self.connect_to_mqtt()
     self.modem = Modem(self.config.device, self.config.rate, self.on_command_received, skip_alp_parsing=True)
     self.modem.connect()
-    self.connect_to_mqtt()
 
 
   def connect_to_mqtt(self):
-- 
2.43.0


From a29cc458e2bd238b3a1703abdffb6fcf6079682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 30/31] fix: number and write a serial frame in one step

---
 modem/modem.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 03fa9a0..04f6705 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -153,14 +153,14 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    data = self.parser.build_serial_frame(alp_command)
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
-    if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
-      self._sync_execution_tag_id = alp_command.tag_id
-    with self.lock:
+    with self.lock: # frames are written in the order of their counters
+      data = self.parser.build_serial_frame(alp_command)
+      self._sync_execution_response_cmds = []
+      self._sync_execution_tag_id = None
+      self._sync_execution_completed = False
+      if(timeout_seconds > 0):
+        assert self._sync_execution_tag_id is None
+        self._sync_execution_tag_id = alp_command.tag_id
       self.dev.write(data)
       self.dev.flush()
     self.log.info("Sending command of size %s" % len(data))
-- 
2.43.0


From dffbb8760a35413590012948b0b62c5f2a93866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 31/31] fix: do not share the default parts of objects between
 them

---
 d7a/alp/operands/file.py                    | 14 +++++++-------
 d7a/alp/operands/offset.py                  |  6 +++---
 d7a/dll/sub_profile.py                      |  6 +++---
 d7a/sp/configuration.py                     | 10 +++++-----
 d7a/support/schema.py                       |  3 +++
 d7a/system_files/dll_status.py              |  6 ++++--
 d7a/system_files/engineering_mode.py        |  8 +++++---
 d7a/system_files/interface_configuration.py |  6 ++++--
 d7a/system_files/phy_status.py              |  2 +-
 9 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/d7a/alp/operands/file.py b/d7a/alp/operands/file.py
index 1dee69c..418c894 100644
--- a/d7a/alp/operands/file.py
+++ b/d7a/alp/operands/file.py
@@ -26,7 +26,7 @@
 # class implementations of File {*} Operands
 from d7a.alp.operands.length import Length
 from d7a.alp.operands.offset import Offset
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 
 
 class Data(Validatable):
@@ -37,10 +37,10 @@ class Data(Validatable):
     "data"   : Types.BYTES()
   }]
   
-  def __init__(self, data=[], offset=Offset()):
-    self.offset = offset
-    self.data   = data
-    self.length = Length(len(data))
+  def __init__(self, data=DEFAULT, offset=DEFAULT):
+    self.offset = offset if offset is not DEFAULT else Offset()
+    self.data   = data if data is not DEFAULT else []
+    self.length = Length(len(self.data))
     super(Data, self).__init__()
 
   # for consistency with schema, e.g. if using generic attribute conversion, etc
@@ -68,8 +68,8 @@ class DataRequest(Validatable):
     "length" : Types.OBJECT(Length)
   }]
 
-  def __init__(self, length, offset=Offset()):
-    self.offset = offset
+  def __init__(self, length, offset=DEFAULT):
+    self.offset = offset if offset is not DEFAULT else Offset()
     self.length = Length(length)
     super(DataRequest, self).__init__()
 
diff --git a/d7a/alp/operands/offset.py b/d7a/alp/operands/offset.py
index b96f4ee..10fa8b4 100644
--- a/d7a/alp/operands/offset.py
+++ b/d7a/alp/operands/offset.py
@@ -24,7 +24,7 @@
 import struct
 
 from d7a.alp.operands.length import Length
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 
 
 class Offset(Validatable):
@@ -36,9 +36,9 @@ class Offset(Validatable):
     }
   ]
 
-  def __init__(self, id=0, offset=Length()):
+  def __init__(self, id=0, offset=DEFAULT):
     self.id     = id
-    self.offset = offset
+    self.offset = offset if offset is not DEFAULT else Length()
     super(Offset, self).__init__()
 
   @staticmethod
diff --git a/d7a/dll/sub_profile.py b/d7a/dll/sub_profile.py
index 26da2fb..7925d33 100644
--- a/d7a/dll/sub_profile.py
+++ b/d7a/dll/sub_profile.py
@@ -23,7 +23,7 @@
 #
 import pprint
 
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.types.ct import CT
 
 
@@ -34,9 +34,9 @@ class SubProfile(Validatable):
     "scan_automation_period": Types.OBJECT(CT)
   }]
 
-  def __init__(self, subband_bitmap=0, scan_automation_period=CT()):
+  def __init__(self, subband_bitmap=0, scan_automation_period=DEFAULT):
     self.subband_bitmap = subband_bitmap
-    self.scan_automation_period = scan_automation_period
+    self.scan_automation_period = scan_automation_period if scan_automation_period is not DEFAULT else CT()
     super(SubProfile, self).__init__()
 
   @staticmethod
diff --git a/d7a/sp/configuration.py b/d7a/sp/configuration.py
index d8a4976..a6f9347 100644
--- a/d7a/sp/configuration.py
+++ b/d7a/sp/configuration.py
@@ -25,7 +25,7 @@
 # author: Christophe VG <contact@christophe.vg>
 # class implementation of (FIFO) configuration
 
-from d7a.support.schema   import Validatable, Types
+from d7a.support.schema   import Validatable, Types, DEFAULT
 
 from d7a.types.ct         import CT
 
@@ -42,10 +42,10 @@ class Configuration(Validatable):
     "addressee"  : Types.OBJECT(Addressee)
   }]
 
-  def __init__(self, qos=QoS(), dorm_to=CT(), addressee=Addressee()):
-    self.qos         = qos
-    self.dorm_to     = dorm_to
-    self.addressee   = addressee
+  def __init__(self, qos=DEFAULT, dorm_to=DEFAULT, addressee=DEFAULT):
+    self.qos         = qos if qos is not DEFAULT else QoS()
+    self.dorm_to     = dorm_to if dorm_to is not DEFAULT else CT()
+    self.addressee   = addressee if addressee is not DEFAULT else Addressee()
     super(Configuration, self).__init__()
 
   def __iter__(self):
diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 140259d..f9a032f 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -31,6 +31,9 @@ from cerberus import Validator
 
 import inspect
 
+# stands for an argument which is left out, of which every object gets one of its own
+DEFAULT = object()
+
 class ObjectValidator(Validator):
   def _validate_isinstance(self, clazz, field, value):
     """ {'nullable': True } """ # dummy validation schema to avoid warning ;-)
diff --git a/d7a/system_files/dll_status.py b/d7a/system_files/dll_status.py
index 26b0def..9950785 100644
--- a/d7a/system_files/dll_status.py
+++ b/d7a/system_files/dll_status.py
@@ -24,7 +24,7 @@
 import struct
 
 from d7a.phy.channel_header import ChannelHeader, ChannelCoding, ChannelBand, ChannelClass
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 
@@ -42,8 +42,10 @@ class DllStatusFile(File, Validatable):
   }]
 
   def __init__(self, last_rx_packet_level=0, last_rx_packet_link_budget=0, noise_floor=0,
-               channel_header=ChannelHeader(channel_coding=ChannelCoding.FEC_PN9, channel_band=ChannelBand.BAND_868, channel_class=ChannelClass.LO_RATE),
+               channel_header=DEFAULT,
                channel_index=0, scan_timeout_ratio=0, scan_count=0, scan_timeout_count=0):
+    if channel_header is DEFAULT:
+      channel_header = ChannelHeader(channel_coding=ChannelCoding.FEC_PN9, channel_band=ChannelBand.BAND_868, channel_class=ChannelClass.LO_RATE)
     self.last_rx_packet_level=last_rx_packet_level
     self.last_rx_packet_link_budget=last_rx_packet_link_budget
     self.noise_floor=noise_floor
diff --git a/d7a/system_files/engineering_mode.py b/d7a/system_files/engineering_mode.py
index 18af4b8..6bee696 100644
--- a/d7a/system_files/engineering_mode.py
+++ b/d7a/system_files/engineering_mode.py
@@ -26,7 +26,7 @@ import struct
 from enum import Enum
 
 from d7a.phy.channel_id import ChannelID
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 from d7a.phy.channel_header import ChannelHeader,ChannelCoding,ChannelClass,ChannelBand
@@ -66,9 +66,11 @@ class EngineeringModeFile(File, Validatable):
   }]
 
   def __init__(self, mode=EngineeringModeMode.ENGINEERING_MODE_MODE_OFF, flags=0, timeout=0,
-               channel_id=ChannelID(channel_header=ChannelHeader(ChannelCoding.PN9,ChannelClass.LO_RATE,ChannelBand.BAND_868),
-                                    channel_index=0),
+               channel_id=DEFAULT,
                eirp=0):
+    if channel_id is DEFAULT:
+      channel_id = ChannelID(channel_header=ChannelHeader(ChannelCoding.PN9,ChannelClass.LO_RATE,ChannelBand.BAND_868),
+                             channel_index=0)
     self.mode = mode
     self.flags = flags
     self.timeout = timeout
diff --git a/d7a/system_files/interface_configuration.py b/d7a/system_files/interface_configuration.py
index dfbea83..7dfbb3f 100644
--- a/d7a/system_files/interface_configuration.py
+++ b/d7a/system_files/interface_configuration.py
@@ -23,7 +23,7 @@
 #
 import struct
 
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 from d7a.alp.interface import InterfaceType
@@ -36,7 +36,9 @@ class InterfaceConfigurationFile(File, Validatable):
     "interface_configuration": Types.OBJECT(InterfaceConfiguration)
   }]
 
-  def __init__(self, interface_configuration=InterfaceConfiguration(interface_id=InterfaceType.D7ASP, interface_configuration=None), file_id=0x1D):
+  def __init__(self, interface_configuration=DEFAULT, file_id=0x1D):
+    if interface_configuration is DEFAULT:
+      interface_configuration = InterfaceConfiguration(interface_id=InterfaceType.D7ASP, interface_configuration=None)
     self.interface_configuration = interface_configuration
     if interface_configuration.interface_id == InterfaceType.D7ASP:
       File.__init__(self, file_id, 13)
diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 0a41e3b..a26ce26 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -48,7 +48,7 @@ class PhyStatusFile(File, Validatable):
 
     self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
-      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
+      self.channel_status_identifier.extend(ChannelStatusIdentifier() for _ in range(channel_status_list_length - len(channel_status_identifier)))
 
     self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
-- 
2.43.0

