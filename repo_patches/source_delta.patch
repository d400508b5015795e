From 6cb2fcf9dd3ba9798f5308e3ed3b13d879f323d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:01 +0000
Subject: [PATCH 01/17] fix: NullTimeChecker raises BadPeer, not TypeError, for
 a bad first time

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..f3930e2 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, {}".format(time))
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From e9e6ff4262a68cb0e670baaf7c199394228c8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:03 +0000
Subject: [PATCH 02/17] fix: EncryptedChannelV2 raises ValueError for a bad key
 size

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..6f03f94 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -44,7 +44,7 @@ class EncryptedChannelV2(ByteChannel):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be {}".format(self.saltlib.crypto_box_SECRETKEYBYTES))
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From 262284d10a8ef15f868e2f949d2ad7bf2cb3c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:05 +0000
Subject: [PATCH 03/17] fix: SaltLib.getLib() honours availability and an
 explicit lib_type

---
 saltchannel/saltlib/saltlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..f4bbaf2 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,11 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            raise NoSuchLibException
+        api = SaltLib.lib_map.get(lib_type.value)
+        if api is None or not api.isAvailable():
+            raise NoSuchLibException
+        return api
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From e38aa35017e851fc55d56616403c2f53440b4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:07 +0000
Subject: [PATCH 04/17] fix: truncated, empty and over-long packets are
 rejected with BadPeer

---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  7 +++++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..d63af4f 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet too short: ", len(src))
+        memmove(addressof(self), bytes(src), sizeof(self))
 
     @property
     def size(self):
@@ -72,6 +73,8 @@ class Packet(metaclass=ABCMeta):
         self.data.from_bytes(src)
         self.opt = self._opt_factory(body=self.data)
         self.opt.from_bytes(src[self.data.size:])
+        if len(src) != self.size:
+            raise BadPeer("bad packet size: ", len(src))
         if validate:
             self.validate()
 
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From af2377f63edda86e0e1acc4ee718dff4294e7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 05/17] fix: MultiAppPacket rejects lengths and counts that
 disagree with the data

---
 saltchannel/v2/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..325e0f1 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,11 +294,17 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if offset + sizeof(c_uint16) > len(src):
+                        raise BadPeer("MultiAppPacket is truncated")
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if offset + length_field.value > len(src):
+                        raise BadPeer("MultiAppPacket is truncated")
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
+                if offset != len(src):
+                    raise BadPeer("MultiAppPacket has trailing bytes: ", len(src) - offset)
 
             def __bytes__(self):
                 raw = bytearray()
-- 
2.43.0


From 68bb266b06a02f6b9b5cf41ff8f3b6e830ae846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:17 +0000
Subject: [PATCH 06/17] fix: A2 rejects non-ASCII protocol strings and trailing
 bytes with BadPeer

---
 saltchannel/a1a2/packets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..85646d4 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./\w]+')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
+                                type(self).proto_re.fullmatch(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
@@ -139,6 +139,8 @@ class A2Packet(Packet):
         self.data.from_bytes(src)
         self.opt = self._opt_factory(body=src, prot_count=(len(src)-3)//(A2Packet.P_SIZE*2))
         self.opt.from_bytes(src[self.data.size:])
+        if len(src) != self.size:
+            raise BadPeer("bad packet size: ", len(src))
         if validate:
             self.validate()
 
-- 
2.43.0


From 8e4c012789bf297796b42c5b1dccb89e0ec2d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:19 +0000
Subject: [PATCH 07/17] fix: client raises BadPeer, not AssertionError, for an
 M3 of wrong size

---
 saltchannel/v2/salt_client_session.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..cda7eec 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,7 +84,6 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From 14ea059fd99621b573a587fa705478f075dc08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:21 +0000
Subject: [PATCH 08/17] fix: client requests and enforces wanted_server_sig_key

---
 saltchannel/v2/salt_client_session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index cda7eec..a533f0f 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,11 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        if self.wanted_server_sig_key:
+            self.m1.data.Header.ServerSigKeyIncluded = 1
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -106,6 +110,8 @@ class SaltClientSession(metaclass=util.Syncizer):
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
         except saltchannel.saltlib.exceptions.BadSignatureException:
             raise saltchannel.exceptions.BadPeer("invalid signature")
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("unexpected server signature key")
 
     def create_encrypted_channel(self):
         self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
-- 
2.43.0


From 49e7f017231710ebd7eca2aaf28961f72f671695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:23 +0000
Subject: [PATCH 09/17] fix: server answers NoSuchServer to an A1 addressing
 another public key

---
 saltchannel/v2/salt_server_session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From 7a9a44e6ba30d3b022034ffd5e45c8542b1ce99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 10/17] fix: SaltLibNative.randombytes() returns random bytes
 instead of crashing

---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..cd759ae 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes_buf(buf, ctypes.c_size_t(n))
+        return buf.raw
\ No newline at end of file
-- 
2.43.0


From 46543c8dc3395d9aebe54d5a565b2e090bd7bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:26 +0000
Subject: [PATCH 11/17] fix: AsyncioChannel reports stream failures as
 ComException

---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From d8636954667821adf0c5c12ad48ae3d61f388dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 12/17] fix: EncryptedChannelV2 gets working
 read_sync()/write_sync()

---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index 6f03f94..b5e7d69 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From 7f707ae4e82facce181567736c993862c96570f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 13/17] fix: more messages than the 16-bit Count can hold are
 not combined

---
 saltchannel/v2/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 325e0f1..6628c4e 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -344,7 +344,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From 99f4187f9f13b0ae10cd5e08aa13e05247fb18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 14/17] fix: a low order peer key raises BadPeer in the
 handshake

---
 saltchannel/v2/salt_client_session.py | 5 ++++-
 saltchannel/v2/salt_server_session.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index a533f0f..2bc533c 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -114,7 +114,10 @@ class SaltClientSession(metaclass=util.Syncizer):
             raise saltchannel.exceptions.BadPeer("unexpected server signature key")
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
+        except (ValueError, RuntimeError):  # raised by the crypto library for a low order public key
+            raise saltchannel.exceptions.BadPeer("unusable ServerEncKey")
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 5d4753e..37875c8 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -136,7 +136,10 @@ class SaltServerSession(metaclass=util.Syncizer):
         self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
-        self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        try:
+            self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
+        except (ValueError, RuntimeError):  # raised by the crypto library for a low order public key
+            raise saltchannel.exceptions.BadPeer("unusable ClientEncKey")
         self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
         self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
 
-- 
2.43.0


From 91fb773bcec19e9230aa48e1178c1cf34d62d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 15/17] fix: server reports client_sig_key only after its
 signature was verified

---
 saltchannel/v2/salt_server_session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index 37875c8..ee103f9 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -133,7 +133,6 @@ class SaltServerSession(metaclass=util.Syncizer):
     async def do_m4(self):
         self.m4 = M4Packet(src_buf=await self.enc_channel.read())
         self.time_checker.check_time(self.m4.data.Time)
-        self.client_sig_key = self.m4.ClientSigKey
 
     def create_encrypted_channel(self):
         try:
@@ -150,6 +149,7 @@ class SaltServerSession(metaclass=util.Syncizer):
                                              self.m1_hash, self.m2_hash]), self.m4.ClientSigKey)
         except saltchannel.saltlib.exceptions.BadSignatureException:
             raise saltchannel.exceptions.BadPeer("invalid signature")
+        self.client_sig_key = self.m4.ClientSigKey
 
     def validate(self):
         """Check if current instance's state is valid for handshake to start"""
-- 
2.43.0


From c689e3439e016609b95781524f0bb38d7ec312a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 16/17] fix: client sessions can be created in a thread without
 event loop

---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 2bc533c..8e24392 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 4885038e0f2fc4820595cfd46af82e490d3a18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 17/17] fix: the channels of a session use the event loop of
 the session

---
 saltchannel/v2/salt_client_session.py | 4 ++--
 saltchannel/v2/salt_server_session.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 8e24392..fc23a4a 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -118,8 +118,8 @@ class SaltClientSession(metaclass=util.Syncizer):
             self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
         except (ValueError, RuntimeError):  # raised by the crypto library for a low order public key
             raise saltchannel.exceptions.BadPeer("unusable ServerEncKey")
-        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT)
-        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
+        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.CLIENT, loop=self.loop)
+        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker, loop=self.loop)
 
     def validate(self):
         """Check if current instance's state is valid for handshake to start"""
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index ee103f9..909af4c 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -139,8 +139,8 @@ class SaltServerSession(metaclass=util.Syncizer):
             self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m1.ClientEncKey)
         except (ValueError, RuntimeError):  # raised by the crypto library for a low order public key
             raise saltchannel.exceptions.BadPeer("unusable ClientEncKey")
-        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER)
-        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker)
+        self.enc_channel = EncryptedChannelV2(self.clear_channel, self.session_key, Role.SERVER, loop=self.loop)
+        self.app_channel = AppChannelV2(self.enc_channel, self.time_keeper, self.time_checker, loop=self.loop)
 
     def validate_signature2(self):
         """Validates M4/Signature2."""
-- 
2.43.0

