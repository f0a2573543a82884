From 6aa04d04409d2783ad77b4923bddf03a47402d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/35] fix: add (not OR) the second sub-identifier when
 encoding an OID

The first two sub-identifiers X.Y are encoded as 40*X + Y. Using a bitwise OR
produced the wrong octet for every Y that shares a bit with 40*X (1.8, 2.16, ...),
so those OIDs were sent to the agent as a different OID.
---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 7ab2aa955b29388b8675f20c0b8adb7b3ce29e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/35] fix: reject an OID that ends in the middle of a
 sub-identifier

The check looked at the accumulated value, so a trailing 0x80 octet (whose
seven value bits are zero) was silently dropped.
---
 snmp/asn1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..b18f805 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -417,15 +417,17 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        incomplete = False
         for byte in stream:
             value |= byte & 0x7f
-            if byte & 0x80:
+            incomplete = byte & 0x80 != 0
+            if incomplete:
                 value <<= 7
             else:
                 oid.append(value)
                 value = 0
 
-        if value:
+        if incomplete:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From 19e0fa58e8a36784b62c258e4ab09565ac2427b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 03/35] fix: report undecodable index fields as
 IndexDecodeError

A truncated OBJECT IDENTIFIER field raised RuntimeError (StopIteration inside a
generator expression) and an octet above 255 raised a bare ValueError.
---
 snmp/asn1.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index b18f805..f54a86f 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,10 +185,16 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            octets = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            octets = [next(nums) for _ in range(length)]
+
+        try:
+            data = bytes(octets)
+        except ValueError as err:
+            errmsg = f"Invalid octet in {typename(cls)} field in index"
+            raise OBJECT_IDENTIFIER.IndexDecodeError(errmsg) from err
 
         try:
             return cls.construct(data)
@@ -331,10 +337,10 @@ class OBJECT_IDENTIFIER(Primitive):
         implied: bool = False,
     ) -> TOID:
         if implied:
-            subidentifiers = nums
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From 019561d3cb9a9b71bc56cc167310266d5d5cbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 04/35] fix: decode an IpAddress index field without a length
 prefix

IpAddress index fields are encoded as four bare sub-identifiers, but were
decoded as if they began with a length, so they never survived a round trip.
---
 snmp/smi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..ebca3ee 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -6,6 +6,7 @@ __all__ = [
     "Sequence",
 ]
 
+from itertools import islice
 from socket import inet_aton, inet_ntoa
 
 from snmp.asn1 import *
@@ -121,6 +122,14 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        # Always four sub-identifiers, without a length prefix
+        return super().fromOID(islice(nums, 4), implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From d51a24081e0fa9a3986860ba8d0ec83bdfa641af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 05/35] fix: make subbytes empty, not negative, when start is
 beyond stop

---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From 0c43db34764151791507b5dea4c5814412452927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 06/35] fix: honour a negative step when slicing subbytes

---
 snmp/utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index e9f4a6d..d994327 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -174,18 +174,10 @@ class subbytes:
 
     def __getitem__(self, key: Union[int, slice]) -> Union[int, bytes]:
         """Retrieve an individual byte or copy a sub-sequence."""
-        if isinstance(key, int):
-            key = self.translate(key)
-        elif isinstance(key, slice):
-            start, stop = key.start, key.stop
-
-            key = slice(
-                self.start if start is None else self.translate(start, True),
-                self.stop  if stop  is None else self.translate(stop, True),
-                key.step
-            )
-
-        return self.data[key]
+        if isinstance(key, slice):
+            return self.data[self.start:self.stop][key]
+
+        return self.data[self.translate(key)]
 
     def __iter__(self) -> Iterator[int]:
         """Produce an iterator for this sequence."""
-- 
2.43.0


From 58480b16d5ad96e00daf2dc400ff42681abdda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 07/35] fix: reject negative msgAuthoritativeEngineBoots and
 EngineTime

RFC 3414 limits both to 0..2147483647. An unauthenticated message could plant a
negative value in the clock, after which every encrypted request failed with
an OverflowError.
---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..06a248b 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("msgAuthoritativeEngineBoots may not be negative")
+        elif engineTime.value < 0:
+            raise ParseError("msgAuthoritativeEngineTime may not be negative")
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From 2355375a8f90faf57176f927e4ceeda4a9ca04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 08/35] fix: keep the estimated snmpEngineTime within its
 31-bit range

An engine time near 2^31-1 (possibly from an unauthenticated message) grows past
the maximum as time passes, after which every authenticated request failed with
a ValueError.
---
 snmp/security/usm/timekeeper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..1337ef3 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -4,6 +4,7 @@ from snmp.typing import *
 
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self,
         engineBoots: int,
@@ -92,7 +93,9 @@ class TimeKeeper:
         except KeyError:
             return 0, 0
 
-        return et.snmpEngineBoots, et.snmpEngineTime(timestamp)
+        engineTime = et.snmpEngineTime(timestamp)
+        engineTime = max(0, min(engineTime, EngineTime.MAX_ENGINE_TIME))
+        return et.snmpEngineBoots, engineTime
 
     def hint(self,
         engineID: bytes,
-- 
2.43.0


From 2253c43adefe5623e54e07eb14e0032dd1cb9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 09/35] fix: return exactly the processed bytes from the
 OpenSSL backend

DES decryption lost the last block of the plaintext (EVP_DecryptUpdate holds it
back for padding), and every result was padded with zero bytes up to the end of
the output buffer, so the ciphertexts were longer than the data they protect.
---
 snmp/security/usm/priv/openssl/__init__.py | 2 +-
 snmp/security/usm/priv/openssl/des.py      | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..6aa903f 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -64,7 +64,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output[0:outl[0]])
 
 class Decryptor(Envelope):
     ENCRYPT = False
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..154c8ac 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -43,6 +43,10 @@ class DesCbc(PrivProtocol):
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
         iv = self.computeIV(salt)
+
+        # EVP_DecryptUpdate() withholds the last block of its input, in case it
+        # contains padding, so add an extra block to get the whole plaintext
+        data += bytes(self.BLOCKLEN)
         return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
 
     def encrypt(self,
-- 
2.43.0


From 27b61c34721ea86ffec31193eb0036f197bebeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 10/35] fix: do not decrypt a block of padding after a DES
 ciphertext

---
 snmp/security/usm/priv/pycryptodome/des.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..0442845 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -45,7 +45,7 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
-        return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
+        return self.newCipher(self.computeIV(salt)).decrypt(data)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 4dbf9acb32a9373394a6e3330ef89c70afefa69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 11/35] fix: reject a DES salt that is not eight bytes long

A short salt produced a short IV, which OpenSSL then read past the end of, and a
long one was silently truncated.
---
 snmp/security/usm/priv/openssl/des.py      | 3 +++
 snmp/security/usm/priv/pycryptodome/des.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 154c8ac..bcc0f6c 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -42,6 +42,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         iv = self.computeIV(salt)
 
         # EVP_DecryptUpdate() withholds the last block of its input, in case it
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index 0442845..804145d 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -45,6 +45,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         return self.newCipher(self.computeIV(salt)).decrypt(data)
 
     def encrypt(self,
-- 
2.43.0


From 80d8b493bef69979c2c1de02fb671cb0faecf148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 12/35] fix: never use the same salt in two concurrent
 encryptions

Managers for the same remote engine share one encryption key, and may send from
different threads. The counter was incremented and read back in separate steps,
so two messages could end up with the same salt, and thus the same IV.
---
 snmp/security/usm/priv/openssl/aes.py      | 12 +++++++++---
 snmp/security/usm/priv/openssl/des.py      | 11 +++++++++--
 snmp/security/usm/priv/pycryptodome/aes.py | 12 +++++++++---
 snmp/security/usm/priv/pycryptodome/des.py | 11 +++++++++--
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/aes.py b/snmp/security/usm/priv/openssl/aes.py
index 1bfe000..9f30e88 100644
--- a/snmp/security/usm/priv/openssl/aes.py
+++ b/snmp/security/usm/priv/openssl/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -23,6 +24,7 @@ class AesCfb128(PrivProtocol):
 
         self.key = key[:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def packIV(self, engineBoots: int, engineTime: int, salt: bytes) -> bytes:
         if len(salt) != self.SALTLEN:
@@ -34,6 +36,12 @@ class AesCfb128(PrivProtocol):
             salt
         ))
 
+    # Multiple threads may use the same key at the same time
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -52,9 +60,7 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
-
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
+        salt = self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = Encryptor(self.CIPHER).encrypt(data, self.key, iv)
 
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index bcc0f6c..7f98f93 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from snmp.security.usm import DecryptionError, PrivProtocol
 from snmp.typing import *
@@ -24,6 +25,7 @@ class DesCbc(PrivProtocol):
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def computeIV(self, salt: bytes) -> bytes:
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
@@ -32,6 +34,12 @@ class DesCbc(PrivProtocol):
         n = self.BLOCKLEN - (len(data) % self.BLOCKLEN)
         return data + bytes(n)
 
+    # Multiple threads may use the same key at the same time
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -57,10 +65,9 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
diff --git a/snmp/security/usm/priv/pycryptodome/aes.py b/snmp/security/usm/priv/pycryptodome/aes.py
index bcadae9..172d5c0 100644
--- a/snmp/security/usm/priv/pycryptodome/aes.py
+++ b/snmp/security/usm/priv/pycryptodome/aes.py
@@ -1,6 +1,7 @@
 __all__ = ["AesCfb128"]
 
 import os
+import threading
 
 from Crypto.Cipher import AES
 from Crypto.Cipher._mode_cfb import CfbMode
@@ -26,6 +27,7 @@ class AesCfb128(PrivProtocol):
 
         self.key = key[:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def newCipher(self, iv: bytes) -> CfbMode:
         return AES.new(
@@ -45,6 +47,12 @@ class AesCfb128(PrivProtocol):
             salt
         ))
 
+    # Multiple threads may use the same key at the same time
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -63,9 +71,7 @@ class AesCfb128(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
-
-        salt = self.salt.to_bytes(self.SALTLEN, self.BYTEORDER)
+        salt = self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER)
         iv = self.packIV(engineBoots, engineTime, salt)
         ciphertext = self.newCipher(iv).encrypt(data)
 
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index 804145d..b6c9a76 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -1,6 +1,7 @@
 __all__ = ["DesCbc"]
 
 import os
+import threading
 
 from Crypto.Cipher import DES
 from Crypto.Cipher._mode_cbc import CbcMode
@@ -24,6 +25,7 @@ class DesCbc(PrivProtocol):
         self.key = key[:self.BLOCKLEN]
         self.preIV = key[self.BLOCKLEN:self.KEYLEN]
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
+        self.saltLock = threading.Lock()
 
     def computeIV(self, salt: bytes) -> bytes:
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
@@ -35,6 +37,12 @@ class DesCbc(PrivProtocol):
         n = self.BLOCKLEN - (len(data) % self.BLOCKLEN)
         return data + bytes(n)
 
+    # Multiple threads may use the same key at the same time
+    def nextSalt(self) -> int:
+        with self.saltLock:
+            self.salt = (self.salt + 1) % self.SALTWRAP
+            return self.salt
+
     def decrypt(self,
         data: bytes,
         engineBoots: int,
@@ -55,10 +63,9 @@ class DesCbc(PrivProtocol):
         engineBoots: int,
         engineTime: int,
     ) -> Tuple[bytes, bytes]:
-        self.salt = (self.salt + 1) % self.SALTWRAP
         salt = b''.join((
             engineBoots.to_bytes(self.BLOCKLEN - self.SALTLEN, self.BYTEORDER),
-            self.salt.to_bytes(self.SALTLEN, self.BYTEORDER),
+            self.nextSalt().to_bytes(self.SALTLEN, self.BYTEORDER),
         ))
 
         iv = self.computeIV(salt)
-- 
2.43.0


From d6a40d93cc9d68b155db132ea7c4e7b036f17a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 13/35] fix: resend once when a request is refreshed exactly on
 schedule

When the refresh happened exactly at the scheduled time (or a whole number of
periods later), the next refresh was scheduled for that same instant, so the
request was immediately sent again.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..4a3423f 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..9dc6694 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..e03c03b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From f1c0e04f5cbe6560d9f8db1fbffb18460e5f5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 14/35] fix: schedule a v1/v2c request by its first refresh,
 not its expiration

The request was added to the heap before send() set its refresh time, which left
the heap out of order, so that it was not resent on time when other requests
were outstanding.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 4a3423f..d0dd642 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -184,8 +184,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 9dc6694..85d3eb2 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -184,8 +184,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From fc8f0fc474e559422e2546c820283411349d3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/35] fix: never wait indefinitely for a v1/v2c request

If a request expired between wait()'s check and the call to refresh(), then the
heap ended up empty, and refresh() returned None, so wait() blocked forever. Also
check for an empty heap while holding the lock; another thread could empty it in
between, causing an IndexError.
---
 snmp/manager/v1.py  | 9 +++++----
 snmp/manager/v2c.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index d0dd642..379e865 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -134,9 +134,12 @@ class SNMPv1Manager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
-        while self.requests:
+    def refresh(self) -> float:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return 0.0
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -153,8 +156,6 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
-
     def sendPdu(self,
         pdu: PDU,
         handle: Request,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 85d3eb2..b5aaa72 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -134,9 +134,12 @@ class SNMPv2cManager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
-        while self.requests:
+    def refresh(self) -> float:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return 0.0
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -153,8 +156,6 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
-
     def sendPdu(self,
         pdu: AnyPDU,
         handle: Request,
-- 
2.43.0


From 7b7e3be797be932b20e892c05c51f63840e5d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 16/35] fix: return a v1/v2c response that arrived before
 wait() was called

When wait() was called after the expiration time, it raised Timeout even though
the response had been received in time.
---
 snmp/manager/v1.py  | 7 +++----
 snmp/manager/v2c.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 379e865..6200d8b 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -100,18 +100,17 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
         self.close()
-        if pdu is None:
+        if not self.event.is_set():
             raise Timeout()
         else:
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index b5aaa72..80d65eb 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -100,18 +100,17 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
         self.close()
-        if pdu is None:
+        if not self.event.is_set():
             raise Timeout()
         else:
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
-- 
2.43.0


From d14a79fc1088b31d7954ea90bccd1ef449c47926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 17/35] fix: send queued v3 requests as soon as a response ends
 synchronization

A response ends the Synchronizing state just like a Report does, but it did not
send the queued requests. They had to wait until no other request was active,
and could even expire before they were sent.
---
 snmp/manager/v3.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e03c03b..8b6642c 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -596,14 +596,7 @@ class SNMPv3UsmManager(Generic[T]):
 
             if sendAll:
                 self.updateState()
-                while self.unsent:
-                    reference = self.unsent.pop()
-                    req = reference()
-
-                    if req is not None:
-                        with self.activeLock:
-                            req.send(engineID)
-                            heapq.heappush(self.active, reference)
+                self.sendAll(engineID)
 
     def processResponse(self,
         request: Request,
@@ -616,9 +609,21 @@ class SNMPv3UsmManager(Generic[T]):
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
+                self.sendAll(engineID)
 
             return True
 
+    # Always acquire self.lock before calling this method
+    def sendAll(self, engineID: bytes) -> None:
+        while self.unsent:
+            reference = self.unsent.pop()
+            request = reference()
+
+            if request is not None:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heappush(self.active, reference)
+
     def sendPdu(self,
         pdu: AnyPDU,
         handle: RequestMessage,
-- 
2.43.0


From b4bc2614c7044ac8b1755aaad6be5b785badec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 18/35] fix: do not let a queued v3 request wait beyond its own
 expiration

A request that is still queued slept until the next refresh of the active
requests, no matter how far beyond its own timeout that was.
---
 snmp/manager/v3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 8b6642c..6503607 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -324,6 +324,10 @@ class Request:
     def expired(self) -> bool:
         return self.expiration <= time.time()
 
+    @property
+    def timeLeft(self) -> float:
+        return max(self.expiration - time.time(), 0.0)
+
     @property
     def nextRefresh(self) -> float:
         return self._nextRefresh
@@ -413,7 +417,8 @@ class Request:
         try:
             pdu = None
             while not self.expired:
-                timeout = self.manager.refresh()
+                # This request might not be active yet
+                timeout = min(self.manager.refresh(), self.timeLeft)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From 4455ecf8c0d3a6106ff755935b91b899b4f98515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 19/35] fix: do not send a queued v3 request that has already
 expired

The caller has (or will) be told that the request timed out; sending it after all
could still make the agent perform a Set operation, long after the fact.
---
 snmp/manager/v3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 6503607..7ead656 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -538,7 +538,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
@@ -624,7 +624,7 @@ class SNMPv3UsmManager(Generic[T]):
             reference = self.unsent.pop()
             request = reference()
 
-            if request is not None:
+            if request is not None and not request.expired:
                 with self.activeLock:
                     request.send(engineID)
                     heapq.heappush(self.active, reference)
-- 
2.43.0


From 8d56c3877061ee8dce23d20ff493226b71b91af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 20/35] fix: keep the remaining queued v3 requests when one of
 them cannot be sent

The queue was emptied into a local variable, so an exception from one request
(such as a socket error, or an unknown user name) lost all of those behind it.
---
 snmp/manager/v3.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 7ead656..540a388 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -532,10 +532,9 @@ class SNMPv3UsmManager(Generic[T]):
             self.state.onInactive()
             self.updateState()
 
-            unsent = self.unsent
-            self.unsent = deque()
-            while unsent:
-                reference = unsent.pop()
+            # onRequest() may put a request back at the other end of the queue
+            for _ in range(len(self.unsent)):
+                reference = self.unsent.pop()
                 request = reference()
 
                 if request is not None and not request.expired:
-- 
2.43.0


From 9ddb0a3146e841e0f87ed8e73f4145b766948e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 21/35] fix: generate v3 request IDs under the lock

NumberGenerator is not thread-safe; two threads calling it at once could get the
same request ID, or one that does not fit in 32 bits.
---
 snmp/manager/v3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 540a388..60e5aa0 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -662,7 +662,9 @@ class SNMPv3UsmManager(Generic[T]):
         if wait is None:
             wait = self.autowait
 
-        pdu.requestID = self.generateRequestID()
+        with self.lock:
+            pdu.requestID = self.generateRequestID()
+
         request = Request(pdu, self, user, securityLevel, **kwargs)
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
-- 
2.43.0


From 209197b60897f86422ca884d7da2a2a83dd477f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 22/35] fix: report an unsupported transport domain as a
 ValueError

The error message referred to a variable that is not assigned on this path.
---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From 1604eb84b1470d14e1bfa95416b94202b8ebdeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 23/35] fix: keep listening when a socket reports a receive
 error

receive() may raise an OSError even on a readable socket (a datagram with a bad
checksum, or a pending ICMP error). That ended the listener thread, after which
the engine never received another message.
---
 snmp/transport/generic/udp.py | 8 +++++++-
 snmp/transport/posix/udp.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..40ba1bd 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -52,7 +52,13 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         data, addr = self.r.recvfrom(len(STOPMSG))
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        # e.g. the kernel discarded a datagram with a bad
+                        # checksum, after reporting the socket as readable
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..0fee374 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,13 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        # e.g. the kernel discarded a datagram with a bad
+                        # checksum, after reporting the socket as readable
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From 4a9eff69328e8c91e507c7ee43a2af854742417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 24/35] fix: do not resend an answered or expired v3 request
 upon a late Report

A Report for a message of a request that has already been answered, or that has
expired, caused that request to be sent once more.
---
 snmp/manager/v3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 60e5aa0..85c0422 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -594,9 +594,10 @@ class SNMPv3UsmManager(Generic[T]):
         with self.lock:
             sendAll = self.state.onReport(engineID)
 
-            with self.activeLock:
-                request.send(engineID)
-                heapq.heapify(self.active)
+            if not request.event.is_set() and not request.expired:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heapify(self.active)
 
             if sendAll:
                 self.updateState()
-- 
2.43.0


From 8bc15bea021dd92667bc36ebe604a17434b39369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 25/35] fix: do not leave a v3 request that raised a report to
 the garbage collector

---
 snmp/manager/v3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 85c0422..17264f7 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -448,6 +448,10 @@ class Request:
                 else:
                     raise Timeout()
         finally:
+            # The traceback of a raised exception refers back to this object;
+            # holding on to it would leave it to the garbage collector, which
+            # could then call __del__() at any time, with any locks held
+            self.exception = None
             self.close()
 
 T = TypeVar("T")
-- 
2.43.0


From 2f8c5539bd4a37679017ea5ee0288883c288a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 26/35] fix: survive the garbage collector running a destructor
 inside a locked region

---
 snmp/message/v1.py                  |  4 +++-
 snmp/message/v2c.py                 |  4 +++-
 snmp/message/v3.py                  |  4 +++-
 snmp/security/usm/implementation.py |  5 ++++-
 snmp/security/usm/users.py          | 10 ++++++++--
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/snmp/message/v1.py b/snmp/message/v1.py
index 3c31139..414224e 100644
--- a/snmp/message/v1.py
+++ b/snmp/message/v1.py
@@ -40,7 +40,9 @@ class SNMPv1MessageProcessor(MessageProcessor[Message, PDU]):
     VERSION = ProtocolVersion.SNMPv1
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        # The garbage collector may call a request's __del__() method, and
+        # thus uncache(), in a thread that is already holding this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v2c.py b/snmp/message/v2c.py
index 192ec5a..4a0c810 100644
--- a/snmp/message/v2c.py
+++ b/snmp/message/v2c.py
@@ -42,7 +42,9 @@ class SNMPv2cMessageProcessor(MessageProcessor[Message, AnyPDU]):
     VERSION = ProtocolVersion.SNMPv2c
 
     def __init__(self) -> None:
-        self.cacheLock = threading.Lock()
+        # The garbage collector may call a request's __del__() method, and
+        # thus uncache(), in a thread that is already holding this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/message/v3.py b/snmp/message/v3.py
index 129ce3e..51e8748 100644
--- a/snmp/message/v3.py
+++ b/snmp/message/v3.py
@@ -485,7 +485,9 @@ class SNMPv3MessageProcessor(MessageProcessor[SNMPv3Message, AnyPDU]):
     def __init__(self, msgMaxSize: int) -> None:
         self.msgMaxSize = msgMaxSize
 
-        self.cacheLock = threading.Lock()
+        # The garbage collector may call a request's __del__() method, and
+        # thus uncache(), in a thread that is already holding this lock
+        self.cacheLock = threading.RLock()
         self.generator = self.newGenerator()
         self.outstanding: Dict[int, CacheEntry] = {}
 
diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 84068b5..cc04a84 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -40,7 +40,10 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
 
     def __init__(self) -> None:
         self.timeLock = threading.Lock()
-        self.userLock = threading.Lock()
+
+        # The garbage collector may call a manager's __del__() method, and thus
+        # unregisterRemoteEngine(), in a thread that already holds this lock
+        self.userLock = threading.RLock()
 
         self.timekeeper = TimeKeeper()
         self.users = UserRegistry()
diff --git a/snmp/security/usm/users.py b/snmp/security/usm/users.py
index 1302071..407ae92 100644
--- a/snmp/security/usm/users.py
+++ b/snmp/security/usm/users.py
@@ -121,6 +121,9 @@ class RemoteEngine:
         return self.count == 0
 
 class UserRegistry:
+    """All methods tolerate that the garbage collector runs at any moment, and
+    that it calls release() for registrations of managers that are gone."""
+
     def __init__(self) -> None:
         self.engines: Dict[bytes, RemoteEngine] = {}
         self.namespaces: Dict[str, NamespaceConfig] = {}
@@ -153,7 +156,7 @@ class UserRegistry:
 
         config.addUser(userName, credentials, defaultSecurityLevel, default)
 
-        for engineID, engine in self.engines.items():
+        for engineID, engine in list(self.engines.items()):
             if engine.namespace == namespace:
                 engine.addUser(engineID, userName, credentials)
 
@@ -169,6 +172,9 @@ class UserRegistry:
         else:
             assigned = peer.assign(namespace)
 
+            if assigned:
+                self.engines[engineID] = peer
+
         return assigned
 
     def release(self, engineID: bytes, namespace: str) -> bool:
@@ -182,7 +188,7 @@ class UserRegistry:
                 raise SNMPLibraryBug(errmsg) from err
         else:
             if peer.release(namespace):
-                del self.engines[engineID]
+                self.engines.pop(engineID, None)
                 released = True
 
         return released
-- 
2.43.0


From 366bb55b03df4ebef0db899b3b66c03b9b990da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 27/35] fix: close a v3 request safely while the listener is
 sending it

---
 snmp/manager/v3.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 17264f7..81c32a6 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -282,6 +282,10 @@ class Request:
     ) -> None:
         now = time.time()
 
+        # protects self.messages and self.engineID; the listener may be sending
+        # this request (again) at the moment that the application closes it
+        self.lock = threading.RLock()
+
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
 
@@ -337,10 +341,11 @@ class Request:
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        while self.messages:
-            self.messages.pop().close()
+        with self.lock:
+            while self.messages:
+                self.messages.pop().close()
 
-        self.engineID = None
+            self.engineID = None
 
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
@@ -374,20 +379,21 @@ class Request:
         user = self.userName
         securityLevel = self.securityLevel
 
-        if engineID is None:
-            if self.engineID is None:
-                pdu = GetRequestPDU()
-                engineID = b""
-                user = b""
-                securityLevel = noAuthNoPriv
+        with self.lock:
+            if engineID is None:
+                if self.engineID is None:
+                    pdu = GetRequestPDU()
+                    engineID = b""
+                    user = b""
+                    securityLevel = noAuthNoPriv
+                else:
+                    engineID = self.engineID
             else:
-                engineID = self.engineID
-        else:
-            self.engineID = engineID
+                self.engineID = engineID
 
-        message = RequestMessage(self, self.synchronized)
-        self.messages.add(message)
-        self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
+            message = RequestMessage(self, self.synchronized)
+            self.messages.add(message)
+            self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
 
     def refresh(self) -> Optional[float]:
         if self.event.is_set():
-- 
2.43.0


From 0cbaae657ca1e8fd5a77f047fd05389fbfb7e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 28/35] fix: never send a v3 request again once its handle is
 gone

---
 snmp/manager/v3.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 81c32a6..5a7ad60 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -285,6 +285,7 @@ class Request:
         # protects self.messages and self.engineID; the listener may be sending
         # this request (again) at the moment that the application closes it
         self.lock = threading.RLock()
+        self.abandoned = False
 
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
@@ -305,7 +306,11 @@ class Request:
         self.period = refreshPeriod
 
     def __del__(self) -> None:
-        self.close()
+        with self.lock:
+            # Weak references remain valid until this method returns, so the
+            # listener may still find this request, and then outlive this call
+            self.abandoned = True
+            self.close()
 
     @property
     def engineID(self) -> Optional[bytes]:
@@ -380,6 +385,9 @@ class Request:
         securityLevel = self.securityLevel
 
         with self.lock:
+            if self.abandoned:
+                return
+
             if engineID is None:
                 if self.engineID is None:
                     pdu = GetRequestPDU()
-- 
2.43.0


From 7a4596aab02b17ba409a82efec0f93a362961e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 29/35] fix: reject unknown arguments for SNMPv3 managers

Misspelled arguments, and those for other versions, were silently ignored, so
that the manager worked with defaults instead of what was asked for.
---
 snmp/engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index 41ff0e0..9cc9cfc 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -123,7 +123,8 @@ class Engine:
         engineID: Optional[bytes] = None,
         securityModel: Optional[SecurityModel] = None,
         defaultSecurityLevel: Optional[SecurityLevel] = None,
-        **kwargs: Any,
+        defaultUserName: Optional[str] = None,
+        namespace: str = "",
     ) -> SNMPv3UsmManager[Address]:
         if securityModel is None:
             securityModel = self.defaultSecurityModel
@@ -135,9 +136,6 @@ class Engine:
             self.dispatcher.addMessageProcessor(self.mpv3)
 
         if securityModel == SecurityModel.USM:
-            defaultUserName = kwargs.get("defaultUserName")
-            namespace = kwargs.get("namespace", "")
-
             if defaultUserName is None:
                 defaultUserName = self.usm.getDefaultUser(namespace)
 
-- 
2.43.0


From c19068c54862db00726d61564dbfbbacd8be9c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 30/35] fix: allow an Engine to be shut down twice

An Engine that was shut down within its own context tried to close the same
descriptors again on leaving it, which failed, or closed whatever had been
opened in the meantime.
---
 snmp/transport/posix/udp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 0fee374..c5c3e6f 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -50,7 +50,12 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         for sock in self.sockets.values():
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        # The same numbers may already belong to other files the next time
+        if self.w >= 0:
+            w, r = self.w, self.r
+            self.w = self.r = -1
+
+            os.close(w)
+            os.close(r)
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From 50cb1d174ffb123a06e42ee1f225ff3ccae8e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 31/35] fix: do not keep half-made control sockets

When one of them could not be bound, stop() had nowhere to send to, and the
next listener could not be stopped.
---
 snmp/transport/generic/udp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 40ba1bd..867e10b 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -21,12 +21,15 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
             address_family = sock.DOMAIN.address_family
             loopback_address = sock.DOMAIN.loopback_address
 
-            self.r = socket(address_family, SOCK_DGRAM)
-            self.w = socket(address_family, SOCK_DGRAM)
+            r = socket(address_family, SOCK_DGRAM)
+            w = socket(address_family, SOCK_DGRAM)
 
-            self.r.setblocking(False)
-            self.r.bind((loopback_address, 0))
-            self.w.bind((loopback_address, 0))
+            r.setblocking(False)
+            r.bind((loopback_address, 0))
+            w.bind((loopback_address, 0))
+
+            self.r = r
+            self.w = w
 
         self.sockets[sock.fileno] = sock
 
-- 
2.43.0


From e86368bd98952506378c09b2a081fef4976243cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 32/35] fix: raise a v1/v2c retransmission error from the
 wait() of its own request

It was raised from whichever wait() happened to be servicing the manager, and
left the heap of requests out of order, so that others were resent late.
---
 snmp/manager/v1.py  | 22 ++++++++++++++++++++--
 snmp/manager/v2c.py | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 6200d8b..d93579d 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -31,6 +31,7 @@ class Request(RequestHandle[Message]):
 
         self.callback: Optional[Callable[[int], None]] = None
         self.event = threading.Event()
+        self.exception: Optional[Exception] = None
         self.response: Optional[Message] = None
 
         self.expiration = now + timeout
@@ -58,6 +59,14 @@ class Request(RequestHandle[Message]):
         self.callback(self.pdu.requestID)
         self.callback = None
 
+    # Whatever prevents this request from being sent is
+    # none of the business of the thread that happens to send it
+    def fail(self, error: Exception) -> None:
+        # Do not keep any traceback, because it would refer to this object
+        error.__cause__ = error.__context__ = None
+        self.exception = error.with_traceback(None)
+        self.event.set()
+
     def addCallback(self,
         callback: Callable[[int], None],
         requestID: int,
@@ -108,8 +117,13 @@ class Request(RequestHandle[Message]):
         self.close()
         if not self.event.is_set():
             raise Timeout()
+        elif self.response is None:
+            assert self.exception is not None
+            try:
+                raise self.exception
+            finally:
+                self.exception = None
         else:
-            assert self.response is not None
             pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
@@ -145,7 +159,11 @@ class SNMPv1Manager(Generic[T]):
                 if request is None:
                     wait = None
                 else:
-                    wait = request.refresh()
+                    try:
+                        wait = request.refresh()
+                    except Exception as error:
+                        request.fail(error)
+                        wait = None
 
                 if wait is None:
                     heapq.heappop(self.requests)
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 80d65eb..ed0b05f 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -31,6 +31,7 @@ class Request(RequestHandle[Message]):
 
         self.callback: Optional[Callable[[int], None]] = None
         self.event = threading.Event()
+        self.exception: Optional[Exception] = None
         self.response: Optional[Message] = None
 
         self.expiration = now + timeout
@@ -58,6 +59,14 @@ class Request(RequestHandle[Message]):
         self.callback(self.pdu.requestID)
         self.callback = None
 
+    # Whatever prevents this request from being sent is
+    # none of the business of the thread that happens to send it
+    def fail(self, error: Exception) -> None:
+        # Do not keep any traceback, because it would refer to this object
+        error.__cause__ = error.__context__ = None
+        self.exception = error.with_traceback(None)
+        self.event.set()
+
     def addCallback(self,
         callback: Callable[[int], None],
         requestID: int,
@@ -108,8 +117,13 @@ class Request(RequestHandle[Message]):
         self.close()
         if not self.event.is_set():
             raise Timeout()
+        elif self.response is None:
+            assert self.exception is not None
+            try:
+                raise self.exception
+            finally:
+                self.exception = None
         else:
-            assert self.response is not None
             pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
@@ -145,7 +159,11 @@ class SNMPv2cManager(Generic[T]):
                 if request is None:
                     wait = None
                 else:
-                    wait = request.refresh()
+                    try:
+                        wait = request.refresh()
+                    except Exception as error:
+                        request.fail(error)
+                        wait = None
 
                 if wait is None:
                     heapq.heappop(self.requests)
-- 
2.43.0


From 2a2e24134fba908622e16ad5c66ae418fe6b599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 33/35] fix: fail only the v3 request that cannot be sent

An error (such as an unknown user name, or a socket error) was raised from the
wait() of another request, or else swallowed by the listener, in which case the
request was lost, its wait() was a busy loop, and the rest of the queue stuck.
---
 snmp/manager/v3.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 5a7ad60..3aca37e 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -298,7 +298,7 @@ class Request:
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
-        self.exception: Optional[UnhandledReport] = None
+        self.exception: Optional[Exception] = None
         self.response: Optional[SNMPv3Message] = None
 
         self.expiration = now + timeout
@@ -352,6 +352,15 @@ class Request:
 
             self.engineID = None
 
+    # Whatever prevents this request from being sent is
+    # none of the business of the thread that happens to send it
+    def fail(self, error: Exception) -> None:
+        if not self.event.is_set():
+            # Do not keep any traceback, because it would refer to this object
+            error.__cause__ = error.__context__ = None
+            self.exception = error.with_traceback(None)
+            self.event.set()
+
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
         self.synchronized.makeTrue()
@@ -558,7 +567,13 @@ class SNMPv3UsmManager(Generic[T]):
                 if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
-                            request.send(self.engineID)
+                            try:
+                                request.send(self.engineID)
+                            except Exception as error:
+                                request.fail(error)
+                                self.nextState = None
+                                continue
+
                             heapq.heappush(self.active, reference)
                             active = True
 
@@ -579,7 +594,11 @@ class SNMPv3UsmManager(Generic[T]):
                     if request is None:
                         wait = None
                     else:
-                        wait = request.refresh()
+                        try:
+                            wait = request.refresh()
+                        except Exception as error:
+                            request.fail(error)
+                            wait = None
 
                     if wait is None:
                         heapq.heappop(self.active)
@@ -614,7 +633,13 @@ class SNMPv3UsmManager(Generic[T]):
 
             if not request.event.is_set() and not request.expired:
                 with self.activeLock:
-                    request.send(engineID)
+                    try:
+                        request.send(engineID)
+                    except DiscoveryError:
+                        raise
+                    except Exception as error:
+                        request.fail(error)
+
                     heapq.heapify(self.active)
 
             if sendAll:
@@ -644,8 +669,12 @@ class SNMPv3UsmManager(Generic[T]):
 
             if request is not None and not request.expired:
                 with self.activeLock:
-                    request.send(engineID)
-                    heapq.heappush(self.active, reference)
+                    try:
+                        request.send(engineID)
+                    except Exception as error:
+                        request.fail(error)
+                    else:
+                        heapq.heappush(self.active, reference)
 
     def sendPdu(self,
         pdu: AnyPDU,
-- 
2.43.0


From 6c3969fdeca57c781e09f0ff95f6f098d10096bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:51 +0000
Subject: [PATCH 34/35] fix: print a PDU whose error status is a plain integer,
 as in a copy made from its repr

---
 snmp/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/pdu.py b/snmp/pdu.py
index b9430b7..a4f9efe 100644
--- a/snmp/pdu.py
+++ b/snmp/pdu.py
@@ -230,7 +230,7 @@ class PDU(Constructed):
         )).format(
             indent, typename(self),
             subindent, self.requestID,
-            subindent, self.errorStatus.name,
+            subindent, ErrorStatus(self.errorStatus).name,
             subindent, self.errorIndex,
             subindent, self.variableBindings.toString(subindent + tab)
         )
-- 
2.43.0


From d028017f54d3b63e7e28f547357978c288aa964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:54 +0000
Subject: [PATCH 35/35] fix: indent the title of a GetBulk PDU printed inside a
 message

---
 snmp/pdu.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/snmp/pdu.py b/snmp/pdu.py
index a4f9efe..f985d93 100644
--- a/snmp/pdu.py
+++ b/snmp/pdu.py
@@ -322,20 +322,21 @@ class BulkPDU(Constructed):
         return self.toString()
 
     def toString(self, depth: int = 0, tab: str = "    ") -> str:
-        indent = tab * (depth + 1)
+        indent = tab * depth
+        subindent = indent + tab
         return "\n".join((
-            "{}:",
+            "{}{}:",
             "{}Request ID: {}",
             "{}Non-Repeaters: {}",
             "{}Max Repetitions: {}",
             "{}Variable Bindings:",
             "{}"
         )).format(
-            typename(self),
-            indent, self.requestID,
-            indent, self.nonRepeaters,
-            indent, self.maxRepetitions,
-            indent, self.variableBindings.toString(tab * (depth + 2))
+            indent, typename(self),
+            subindent, self.requestID,
+            subindent, self.nonRepeaters,
+            subindent, self.maxRepetitions,
+            subindent, self.variableBindings.toString(subindent + tab)
         )
 
     @classmethod
-- 
2.43.0

