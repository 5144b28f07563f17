From c1ee000f1679fc9895c8602a9252f73fbe65024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 01/41] fix: reject a JWS JSON object without any signature

verify_json() returned None for an empty signatures list instead of
refusing the object.
---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..9d4db29 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -655,6 +655,9 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("Missing signatures")
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From e90af9aad37a5fd82654218a3ad079af8d760a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 02/41] fix: do not let verdicts depend on assert statements

python -O removes assert: the key id filter, the payload comparison of
verify_json(), the type checks of is_jws()/is_jwe(), Key.__eq__ and the
supported-enc check of JWE_RSA.decrypt() disappeared with them.
---
 src/jwkest/jwe.py | 13 +++----------
 src/jwkest/jwk.py | 21 +++++++++------------
 src/jwkest/jws.py | 21 +++++++--------------
 3 files changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..c575d0c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -303,15 +303,11 @@ class JWEnc(JWT):
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
-        try:
-            assert "alg" in self.headers and "enc" in self.headers
-        except AssertionError:
+        if "alg" not in self.headers or "enc" not in self.headers:
             return False
         else:
             for typ in ["alg", "enc"]:
-                try:
-                    assert self.headers[typ] in SUPPORTED[typ]
-                except AssertionError:
+                if self.headers[typ] not in SUPPORTED[typ]:
                     logger.debug("Not supported %s algorithm: %s" % (
                         typ, self.headers[typ]))
                     return False
@@ -363,7 +359,6 @@ class JWe(JWx):
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
-            assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
         else:
             raise NotSupportedAlgorithm(enc_alg)
@@ -558,9 +553,7 @@ class JWE_RSA(JWe):
 
         self["cek"] = cek
         enc = jwe.headers["enc"]
-        try:
-            assert enc in SUPPORTED["enc"]
-        except AssertionError:
+        if enc not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(enc)
 
         msg = self._decrypt(enc, cek, jwe.ciphertext(),
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..a71a6b1 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -340,23 +340,20 @@ class Key(object):
                     return False
 
         if self.kid:
-            try:
-                assert isinstance(self.kid, six.string_types)
-            except AssertionError:
+            if not isinstance(self.kid, six.string_types):
                 raise HeaderError("kid of wrong value type")
         return True
 
     def __eq__(self, other):
-        try:
-            assert isinstance(other, Key)
-            assert set(self.__dict__.keys()) == set(other.__dict__.keys())
-
-            for key in self.public_members:
-                assert getattr(other, key) == getattr(self, key)
-        except AssertionError:
+        if not isinstance(other, Key):
             return False
-        else:
-            return True
+        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
+            return False
+
+        for key in self.public_members:
+            if getattr(other, key) != getattr(self, key):
+                return False
+        return True
 
     def keys(self):
         return list(self.to_dict().keys())
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 9d4db29..0212318 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -333,9 +333,7 @@ class JWx(object):
             _header["jwk"] = extra["jwk"].serialize()
 
         if "kid" in self:
-            try:
-                assert isinstance(self["kid"], six.string_types)
-            except AssertionError:
+            if not isinstance(self["kid"], six.string_types):
                 raise HeaderError("kid of wrong value type")
 
         return _header
@@ -403,11 +401,10 @@ class JWx(object):
                     _key.kid, _key.use, _key.kty))
             if _kid:
                 try:
-                    assert _kid == _key.kid
+                    if _kid != _key.kid:
+                        continue
                 except (KeyError, AttributeError):
                     pass
-                except AssertionError:
-                    continue
 
             if use and _key.use and _key.use != use:
                 continue
@@ -673,8 +670,8 @@ class JWS(JWx):
             _tmp = self.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
                 _claim = _tmp
-            else:
-                assert _claim == _tmp
+            elif _claim != _tmp:
+                raise FormatError("Signatures over different payloads")
 
         return _claim
 
@@ -712,17 +709,13 @@ class JWS(JWx):
         except Exception:
             return False
 
-        try:
-            assert "alg" in jwt.headers
-        except AssertionError:
+        if "alg" not in jwt.headers:
             return False
         else:
             if jwt.headers["alg"] is None:
                 jwt.headers["alg"] = "none"
 
-            try:
-                assert jwt.headers["alg"] in SIGNER_ALGS
-            except AssertionError:
+            if jwt.headers["alg"] not in SIGNER_ALGS:
                 logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
                 return False
             else:
-- 
2.43.0


From 89de8e492a7832812d7e1668498bc464d2bdf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 03/41] fix: draw EC private keys, ECDSA nonces and symmetric
 keys from a CSPRNG

ecc.py took ECDH-ES ephemeral keys and ECDSA per-signature nonces from the
Mersenne Twister, and gen_symkey.py the key itself: an observer of a few
outputs can predict the rest.
---
 script/gen_symkey.py | 3 ++-
 src/jwkest/ecc.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..a4989cb 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -11,7 +11,8 @@ __author__ = 'regu0004'
 
 
 def rndstr(size=6, chars=string.ascii_uppercase + string.digits):
-    return ''.join(random.choice(chars) for _ in range(size))
+    rng = random.SystemRandom()
+    return ''.join(rng.choice(chars) for _ in range(size))
 
 
 def main():
diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..45982f8 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -6,6 +6,7 @@ from __future__ import print_function
 from __future__ import absolute_import
 from __future__ import division
 
+from Cryptodome.Random.random import getrandbits
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
 from jwkest.elliptic import inv
@@ -14,7 +15,6 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From 3448e07940a132584577c2a4931a2bd6c1bdbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 04/41] fix: reject ECDSA signatures of the wrong length

The signature was split at the curve's octet length and both halves read as
integers of any length, so r||s with leading zero octets inserted before s
(or r cut short for another curve) was accepted as a valid signature.
---
 src/jwkest/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 45982f8..e98dd86 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -99,6 +99,8 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
+        if len(sig) != 2 * self.bytes:
+            return False
         while h > self.N:
             h >>= 1
         r = self.bytes2int(sig[:self.bytes])
-- 
2.43.0


From b9797c1adbfe5e28b50c5299ec295e4f8b644612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 05/41] fix: truncate the ECDSA hash to the bit length of the
 group order

Comparing with the order itself halved a 256 bit hash that happens to exceed
it, so such messages got signatures nobody else accepts and signatures of
others over them were refused.
---
 src/jwkest/ecc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index e98dd86..527a68c 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -89,7 +89,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
+        while h.bit_length() > self.N.bit_length():
             h >>= 1
 
         r = s = 0
@@ -101,7 +101,7 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         if len(sig) != 2 * self.bytes:
             return False
-        while h > self.N:
+        while h.bit_length() > self.N.bit_length():
             h >>= 1
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
-- 
2.43.0


From b6ad2b1c71f98fddf2fb6682665085708cc45e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 06/41] fix: do not trust the key inside a JWS JSON object when
 the caller gave keys

With an empty collection of keys verify_json fell back on the jwk, jku or x5u
parameter of the object under verification, so that anyone's self-made
signature was accepted (and an URL of the sender's choice fetched).
---
 src/jwkest/jws.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 0212318..3cc0a85 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -666,6 +666,10 @@ class JWS(JWx):
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
             self.__init__(**all_headers)
+            if keys is not None:
+                # the caller decides which keys to trust, not the token
+                for param in ["jwk", "jku", "x5u"]:
+                    self._dict.pop(param, None)
 
             _tmp = self.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
-- 
2.43.0


From e257ff754e212f66432a6202badb6ebda2d4f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 07/41] fix: verify_json keeps to the algorithm the JWS object
 was made for

The object is re-initialised from each signature's header, which threw away
the algorithm the caller had given to the constructor; verify_compact
refuses a token with another algorithm.
---
 src/jwkest/jws.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 3cc0a85..ff2dda3 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -655,6 +655,11 @@ class JWS(JWx):
         if not _signs:
             raise FormatError("Missing signatures")
 
+        _alg = self._dict.get("alg")
+        if not sigalg and _alg and _alg.lower() != "none":
+            # __init__() below forgets which algorithm this object stands for
+            sigalg = _alg
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From 190fd4a30f33e9041110ce66be0d035738319638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 08/41] fix: compare authentication tags in constant time

The content authentication tag of AES-CBC-HMAC and AES-GCM and the digest
inside an RSA encrypted key were compared with an operator that stops at the
first difference.
---
 src/jwkest/aes_gcm.py | 9 ++++++---
 src/jwkest/extra.py   | 3 ++-
 src/jwkest/jwe.py     | 4 +++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..82169b7 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -33,6 +33,8 @@ except ImportError:
     pass
 # from past.utils import old_div
 
+from hmac import compare_digest
+
 from Cryptodome.Cipher import AES
 from Cryptodome.Util import Counter
 from Cryptodome.Util.number import bytes_to_long
@@ -171,10 +173,11 @@ class AES_GCM(object):
         if auth_tag >= (1 << 128):
             raise InvalidInputException('Tag should be 128-bit')
 
-        if auth_tag != self.__ghash(
-                auth_data, ciphertext) ^ bytes_to_long(
+        candidate = self.__ghash(auth_data, ciphertext) ^ bytes_to_long(
             self._aes_ecb.encrypt(
-                long_to_bytes((init_value << 32) | 1, 16))):
+                long_to_bytes((init_value << 32) | 1, 16)))
+        if not compare_digest(long_to_bytes(candidate, 16),
+                              long_to_bytes(auth_tag, 16)):
             raise InvalidTagException
 
         len_ciphertext = len(ciphertext)
diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..5ab9558 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -7,6 +7,7 @@ try:
 except ImportError:
     pass
 #from past.utils import old_div
+from hmac import compare_digest
 from math import ceil
 from struct import pack, unpack
 from Cryptodome.Cipher import AES
@@ -129,7 +130,7 @@ def aes_cbc_hmac_decrypt(key, iv, aad, ct, tag):
     candidate = h.digest()[:seclen]
 
     # Decrypt if verified
-    if candidate == tag:
+    if compare_digest(candidate, tag):
         cipher = AES.new(ke, AES.MODE_CBC, iv)
         pt = pkcs5trim(cipher.decrypt(ct))
         return pt
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index c575d0c..39b8f2d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -11,6 +11,8 @@ import logging
 import zlib
 import six
 
+from hmac import compare_digest
+
 from Cryptodome import Random
 from Cryptodome.Hash import SHA, SHA256
 from Cryptodome.Util.number import bytes_to_long
@@ -140,7 +142,7 @@ class RSAEncrypter(Encrypter):
                 _digest = text[-dsize:]
                 _msg = text[:-dsize]
                 digest = SHA.new(_msg).digest()
-                if digest == _digest:
+                if compare_digest(digest, _digest):
                     text = _msg
                 else:
                     raise DecryptionFailed()
-- 
2.43.0


From 8ac816b8d9c119884b5ba1fbba7a86c35099191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 09/41] fix: use the content encryption key of A192GCM as it is

Going through an integer padded the 24 octet key to 32, so that A192GCM
content was really encrypted with AES-256 under a key of its own and no other
implementation could read it (and keys with leading zero octets shrank).
---
 src/jwkest/aes_gcm.py | 4 +++-
 src/jwkest/jwe.py     | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index 82169b7..709aafd 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -82,7 +82,9 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if not isinstance(master_key, bytes):
+            master_key = long_to_bytes(master_key, 16)
+        self._master_key = master_key
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 39b8f2d..14cae99 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -357,7 +357,7 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
@@ -380,7 +380,7 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From 92e28f8c6b82aa6ab33b2bdb9f677fec9e72451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 10/41] fix: emit AES-GCM tags with all their 16 octets

A tag with leading zero octets lost them on the way through an integer.
---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 14cae99..45719c5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,7 +359,7 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
         else:
-- 
2.43.0


From ee69b65e01364d8887e36edee7a55d5d0b4cb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 11/41] fix: take AES-GCM IVs and tags of the right length only

Both were turned into integers, so any number of leading zero octets could be
added to the IV or the tag of a valid JWE, or a zero octet removed.
---
 src/jwkest/jwe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 45719c5..faf6a00 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -357,6 +357,8 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
+            if len(iv) != 12:
+                raise ParameterError("The IV of AES-GCM must be 12 octets")
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag, 16)
@@ -380,6 +382,8 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed()
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 704eb88704be026868cb53d3c9b4b8edf4d86e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 12/41] fix: hold content encryption keys to the size their
 algorithm asks for

A token could choose A256CBC-HS512 and come with a 32 octet key (and so be
processed as A128CBC-HS256), or A256GCM with a 16 octet one; a caller's cek
was not checked either.
---
 src/jwkest/jwe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index faf6a00..3605f0a 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -356,6 +356,9 @@ class JWe(JWx):
 
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
+        if enc_alg in KEYLEN and len(key) * 8 != KEYLEN[enc_alg]:
+            raise ParameterError("Wrong size of the key for %s" % enc_alg)
+
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             if len(iv) != 12:
                 raise ParameterError("The IV of AES-GCM must be 12 octets")
@@ -381,6 +384,9 @@ class JWe(JWx):
         :param tag: Authentication tag
         :return: plain text message or None if decryption failed
         """
+        if enc in KEYLEN and len(key) * 8 != KEYLEN[enc]:
+            raise DecryptionFailed()
+
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
             if len(iv) != 12 or len(tag) != 16:
                 raise DecryptionFailed()
-- 
2.43.0


From 0e86eb1c5b9b28b1c3bf966c1644b9ed747784cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 13/41] fix: refuse encrypted tokens that do not have exactly
 five parts

Only the symmetric decrypter looked at the number of parts; the others
ignored whatever followed the authentication tag.
---
 src/jwkest/jwe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3605f0a..987341b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -546,6 +546,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -718,6 +721,9 @@ class JWE_EC(JWe):
         else:
             jwe = JWEnc().unpack(token)
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         if not self.cek:
             raise Exception("Content Encryption Key is Not Yet Set")
 
@@ -851,6 +857,9 @@ class JWE(JWx):
         elif self.jwt:
             jwe = self.jwt
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
-- 
2.43.0


From b634fb88cb35da0d620141136dbf194ce199f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 14/41] fix: validate the peer's public key in ECDH

A point that is not on the curve, or on another curve than the private key,
lets a sender learn about the private key from whether decryption works.
---
 src/jwkest/ecc.py | 3 +++
 src/jwkest/jwe.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 527a68c..8f4f92c 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -9,6 +9,7 @@ from __future__ import division
 from Cryptodome.Random.random import getrandbits
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -73,6 +74,8 @@ class NISTEllipticCurve(object):
     # Compute the DH shared secret (X coordinate) from a public key and private
     # key
     def dh_z(self, priv, pub):
+        if not element(pub, self.a, self.b, self.p):
+            raise ECCException("The point is not on the curve")
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
     def _sign_loop(self, r, s, h, k, priv):
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 987341b..f4e1e11 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -661,6 +661,9 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if not key.curve or epubkey.curve.bits != key.curve.bits:
+            raise DecryptionFailed("Ephemeral key on another curve")
+
         apu = apv = ""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From d656ab026136d254c02169c8d99d71f6d98303fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 15/41] fix: wrap and unwrap keys of whole 64 bit blocks only

Unwrapping ignored up to seven octets after the wrapped key, and wrapping
dropped what did not fill a block.
---
 src/jwkest/aes_key_wrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..6686744 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,8 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    if len(wrapped) % 8 or len(wrapped) < 24:
+        raise ValueError("Integrity Check Failed: impossible length")
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +67,8 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if len(plaintext) % 8 or len(plaintext) < 16:
+        raise ValueError("Only multiples of 8 octets can be wrapped")
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From cb2f07e3e63884dbbdcbc5932792e462b6c3f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 16/41] fix: refuse an encrypted key next to ECDH-ES direct
 agreement

---
 src/jwkest/jwe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index f4e1e11..b08fbc7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -671,6 +671,8 @@ class JWE_EC(JWe):
             apv = b64d(self.headers["apv"].encode())
 
         if self.headers["alg"] == "ECDH-ES":
+            if token.encrypted_key():
+                raise DecryptionFailed("ECDH-ES comes without encrypted key")
             try:
                 dk_len = KEYLEN[self.headers["enc"]]
             except KeyError:
-- 
2.43.0


From f0a8e0749c92f009d1247fbf645fc39666a2d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 17/41] fix: decompress the plaintext whatever the key
 management algorithm

The symmetric and elliptic curve decrypters returned the compressed text of a
token with a zip header parameter; unknown values were ignored by all.
---
 src/jwkest/jwe.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b08fbc7..ac67ac7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -402,6 +402,15 @@ class JWe(JWx):
         else:
             raise Exception("Unsupported encryption algorithm %s" % enc)
 
+    @staticmethod
+    def _decompress(headers, msg):
+        if "zip" in headers:
+            if headers["zip"] != "DEF":
+                raise NotSupportedAlgorithm(headers["zip"])
+            msg = zlib.decompress(msg)
+
+        return msg
+
 
 class JWE_SYM(JWe):
     args = JWe.args[:]
@@ -477,10 +486,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
-            msg = zlib.decompress(msg)
-
-        return msg
+        return self._decompress(jwe.headers, msg)
 
 
 class JWE_RSA(JWe):
@@ -576,10 +582,7 @@ class JWE_RSA(JWe):
                             jwe.initialization_vector(),
                             jwe.authentication_tag())
 
-        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = zlib.decompress(msg)
-
-        return msg
+        return self._decompress(jwe.headers, msg)
 
 
 class JWE_EC(JWe):
@@ -736,6 +739,7 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        msg = self._decompress(jwe.headers, msg)
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From eafedb9ec379bba35b9eeb6180a210d27a5b76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 18/41] fix: let JWE decryption go on to the next key

A key the token is not meant for ended in ValueError, TypeError,
InvalidTagException or VerificationFailure, which stopped the search for the
right one; with ECDH-ES only the first key was ever tried. The error the
caller sees no longer tells where decryption failed either.
---
 src/jwkest/jwe.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ac67ac7..8a73b2c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -27,9 +27,11 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
+from jwkest.extra import VerificationFailure
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
@@ -86,6 +88,11 @@ class WrongEncryptionAlgorithm(JWEException):
     pass
 
 
+# what decryption with a key that the token is not meant for may end in
+NOT_THIS_KEY = (KeyError, TypeError, ValueError, DecryptionFailed,
+                InvalidTagException, VerificationFailure)
+
+
 # ---------------------------------------------------------------------------
 # Base class
 
@@ -893,7 +900,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None
         else:
             raise NotSupportedAlgorithm
 
@@ -901,18 +908,20 @@ class JWE(JWx):
             try:
                 msg = decrypter.decrypt(jwe, None, cek=cek)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except NOT_THIS_KEY:
                 pass
             else:
                 logger.debug("Decrypted message using exiting CEK")
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
+                _key = key.encryption_key(alg=_alg, private=False)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except NOT_THIS_KEY:
                 pass
             else:
                 logger.debug(
-- 
2.43.0


From e3d47fb3ea9c51e65f1e3632b4cf327bfe94fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 19/41] fix: refuse a newline at the end of base64url data

---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..d76cdbf 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -145,7 +145,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\Z")
 
 
 def add_padding(b):
-- 
2.43.0


From 17da7b0060c4df047b3958a90e7be9871fb516f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 20/41] fix: let long_to_base64 encode zero

---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index d76cdbf..0661014 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -106,7 +106,7 @@ def long_to_base64(n):
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
-- 
2.43.0


From 9dd0c7c858c57bc11c15565537911023e4422a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 21/41] fix: leave the caller's list of members alone in
 thumbprint

It was sorted in place, which also reordered the class's own list when none
was given.
---
 src/jwkest/jwk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index a71a6b1..1f23741 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -362,10 +362,9 @@ class Key(object):
         if members is None:
             members = self.required
 
-        members.sort()
         ser = self.serialize()
         _se = []
-        for elem in members:
+        for elem in sorted(members):
             try:
                 _val = ser[elem]
             except KeyError:  # should never happen with the required set
-- 
2.43.0


From 022f8779f5481d0ec1d790d39d2539bf8828cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 22/41] fix: do not extend the member lists of all keys with
 those of RSA keys

Comparing two plain Key instances raised AttributeError, as they were taken
to have the members n and e.
---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 1f23741..56ffa63 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -408,10 +408,10 @@ class RSAKey(Key):
     """
     JSON Web key representation of a RSA key
     """
-    members = Key.members
+    members = Key.members[:]
     members.extend(["n", "e", "d", "p", "q"])
     longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
-    public_members = Key.public_members
+    public_members = Key.public_members[:]
     public_members.extend(["n", "e"])
     required = ['kty', 'n', 'e']
 
-- 
2.43.0


From 6c2f5c2a98437ef8b671f5ebc35b7af393af1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 23/41] fix: do not log symmetric encryption keys

---
 src/jwkest/jwk.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 56ffa63..24783dd 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -711,9 +711,6 @@ class SYMKey(Key):
         else:
             raise JWKException("No support for symmetric keys > 512 bits")
 
-        logger.debug('Symmetric encryption key: {}'.format(
-            as_unicode(b64e(_enc_key))))
-
         return _enc_key
 
 
-- 
2.43.0


From ef3b0aada62c474ac6c84d195ebcf1e6569c0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 24/41] fix: do not log content encryption keys

---
 src/jwkest/jwe.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 8a73b2c..d0cd6dd 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -524,8 +524,6 @@ class JWE_RSA(JWe):
         cek, iv = self._generate_key_and_iv(_enc, cek, iv)
         self["cek"] = cek
 
-        logger.debug("cek: %s, iv: %s" % ([c for c in cek], [c for c in iv]))
-
         _encrypt = RSAEncrypter(self.with_digest).encrypt
 
         _alg = self["alg"]
-- 
2.43.0


From 6fa88fcc96ec60ce26d6dec2933352c946dd5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 25/41] fix: let a generated EC key know the name of its curve

Encrypting to such a key failed with an unknown curve, and it never compared
equal to the same key read from its own serialization.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 24783dd..e3c8f6b 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -637,6 +637,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From 0736dbc5b30628518f1d5d772f6b1f741f1b67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 26/41] fix: serialize EC keys with coordinates of full width

RFC 7518 wants x, y and d to have the length of the curve's field; leading
zero octets were dropped, which also gave such keys a thumbprint of their own.
---
 src/jwkest/jwk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index e3c8f6b..f1d8a9e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -626,12 +626,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": as_unicode(b64e(self.curve.int2bytes(self.x))),
+            "y": as_unicode(b64e(self.curve.int2bytes(self.y)))
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = as_unicode(b64e(self.curve.int2bytes(self.d)))
 
         return res
 
-- 
2.43.0


From fd1d6745604e9030adaeb0ae85e3ed9d34d0b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 27/41] fix: keep crit and x5c apart in the header parameters

A crit given to a JWS or JWE was emitted as x5c, and one of the two was lost
when both were given.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index ff2dda3..c5e1de4 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -292,7 +292,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
-- 
2.43.0


From 197168662e4f4606021aa7fc9700910195a6dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 28/41] fix: tell symmetric keys apart that were made from
 octets

Keys are compared by their members and k was left empty, so any two such keys
were equal.
---
 src/jwkest/jwk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f1d8a9e..218ccdb 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -673,6 +673,8 @@ class SYMKey(Key):
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
             self.key = b64d(bytes(self.k))
+        elif self.key and not self.k:
+            self.k = b64e(self.key)
 
     def deserialize(self):
         if self.k:
-- 
2.43.0


From 6b45ef574703ed40b4504735f0557db555420292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 29/41] fix: leave the caller's protected headers alone when
 signing

The kid and typ of one signature ended up in the headers handed to the next
call with the same dictionary.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index c5e1de4..b528e75 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -452,7 +452,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From 1591c4e05601346846ca360cf45d21de6e4d4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 30/41] fix: refuse tokens with critical header parameters

A recipient must reject a token whose crit it does not understand, and no
extension is implemented; crit was ignored.
---
 src/jwkest/jwe.py | 2 ++
 src/jwkest/jws.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index d0cd6dd..9d8e0eb 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -874,6 +874,8 @@ class JWE(JWx):
         if len(jwe) != 5:
             raise WrongNumberOfParts(len(jwe))
 
+        self._check_crit(jwe.headers)
+
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index b528e75..fd13aa3 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -439,6 +439,13 @@ class JWx(object):
                 _msg = json.loads(_msg)
         return _msg
 
+    @staticmethod
+    def _check_crit(headers):
+        # no extension is implemented, so none can be understood
+        if "crit" in headers:
+            raise HeaderError("Critical header parameters not understood: "
+                              "{}".format(headers["crit"]))
+
     def dump_header(self):
         return dict([(x, self._dict[x]) for x in self.args if x in self._dict])
 
@@ -527,6 +534,7 @@ class JWS(JWx):
         if len(jwt) != 3:
             raise WrongNumberOfParts(len(jwt))
 
+        self._check_crit(jwt.headers)
         self.jwt = jwt
 
         try:
@@ -670,6 +678,7 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
+            self._check_crit(all_headers)
             self.__init__(**all_headers)
             if keys is not None:
                 # the caller decides which keys to trust, not the token
-- 
2.43.0


From 6701b2e081d03854ef34044047359253c4d877b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 31/41] fix: put the length of the algorithm id into the
 ECDH-ES key derivation

RFC 7518 4.6.2 prefixes AlgorithmID with its length; without it the derived
keys are not those of any other implementation (nor of appendix C).
---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 5ab9558..cc9d65d 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -177,7 +177,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
-- 
2.43.0


From fd3716590a60c0941edc7eb64f2449e749678349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 32/41] fix: write the base64url pattern as a raw string

---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 0661014..5ad71d3 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -145,7 +145,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*\Z")
+_b64_re = re.compile(br"^[A-Za-z0-9_-]*\Z")
 
 
 def add_padding(b):
-- 
2.43.0


From 002cd7db8badada6cf733f5865e6923f40c24013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 33/41] fix: let is_jws answer no to JSON that is not an object

---
 src/jwkest/jws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index fd13aa3..2b2ea13 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -714,6 +714,8 @@ class JWS(JWx):
 
     def _is_json_serialized_jws(self, json_jws):
         json_ser_keys = set(["payload", "signatures"])
+        if not isinstance(json_jws, dict):
+            return False
         flattened_json_ser_keys = set(["payload", "signature"])
         if not json_ser_keys.issubset(
                 json_jws.keys()) and not flattened_json_ser_keys.issubset(
-- 
2.43.0


From b2f3d94d0ed54cc68520c948e1a34ca11f9353da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 34/41] fix: decrypt ECDH-ES tokens that have no apu or apv

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9d8e0eb..be34d44 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -672,7 +672,7 @@ class JWE_EC(JWe):
         if not key.curve or epubkey.curve.bits != key.curve.bits:
             raise DecryptionFailed("Ephemeral key on another curve")
 
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From 1e1b45ddc802e9e769ef7a4de980e2bc336e19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 35/41] fix: do not reuse a content encryption key left over on
 a JWE object

---
 src/jwkest/jwe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index be34d44..46430c1 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -825,7 +825,8 @@ class JWE(JWx):
 
             encrypter = JWE_EC(**self._dict)
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0],
+                **dict(self._dict, cek=cek, iv=iv))
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 8e171abe82fdac6668ed9265e591fa0cc08fa5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 36/41] fix: accept the x5t of a key imported with keyrep,
 which is a byte string

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 218ccdb..d703ab5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -468,7 +468,7 @@ class RSAKey(Key):
             der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From 61c6b465eb43d574ccfd391ab85f2123caf07d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 37/41] fix: keep the curve name of an EC key as a string, so
 that equal keys are equal

---
 src/jwkest/jwk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index d703ab5..3d312ba 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -566,7 +566,11 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        # a string, as for kty, alg, use and kid
+        if isinstance(crv, six.string_types):
+            self.crv = crv
+        else:
+            self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
-- 
2.43.0


From 4effd00b632ef6726ca7c16ffa67981a463a4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 38/41] fix: decode the private value of an EC key also when it
 is a byte string

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3d312ba..f13017c 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -606,7 +606,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From 1eab81ae492c95373dd3bfb822e34e0853b35d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:32 +0000
Subject: [PATCH 39/41] fix: keep x5t and x5u of a key as strings, so that
 equal keys are equal

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f13017c..6c2d5d5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -271,8 +271,8 @@ class Key(object):
             self.kid = as_unicode(kid)
 
         self.x5c = x5c or []
-        self.x5t = x5t
-        self.x5u = x5u
+        self.x5t = x5t if isinstance(x5t, six.string_types) else as_unicode(x5t)
+        self.x5u = x5u if isinstance(x5u, six.string_types) else as_unicode(x5u)
         self.inactive_since = 0
         self._hash = None
 
-- 
2.43.0


From 40d6fa137fc7d72a83c97731e96d29119b3094a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 40/41] fix: go on to the next key when a candidate has no key
 material

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 46430c1..c46caf3 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -35,6 +35,7 @@ from jwkest.extra import VerificationFailure
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
+from jwkest.jwk import DeSerializationNotPossible
 from jwkest.jwk import intarr2str, SYMKey
 from jwkest.jwk import ECKey
 from jwkest.jws import JWx
@@ -90,7 +91,8 @@ class WrongEncryptionAlgorithm(JWEException):
 
 # what decryption with a key that the token is not meant for may end in
 NOT_THIS_KEY = (KeyError, TypeError, ValueError, DecryptionFailed,
-                InvalidTagException, VerificationFailure)
+                DeSerializationNotPossible, InvalidTagException,
+                VerificationFailure)
 
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 059f40cad080048da4afbf1b58e6cad1c28faf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:20 +0000
Subject: [PATCH 41/41] fix: let sign_json sign with the key whose kid the
 object asks for

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 2b2ea13..67f6e6c 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -607,6 +607,9 @@ class JWS(JWx):
             # always protect the signing alg header
             protected_headers.setdefault("alg", self.alg)
             _jws = JWS(self.msg, **protected_headers)
+            if "kid" in self and "kid" not in _jws:
+                # not just any key: the one this object asks for
+                _jws["kid"] = self["kid"]
             encoded_header, payload, signature = _jws.sign_compact(
                 protected=protected,
                 keys=keys).split(".")
-- 
2.43.0

