From 933966a43702c76bcbda4d6e12741272065ab573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 01/64] fix: decompress HD wallet points by the parity of y,
 and refuse x beyond the field

point_decompress() took the prefix as the sign of whichever square root came
out, so about half of the public extended keys and public wallet files gave
the negated point.
---
 nbc/wallet/hdwallet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..f56bcb5 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,15 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
+  if x >= curve.p():
+    raise ValueError('invalid compressed point')
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):  # the prefix tells parity of y
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From c29cb6a432d24d0422e5f79a388a849e78b66ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 02/64] fix: make HDWallet.from_extended_key() work again

It passed a length to b58decode(), which takes none, and used self in a static
method, so every import of an extended key (README) raised.
---
 nbc/wallet/hdwallet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index f56bcb5..c5a4b6f 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -196,9 +196,10 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    if len(decoded) != 78+4:
+      raise ValueError('invalid extended key')
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -223,7 +224,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From 7549db1626a6f9911bd8b3083ef35fc3bd1dfd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 03/64] fix: refuse every malformed public key with ValueError

An x without a point raised SquareRootError and an empty string IndexError, which
callers such as ecc.verify() do not expect.
---
 nbc/util/key.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..ed10f2b 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -43,7 +43,7 @@ def ORD(ch):   # compatible to python3
   return ch if type(ch) == int else ord(ch)
 
 def compress_public_key(public_key):
-    if ORD(public_key[0]) != 4 or len(public_key) != 65:    # public_key[0] != '\x04'
+    if len(public_key) != 65 or ORD(public_key[0]) != 4:    # public_key[0] != '\x04'
         raise ValueError('invalid uncompressed public key')
     y_parity = string_to_number(public_key[33:65])
     return CHR(0x02 + (y_parity & 0x01)) + public_key[1:33]
@@ -54,6 +54,9 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
+
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
@@ -66,7 +69,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From cd9d6d8cd2bad9ee30a34c6dabaf3c0f12189d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 04/64] fix: refuse a WIF private key with a bad checksum with
 ValueError

decode_check() returns None then, which raised TypeError (IndexError when empty).
---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index ed10f2b..8f6ea47 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -89,6 +89,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key checksum')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From ea996eb0e0e3d8c2d7008ef16e1e8f67a27e1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 05/64] fix: make ecc.verify() answer False for malformed
 signatures

It raised NameError, UnexpectedDER, IndexError or ValueError instead.
---
 nbc/util/ecc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..e36137c 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -45,7 +45,7 @@ def twos_comp(val, bits):
 def remove_integer(string):
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
@@ -89,6 +89,8 @@ def verify(data, public_key, signature):
         return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
     except ecdsa.BadSignatureError as e:
         return False
+    except (der.UnexpectedDER, IndexError, ValueError) as e:  # malformed signature
+        return False
 
 from .ecdsa.util import number_to_string, string_to_number
 def shared_secret(public_key, private_key):
-- 
2.43.0


From b799fe534e0ae457998ad4def1a254aabde49b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 06/64] fix: check public key coordinates against the field,
 not the group order

X9.62 5.2.2 wants them in [0,p-1]; valid points with a coordinate between the
order and p were refused.
---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..19aa785 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -194,7 +195,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From 54c49186fc227ee68d1dbe7e3ba19aace0d87c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 07/64] fix: reject an ECDSA signature that leads to the point
 at infinity

Public_key.verifies() raised TypeError for such a (crafted) signature.
---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 19aa785..33721cb 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -108,6 +108,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 72f4245b4961f2ffb86631de0915b25f04b6d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 08/64] fix: reduce r modulo the group order when signing

A nonce point whose x is at least the order gave a signature nobody accepts.
---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 33721cb..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -145,7 +145,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From c349795915d18bb70af7373a78f3dfd0c89aa626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 09/64] fix: keep coordinates of a multiplied point within the
 field

-y was not reduced, so 7*P of a point of order 8 was not equal to -P.
---
 nbc/util/ecdsa/ellipticcurve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..00b4c59 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,8 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(),
+                           self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From 54e4dd14085efe7788e56cc3de676abe3d53732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 10/64] fix: double a point of order two to infinity

Point.double() tried to invert zero.
---
 nbc/util/ecdsa/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 00b4c59..56989fb 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -158,6 +158,9 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if self.__y % p == 0:  # a point of order two
+      return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 61683a3b1da3c775868ae1b58c6d7bb9f404d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 11/64] fix: count bytes as an integer in RFC 6979 nonce
 generation

With Python 3 one block too many was generated, which gives a wrong nonce
whenever a candidate has to be rejected.
---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 04397179df39d6820e15bd5271a6422dc4c95641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 12/64] fix: compare s with half of the order exactly in
 canonical signatures

True division rounds to 53 bits, so values just above the half were kept.
---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From 0da99961cc9726f6d50cf8d784506ed63cd4236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 13/64] fix: encode the length of long DER integers properly

Integers of 128 bytes and more got a length that reads as something else.
---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..927bbb1 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From b3514a675a5f835dfff7686e8fc7795d487f420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 14/64] fix: decode object identifiers below 2 with a second
 part above 39

2.999 was read as 26.39; only the first two arcs are limited to 39.
---
 nbc/util/ecdsa/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 927bbb1..0bd64da 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -89,7 +89,7 @@ def remove_object(string):
         numbers.append(n)
         body = body[ll:]
     n0 = numbers.pop(0)
-    first = n0//40
+    first = min(n0//40, 2)
     second = n0-(40*first)
     numbers.insert(0, first)
     numbers.insert(1, second)
-- 
2.43.0


From a568ff6af9945e4912f817b4c835f505f88e0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 15/64] fix: refuse private keys outside the group order in
 Address

Zero raised TypeError, and a key above the order gave a wallet that cannot sign.
---
 nbc/wallet/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..a7a64dc 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -75,6 +75,8 @@ class Address(object):
         raise ValueError('unknown private key type: %r' % privKey[0])
       
       secexp = string_to_number(util.key.privkey_from_wif(self._privKey))
+      if not (0 < secexp < curve.order):
+        raise ValueError('private key out of range')
       point = curve.generator * secexp
       pubKey = _keyFromPoint(point,False)
     else: self._privKey = None
-- 
2.43.0


From a8f7c9b190691f28130dd363a38a4788534f4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 16/64] fix: save public-only wallets with their compressed
 form

The full key was stored, so a compressed address came back as another address.
---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index a7a64dc..a4844e6 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -189,7 +189,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From 3915cc288d2521c02d1a02da422a87afb5deffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 17/64] fix: check the padding when loading an encrypted wallet

Only the two-digit length was checked, so one wrong passphrase in a few thousand
opened a deterministic wallet with a wrong key.
---
 nbc/wallet/address.py  | 2 ++
 nbc/wallet/hdwallet.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index a4844e6..2dc193e 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -204,6 +204,8 @@ class Address(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):              # padding should be all zero
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]  # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index c5a4b6f..cf22c24 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -277,6 +277,8 @@ class HDWallet(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):              # padding should be all zero
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]      # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
-- 
2.43.0


From f9bf94c1bebc8d9111ecfa5369f6f40b68b2bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 18/64] fix: make piecewise.get_address() give the address of
 the combined key

---
 nbc/util/piecewise.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..fae2c5f 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -52,18 +52,20 @@ from .ecdsa import ellipticcurve
 from .ecdsa.util import randrange, string_to_number, number_to_string
 
 from .key import privkey_from_wif, privkey_to_wif, publickey_to_address
+from .key import decompress_public_key
 
 __all__ = ['get_address', 'combine_private_keys']
 
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[0:1] != b'\x04':
         raise ValueError('public key must be decompressed')
+    public_key = decompress_public_key(public_key)
 
     # the public key's elliptic curve point
     x = string_to_number(public_key[1:1 + curve.baselen])
@@ -78,13 +80,16 @@ def get_address(public_key, private_key, version = b'\x00'):
     # add them together
     combined = public_point + private_point
 
+    if combined == ellipticcurve.INFINITY:
+        raise ValueError('the keys cancel each other out')
+
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 8cc8c6458f97e2f536d19b117d905e691782683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 19/64] fix: split private keys without xrange, which Python 3
 lacks

---
 nbc/util/piecewise.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index fae2c5f..6f58f4b 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -118,7 +118,7 @@ def split_private_key(private_key, count = 2):
     secexp = string_to_number(private_key)
 
     # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in xrange(count - 1)]
+    secexps = [randrange(curve.order) for i in range(count - 1)]
 
     # compute the missing secret exponent that will sum to the given key
     secexp_missing = (secexp - sum(secexps)) % curve.order
@@ -208,13 +208,13 @@ def partial_split_private_key(private_key, required, total):
         return [partial_encode_key(k, index) for k in keys]
 
     # total sets of required keys
-    keys = [get_keys(i) for i in xrange(0, total)]
+    keys = [get_keys(i) for i in range(0, total)]
 
     # create linearly independent immutable sets of keys
     groups = []
-    for i in xrange(0, total):
+    for i in range(0, total):
         group = []
-        for j in xrange(0, required):
+        for j in range(0, required):
             group.append(keys[(i + j) % total][j])
         groups.append(frozenset(group))
 
@@ -302,7 +302,7 @@ def partial_split_qr_encode(private_keys):
 
     binary.sort()
     missing = len(binary)
-    for i in xrange(0, len(binary)):
+    for i in range(0, len(binary)):
         if binary[i][0] != i:
             missing = i
             break
-- 
2.43.0


From 70de068e056a29d82a1fe2217e8c7b6da56b759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 20/64] fix: combine partial key sets on Python 3, and refuse
 corrupt parts with ValueError

---
 nbc/util/piecewise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 6f58f4b..3c60e0a 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -59,6 +59,9 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
+def ORD(ch):  # compatible to python3
+  return ch if type(ch) == int else ord(ch)
+
 def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
@@ -238,11 +241,11 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith('\x10\x01'):
+        if not private_key or not private_key.startswith(b'\x10\x01') or len(private_key) != 40:
             raise ValueError('invalid combined key: %s' % key)
 
         # ...verify the required number of keys
-        r = ord(private_key[3])
+        r = ORD(private_key[3])
         if required is None:
             required = r
         elif required != r:
@@ -260,7 +263,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
             raise ValueError('key checksum does not match set: %s' % key)
 
         # ...add this key to the correct key-set
-        index = ord(private_key[2])
+        index = ORD(private_key[2])
         if index not in parts: parts[index] = set()
         parts[index].add(private_key[8:])
 
-- 
2.43.0


From b888ac3aed020847dc31b6a7b1a57cbd93794389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 21/64] fix: encode and decode the QR form of partial key sets

---
 nbc/util/piecewise.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 3c60e0a..1222797 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -288,12 +288,12 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != '\x10\x01':
+        if not private_key or private_key[0:2] != b'\x10\x01' or len(private_key) != 40:
             raise ValueError('invalid combined key')
 
         if required is None:
-            required = ord(private_key[3])
-        elif ord(private_key[3]) != required:
+            required = ORD(private_key[3])
+        elif ORD(private_key[3]) != required:
             raise ValueError('unmatched private keys')
 
         if checksum is None:
@@ -301,7 +301,7 @@ def partial_split_qr_encode(private_keys):
         elif private_key[4:8] != checksum:
             raise ValueError('unmatched private keys')
 
-        binary.append((ord(private_key[2]), private_key[8:]))
+        binary.append((ORD(private_key[2]), private_key[8:]))
 
     binary.sort()
     missing = len(binary)
@@ -313,23 +313,25 @@ def partial_split_qr_encode(private_keys):
     for private_key in binary:
         qr += private_key[1]
 
-    return base64.b32encode(qr).strip('=')
+    return base64.b32encode(qr).strip(b'=')
 
 def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
-    padding = (len(qr_code) * 5 - 9 * 8) % 32
-    binary = base64.b32decode(qr_code + ('=' * padding))
+    if not isinstance(qr_code, bytes):
+        qr_code = qr_code.encode('ascii')
+    padding = -len(qr_code) % 8
+    binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-    if not binary.startswith('\x84\x7c\x20'):
+    if not binary.startswith(b'\x84\x7c\x20') or len(binary) < 9:
         raise ValueError('invalid header')
 
     # the missing index for this set
-    missing = ord(binary[3])
+    missing = ORD(binary[3])
 
-    required = ord(binary[4])
+    required = ORD(binary[4])
     checksum = binary[5:9]
 
     # extract each binary key and recompose the key
-- 
2.43.0


From 885b787186ae7001581889bb7db670d8adf14098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 22/64] fix: refuse an uncompressed public key off the curve in
 Address

---
 nbc/wallet/address.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 2dc193e..3d8fe38 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -88,6 +88,7 @@ class Address(object):
       if ch == 4:  # prefix with 0x04 means decompressed
         if len(pubKey) != 65:
           raise ValueError('invalid uncomprssed public key')
+        pubKey = util.key.decompress_public_key(pubKey)  # check it is on the curve
       elif ch == 2 or ch == 3:
         pubKey = util.key.decompress_public_key(pubKey)
         self._compressed = True
-- 
2.43.0


From 643785170dfdf2140d95c98ac25f14754513d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 23/64] fix: refuse private keys outside the group order in
 shared_secret()

---
 nbc/util/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index e36137c..fe152be 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -102,6 +102,8 @@ def shared_secret(public_key, private_key):
 
     privkey = privkey_from_wif(private_key)
     secexp = string_to_number(privkey)
+    if not (0 < secexp < curve.order):
+        raise ValueError('private key out of range')
 
     shared_point = public_point * secexp
     shared_key = number_to_string(shared_point.x(), curve.order)
-- 
2.43.0


From 601c0dfff4eb504a70d9dd45e84d45cc10e818b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 24/64] fix: expand 256-bit AES keys on Python 3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From 3b6217575efea8ffc4936cb3b16fc416f7902e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 25/64] fix: refuse CFB segments longer than the cipher block,
 which lost data

---
 nbc/util/pyaes/aes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 5afbaea..77ac133 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -407,6 +407,8 @@ class AESModeOfOperationCFB(AESSegmentModeOfOperation):
 
     def __init__(self, key, iv, segment_size = 1):
         if segment_size == 0: segment_size = 1
+        if not (0 < segment_size <= 16):
+            raise ValueError('segment_size must be 1 to 16 bytes')
 
         if iv is None:
             self._shift_register = [ 0 ] * 16
-- 
2.43.0


From 15fe48fb811b3287b2f8233188d33848082f2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 26/64] fix: feed bytes through the streaming AES classes on
 Python 3

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..cc487df 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b""
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
-- 
2.43.0


From 0684aa1f5ee7645cda7d0309ee4051880b6689fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 27/64] fix: strip PKCS7 padding on Python 3 and refuse every
 invalid padding

---
 nbc/util/pyaes/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..e40000e 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -28,12 +28,12 @@ def append_PKCS7_padding(data):
     return data + pad * CHR(pad)
 
 def strip_PKCS7_padding(data):
-    if len(data) % 16 != 0:
+    if len(data) == 0 or len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:])
 
-    if pad > 16:
+    if pad < 1 or pad > 16 or data[-pad:] != pad * CHR(pad):
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 5fe231e5a96934ea3158b7a5658dd1f596963b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 28/64] fix: reduce the argument of order_mod() modulo m

---
 nbc/util/ecdsa/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index f2be882..d7177fd 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -353,6 +353,7 @@ def order_mod( x, m ):
 
   assert gcd( x, m ) == 1
 
+  x = x % m
   z = x
   result = 1
   while z != 1:
-- 
2.43.0


From 887112f8d16485f58f428a5f1564a502c191c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 29/64] fix: keep the old wallet file until the new one is
 completely written

---
 nbc/wallet/__init__.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..334bcc4 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,5 @@
 
-import json
+import os, json
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +8,36 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
-    f.write(sCfg)
+  _replaceFile(fileName,sCfg)
+
+def _copyAccess(fromName, toName):
+  st = os.stat(fromName)
+  if hasattr(os,'chown'):
+    try:
+      os.chown(toName,st.st_uid,st.st_gid)
+    except OSError: pass    # no permission, new file is owned by current user
+  os.chmod(toName,st.st_mode & 0o7777)
+
+def _replaceFile(fileName, sText):  # old content is kept until the new one is complete
+  fileName = os.path.realpath(fileName)
+  if os.path.exists(fileName) and not os.path.isfile(fileName):  # such as device or pipe
+    with open(fileName,'w') as f:
+      f.write(sText)
+    return
+  if os.path.exists(fileName):
+    open(fileName,'r+').close()  # refuse when it is not writable
+  tmpName = '%s.%d.tmp' % (fileName,os.getpid())
+  try:
+    with open(tmpName,'w') as f:
+      if os.path.exists(fileName):
+        _copyAccess(fileName,tmpName)
+      f.write(sText)
+      f.flush()
+      os.fsync(f.fileno())
+    getattr(os,'replace',os.rename)(tmpName,fileName)
+  except:
+    if os.path.exists(tmpName): os.remove(tmpName)
+    raise
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From c8d4b6f172b5404d4fb995524f6c7032e7f14641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 30/64] fix: refuse DER elements whose content is cut short

---
 nbc/util/ecdsa/der.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 0bd64da..9d9dc1d 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -54,7 +54,7 @@ def remove_constructed(string):
         raise UnexpectedDER("wanted constructed tag (0xa0-0xbf), got 0x%02x"
                             % s0)
     tag = s0 & 0x1f
-    length, llen = read_length(string[1:])
+    length, llen = read_content_length(string[1:])
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return tag, body, rest
@@ -63,7 +63,7 @@ def remove_sequence(string):
     if not string.startswith(b("\x30")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted sequence (0x30), got 0x%02x" % n)
-    length, lengthlength = read_length(string[1:])
+    length, lengthlength = read_content_length(string[1:])
     endseq = 1+lengthlength+length
     return string[1+lengthlength:endseq], string[endseq:]
 
@@ -71,7 +71,7 @@ def remove_octet_string(string):
     if not string.startswith(b("\x04")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted octetstring (0x04), got 0x%02x" % n)
-    length, llen = read_length(string[1:])
+    length, llen = read_content_length(string[1:])
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
@@ -80,7 +80,7 @@ def remove_object(string):
     if not string.startswith(b("\x06")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted object (0x06), got 0x%02x" % n)
-    length, lengthlength = read_length(string[1:])
+    length, lengthlength = read_content_length(string[1:])
     body = string[1+lengthlength:1+lengthlength+length]
     rest = string[1+lengthlength+length:]
     numbers = []
@@ -99,7 +99,7 @@ def remove_integer(string):
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
-    length, llen = read_length(string[1:])
+    length, llen = read_content_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     nbytes = numberbytes[0] if isinstance(numberbytes[0], integer_types) else ord(numberbytes[0])
@@ -149,11 +149,19 @@ def read_length(string):
         raise UnexpectedDER("ran out of length bytes")
     return int(binascii.hexlify(string[1:1+llen]), 16), 1+llen
 
+def read_content_length(string):
+    # the same for a string that must hold the content, too
+    length, llen = read_length(string)
+    if length > len(string)-llen:
+        raise UnexpectedDER("ran out of content bytes, wanted %d, got %d"
+                            % (length, len(string)-llen))
+    return length, llen
+
 def remove_bitstring(string):
     num = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if not string.startswith(b("\x03")):
         raise UnexpectedDER("wanted bitstring (0x03), got 0x%02x" % num)
-    length, llen = read_length(string[1:])
+    length, llen = read_content_length(string[1:])
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
-- 
2.43.0


From 230512c2e73ce5c340b77e92c45dea916a81f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 31/64] fix: read 8-byte variable integers and write the
 shortest form

---
 nbc/protocol/format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..08b9459 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From ac8d798de2fd25ffa62a0ac2c848ade81c5e751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 32/64] fix: refuse variable integers that cannot be encoded

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 08b9459..05ff37f 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj < 18446744073709551616:
       return obj
     return None
   
-- 
2.43.0


From 618c53c0dd5f6dacdc529ffcf5c6fbd809d8a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 33/64] fix: refuse byte and text fields that are cut short

---
 nbc/protocol/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 05ff37f..b769cfd 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('out of data')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,6 +370,8 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
+    if len(obj) < length:
+      raise ValueError('out of data')
     return (vl + len(obj), obj)
   
   def str(self, obj):
-- 
2.43.0


From 25433afdc16c4bd78d7701fddbb864e869bb30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 34/64] fix: apply the limits of lists to parsed messages

---
 nbc/protocol/format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index b769cfd..7f10eba 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -401,6 +401,11 @@ class FtArray(FormatType):
              b''.join(self._child_type.binary(o) for o in obj))
   
   def parse(self, data):
+    count = FtVarInteger.parse(data)[1]
+    if self._min_length and count < self._min_length:
+      raise ValueError('too few items')
+    if self._max_length and count > self._max_length:
+      raise ValueError('too many items')
     return parse_var_set(data, self._child_type)
   
   def str(self, obj):
-- 
2.43.0


From 647f2cb8c10be1ed7627a2e7a463968af7bdef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 35/64] fix: accept all and only valid IPv6 addresses

---
 nbc/protocol/format.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 7f10eba..734c735 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -1,5 +1,5 @@
 
-import struct
+import re, struct
 from binascii import hexlify
 from six import integer_types, add_metaclass
 
@@ -259,6 +259,8 @@ class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
     # convert each group to its value
+    if not re.match('[0-9.]+\\Z',obj):
+      return None
     try:
       groups = [int(i) for i in obj.split('.')]
     except ValueError as e:
@@ -274,28 +276,20 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
-    # multiple double-colons or more than 8 groups; bad address
-    objs = obj.split(':')
-    if len(objs) < 2: return None
-    if objs[0] == '' and objs[1] == '':      # starts with ::
-      del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
-      del objs[-1]
-    if objs.count('') > 1 or len(objs) > 8:
+    # multiple double-colons, other than 8 groups or bad group; bad address
+    halves = [(half.split(':') if half else []) for half in obj.split('::')]
+    count = sum(len(half) for half in halves)
+    if len(halves) > 2 or (len(halves) == 1 and count != 8) or (len(halves) == 2 and count > 7):
       return None
+    for group in sum(halves,[]):
+      if not re.match('[0-9a-fA-F]{1,4}\\Z',group):
+        return None
     
     # calculate each group's value
-    groups = []
-    for group in objs:
-      if group == '':
-        groups.extend([ 0 ] * (9 - len(objs)))
-      else:
-        groups.append(int(group,16))
-    
-    # is each group in the correct range?
-    for group in groups:
-      if not (0x0000 <= group <= 0xffff):
-        return None
+    groups = [int(group,16) for group in halves[0]]
+    if len(halves) == 2:
+      groups.extend([ 0 ] * (8 - count))
+      groups.extend(int(group,16) for group in halves[1])
     
     return groups
   
-- 
2.43.0


From 0709e3ac87a973f998f906cbf8f7fa530b8e55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 36/64] fix: compare out points without NameError

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 734c735..3b5be75 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -449,7 +449,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From 8f8f6c1037d4ac27ea61d893fbf2e94e7d814666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 37/64] fix: do not register message types marked not_regist

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 3b5be75..98f20b0 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if not getattr(cls,'not_regist',False):
           base.register(cls)
         break
 
-- 
2.43.0


From 15469e7ef376689d8faf94f30c8431b754700f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 38/64] fix: print every message without an error on Python 3

---
 nbc/protocol/format.py   |  2 +-
 nbc/protocol/messages.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 98f20b0..9727062 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -338,7 +338,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..df44953 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -221,7 +221,7 @@ class Block(Message):
   
   def _debug(self):
     block_hash = util.get_block_header(self.version, self.prev_block,
-      self.merkle_root, self.timestamp, self.bits, self.nonce)
+      self.merkle_root, int(self.timestamp), self.bits, self.nonce)
     return _debug(self, [('h', hexlify(block_hash)), ('t', self.txns)])
 
 class Headers(Message):
@@ -408,7 +408,15 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    try:
+      self._parse_and_get('reserved')
+    except Exception:   # payload is malformed
+      return Message.__str__(self)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(repr(s) for s in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
-    return _debug(self, [('s', self.status_bar)])
+    try:
+      status = self.status_bar
+    except Exception:   # payload is malformed
+      status = None
+    return _debug(self, [('s', status)])
-- 
2.43.0


From e260b9c5fa4bf67165ec75eb1e3cfd6d9ce1961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 39/64] fix: refuse a message cut short with MsgFormatError

---
 nbc/protocol/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index df44953..78bd3a5 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -88,8 +88,12 @@ class Message(format.CompoundType):
       raise MsgFormatError('bad magic number')
     
     # get binary payload
+    if len(data) < 24:
+      raise MsgFormatError('incomplete header')
     (length, ) = struct.unpack('<I', data[16:20])
     payload = data[24:24 + length]
+    if len(payload) < length:
+      raise MsgFormatError('incomplete payload')
     
     # check the checksum
     checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
-- 
2.43.0


From 3ab519280c0ea696ec0034964b2dc7e7bf2cd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 40/64] fix: take a command with leading zero bytes as unknown

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 78bd3a5..d40b129 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -101,7 +101,7 @@ class Message(format.CompoundType):
       raise MsgFormatError('bad checksum')
     
     # get the correct class for this message's command
-    command = data[4:16].strip(b'\x00').decode('latin-1')
+    command = data[4:16].rstrip(b'\x00').decode('latin-1')
     msg_type = cls.MessageTypes.get(command)
     if msg_type is None:
       raise UnknownMsgError('command: %r (%r)' % (command, data))
-- 
2.43.0


From 4b63b999bde63c1310ba1beafd9b79c11b83a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 41/64] fix: refuse text that cannot be encoded when building a
 message

---
 nbc/protocol/format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 9727062..a9b4947 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -346,8 +346,13 @@ class FtBytes(FormatType):
 class FtVarString(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj,(bytes,str)):
+    if isinstance(obj,bytes):
       return obj
+    if isinstance(obj,str):   # for python3
+      try:
+        obj.encode('latin-1')
+        return obj
+      except UnicodeError: pass
     return None
   
   @staticmethod
-- 
2.43.0


From 5258f359b24c939782a145b8b245ed5b455dff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 42/64] fix: refuse invalid values of optional fields instead
 of replacing them

---
 nbc/protocol/format.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index a9b4947..ddb8a6a 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -157,13 +157,9 @@ class FtOptional(FormatType):
     self._default = default
   
   def validate(self, obj):
-    try:
-      value = self._child.validate(obj)
-      if value is not None:
-        return value
-    except Exception as e:
-      print(e)
-    return self._default
+    if obj is None:
+      return self._default
+    return self._child.validate(obj)
   
   def binary(self, obj):
     return self._child.binary(obj)
-- 
2.43.0


From 646b00ef5169826019668530f6d50ab7e1f806e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 43/64] fix: compute targets on Python 3 and for small
 exponents

---
 nbc/util/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..7f03cc7 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -29,6 +29,8 @@ import struct
 import time
 import threading
 
+from binascii import hexlify, unhexlify
+
 try:
   import urllib2
 except:
@@ -72,13 +74,18 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    return unhexlify(("%064x" % _get_target_number(bits)).encode('latin-1'))
+
+def _get_target_number(bits):
+    (mantissa, shift) = (bits & 0x7fffff, 8 * ((bits >> 24) - 3))
+    if shift < 0:
+        return mantissa >> -shift
+    return mantissa << shift
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
 def get_difficulty(bits):
-    return DifficultyOneTarget / ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
+    return DifficultyOneTarget / _get_target_number(bits)
 
 # https://en.bitcoin.it/wiki/Protocol_specification#Merkle_Trees
 def get_merkle_root(transactions):
-- 
2.43.0


From 71f6617457a0ef5f395dfa180e3dfe1b2249caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 44/64] fix: convert hashes to and from hexadecimal on Python 3

---
 nbc/util/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 7f03cc7..491d59b 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -103,11 +103,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return str(hexlify(data[::-1]).decode('latin-1'))
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 7d4f592ffd399fb5872fc5ca61002d1ed454e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 45/64] fix: follow lists in fetched JSON, and survive a
 failing request

---
 nbc/util/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 491d59b..29143ca 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -146,14 +146,14 @@ def fetch_url_json_path_int(url, path):
 
     def func():
         request = urllib2.Request(url, headers = {'User-Agent': 'pycoind'})
-        payload = urllib2.urlopen(request).read()
 
         try:
+            payload = urllib2.urlopen(request).read()
             data = json.loads(payload)
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From 61705b1854949af6b1c34390076a5a8c2d0c4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 46/64] fix: refuse more positional values than a message has
 fields

---
 nbc/protocol/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index ddb8a6a..17b10d2 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -61,6 +61,9 @@ class CompoundType(object):
   def __init__(self, *args, **kw):
     keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
     
+    if len(args) > len(keys): # more values than properties
+      raise TypeError('takes exactly %d argument(s) (%d given)' % (len(keys),len(args) + len(kw)))
+    
     # convert the positional arguments into kw
     params = dict(zip(keys,args))
     for k in kw:
-- 
2.43.0


From dd23c805627071dae27867b2259c77ab4f484c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 47/64] fix: find nothing for a malformed URL instead of
 raising

---
 nbc/util/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 29143ca..dfa83c0 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -145,9 +145,8 @@ def default_data_directory():
 def fetch_url_json_path_int(url, path):
 
     def func():
-        request = urllib2.Request(url, headers = {'User-Agent': 'pycoind'})
-
         try:
+            request = urllib2.Request(url, headers = {'User-Agent': 'pycoind'})
             payload = urllib2.urlopen(request).read()
             data = json.loads(payload)
             for component in path.split('/'):
@@ -167,8 +166,8 @@ def fetch_url_json_path_int(url, path):
 
 def fetch_url_int(url):
     def func():
-        request = urllib2.Request(url, headers = {'User-Agent': 'pycoind'})
         try:
+            request = urllib2.Request(url, headers = {'User-Agent': 'pycoind'})
             return int(urllib2.urlopen(request).read())
         except Exception as e:
             print(e)
-- 
2.43.0


From 0ed8d7deac156b8ba8faf0980036ca7f4ddb0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 48/64] fix: keep a banned IP address out from every port

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..4251bd8 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,11 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    if address[0] in self._banned:
+      if time.time() - self._banned[address[0]] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[address[0]] # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From db396a01e7422c00a9776217ce19d6f254d7da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 49/64] fix: answer an address request on Python 3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 4251bd8..76e211b 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -326,11 +326,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def byTime(address):
+      return self._addresses[address][0]
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=byTime,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 56882cdb3482dadf016d510c2b781fb372eb8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 50/64] fix: keep no more than the maximum number of addresses

---
 nbc/node/basenode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 76e211b..ad16000 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -342,8 +342,9 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
-      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
+      key = (address.address,address.port)
+      if len(self._addresses) >= MAX_ADDRESSES and key not in self._addresses: continue
+      self._addresses[key] = (address.timestamp,address.services)
 
 def startServer(node):
   ts = Thread(target=node.serve_forever)
-- 
2.43.0


From 82f0337952da5df72f9c033a72e4be4e732c2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 51/64] fix: record when a peer was heard from, not how long
 ago

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..89d39ae 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From f1d230dc2329e20a27bc76f70a8cee36a42bbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 52/64] fix: compare connections without endless recursion

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 89d39ae..62b2402 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From 7637b64fad6a1c94898a64f4754c5f2961e92fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 53/64] fix: do not get stuck on the own address when seeking
 peers

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index ad16000..7d3e193 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -206,7 +206,7 @@ class BaseNode(asyncore.dispatcher, object):
       peers = self.peers
       actives = [n.address for n in peers]
       for address in self._addresses:
-        if address in actives: continue  # ignore already connected one
+        if address in actives or address == self.address: continue  # ignore already connected one and myself
         self.add_peer(address)           # try add one peer
         break
   
-- 
2.43.0


From e6e4b73dfe7d2132e84927fdf6fc1b3a16c9fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 54/64] fix: close the socket when a connection can not
 announce itself

---
 nbc/node/connection.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 62b2402..dfa88cf 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -57,18 +57,22 @@ class Connection(asyncore.dispatcher):
         raise e
       self._incoming = False
     
-    # bootstrap communication with the node by broadcasting ver
-    now = time.time()
-    message = protocol.Version( version = node.coin.protocol_version,
-                services = self.SERVICES,
-                timestamp = now,
-                addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
-                addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
-                nonce = os.urandom(8),
-                user_agent = node.user_agent,
-                start_height = node.blockchain_height,
-                relay = False )
-    self.send_message(message)
+    try:
+      # bootstrap communication with the node by broadcasting ver
+      now = time.time()
+      message = protocol.Version( version = node.coin.protocol_version,
+                  services = self.SERVICES,
+                  timestamp = now,
+                  addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
+                  addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
+                  nonce = os.urandom(8),
+                  user_agent = node.user_agent,
+                  start_height = node.blockchain_height,
+                  relay = False )
+      self.send_message(message)
+    except Exception as e:  # address can not be announced, leave no socket behind
+      self.handle_close()
+      raise e
   
   # remote node details
   address = property(lambda s: s._address)
-- 
2.43.0


From 9f9c4c37884c241872a982d819ae81a713d08a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 55/64] fix: do not ask to write on a closed connection

---
 nbc/node/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index dfa88cf..4e868ce 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -185,6 +185,7 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
+    self._send_buffer = b''   # nothing to write any more
     self.node.disconnected(self)
   
   def handle_message(self, message):
-- 
2.43.0


From 3212b79a0fea54d38469fdfc23580e38cd63700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 56/64] fix: drop a peer that never sent anything

---
 nbc/node/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 4e868ce..3b9a0c5 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -30,6 +30,7 @@ class Connection(asyncore.dispatcher):
     self._last_tx_time = 0
     self._last_ping_time = 0
     self._last_rx_time = 0
+    self._start_time = time.time()
     
     # remote node details
     self._address = address
@@ -108,7 +109,7 @@ class Connection(asyncore.dispatcher):
   
   def readable(self):
     now = time.time()
-    rx_ago = now - self._last_rx_time
+    rx_ago = now - (self._last_rx_time or self._start_time)
     tx_ago = now - self._last_tx_time
     ping_ago = now - self._last_ping_time
     
@@ -118,7 +119,7 @@ class Connection(asyncore.dispatcher):
       self._last_ping_time = time.time()
     
     # it's been over 3 hours, just disconnect
-    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
+    if rx_ago > _SECONDS_OF_180M:
       self.handle_close()
       return False
     return True
-- 
2.43.0


From 9735f164e5116b47bd7ebb21997908212e14f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 57/64] fix: count the external addresses again when a peer
 leaves

---
 nbc/node/basenode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 7d3e193..26e6eda 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -150,6 +150,7 @@ class BaseNode(asyncore.dispatcher, object):
   def disconnected(self, peer): # called by a peer after closed
     if peer.address in self._addresses:
       del self._addresses[peer.address]
+    self._check_external_ip()
   
   def add_peer(self, address, force=True):  # if already have max_peers and not force, ignore adding
     if not force and len(self._peers) >= self._max_peers:
-- 
2.43.0


From 930fc10b80ab9e6f984b3d16475f1eff814f28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 58/64] fix: report failure without a port mapping library

---
 nbc/node/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..2aa9743 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -2,6 +2,8 @@
 import sys
 from six import PY3
 
+miniupnpc = None  # only comes with darwin
+
 if PY3:
   if sys.platform == 'darwin':
     from .darwin3 import miniupnpc
@@ -18,9 +20,9 @@ def _init_upnp():
   global _upnp
   if _upnp: return _upnp
   
-  u = miniupnpc.UPnP()
-  u.discoverdelay = 200
   try:
+    u = miniupnpc.UPnP()
+    u.discoverdelay = 200
     print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
     print('%u device(s) detected' % devices)
-- 
2.43.0


From b3c71f796d1adf73dcc8b0fab1dd2e77cc4d7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 59/64] fix: never map an invalid port

---
 nbc/node/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 2aa9743..9e05350 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -45,8 +45,11 @@ def add_portmap(port, proto, label=''):
     # find a free port for the redirection
     eport = port
     r = u.getspecificportmapping(eport,proto)
-    while r != None and eport < 65536:
+    while r != None:
       eport = eport + 1
+      if eport > 65535:
+        print('!! no free port')
+        return None
       r = u.getspecificportmapping(eport,proto)
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
-- 
2.43.0


From 7d01dca5630734da45f39f49b3ed1f6b7ed8c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 60/64] fix: remove the port mapping that was added

---
 nbc/node/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 9e05350..9ac7230 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -15,6 +15,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_mapped = {}  # external ports we mapped, by (port,proto)
 
 def _init_upnp():
   global _upnp
@@ -53,6 +54,7 @@ def add_portmap(port, proto, label=''):
       r = u.getspecificportmapping(eport,proto)
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _mapped.setdefault((port,proto),[]).append(eport)
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -62,9 +64,12 @@ def add_portmap(port, proto, label=''):
 
 def remove_portmap(port, proto):
   if not _upnp: return
+  eports = _mapped.get((port,proto))
+  if not eports: return  # not mapped by us
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eports[-1],proto)
     if b:
+      eports.pop()
       print('successfully deleted port mapping')
     else:
       print('!! failed to remove port mapping')
-- 
2.43.0


From 18dba323fc55a8921260ba70ebed6d8a389e4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 61/64] fix: a connection that can not be accepted leaves the
 node listening

---
 nbc/node/basenode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 26e6eda..caa90cb 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -248,7 +248,11 @@ class BaseNode(asyncore.dispatcher, object):
     pass
   
   def handle_accept(self):
-    pair = self.accept()
+    try:
+      pair = self.accept()
+    except socket.error as e:  # out of descriptors, for example, go on listening
+      self.log('accept failed: %s' % e,level=self.LOG_LEVEL_ERROR)
+      return
     if not pair: return
     
     (sock,address) = pair
-- 
2.43.0


From eaed387d86e6e909b4bd5e719c2853770d1f0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 62/64] fix: an address in use is reported as AddrInUseError on
 any system

---
 nbc/node/basenode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index caa90cb..151ba34 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,8 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if self.socket: self.close()  # leave no socket behind
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From f53ee9c795d2fd7d275660aa57b55a19f3773f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 63/64] fix: a node that stops closes the connections of its
 peers

---
 nbc/node/basenode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 151ba34..2e6b45d 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -135,6 +135,8 @@ class BaseNode(asyncore.dispatcher, object):
       pass
     finally:
       self.handle_close()
+      for peer in self.peers:
+        peer.handle_close()
       
       if self._listen:
         remove_portmap(self.port,'TCP')
-- 
2.43.0


From 223537be04472c9e71ad609d004c53b0efac633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 64/64] fix: raise at every access to a malformed alert
 payload, not only at the first

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index d40b129..a35de55 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -353,7 +353,7 @@ class Alert(Message):
     if not hasattr(self, '_data'):
       self._data = dict()
     
-    if not self._data:
+    if 'reserved' not in self._data:  # not parsed, or the payload is malformed
       data = self.payload
       
       self._data = dict()
-- 
2.43.0

