From 4ba85a681d19277255043dba65f28cf292378256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 01/46] fix: str() of a library error raised AttributeError on
 Python 3

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From 5c416b2201de856c11b251cce4a67be1d90dce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 02/46] fix: integer and varint encoding mixed text with bytes
 on Python 3

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From b04c1e4903f21efff1f279f1daba906a90714e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 03/46] fix: inputs, outputs and transactions serialised to a
 repr string on Python 3

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..d0f91e9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -72,7 +72,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From 381d428527472a436e1339d0d12695b7af0d272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 04/46] fix: parsed objects held mutable, unhashable byte
 buffers

---
 bitforge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 1f91d7e..c99038e 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -20,7 +20,7 @@ class Buffer(bytearray):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
 
-        ret = self[:amount]
+        ret = bytes(self[:amount])
         del self[:amount]
         return ret
 
-- 
2.43.0


From efec44d3ba752a261bc64a99dd714f972bfac50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 05/46] fix: PUSHDATA lengths were padded on the wrong side
 (and with text)

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 4daae61d17797a4bbe20b64ff04534cf5f834d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 06/46] fix: a parsed input's tx_id was bytes, unequal to the
 text it was built from

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index d0f91e9..55d820b 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -107,7 +107,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From 26a785f3a84246caaf143a334aec5006f07993aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 07/46] fix: get_id() was in internal byte order, unusable as
 an input's tx_id

---
 bitforge/transaction/transaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..7557955 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,8 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        # Transaction IDs are written in reverse byte order, as in Input.tx_id
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From e0ea31fd2baf40af66eefb5869d38ad301a4fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 08/46] fix: classifying a script of 4+ instructions starting
 with a push raised AttributeError

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..76829e9 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,8 +278,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From 26cd430666cdb1c53517dc9b82ef53d49172cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 09/46] fix: MultisigOutput was not pay-to-script-hash, so
 MultisigInput could not redeem it

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..ea5b2d2 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return super(MultisigOutput, cls).create(amount, redeem_script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From d8a3aec4f7b76618c65c911d6cc50bbd26b2f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 10/46] fix: PrivateKey.verify() hashed the digest again and
 refused valid signatures

---
 bitforge/privkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..8319c05 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From d48a98ea0f20bee226b8ff8ba6c0dd9fcc2ae10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 11/46] fix: non-ASCII hexadecimal raised a bare ValueError
 instead of InvalidHex

---
 bitforge/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..96a0370 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -112,8 +112,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, non-ASCII)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From 8e2aa67685be69b23618c822cc2e4a5078a7e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 12/46] fix: keys and addresses could not be hashed (mutable
 seed list in their network)

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From 524e5a256b422257ded52f18dd3e959e50764ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:28 +0000
Subject: [PATCH 13/46] fix: hash160() called digest() on bytes, so OP_HASH160
 always failed

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 96a0370..034b571 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -130,7 +130,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From d2828bf78713823ac1a05e22a7ce416c580fb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 14/46] fix: truncated or over-long public keys were read as
 other keys

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..4e081cd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,6 +231,8 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
+    if len(sec) != (33 if is_sec_compressed(sec) else 65):
+        raise EncodingError("bad sec length for public key")
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
     if sec0 == b'\4':
-- 
2.43.0


From 931898216a0b42c423f08bfb6bf08a0a34e011cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 15/46] fix: public key coordinates outside the field were
 accepted

---
 bitforge/utils/ecdsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..0f3f682 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    p = generator.curve().p()
+    x, y = public_pair
+    return 0 <= x < p and 0 <= y < p and generator.curve().contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From 732493ec63a7cd89b20f6d5a65adb17a07e0435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 16/46] fix: HD derivation ignored the child index (and failed
 on Python 3)

derive() hashed the parent's own index, so every child was the same key, read a
'seed' attribute that does not exist, treated indexes from 2^31 up as normal
ones, and mixed text with bytes, as to_string() did.
---
 bitforge/hdprivkey.py | 12 ++++++------
 bitforge/hdpubkey.py  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
@@ -83,18 +83,18 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+        if index >= HARDENED_START:
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
@@ -68,14 +68,14 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From f8417b0183b5dd6eb92d46b4434419236c2ce46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 17/46] fix: amounts lost a satoshi to float truncation (0.29
 BTC became 28999999)

---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From f209364127edfa1cf7ee4ea76c4a7af783bea2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 18/46] fix: URI.is_valid() raised on an infinite amount

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 052711a2351f70658c535708fb8a56f3d8d87864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 19/46] fix: OP_DROP dropped two elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From a9be8ed7e17ed7da2e08153142d87a9ce7e0cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 20/46] fix: OP_ABS always produced 1

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From e55687b14e9ccddf6a43c0b21679bba1b929f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 21/46] fix: 4-byte script numbers were refused

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 034b571..c48e98a 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -141,7 +141,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From c573968fd135768009e381bb241a3a720bbe992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 22/46] fix: the stack size limit was only enforced after the
 last operation

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..1b83daa 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From b8a5c3e69c19cf115bd8477727f64e55577305db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 23/46] fix: OP_WITHIN ignored the minimal-data flag

---
 bitforge/script/interpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 1b83daa..7ce08bc 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,9 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = [
+                    decode_script_number(bytes, f_required_minimal) for bytes in self.stack[-3:]
+                ]
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 364294c3561e7e6563d34d64c710d42416078bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 24/46] fix: the minimal-data flag refused every push
 (AttributeError on Python 3)

---
 bitforge/script/instruction.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..1edd954 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,25 +60,27 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
-        if len(self.data) == 0:
+        data = bytearray(self.data)
+
+        if len(data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(data) == 1 and 1 <= data[0] <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + data[0] - 1
+        elif len(data) == 1 and data[0] == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
-        elif len(self.data) <= 75:
+        elif len(data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
-        elif len(self.data) <= 255:
+            return self.opcode.number == len(data)
+        elif len(data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-        elif len(self.data) <= 65535:
+        elif len(data) <= 65535:
             # Could have used OP_PUSHDATA2.
             return self.opcode == OP_PUSHDATA2
 
-- 
2.43.0


From 877aee56d1c37a750b3a3b62c5b41083d60e2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:52 +0000
Subject: [PATCH 25/46] fix: checking with the P2SH flag called a missing
 method and judged a stale stack

---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 7ce08bc..dad950d 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -80,7 +80,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -93,9 +93,14 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
             stack_copy = stack_copy[:-1]
 
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             self.initialize()
             self.script = redeem_script
             self.stack = stack_copy
@@ -107,11 +112,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 76829e9..2b7ff8b 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -153,6 +153,12 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if the script is exactly the BIP16 pattern: OP_HASH160, a direct push of 20 bytes and OP_EQUAL
+        """
+        return PayToScriptOut.is_valid(self) and self.instructions[1].opcode == Opcode.const_push_for(20)
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From f3506ff687287c2f4b6ed1863686774b5d430f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:52 +0000
Subject: [PATCH 26/46] fix: printing a script with an unassigned opcode raised
 KeyError

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..6b965d9 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, 'OP_UNKNOWN')
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From 33428efb2a0a6c2990b845325a90e897e2fe5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:52 +0000
Subject: [PATCH 27/46] fix: can_sign() of a multisig input refused testnet
 keys and accepted repeated ones

---
 bitforge/transaction/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 55d820b..0e28f03 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -184,10 +184,15 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Public keys in scripts carry no network, so compare them in binary form:
+        expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            pubkey = privkey.to_public_key().to_bytes()
+
+            if pubkey not in expected_pubkeys:
                 return False
 
+            expected_pubkeys.remove(pubkey) # a key can't sign twice
+
         return True
-- 
2.43.0


From 692decc37ff16fa851f22aaf7e87feae5b70220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:52 +0000
Subject: [PATCH 28/46] fix: signing a multisig input with keys in another
 order gave an invalid spend

---
 bitforge/transaction/input.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 0e28f03..8df7cee 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -180,6 +180,16 @@ class MultisigInput(ScriptInput):
 
         return cls(tx_id, txo_index, placeholder_script, seq_number)
 
+    def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
+        # OP_CHECKMULTISIG requires signatures in the order of the public keys
+        order = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
+
+        def position(privkey):
+            pubkey = privkey.to_public_key().to_bytes()
+            return order.index(pubkey) if pubkey in order else len(order)
+
+        return super(MultisigInput, self).sign(sorted(privkeys, key = position), payload, sigtype)
+
     def can_sign(self, privkeys):
         if len(privkeys) != self.script.get_min_signatures():
             return False
-- 
2.43.0


From 7a2248798db532cdd42fd46b8a00c7f9ff061f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 29/46] fix: paying a script-hash address locked the coins to a
 public key hash

---
 bitforge/script/script.py      | 6 +++++-
 bitforge/transaction/output.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 2b7ff8b..67d471e 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -239,7 +239,11 @@ class PayToScriptOut(Script):
 
     @classmethod
     def create(cls, script):
-        schematic = [ OP_HASH160, script.to_hash(), OP_EQUAL ]
+        return cls.from_script_hash(script.to_hash())
+
+    @classmethod
+    def from_script_hash(cls, script_hash):
+        schematic = [ OP_HASH160, script_hash, OP_EQUAL ]
         return cls(to_instructions(schematic))
 
     @staticmethod
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index ea5b2d2..227f6ad 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -4,6 +4,7 @@ import collections
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
+from bitforge.address import Address
 from bitforge.script import Script, PayToPubkeyOut, PayToScriptOut, RedeemMultisig, OpReturnOut
 
 
@@ -78,7 +79,11 @@ class AddressOutput(Output):
 
     @classmethod
     def create(cls, amount, address):
-        script = PayToPubkeyOut.create(address)
+        if address.type == Address.Type.Script:
+            script = PayToScriptOut.from_script_hash(address.phash)
+        else:
+            script = PayToPubkeyOut.create(address)
+
         return cls(amount, script)
 
 
-- 
2.43.0


From 7cfdb615e2683d16102295b0dbad535f934bf4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 30/46] fix: the text form of an empty script could not be read
 back

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 67d471e..38cd82e 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = iter(string.split(' ') if string else []) # '' is the empty script
 
         def get_opcode(token):
             try:
-- 
2.43.0


From 8b6ac7486c49232fd58cae26b3024a0ebd83901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:51 +0000
Subject: [PATCH 31/46] =?UTF-8?q?fix:=20digits=20like=20'=C2=B2'=20in=20a?=
 =?UTF-8?q?=20script's=20text=20raised=20a=20bare=20ValueError?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 38cd82e..78aebe2 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -92,7 +92,7 @@ class Script(BaseScript):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
-                if token.isdigit():
+                if token.isdecimal():
                     return Opcode.const_push_for(int(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
@@ -114,7 +114,7 @@ class Script(BaseScript):
                     size_string = next(tokens)
                     hex_bytes = next(tokens)
 
-                    if not size_string.isdigit():
+                    if not size_string.isdecimal():
                         raise Script.InvalidPushSize(size_string)
 
                     if not hex_bytes.startswith('0x'):
-- 
2.43.0


From 4e594f4367d701acc0a1ddd5b4f0f277622f71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 32/46] fix: verifying accepted damaged signatures with wrong
 DER lengths

---
 bitforge/privkey.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 8319c05..578f133 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -17,6 +17,16 @@ def random_secret():
     return rng.randint(1, KEY_MAX - 1)
 
 
+def decode_signature(signature, order):
+    r, s = ecdsa.util.sigdecode_der(signature, order)
+
+    # sigdecode_der() overlooks wrong lengths and other malformations
+    if ecdsa.util.sigencode_der(r, s, order) != signature:
+        raise ecdsa.BadSignatureError("Signature is not DER-encoded")
+
+    return r, s
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -135,7 +145,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = decode_signature)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From 01f55b7c070b5174a19aa682a51e24ec74eaf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 33/46] fix: signing a multisig input that lists a key twice
 gave an invalid spend

---
 bitforge/transaction/input.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 8df7cee..870063e 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -182,13 +182,18 @@ class MultisigInput(ScriptInput):
 
     def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
         # OP_CHECKMULTISIG requires signatures in the order of the public keys
-        order = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
-
-        def position(privkey):
-            pubkey = privkey.to_public_key().to_bytes()
-            return order.index(pubkey) if pubkey in order else len(order)
-
-        return super(MultisigInput, self).sign(sorted(privkeys, key = position), payload, sigtype)
+        provided = [ privkey.to_public_key().to_bytes() for privkey in privkeys ]
+        pending  = list(range(len(privkeys)))
+        ordered  = []
+
+        for pubkey in self.script.get_public_keys():
+            for i in pending:
+                if provided[i] == pubkey.to_bytes():
+                    ordered.append(i)
+                    pending.remove(i)
+                    break
+
+        return super(MultisigInput, self).sign([ privkeys[i] for i in ordered + pending ], payload, sigtype)
 
     def can_sign(self, privkeys):
         if len(privkeys) != self.script.get_min_signatures():
-- 
2.43.0


From cc8278b6a5ced19076ff24461dc09e62ce357b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:18 +0000
Subject: [PATCH 34/46] fix: a push size of thousands of digits in a script's
 text raised a bare ValueError

---
 bitforge/script/script.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 78aebe2..3926f92 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -88,12 +88,18 @@ class Script(BaseScript):
         instructions = []
         tokens = iter(string.split(' ') if string else []) # '' is the empty script
 
+        def get_size(token):
+            try:
+                return int(token)
+            except ValueError: # Python refuses numbers of thousands of digits
+                raise Script.InvalidPushSize(token)
+
         def get_opcode(token):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
                 if token.isdecimal():
-                    return Opcode.const_push_for(int(token))
+                    return Opcode.const_push_for(get_size(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
 
@@ -122,7 +128,7 @@ class Script(BaseScript):
 
                     bytes = decode_hex(hex_bytes[2:])
 
-                    if int(size_string) != len(bytes):
+                    if get_size(size_string) != len(bytes):
                         raise Script.InvalidPushDataLength(len(bytes))
 
                     instructions.append(Instruction(opcode, data = bytes))
-- 
2.43.0


From 71dc533cc354b668aba9ff19d47ee4d582e7d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:19 +0000
Subject: [PATCH 35/46] fix: the deterministic nonce of a digest equal to the
 curve order was not RFC 6979's

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 0f3f682..4066769 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From 3e6ed311ef62ce3b42d09402cd530ea28ffe2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:19 +0000
Subject: [PATCH 36/46] fix: verify() raised TypeError on a signature that
 leads to the point at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 4066769..d2aaf13 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -143,6 +143,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From 0beffa8091327762daf4935c853d1e6ee8c77735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 37/46] fix: recovering keys from a signature with r = 0 failed
 an assertion

---
 bitforge/utils/ecdsa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index d2aaf13..0344599 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -158,6 +158,8 @@ def possible_public_pairs_for_signature(generator, value, signature):
 
     possible_points = set()
 
+    if not (1 <= r < order and 1 <= s < order): return possible_points
+
     #recid = nV - 27
     # 1.1
     inv_r = numbertheory.inverse_mod(r,order)
-- 
2.43.0


From 2501da48505e749c7352a2999d0601e7e78ae471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 38/46] fix: recovering keys raised TypeError when a candidate
 was the point at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 0344599..ed4f56d 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -173,6 +173,7 @@ def possible_public_pairs_for_signature(generator, value, signature):
         R = ellipticcurve.Point(curve, x, y, order)
         # 1.6 compute Q = r^-1 (sR - eG)
         Q = inv_r * ( s * R + minus_e * G )
+        if Q == ellipticcurve.INFINITY: continue
         public_pair = (Q.x(), Q.y())
         # check that Q is the public key
         if verify(generator, public_pair, value, signature):
-- 
2.43.0


From 9b9fc9270a5e79b477adad69ca2e55bde2d1f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:52 +0000
Subject: [PATCH 39/46] fix: OP_CHECKLOCKTIMEVERIFY was enforced when its flag
 was off instead of being a NOP2

---
 bitforge/script/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index dad950d..0b28a3c 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -214,11 +214,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                    # Not enabled: treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
-- 
2.43.0


From 75b2297a11159d5fdf4b439e25bde155800bcadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:48 +0000
Subject: [PATCH 40/46] fix: validate_signature raised TypeError on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 8c6764640d82745e2194c1f8e45f27025a80b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:48 +0000
Subject: [PATCH 41/46] fix: Input.create raised NameError for scripts of no
 special kind

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 870063e..4051653 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From 7a01ca8fd11543d6e46473fcaf6f46b8a7207b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:11 +0000
Subject: [PATCH 42/46] fix: base58 text with a lone surrogate raised
 UnicodeEncodeError instead of a base58 error

---
 bitforge/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 4e081cd..e62e141 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -138,7 +138,7 @@ def b2a_base58(s):
 
 def a2b_base58(s):
     """Convert base58 to binary using BASE58_ALPHABET."""
-    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8"))
+    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8", "replace"))
     return from_long(v, prefix, 256, lambda x: x)
 
 
-- 
2.43.0


From 1530ebd89616628cb4c42415a03fa784f6406514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:11 +0000
Subject: [PATCH 43/46] fix: the WIF helpers accepted truncated and over-long
 records

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index e62e141..148eacd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -180,6 +180,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     """
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
+    if len(private_key) != 32 and not (len(private_key) == 33 and private_key[32:] == b'\x01'):
+        raise EncodingError("bad length or compression mark in WIF %s" % wif)
     compressed = len(private_key) > 32
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
-- 
2.43.0


From db922fb7bcdfc0c16c8a57fed491bf38b7f60294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:11 +0000
Subject: [PATCH 44/46] fix: from_bytes ignored its byteorder on Python 3

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From e09d3c867884a7abf550d251fa4314142f210fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 45/46] fix: sec_to_public_pair made up a point for an x
 coordinate that has none

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 148eacd..eed8091 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -247,9 +247,13 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3'):
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # verify there is a point with this x
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x coordinate")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0


From 57e7e5d675c8024878e5de14886906ff89fa5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:26 +0000
Subject: [PATCH 46/46] fix: recovering keys missed signatures whose x
 coordinate exceeds the curve order

---
 bitforge/utils/ecdsa.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index ed4f56d..9ed9ea0 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -164,11 +164,15 @@ def possible_public_pairs_for_signature(generator, value, signature):
     # 1.1
     inv_r = numbertheory.inverse_mod(r,order)
     minus_e = -value % order
-    x = r
-    # 1.3
-    alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
-    beta = numbertheory.modular_sqrt(alpha, p)
-    for y in [beta, p - beta]:
+    # r is the x coordinate modulo the order, so there may be two
+    candidates = []
+    for x in [r, r + order]:
+        # 1.3
+        alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
+        beta = numbertheory.modular_sqrt(alpha, p)
+        if x < p and curve.contains_point(x, beta):
+            candidates += [(x, beta), (x, p - beta)]
+    for x, y in candidates:
         # 1.4 the constructor checks that nR is at infinity
         R = ellipticcurve.Point(curve, x, y, order)
         # 1.6 compute Q = r^-1 (sR - eG)
-- 
2.43.0

