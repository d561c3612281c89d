From c6829744189689c2f6aa9d74060f732f11f79777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 01/41] fix: return the decoded integers from
 intVectorSerialzer.stream_deserialize

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..d8a6fcd 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From 2993f35709e6a0718d813e97b0cbbd8972d27052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 02/41] fix: import DeserializationError, raised for bad union
 class numbers

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..17341f5 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From 3e655b8557f6d4e382bc4292cda816bf73b36d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 03/41] fix: BitsSerializer.check_instance raises for wrong
 types instead of returning False

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..7ce90da 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 2fd22de4a5be9b387fe6c104797494b6434e7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 04/41] fix: deserialize empty and byte-aligned Bits; bad
 padding is a DeserializationError

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 7ce90da..7a0056c 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -312,7 +312,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Non-zero padding bits at end of serialized bits')
         return r
 
-- 
2.43.0


From 98defd8bd331ad16badd62072f62d4d205fb986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 05/41] fix: make ordering of Bits a lexicographic total order

---
 lib/python-proofmarshal/proofmarshal/bits.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 7a0056c..fbf0ecc 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -111,6 +111,13 @@ class Bits:
         else:
             return 0
 
+    def __sort_key(self):
+        """Return key that sorts lexicographically by bits, prefixes first"""
+        buf = self.__full_width_prefix()
+        if self.__length % 8:
+            buf += bytes([self.__tail_bits()])
+        return (buf, self.__length)
+
     def __eq__(self, rhs):
         if self.__class__ is not rhs.__class__:
             return NotImplemented
@@ -129,17 +136,7 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
-
-        else:
-            return False
-
+        return self.__sort_key() < rhs.__sort_key()
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From 44e663a199ac59a8ad72fe7d2f39ac9f357a2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 06/41] fix: absurdly large serialized lengths are a
 truncation, not an OverflowError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..9791c15 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,7 +181,10 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            raise TruncationError('Tried to read %d bytes, more than any stream can hold' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From 149e15a118bc50816e7bb5120da184296631ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 07/41] fix: Proof.check_instance refuses instances of other
 classes

---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 17341f5..3f34aee 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -67,7 +67,8 @@ class Proof(HashingSerializer):
 
         Raises SerializerTypeError if not
         """
-        # FIXME
+        if not isinstance(instance, cls):
+            raise SerializerTypeError('Expected %r; got %r' % (cls, instance.__class__))
 
     def __eq__(self, other):
         if isinstance(other, Proof):
-- 
2.43.0


From 1d77f85e0d85afca8d1c2e811d51a02f5b1fd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 08/41] fix: raise PrunedError for pruned attributes of classes
 never instantiated directly

---
 lib/python-proofmarshal/proofmarshal/proof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 3f34aee..81f9d49 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,7 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        if 'SERIALIZED_ATTRS_BY_NAME' not in cls.__dict__:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
@@ -121,7 +121,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if any(name == attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS):
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From c32e9ed59f54756cfa079ef8106452ebd0505e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 09/41] fix: keep the variant when serializing fully pruned
 VarProofs

---
 lib/python-proofmarshal/proofmarshal/proof.py | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 81f9d49..2c86cfa 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -212,20 +212,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
+
+        return self
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -267,7 +271,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -276,20 +280,41 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
         super()._ctx_serialize(ctx)
 
+    def ctx_serialize(self, ctx):
+        if self.is_fully_pruned:
+            # The hash depends on the variant, so a fully pruned instance has
+            # to be serialized along with it.
+            ctx.write_bool(True)
+            self._ctx_serialize_variant(ctx)
+            ctx.write_bytes(self.data_hash)
+
+        else:
+            super().ctx_serialize(ctx)
+
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
 class ProofUnion(HashingSerializer):
     """Serialization of disjoint unions of proof classes
 
-- 
2.43.0


From 5f3f6ec8458952fbb02c392ef882c0b90447317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 10/41] fix: MerbinnerTree.put() on an existing key replaces
 its value

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..40bb34b 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -151,6 +151,14 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             # Was replaced
             return new_leaf
 
+        elif closest_node.prefix == new_leaf.prefix:
+            # Key already exists; the new leaf takes the place of the old one
+            new_tip = new_leaf
+            for sibling in siblings:
+                new_tip = self.InnerNodeClass(new_tip, sibling)
+
+            return new_tip
+
         else:
             # The two leaves are joined by an inner node
             new_tip = self.InnerNodeClass(new_leaf, closest_node)
-- 
2.43.0


From c6b687cb6fe5a62e5dd29dddb2c333517d75b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 11/41] fix: implement MerbinnerTree membership tests

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 40bb34b..aa19e97 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -120,7 +120,11 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
         raise KeyError(key)
 
     def __contains__(self, key):
-        raise NotImplementedError
+        try:
+            self[key]
+        except KeyError:
+            return False
+        return True
 
     def __len__(self):
         raise NotImplementedError
-- 
2.43.0


From 05dbbb12c310fae5fc0a1a0911f64dc7601164a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 12/41] fix: MerkleMountainRange slices with stop before start
 are empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..ab13ab3 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -438,7 +438,7 @@ def make_mmr_subclass(subclass):
                 if start >= len(self.left) and start < len(self):
                     # Right side satisfies at least part of the slice
                     offset = len(self.left)
-                    return self.right[start - offset : stop - offset : step]
+                    return self.right[start - offset : max(stop - offset, 0) : step]
 
                 else:
                     return self.EmptyNodeClass()
-- 
2.43.0


From fb7d57c074c9fcc6889ca3b6b833db0a48c45504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 13/41] fix: serializer type errors for transactions and
 outpoints instead of NameError

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..fdf9253 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From 7a127340bcd4b3e88d1babb09405bdd4feba4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 14/41] fix: keep the hash of fully pruned TxProofs across
 serialization

---
 proofchains/core/bitcoin.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index fdf9253..17fa8e5 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,18 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From 9f0b96be4de81b719736df71c1d7db4e923ae59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 15/41] fix: make immutable copies of mutable inputs and
 outpoints

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..18095a8 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -157,8 +157,8 @@ class COutPoint(ImmutableSerializable):
         If output is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From 7cce7ff50bf2b08ab7125ac304cb5500e8eb9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 16/41] fix: an immutable CTxIn keeps an immutable copy of its
 outpoint

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 18095a8..04f6edd 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 5c493fd76b3e7e7b10c91f8bf10b2cc07a14d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 17/41] fix: decode compact targets with small exponents and
 the sign bit like Bitcoin

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index d8a6fcd..2609693 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -309,10 +309,16 @@ def uint256_from_str(s):
 def uint256_from_compact(c):
     """Convert compact encoding to uint256
 
-    Used for the nBits compact encoding of the target in the block header.
+    Used for the nBits compact encoding of the target in the block header. Bit
+    23 is the sign; the result of encodings with it set is negative (or zero)
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
+    if nbytes <= 3:
+        v = (c & 0x7FFFFF) >> (8 * (3 - nbytes))
+    else:
+        v = (c & 0x7FFFFF) << (8 * (nbytes - 3))
+    if c & 0x800000:
+        v = -v
     return v
 
 
-- 
2.43.0


From e1097ad87c8e00fb4c09a85e3a5af5acce5868a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 18/41] fix: accurate sigop counts use the number of keys
 pushed before CHECKMULTISIG

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..43dbc58 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -763,7 +763,7 @@ class CScript(bytes):
                 n += 1
             elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
                 if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
+                    n += CScriptOp(lastOpcode).decode_op_n()
                 else:
                     n += 20
             lastOpcode = opcode
-- 
2.43.0


From bbda4eafde03df09376814d7b5f6014fb801c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 19/41] fix: count the sigops before an invalid pushdata
 instead of raising

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 43dbc58..4001002 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,19 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += CScriptOp(lastOpcode).decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # Like Bitcoin Core, count what comes before the invalid pushdata
+            pass
         return n
 
 
-- 
2.43.0


From 9d7b1bd08709f2adba42fe7aae77176633a39f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 20/41] fix: FindAndDelete keeps scripts with invalid pushdata
 like Bitcoin Core

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 25 ++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 4001002..20794b5 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -786,19 +786,20 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def FindAndDelete(script, sig):
     """Consensus critical, see FindAndDelete() in Satoshi codebase"""
+    if not len(sig):
+        return script
+
     r = b''
-    last_sop_idx = sop_idx = 0
-    skip = True
-    for (opcode, data, sop_idx) in script.raw_iter():
-        if not skip:
-            r += script[last_sop_idx:sop_idx]
-        last_sop_idx = sop_idx
-        if script[sop_idx:sop_idx + len(sig)] == sig:
-            skip = True
-        else:
-            skip = False
-    if not skip:
-        r += script[last_sop_idx:]
+    copied_idx = 0
+    try:
+        for (opcode, data, sop_idx) in script.raw_iter():
+            if sop_idx >= copied_idx and script[sop_idx:sop_idx + len(sig)] == sig:
+                r += script[copied_idx:sop_idx]
+                copied_idx = sop_idx + len(sig)
+    except CScriptInvalidError:
+        # An invalid pushdata ends the search; the rest is left as it is
+        pass
+    r += script[copied_idx:]
     return CScript(r)
 
 
-- 
2.43.0


From a075dc03a8ac93b4315ade27c574a95d29688c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 21/41] fix: false results of script opcodes are the empty
 string

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..640d8c6 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -199,7 +199,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -484,7 +484,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -520,7 +520,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -657,7 +657,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 017a0924f2a16d537050d815194fe3cd86b04098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 22/41] fix: apply the stack size limit after pushes too

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 640d8c6..4d3b007 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From a352fa2192ceb89b8be2ba5873bfcb74b266e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 23/41] fix: script and scripteval share the same SCRIPT_VERIFY
 flags

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4d3b007..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From f083784485f6ec1c72a183d68ee6c77f6b129554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 24/41] fix: EvalScriptError saves the execution state

---
 .../bitcoin/core/scripteval.py                | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0582e1b..7a7c375 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -52,18 +52,18 @@ class EvalScriptError(bitcoin.core.ValidationError):
                  altstack=None, vfExec=None, pbegincodehash=None, nOpCount=None):
         super(EvalScriptError, self).__init__('EvalScript: %s' % msg)
 
-        sop = sop
-        sop_data = sop_data
-        sop_pc = sop_pc
-        stack = stack
-        scriptIn = scriptIn
-        txTo = txTo
-        inIdx = inIdx
-        flags = flags
-        altstack = altstack
-        vfExec = vfExec
-        pbegincodehash = pbegincodehash
-        nOpCount = nOpCount
+        self.sop = sop
+        self.sop_data = sop_data
+        self.sop_pc = sop_pc
+        self.stack = stack
+        self.scriptIn = scriptIn
+        self.txTo = txTo
+        self.inIdx = inIdx
+        self.flags = flags
+        self.altstack = altstack
+        self.vfExec = vfExec
+        self.pbegincodehash = pbegincodehash
+        self.nOpCount = nOpCount
 
 class MaxOpCountError(EvalScriptError):
     def __init__(self, **kwargs):
-- 
2.43.0


From 67daacc0cddf0982da0d63dbcdc3ea4c83a1447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 25/41] fix: CheckBlock checks the coinbase transaction and
 counts its sigops

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 04f6edd..1caad01 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 47f7f95254ea91a168ee121cf12ea0d12355679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 26/41] fix: refuse base58 data too short to hold a version and
 a checksum

A four byte payload was accepted when its first byte was both the version
and the first checksum byte.
---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..aba0805 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise InvalidBase58Error('Base58 data too short: need a version byte and a four byte checksum; got %d bytes' % len(k))
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From 92d390503e7923eb28d0148e7327ec7d328da64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 27/41] fix: MainParams carries the mainnet core parameters

After SelectParams('mainnet') the core parameters had no name, genesis block
or proof of work limit, so CheckProofOfWork failed with a TypeError.
---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 285dbd849c4739012f37304368b8d476060381a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 28/41] fix: the length of a message frame is unsigned

A frame with a length of 0x80000000 or more made the reader swallow the rest
of the stream, and yielded a message when the checksum matched the truncated
bytes instead of being refused.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From 686981355cb81e3e4d6d0dc0e4829a8ecfde489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 29/41] fix: CUnsignedAlert can be serialized

Both directions used names that do not exist.
---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From 3fdb486f99af69cc9eda92882ae1ebcf5f2a32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 30/41] fix: bloom filters can be deserialized

The method used names that do not exist and a constructor call without arguments.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..c08482e 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -166,11 +166,11 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
     __struct = struct.Struct(b'<IIB')
     @classmethod
     def stream_deserialize(cls, f):
-        vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
+        vData = bytearray(bitcoin.core.serialize.BytesSerializer.stream_deserialize(f))
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
         self.vData = vData
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
-- 
2.43.0


From 88cde1cd3e28b0064bd472f24af4175e65da3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 31/41] fix: an empty bloom filter matches everything

A filter without data divided by zero on insert and lookup; it matches
everything as in Bitcoin Core.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index c08482e..f02ae5d 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,7 +131,7 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        if len(self.vData) == 0 or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return
 
         for i in range(0, self.nHashFuncs):
@@ -147,7 +147,7 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        if len(self.vData) == 0 or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return True
 
         for i in range(0, self.nHashFuncs):
-- 
2.43.0


From 776e77794386d2d4082a86697007712822dd37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 32/41] fix: sus-tool mkseal gives the seal its nonce

Seals need a blinding nonce; without it the command always failed.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 8f67e53f60915607fb86739ca77ab7a87d97cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 33/41] fix: sus-tool verifywitness checks the seal it is given

--seal-file and --seal-id were accepted and ignored, so a witness for any
other seal passed.
---
 sus-tool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..2a15fb9 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,14 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        if witness.seal != seal:
+            args.parser.error("Witness is not for seal '%s'" % args.seal_file.name)
+
+    if args.seal_id is not None:
+        if witness.seal.hash != args.seal_id:
+            args.parser.error("Witness is not for seal %s" % b2x(args.seal_id))
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From 2efe2df4cda2bcd4ee499d4b0dea2ea9e67e813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 34/41] fix: sus-tool witnessinfo shows the txid of the
 outpoint in the usual order

It was shown reversed, unlike in sealinfo and in the arguments of mkseal.
---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 2a15fb9..a68974f 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -253,7 +253,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From d5f22006febf0e3578cb9a2472566d9cce3000c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 35/41] fix: the RPC proxy connects over HTTPS again (key_file
 and cert_file are gone from http.client)

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From ac279ebe1de02a7c0aceb3a4176ae9194eb461db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 36/41] fix: RPC credentials from bitcoin.conf may contain any
 characters

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..7266c3f 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -66,6 +66,7 @@ class RawProxy(object):
         Unlike Proxy no conversion is done from the raw JSON objects.
         """
 
+        authpair = None
         if service_url is None:
             # Figure out the path to the bitcoin.conf file
             if btc_conf_file is None:
@@ -100,9 +101,10 @@ class RawProxy(object):
                 else:
                     raise ValueError('Unknown rpcssl value %r' % conf['rpcssl'])
 
-                service_url = ('%s://%s:%s@localhost:%d' %
+                # The credentials may contain characters special in URLs
+                authpair = "%s:%s" % (conf['rpcuser'], conf['rpcpassword'])
+                service_url = ('%s://localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +114,8 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        if authpair is None:
+            authpair = "%s:%s" % (self.__url.username, self.__url.password)
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From 34299136fff1c680a308a0d2174a3787bceb87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 37/41] fix: listunspent accepts outputs without an address

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 7266c3f..2e3378f 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -393,7 +393,8 @@ class Proxy(RawProxy):
             del unspent['txid']
             del unspent['vout']
 
-            unspent['address'] = CBitcoinAddress(unspent['address'])
+            if 'address' in unspent:
+                unspent['address'] = CBitcoinAddress(unspent['address'])
             unspent['scriptPubKey'] = CScript(unhexlify(unspent['scriptPubKey']))
             unspent['amount'] = int(unspent['amount'] * COIN)
             r2.append(unspent)
-- 
2.43.0


From 4c3c3bcef9fda025b932d9362f7f940eb64eae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:53 +0000
Subject: [PATCH 38/41] fix: keys work wherever OpenSSL allocates its objects

The pointers it returns were truncated to C ints.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..435a767 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,16 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# The same goes for everything else returning a pointer: the default is to
+# truncate it to a C int, and pass it on like that.
+for _func in (_ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new, _ssl.EC_POINT_new,
+              _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key):
+    _func.restype = ctypes.c_void_p
+    _func.errcheck = _check_result
+del _func
+
+_ssl.o2i_ECPublicKey.restype = ctypes.c_void_p
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
@@ -139,7 +149,7 @@ class CPubKey(bytes):
         if _cec_key is None:
             _cec_key = CECKey()
         self._cec_key = _cec_key
-        self.is_fullyvalid = _cec_key.set_pubkey(self) != 0
+        self.is_fullyvalid = bool(_cec_key.set_pubkey(self))
         return self
 
     @property
-- 
2.43.0


From 58a407cfd5946ceff343aa40ee831968799db060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:53 +0000
Subject: [PATCH 39/41] fix: a secret that is not 32 bytes long is refused

OpenSSL read 32 bytes whatever its length.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 435a767..09f50cb 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -61,6 +61,8 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long; got %d bytes' % len(secret))
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From 2a9216c12bc8ddae4b466039cc1071163bbc19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:53 +0000
Subject: [PATCH 40/41] fix: a proof with a pruned proof in a union attribute
 is reported as pruned

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 2c86cfa..3071d61 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -53,7 +53,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From 025a8ddf91e4e90e6e1408681b92840ddccc267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:53 +0000
Subject: [PATCH 41/41] fix: merbinner tree lookup of a key ending at an inner
 node raises KeyError

It failed with an IndexError, as did a put of such a key.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index aa19e97..93ef8da 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -155,7 +155,7 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             # Was replaced
             return new_leaf
 
-        elif closest_node.prefix == new_leaf.prefix:
+        elif closest_node.__class__ is self.LeafNodeClass and closest_node.prefix == new_leaf.prefix:
             # Key already exists; the new leaf takes the place of the old one
             new_tip = new_leaf
             for sibling in siblings:
@@ -343,7 +343,7 @@ def make_MerbinnerTree_subclass(subclass):
             prefix = first.prefix.common_prefix(second.prefix)
 
             # Both first and second must have prefixes more specific than us.
-            assert (len(prefix) < len(first.prefix)) and (len(prefix) <= len(second.prefix))
+            assert (len(prefix) < len(first.prefix)) and (len(prefix) < len(second.prefix))
 
             # Since they are more specific, we can determine the left/right
             # order by the next bit after us.
@@ -363,7 +363,7 @@ def make_MerbinnerTree_subclass(subclass):
             yield from self.right.values()
 
         def descend(self, prefix):
-            if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):
+            if len(self.prefix) < len(prefix) and prefix.startswith(self.prefix):
                 # Prefix is both more specific than us (longer) and also starts
                 # with us.
                 #
-- 
2.43.0

