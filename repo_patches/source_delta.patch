From 529485f18085f70c56dd9ec274071465b4bc82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 01/30] fix: reading a prefix of a stored key no longer returns
 another key's value

A lookup whose path ended at a leaf or extension with a remaining path, or at a
branch without value, was answered with that node instead of being refused.
---
 src/pymt/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..1aa3249 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -590,7 +590,9 @@ class MPT:
 
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
-        if len(path) == 0:
+        if len(path) == 0 and type(node) is Branch:
+            if not node.data:
+                raise KeyNotFoundError("The branch at the search key has no value.")
             return node
 
         if type(node) is Leaf:
-- 
2.43.0


From e617f7773338722e64e9c642f49e9b35a210a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 02/30] fix: contains() no longer reports absent keys that stop
 at an empty branch slot

The value of a branch passed on the way was taken for the value of the key.
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 1aa3249..a719ee0 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -210,7 +210,7 @@ class MPT:
 
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
-- 
2.43.0


From cf4e1826e56ae63b5bedda98725c0534acbd50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 03/30] fix: refuse inclusion proofs for keys that are only a
 prefix of stored keys

---
 src/pymt/mpt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index a719ee0..033732e 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -710,8 +710,11 @@ class MPT:
         if len(path) == 0:
             # If path is empty, we've found the node.
             # The node doesnt have to be a leaf.
-            proof.append(node.encode())
-            return proof
+            if isinstance(node, Branch) and node.data:
+                proof.append(node.encode())
+                return proof
+            elif not isinstance(node, Leaf):
+                raise KeyNotFoundError("There is no value at the search key.")
 
         if isinstance(node, Leaf):
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 60243ea0205915aa4184f359bae016b4c4a972e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 04/30] fix: reject inclusion proofs whose key ends inside the
 proven path

A proof re-targeted to a prefix of a stored key was accepted although no value
is stored there.
---
 src/pymt/mpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 033732e..7b78a64 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -809,11 +809,11 @@ class MPT:
                 return False
             if isinstance(node, Branch):
                 # Check if the branch has data
-                if node.data != None:
+                if node.data != None and node.data != b"":
                     return True
                 else:
                     return False
-            return True
+            return node.path == path
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 4555db253e0c17c916c666195283a5d5ab511126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 05/30] fix: accept inclusion proofs of tries whose root node
 is smaller than a hash

---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 7b78a64..08cc5a9 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -354,8 +354,9 @@ class MPT:
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # Check if the current trie root is the same as the proof root. The root
+        # in the proof is the node itself if it is too small to be hashed.
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From b97a741bfd1e6c6e27c85478c59c8d56b4aef619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 06/30] fix: exclusion proofs for keys leaving the trie at an
 extension or a branch with value

The extension at which the key diverges was missing from the proof, and a branch
with a value that is only passed made the generation fail.
---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 08cc5a9..85d36bc 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -405,7 +405,7 @@ class MPT:
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
@@ -903,6 +903,7 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From 06703187fb7549d201610613295151a1d499964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/30] fix: reject exclusion proofs that omit nodes or end at
 the excluded key

A truncated proof was accepted for any key, stored keys included, and the node at
the end of the path was compared with the whole key instead of its rest.
---
 src/pymt/mpt.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 85d36bc..2a5e0c7 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -466,10 +466,15 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # The proof has to show every node on the path
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
@@ -477,13 +482,13 @@ class MPT:
         # Check if the result node is valid
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return False
 
         # If the node is a leaf the key is in the trie
 
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -963,12 +968,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # The proof does not show where the path ends
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From 42022a575da102e2bb20d60059acb18fa86243c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 08/30] fix: a trie emptied by deletes can be encoded and
 reopened

Its root was None, which the encoding cannot represent and which the extended
trie refuses for a non-empty storage; use the root a new empty trie has.
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 2a5e0c7..a0333eb 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -261,7 +261,7 @@ class MPT:
 
         if action == MPT._DeleteAction.DELETED:
             # Trie is empty
-            self._root = None
+            self._root = Node.EMPTY_HASH
         elif action == MPT._DeleteAction.UPDATED:
             new_root = info
             self._root = new_root
-- 
2.43.0


From e72ff46af164a490c6f90fa9f08b34d15af0a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 09/30] fix: comparing and hashing tries no longer raises

The raw digest was parsed as a hexadecimal number.
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index a0333eb..2623e52 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From d45eab5c75f263d4e9c920f03407ce8fd26d2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 10/30] fix: tries created with default storages no longer
 share them

The default dicts were created once and used by all instances.
---
 src/pymt/empt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..fc1b9e9 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -169,6 +169,10 @@ class EMPT(MutableMapping):
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
             )
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if len(trie_storage) != 0 and root is None:
             raise ValueError(
                 "The nodes in the trie storage must be deleted or the root must be set"
@@ -422,7 +426,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -442,6 +446,8 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From 0a36cec16851c689aa165df381a8a9b92b1cf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 11/30] fix: SparseEMPT.get_root_trie() passed an argument
 RootEMPT does not take

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index fc1b9e9..5c7fa42 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -485,7 +485,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From 3631e02ec87a97bc6edd8ac42eee0206caf51d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 12/30] fix: SparseEMPT.update() raised a TypeError for
 encodable values

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 5c7fa42..f069d94 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -517,13 +517,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From 429f2a3eb301b378901aa08291a546613465f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 13/30] fix: bytearray values are accepted as documented by
 EMPT and SparseEMPT

---
 src/pymt/empt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index f069d94..7673f4c 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -258,7 +258,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -284,6 +284,9 @@ class EMPT(MutableMapping):
             The key of the value. This can be bytes, bytearray or an object
             that has a .encode_rlp() and .decode_rlp() method.
         """
+        if isinstance(value, bytearray):
+            value = bytes(value)
+
         # If the value is bytes or bytearray it does not need to be encoded to
         # create a reference
         if not isinstance(value, (bytes, bytearray)):
@@ -533,7 +536,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From d60453e94c025f363c5418952df05119efe70d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 14/30] fix: EMPT.build_trie() raised for every non-empty trie

It deleted from the storage while iterating over it, kept the root it had just
deleted and did not encode non-bytes values.
---
 src/pymt/empt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 7673f4c..2fea068 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -233,12 +233,17 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
-            del self._trie._storage[key]
+        storage = self._trie._storage
+        for key in list(storage.keys()):
+            del storage[key]
 
         # Build the new trie
+        self._trie = MPT(storage, secure=self._trie.secure)
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            data = self._data_storage[key]
+            if not isinstance(data, (bytes, bytearray)):
+                data = data.encode_rlp()
+            ref = DataReference(key, bytes(data))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From fd2dc80453e971f7a0689103b286cd31eda7f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 15/30] fix: data references of different keys and data no
 longer compare equal

The compared hash is that of the concatenation, equal for (a, bc) and (ab, c).
---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 2fea068..33839fb 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -55,7 +55,7 @@ class DataReference:
     def __eq__(self, other) -> bool:
         if not isinstance(other, DataReference):
             return False
-        return self.hash == other.hash
+        return self.key == other.key and self.data == other.data
 
     def __hash__(self) -> int:
         return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
-- 
2.43.0


From 88c2299525e5644add3757b392ee3115f972b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 16/30] fix: inclusion proofs of secure Merkle trees verify

The leaves of a secure tree are hashed, the target of the proof was not.
---
 src/pymt/mt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..05e1464 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,8 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self._secure:
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From 5807025afa457f17e5005fb50b48cddb4a44513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 17/30] fix: a Merkle tree is not ready any more after adding a
 leaf

The root of the earlier leaves was still reported.
---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..19a1d2b 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -112,6 +112,7 @@ class MerkleTools(object):
             value = bytearray.fromhex(value)
         else:
             value = bytearray(value)
+        self.is_ready = False
         self.leaves.append(value)
 
     def get_leaf(self, index: int) -> str:
-- 
2.43.0


From 897e112b2923e8549f531428806da01ef620ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 18/30] fix: proofs generated by a Merkle tree can be encoded
 and decoded

Their elements are (side, sibling) pairs, the codecs only handled flat lists.
---
 src/pymt/proof.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..de461ac 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,14 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    content[key] = [
+                        (
+                            i.decode()
+                            if isinstance(i, bytes)
+                            else [j.decode() for j in i]
+                        )
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +195,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, str):
+                    proof.append(i.encode())
+                else:
+                    proof.append(tuple(j.encode() for j in i))
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +264,14 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.raw,
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=tuple(i if isinstance(i, bytes) else tuple(i) for i in decoded[4]),
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From b2395cbce1714f255bdfc22cab067cfe18882ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 19/30] fix: hash() of a key pair returned bytes and raised a
 TypeError

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..8f830cb 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 1f2472a8e3880be0003333ba674a9f55faab7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 20/30] fix: encryption key pairs can encrypt and decrypt

The envelope is signed internally, which the class forbids its users only.
---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 8f830cb..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From 5b54315bb2b4dada6dfc831703bafeebd8fc0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 21/30] fix: timestamp strings can be parsed back

The time zone of the format was left empty and the parser did not exist without
Django.
---
 src/pymt/utils/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..56895f0 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -31,7 +31,7 @@ class Utils:
             The current timestamp as a string in the format
             YYYY-MM-DD HH:MM:SS.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        return datetime.now().astimezone().strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -73,7 +73,10 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        # Without Django datetime is the class, not the module
+        return getattr(datetime, "datetime", datetime).strptime(
+            timestamp, cls.DATETIME_FORMAT
+        )
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From 4f6f93d8492397960d0660c60dddc2e8f54f45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 22/30] fix: rsa_key_valid() raised IndexError for some
 malformed keys

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 56895f0..d07be32 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -373,7 +373,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -385,7 +385,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 4ac19c7e742eae6f70014ee0caa4460ebfeca5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 23/30] fix: a failing data storage no longer leaves the
 extended trie inconsistent

The reference was changed although the data could not be stored (update), and
the data was gone although the reference could not be removed (delete).
---
 src/pymt/empt.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 33839fb..978c538 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -312,8 +312,14 @@ class EMPT(MutableMapping):
             ref = DataReference(key, value.encode_rlp())
         else:
             ref = DataReference(key, value)
+        root = self._trie.root()
         self._trie.update(key, ref.encode())
-        self._data_storage[key] = value
+        try:
+            self._data_storage[key] = value
+        except BaseException:
+            # The data is not stored, so the trie should not refer to it
+            self._trie._root = root
+            raise
 
     def delete(self, key: bytes) -> ...:
         """
@@ -326,8 +332,14 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        root = self._trie.root()
         self._trie.delete(key)
+        try:
+            del self._data_storage[key]
+        except BaseException:
+            # The data is still stored, so the trie should refer to it
+            self._trie._root = root
+            raise
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0


From c335c216eac20d93fb1380186360dd88500a4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 24/30] fix: a proof can be iterated more than once at a time

---
 src/pymt/proof.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index de461ac..7ab0bb6 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 import pickle
-from typing import List, Union
+from typing import Iterator, List, Union
 from .utils.hash import keccak_hash
 import rlp
 import json
@@ -96,19 +96,9 @@ class Proof:
 
         return self.__hash__() == other.__hash__()
 
-    def __iter__(self) -> "Proof":
-        """Return the proof as an iterator."""
-        self._data = list(self.items())
-        self._offset = 0
-        return self
-
-    def __next__(self) -> tuple:
-        """Return the next item of the proof."""
-        if self._offset >= len(self._data):
-            raise StopIteration
-        else:
-            self._offset += 1
-            return self._data[self._offset - 1]
+    def __iter__(self) -> Iterator[tuple]:
+        """Return an iterator over the (name, value) items of the proof."""
+        return iter(list(self.items()))
 
     # ATTRIBUTES
     @property
-- 
2.43.0


From 6f9c720417d2327ebde7f6bcc5cf71b38e52a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 25/30] fix: the signature of an encrypted message covers the
 session key, nonce and tag

Only the ciphertext was signed, so anybody could put another session key,
nonce and tag around a signed ciphertext and the receiver decrypted it to
something the sender never wrote.
---
 src/pymt/keypairs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index bfbde3f..25ef9eb 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,10 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
+                # The signature covers everything the message depends on
+                "signature": RsaKeyPair.sign(
+                    self, enc_session_key + cipher_aes.nonce + tag + ciphertext
+                ).hex(),
             }
         ).encode("utf-8")
 
@@ -266,7 +269,10 @@ class RsaKeyPair(AbstractKeyPair):
         signature = bytes.fromhex(data["signature"])
 
         if not RsaKeyPair.signature_valid(
-            self, ciphertext, signature, sender_public_key
+            self,
+            enc_session_key + nonce + tag + ciphertext,
+            signature,
+            sender_public_key,
         ):
             raise ValueError("Invalid signature.")
 
-- 
2.43.0


From 4173208a3272c52bf1c9b0d369039ef617ce9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 26/30] fix: rsa_key_valid answers for keys with a zero factor
 instead of raising

Loading such a key raises ZeroDivisionError; whatever loading raises, the
key is not valid.
---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index d07be32..e584bbd 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -373,7 +373,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except (ValueError, IndexError, TypeError):
+            except Exception:
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -385,7 +385,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except (ValueError, IndexError, TypeError):
+            except Exception:
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 00a0021004016184e5f62b186bf0d90ab3d8bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 27/30] fix: a nibble path made by common_prefix or combine can
 be printed

_create_new handed NibblePath a list; repr and str need bytes.
---
 src/pymt/utils/nibble_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/utils/nibble_path.py b/src/pymt/utils/nibble_path.py
index f43e689..946152a 100644
--- a/src/pymt/utils/nibble_path.py
+++ b/src/pymt/utils/nibble_path.py
@@ -209,7 +209,7 @@ class NibblePath:
 
         offset = 1 if is_odd_len else 0
 
-        return NibblePath(data, offset)
+        return NibblePath(bytes(data), offset)
 
     def common_prefix(self, other: "NibblePath") -> "NibblePath":
         """
-- 
2.43.0


From 634e5fab89d463d39b34b94bf1026e073c64eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 28/30] fix: generate_ecc_key accepts the curve names it
 documents

p-256, p-384 and p-521 raised: the library only knows P-256 and so on.
---
 src/pymt/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index e584bbd..2ad4b13 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -125,6 +125,8 @@ class Utils:
         bytes
             The generated ECC key.
         """
+        if curve in ("p-256", "p-384", "p-521"):
+            curve = curve.upper()
         # Docs say it returns bytes, but it returns a string
         return ECC.generate(curve=curve).export_key(format="PEM").encode()
 
-- 
2.43.0


From 70a7c11b2eb867b5bc4cc92208a5f6af66934eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 29/30] fix: Node.decode refuses lists of other lengths without
 assertions too

---
 src/pymt/utils/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymt/utils/node.py b/src/pymt/utils/node.py
index c427ee4..3d308dd 100644
--- a/src/pymt/utils/node.py
+++ b/src/pymt/utils/node.py
@@ -88,7 +88,10 @@ class Node:
 
         data = rlp.decode(encoded_data)
 
-        assert len(data) == 17 or len(data) == 2  # TODO #1 throw exception
+        if len(data) != 17 and len(data) != 2:
+            raise ValueError(
+                "A node must have 2 or 17 items, not {}".format(len(data))
+            )
 
         if len(data) == 17:
             # Its a branch node
-- 
2.43.0


From f3d3266911a99de8274ede1e5958f1b3e144feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 30/30] fix: Merkle trees compare equal exactly when their
 roots are equal

---
 src/pymt/merkletools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 19a1d2b..dab9fc1 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -62,11 +62,17 @@ class MerkleTools(object):
 
     def __hash__(self) -> int:
         """Get the hash of the Merkle tree."""
-        return int(self.get_merkle_root(), 16)
+        # A single empty leaf gives an empty root
+        return int(self.get_merkle_root() or "0", 16)
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, MerkleTools):
+            return False
+        # Compare the roots themselves, as numbers they lose leading zeros
+        roots = [tree.get_merkle_root() for tree in (self, other)]
+        roots = [r.decode() if isinstance(r, bytes) else r for r in roots]
+        return roots[0] == roots[1]
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0

