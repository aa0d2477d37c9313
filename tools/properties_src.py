#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os

MPT, EMPT, NODE, NIB = "src/pymt/mpt.py", "src/pymt/empt.py", "src/pymt/utils/node.py", "src/pymt/utils/nibble_path.py"
PROOF, MT, MTOOLS, KEYS = "src/pymt/proof.py", "src/pymt/mt.py", "src/pymt/merkletools.py", "src/pymt/keypairs.py"
UTILS, HASH = "src/pymt/utils/utils.py", "src/pymt/utils/hash.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


prop("C01", "The Patricia trie behaves as a key-value map",
     "After any sequence of updates and deletes with byte keys and non-empty byte values, in plain and in secure (hashed-key) mode, reading a key returns exactly the value last written and not since deleted, and membership tests (method and `in`) and item syntax agree with it. "
     "A key that was never written or has been deleted is reported absent: reading it raises, it never yields another key's value or an empty one, even when it is a prefix, an extension or a near miss of a stored key. "
     "Deleting an absent key raises and changes nothing.",
     ["inputs", "histories", "configurations"],
     "all finite histories of update/delete/get/contains over arbitrary byte keys (including the empty key, nested prefixes, one-nibble differences, long keys) and non-empty values, secure on/off",
     "The tests write a handful of ASCII words (or 100 random decimal strings) and read the same keys back; they never read a proper prefix of a stored key, never compare a mixed history with a map, and never probe absent keys next to branch values.",
     [MPT, NIB, NODE],
     [("update/split of leaf, extension, branch", MPT + ":MPT._update"), ("delete and node merging", MPT + ":MPT._delete, _build_new_node_from_last_branch"),
      ("lookup", MPT + ":MPT.get, MPT._get"), ("membership", MPT + ":MPT.contains, MPT._contains")],
     [("root reference", "current version of the map", MPT + ":MPT._root")],
     ["MPT.update/get/contains/delete/__getitem__/__setitem__/__delitem__/__contains__"])

prop("C02", "The root hash is a canonical commitment to the contents",
     "The root hash depends only on the current key-value contents and the mode: every history of updates, overwrites and deletes reaching the same contents gives the same root hash, and it equals the Ethereum (Yellow Paper) Merkle-Patricia root of those contents (with keccak256 of the keys in secure mode). "
     "The empty trie always has the Keccak hash of the encoded empty string, also after everything was deleted, and tries with different contents have different root hashes and compare unequal while tries with equal contents compare equal.",
     ["inputs", "histories", "configurations"],
     "all histories and insertion/deletion orders over arbitrary byte keys and non-empty values, including nodes around the 32-byte inlining boundary, secure on/off",
     "The tests pin a few root constants and five Ethereum vector files; a wrong collapse after one particular delete shape, or a wrong inlining decision at one size, does not show on them.",
     [MPT, NODE, NIB, HASH],
     [("canonical restructuring on delete", MPT + ":MPT._delete"), ("split on update", MPT + ":MPT._update, _create_branch_*"),
      ("reference rule", NODE + ":Node.into_reference"), ("root hash", MPT + ":MPT.root_hash, __hash__, __eq__")],
     [("root reference", "hash or inline node", MPT + ":MPT._root")],
     ["MPT.root_hash after every operation", "MPT.__eq__"])

prop("C03", "Every past root stays readable with its own contents",
     "Opening a trie on the same node storage with any root the trie ever had gives exactly the contents the trie had at that moment, no matter what updates, deletes or further opens happened since on that storage. "
     "Writing to one such reopened version never changes what any other version sees, and a reopened version continues exactly like the original would.",
     ["histories", "inputs", "configurations"],
     "all histories with reopening at any earlier root, forks from old versions interleaved with writes to newer ones, secure on/off",
     "One test reopens a two-key trie at one earlier root.",
     [MPT, NODE],
     [("content-addressed append-only node storage", MPT + ":MPT._store_node"), ("reopen by root", MPT + ":MPT.__init__, MPT.root")],
     [("node storage", "all nodes of all versions", MPT + ":MPT._storage")],
     ["MPT.root()", "MPT(storage, root)", "full content sweep of every version"])

prop("C04", "Node storage is written content-addressed and append-only",
     "Everything a trie writes into the storage it was given is an encoded node stored under its own keccak256 hash; it never overwrites an entry with something different and never removes one during reads, updates, deletes and proofs. "
     "At every moment every node reachable from the current root is present, and any storage offering only item get and item set is sufficient for reading, writing, deleting and proving.",
     ["histories", "inputs", "configurations"],
     "all histories of trie operations over arbitrary keys and values on an instrumented storage that exposes only item get/set",
     "The tests only use plain dicts and never look at what is stored; storing under a wrong key or dropping shared nodes is invisible until another version or key needs the node.",
     [MPT, NODE],
     [("store node under its reference", MPT + ":MPT._store_node"), ("reference rule", NODE + ":Node.into_reference"), ("lookup", MPT + ":MPT._get_node")],
     [("node storage", "hash -> encoded node", MPT + ":MPT._storage")],
     ["__getitem__/__setitem__ events on the user-supplied storage"])

prop("C05", "A failing storage never corrupts the trie or its answers",
     "If the storage raises at any single access during an update, delete, read or proof, the error reaches the caller and the trie keeps its root hash and all its previous contents; repeating the operation once the storage works again gives the same result as if no failure had happened. "
     "A read or proof that cannot load a node never reports a stored key as absent or an absent key as stored.",
     ["fault_sequences", "crash_points", "histories"],
     "every storage access point of every operation of generated histories, failing once or repeatedly, plus permanently missing nodes",
     "No test ever makes the storage fail.",
     [MPT, EMPT],
     [("root replaced only after all nodes are stored", MPT + ":MPT.update, MPT.delete"), ("errors propagate from node loading", MPT + ":MPT._get_node")],
     [("root reference", "switch point of an update", MPT + ":MPT._root")],
     ["exceptions at the API", "root_hash and contents after the fault"])

prop("C06", "Every stored key has an inclusion proof that verifies",
     "For every key in a non-empty trie, of any size down to a single tiny entry, an inclusion proof can be generated and it is accepted by every verifier holding the same root: the trie itself, a trie reopened or decoded from it, and the sparse and root-only views that hold no data. "
     "The proof names the key (hashed in secure mode) and the root it was made for; asking an inclusion proof for an absent key or from an empty trie is refused with an error.",
     ["inputs", "histories", "configurations"],
     "all tries over arbitrary keys and non-empty values and all keys in them; plain/secure; all trie classes as prover and verifier",
     "The tests prove four ASCII words in one trie whose root is large; tiny tries, keys ending in a branch, inline nodes and empty keys are never proved.",
     [MPT, EMPT, PROOF],
     [("collect the nodes on the path", MPT + ":MPT.get_proof_of_inclusion, _get_proof_of_inclusion"), ("walk the proof", MPT + ":MPT.verify_proof_of_inclusion, _verify_proof_of_inclusion")],
     [], ["get_proof_of_inclusion", "verify_proof_of_inclusion on MPT/EMPT/SparseEMPT/RootEMPT"])

prop("C07", "No inclusion proof is accepted for a key that is not stored",
     "Whatever proof object is presented (tampered, truncated, re-targeted, spliced from several tries, outdated, or built by an adversary who knows all nodes), verification of inclusion never answers true for a key the verifier's trie does not contain, and never for a proof made for a different root. "
     "Rejection is answering false or raising; inclusion verification never accepts a proof of another kind and an empty trie accepts nothing.",
     ["inputs", "histories", "configurations"],
     "all proof objects an adversary can build from the nodes of this and other tries and arbitrary bytes, against every verifier class, plain/secure",
     "The tests try two stale proofs; no forged, re-targeted or prefix-key proof is ever presented.",
     [MPT, EMPT, PROOF],
     [("root comparison, hash-addressed proof nodes, path walk", MPT + ":MPT.verify_proof_of_inclusion, _verify_proof_of_inclusion")],
     [], ["verify_proof_of_inclusion"])

prop("C08", "Every absent key has an exclusion proof that verifies",
     "For every key that a non-empty trie does not contain, wherever its path leaves the trie (leaf, extension, empty slot, valueless branch, prefix of a stored key), an exclusion proof can be generated and is accepted by every verifier holding the same root, including the sparse and root-only views. "
     "Asking an exclusion proof for a stored key or from an empty trie is refused with an error, and an exclusion proof is not accepted any more once the root has changed.",
     ["inputs", "histories", "configurations"],
     "all non-empty tries and all absent keys, chosen next to stored keys in every structural way; plain/secure; all trie classes as prover and verifier",
     "The tests prove exclusion for keys diverging in one or two structural ways only; divergence at an extension or at a branch holding a value is never exercised.",
     [MPT, EMPT, PROOF],
     [("collect nodes up to the divergence", MPT + ":MPT.get_proof_of_exclusion, _get_proof_of_exclusion"), ("walk and accept", MPT + ":MPT.verify_proof_of_exclusion, _verify_proof_of_exclusion")],
     [], ["get_proof_of_exclusion", "verify_proof_of_exclusion"])

prop("C09", "No exclusion proof is accepted for a key that is stored",
     "Whatever proof object is presented (tampered, truncated so that nodes are missing, re-targeted, spliced, outdated, or built by an adversary who knows all nodes), verification of exclusion never answers true for a key that the verifier's trie contains. "
     "Rejection is answering false or raising; exclusion verification never accepts a proof of another kind, and an empty trie accepts nothing.",
     ["inputs", "histories", "configurations"],
     "all proof objects an adversary can build from the nodes of this and other tries and arbitrary bytes, against every verifier class, plain/secure",
     "The tests only present genuine proofs for absent keys, and two outdated ones.",
     [MPT, EMPT, PROOF],
     [("walk must end at a divergence shown by supplied nodes", MPT + ":MPT.verify_proof_of_exclusion, _verify_proof_of_exclusion")],
     [], ["verify_proof_of_exclusion"])

prop("C10", "Saving and loading a trie preserves it completely",
     "Encoding a trie at any point of any history (including empty, emptied and one-entry tries) and decoding the bytes gives a trie with the same root hash, mode and contents that answers reads, membership and proofs identically and evolves identically under the same further operations, independently of the original. "
     "The same holds for the sparse and root-only views' own encodings, as far as those views offer the operations.",
     ["inputs", "histories", "configurations"],
     "all histories with an encode/decode inserted at any point, plain/secure, all three encodable classes",
     "The tests save and load four or 100 fixed words once and compare reads only; emptied tries, tiny tries, the mode flag and continued evolution are not compared.",
     [MPT, EMPT, NODE],
     [("codec", MPT + ":MPT.encode, MPT.decode"), ("view codecs", EMPT + ":SparseEMPT.encode_rlp/decode_rlp, RootEMPT.encode_rlp/decode_rlp")],
     [], ["encode/decode round trips followed by lock-step execution"])

prop("C11", "The extended trie is a mapping whose trie and data agree",
     "The extended trie (data store plus reference trie) behaves as a Python mapping under any history of writes, overwrites, deletes, pops, clears and defaults: length, iteration, items, reads and membership all agree with a dictionary, for byte, bytearray (empty ones included) and self-encoding values. "
     "After every operation the data storage it was given holds exactly these entries and the trie exactly one reference per stored key, to that key and its current encoded value, so the root hash is a function of the current contents alone and is the Patricia root of those references.",
     ["inputs", "histories", "configurations"],
     "all histories of mapping operations over byte keys and bytes/bytearray/encodable values; plain/secure; separate user-supplied storages",
     "The tests check a few inserts and deletes one method at a time and never compare whole histories, iteration or the inherited mapping methods with a dictionary.",
     [EMPT, MPT],
     [("write both stores", EMPT + ":EMPT.update"), ("delete from both", EMPT + ":EMPT.delete"), ("validated read", EMPT + ":EMPT.get")],
     [("data storage", "key -> value", EMPT + ":EMPT._data_storage"), ("reference trie", "key -> reference", EMPT + ":EMPT._trie")],
     ["every MutableMapping method", "root_hash", "get_reference"])

prop("C12", "The extended trie never returns altered data as valid",
     "If either the data storage or the node storage behind an extended trie is changed outside the trie's interface (values replaced, swapped, rolled back, truncated, removed, added, or stored objects mutated), reading a key either returns the value last written through the interface (the same encoded bytes) or raises; it never returns another value. "
     "Keys whose data was not touched keep reading correctly.",
     ["inputs", "fault_sequences", "histories"],
     "all single and multiple out-of-band changes to either storage after any history; plain/secure; bytes and encodable values",
     "No test modifies the data storage behind the trie's back.",
     [EMPT],
     [("compare stored data with the reference", EMPT + ":EMPT.get, DataReference")],
     [("data storage", "untrusted values", EMPT + ":EMPT._data_storage")],
     ["EMPT.get / [] / items after tampering"])

prop("C13", "Sparse, root-only and rebuilt tries agree with the full trie",
     "The sparse and root-only views taken from an extended trie (or a root-only view from a sparse one) have its root hash and mode at that moment, give the same membership, references and proof verdicts as far as they offer them, and are unaffected by later changes to the original (and the original by changes to a sparse view). "
     "Applying the same writes and deletes to a sparse trie and to a full one gives the same root hash, and rebuilding the trie from the data storage restores exactly the references and root hash of the stored data, whatever state the trie was in.",
     ["inputs", "histories", "configurations"],
     "all histories with views taken at any point and both sides evolving further; rebuild at any point; plain/secure; all value kinds",
     "Two tests take a view and compare one root hash; taking a root view from a sparse trie, writing encodable values to it and rebuilding are never run.",
     [EMPT, MPT],
     [("views", EMPT + ":EMPT.get_root_trie, get_sparse_trie, SparseEMPT.get_root_trie"), ("rebuild", EMPT + ":EMPT.build_trie"), ("sparse writes", EMPT + ":SparseEMPT.update/delete")],
     [], ["views' root_hash, contains, get_reference, verify_*"])

prop("C14", "Independently created objects share no state",
     "Tries, extended tries, sparse and root-only tries, Merkle trees, proofs and key pairs that were created separately, including with default arguments, never influence each other: operations on one leave the contents, root, length and proofs of all others unchanged unless the caller explicitly gave them the same storage. "
     "Byte buffers handed in by the caller can be modified afterwards without changing what the trie or tree holds or commits to.",
     ["histories", "configurations"],
     "all interleavings of operations over several live objects of all classes created with default or own arguments",
     "Every test creates one object with explicitly passed fresh storages.",
     [EMPT, MPT, MTOOLS, MT],
     [("per-instance state", EMPT + ":EMPT.__init__, SparseEMPT.__init__, RootEMPT.__init__"), ("per-instance leaves", MTOOLS + ":MerkleTools.reset_tree, add_leaf")],
     [], ["contents/root/len of every live object after each operation on another"])

prop("C15", "The Merkle tree root is the defined function of its current leaves",
     "For every leaf list, hash type and mode, the Merkle tree's root is the pairwise hash tree over the leaves in insertion order (leaves hashed first in secure mode, an odd last node promoted unchanged), and leaf count and leaf values report exactly what was added. "
     "The root reported is always that of the leaves present at that moment or an error that the tree is not ready, never that of an earlier leaf list, including after further leaves are added to a built tree, after rebuilding and after a reset.",
     ["inputs", "histories", "configurations"],
     "all leaf lists (any length, duplicates, empty leaves), nine hash types, secure on/off, all interleavings of add, make, reset and read, on both tree classes",
     "One root constant for five leaves with sha256 in one mode is pinned; adding after building is never followed by reading the root.",
     [MTOOLS, MT],
     [("level computation", MTOOLS + ":MerkleTools.make_tree, _calculate_next_level"), ("readiness", MTOOLS + ":MerkleTools.add_leaf, reset_tree, get_merkle_root; " + MT + ":MerkleTree.get_merkle_root")],
     [("levels/is_ready", "computed tree and its freshness", MTOOLS)],
     ["get_merkle_root, get_leaf, get_leaf_count, len"])

prop("C16", "Every Merkle leaf has an inclusion proof that verifies",
     "For every leaf of every built Merkle tree, in secure and plain mode and with every supported hash type, the generated inclusion proof is accepted by that tree and by any separately built tree over the same leaves in the same mode and hash type, and hashing its siblings from the leaf upwards gives the tree's root. "
     "Values that are not leaves, empty trees and trees changed since they were built are refused with an error or get a proof of the current leaves.",
     ["inputs", "histories", "configurations"],
     "all leaf lists and all positions in them, including odd sizes, duplicates and promoted nodes; both tree classes",
     "The tests verify one or two leaves of a five-leaf tree, only in plain mode although secure is the default.",
     [MTOOLS, MT, PROOF],
     [("sibling collection", MTOOLS + ":MerkleTools.get_proof_of_inclusion; " + MT + ":MerkleTree.get_proof_of_inclusion"), ("fold", MTOOLS + ":MerkleTools.verify_proof_of_inclusion")],
     [], ["get_proof_of_inclusion, verify_proof_of_inclusion"])

prop("C17", "Merkle proofs that do not chain to the current root are rejected",
     "A Merkle inclusion proof is accepted only if hashing the target's leaf with the listed siblings in the listed order and sides gives the claimed root and that root is the verifying tree's current root. "
     "So a genuine proof whose target, sibling, side, order, length or claimed root is altered, a proof from a tree with other leaves or an outdated one is never accepted, and no value that is not a leaf of the tree can be proved.",
     ["inputs", "histories", "configurations"],
     "all single and multiple alterations of genuine proofs, stale and foreign proofs, adversarial proofs built from known nodes; all hash types and modes",
     "The tests present two proofs to a tree with different leaves; no altered proof is ever presented.",
     [MTOOLS, MT],
     [("fold and compare", MTOOLS + ":MerkleTools.verify_proof_of_inclusion"), ("compare with own root", MT + ":MerkleTree.verify_proof_of_inclusion")],
     [], ["verify_proof_of_inclusion"])

prop("C18", "Proof objects survive encoding and compare by content",
     "A Merkle-tree proof (as the library generates it, or holding a flat list of byte strings) that is encoded to RLP or to JSON and decoded again equals the original in type, target, root, timestamp and every proof element, hence still verifies; content that an encoding cannot represent is refused with an error, never silently changed. "
     "Two proofs are equal exactly when all these fields are equal, equal proofs have equal hashes, and the proof's accessors, iteration and dictionary view report exactly the fields it was created with. A newly made proof is stamped with the time it was made.",
     ["inputs", "configurations"],
     "all proof contents: arbitrary byte targets and roots, proofs of any length, flat and (side, sibling) elements, all proof types",
     "The codec tests use one hand-made flat proof of three ASCII strings; no proof generated by a Merkle tree is ever encoded.",
     [PROOF, MT],
     [("codecs", PROOF + ":Proof.encode_json/decode_json/encode_rlp/decode_rlp"), ("equality", PROOF + ":Proof.__eq__, __hash__")],
     [], ["Proof codec round trips, ==, hash, dict(proof)"])

prop("C19", "Signatures verify for the signed data and signer only",
     "A signature made by a key pair over any bytes verifies with that key pair's public key, by itself or by any other key pair given that public key, and never verifies when the data, the signature or the public key is different; malformed signatures are answered with false. "
     "Authentication key pairs sign and verify but refuse to encrypt and decrypt; encryption key pairs refuse to sign and verify.",
     ["inputs", "configurations"],
     "all messages (empty, binary, large), all alterations of message or signature, all pairs of signer/verifier keys and classes",
     "The tests sign one constant message with one key and only check the accepting direction.",
     [KEYS],
     [("PKCS#1 v1.5 over SHA-256", KEYS + ":RsaKeyPair.sign, signature_valid"), ("role restrictions", KEYS + ":RsaAuthKeyPair, RsaEncKeyPair")],
     [], ["sign, signature_valid, encrypt, decrypt"])

prop("C20", "Encrypted messages open only intact, by the receiver, from the sender",
     "A message of any bytes encrypted by a general or encryption key pair for a receiver's public key decrypts to exactly the original at that receiver when the true sender's public key is given. "
     "With any other sender key, at any other receiver, or with any part of the envelope (session key, nonce, tag, ciphertext, signature) altered, exchanged or missing, decryption raises and never returns anything but the original message; the envelope does not contain the plaintext, and its session key is fresh, random and not to be read off the envelope.",
     ["inputs", "configurations"],
     "all messages, sender/receiver pairs and key pair classes, all single-field alterations and cross-message splices of envelopes",
     "The tests round-trip one message and try one wrong sender key; encryption key pairs and tampering are never exercised.",
     [KEYS],
     [("OAEP session key, AES-EAX, signature over the ciphertext", KEYS + ":RsaKeyPair.encrypt, decrypt")],
     [], ["encrypt, decrypt"])

prop("C21", "Saved keys load back identically and only with their passphrase",
     "A key pair saved to a string or a file with any non-empty Latin-1 passphrase (others are refused with an error) loads back, with that passphrase, as an equal key pair with the same nickname, public key and working private key, for every key pair class; with any other passphrase loading raises. "
     "The saved form never exposes the private key unencrypted, and key pairs of one class are equal exactly when public key and nickname are equal, with equal hashes for equal pairs.",
     ["inputs", "configurations"],
     "all nicknames and non-empty passphrases (any Unicode representable by the format), key sizes and classes, saved to string or file",
     "The tests save one key with one ASCII passphrase and load it with the same one; wrong passphrases, other classes and hashing are not tried.",
     [KEYS],
     [("passphrase-encrypted export", KEYS + ":RsaKeyPair.to_key_file/from_key_file/to_key_string/from_key_string"), ("identity", KEYS + ":RsaKeyPair.__eq__, __hash__")],
     [], ["to_key_*/from_key_*, ==, hash"])

prop("C22", "Password encryption round-trips and rejects everything else",
     "Data of any bytes encrypted with any password decrypts with that password to exactly the original data; decrypting with another password, or any altered, truncated, extended or foreign ciphertext raises instead of returning data. "
     "Encrypting the same data twice gives different ciphertexts, and the ciphertext does not contain the plaintext.",
     ["inputs"],
     "all data and password pairs, all byte-level alterations of the ciphertext",
     "One constant message and password is round-tripped; no wrong password or altered ciphertext is tried.",
     [UTILS],
     [("AES-EAX with SHA-256 of the password", UTILS + ":Utils.encrypt, Utils.decrypt")],
     [], ["Utils.encrypt, Utils.decrypt"])

prop("C23", "Nibble paths behave as nibble sequences and encode losslessly",
     "A nibble path made from bytes and an offset behaves as the sequence of half-bytes after that offset: length, element access, equality, prefix test, longest common prefix, concatenation and cutting from the front agree with list operations on that sequence, only cutting changes the path it is applied to, and every path can be printed. "
     "Compact encoding of any path with either node kind follows the hex-prefix format and decodes to an equal path and the same kind.",
     ["inputs"],
     "all byte strings and offsets of both parities, all pairs of paths, all cut lengths, both node kinds, chains of derived paths",
     "The tests use about ten hand-made two- or four-nibble paths and never decode.",
     [NIB],
     [("sequence view", NIB + ":NibblePath.at/__len__/__eq__/starts_with/consume"), ("derivation", NIB + ":common_prefix, combine, _create_new"), ("hex prefix", NIB + ":encode, decode_with_type, decode")],
     [], ["NibblePath public methods"])

prop("C24", "Trie nodes encode losslessly and are referenced by the 32-byte rule",
     "Every leaf, extension and branch node, also one changed in place since, encodes to the standard RLP form and decodes to a node of the same kind with equal path, children and data, and encoding the decoded node gives the same bytes. "
     "A node's reference is its own encoding when shorter than 32 bytes and the keccak256 hash of its encoding otherwise, and a child embedded or referenced either way is recovered unchanged from its parent. "
     "Decoding with the data left out gives the same kind of node with the same path and children and the marker byte '1' in place of whatever data there was, and encoding with the data left out gives the same RLP list without its last item.",
     ["inputs"],
     "all nodes over arbitrary paths, data of all length classes, and nested children on both sides of the 32-byte boundary",
     "The tests round-trip four fixed small nodes and never check references at the boundary or embedded children.",
     [NODE, NIB, HASH],
     [("codec", NODE + ":Leaf/Extension/Branch.encode, Node.decode"), ("reference rule", NODE + ":Node.into_reference, _prepare_reference_for_usage/_for_encoding")],
     [], ["Node.decode/encode/into_reference"])

prop("C25", "Queries and proofs change nothing",
     "Reading, membership tests, item access, proof generation, proof verification (valid or hostile proofs), encoding, taking views, root and length queries never change any observable state: root, contents, stored nodes, stored data, leaves, the proof or key passed in, nor the answers of later calls, whether they succeed or raise. "
     "Repeating a query gives the same answer; the one exception is that a Merkle tree may build itself when a query needs it built.",
     ["histories", "inputs", "configurations"],
     "all interleavings of queries (including failing ones) into histories of all trie classes and Merkle trees",
     "Tests do one query after the writes and do not compare the state before and after it.",
     [MPT, EMPT, MTOOLS, MT, PROOF],
     [("fresh node and path objects per query", MPT + ":MPT._get_node, NibblePath"), ("no writes on query paths", MPT + ":MPT.get/contains/get_proof_*/verify_*")],
     [], ["storage write events during queries", "state fingerprint before and after each query"])

prop("C26", "Data references encode losslessly and bind key and data",
     "A data reference decodes from its own encoding to an equal reference with the same key, data and hash, and its hash is the keccak256 of key followed by data. "
     "Two references are equal exactly when key and data are both equal, and decoding bytes that are not an intact reference (altered, truncated, other flag or stored hash) raises rather than giving a reference whose key or data disagrees with its hash.",
     ["inputs"],
     "all key/data byte pairs including re-splits of the same concatenation, all byte-level alterations of encodings",
     "The tests use one key and value, and compare equality only for a different value under the same key.",
     [EMPT],
     [("codec with hash check", EMPT + ":DataReference.encode, decode"), ("equality", EMPT + ":DataReference.__eq__, __hash__")],
     [], ["DataReference encode/decode/==/hash"])

prop("C27", "Hash, id, time, key-check and path helpers do what they state",
     "The hash helpers equal the standard algorithms on every input (the list form equals hashing the concatenation), generated ids are unique 32-digit hex strings, and a timestamp string parses back to the same second and zone. "
     "The RSA key check answers true exactly for well-formed keys of the requested kind and false, not an exception, for any other bytes unless exceptions were requested; generated RSA keys pass it, generated keys of every documented curve load, and file and directory checks agree with the file system for absolute and './'-relative names.",
     ["inputs", "configurations"],
     "all byte strings as data or candidate keys, all key kinds and formats, file names, time zones",
     "Each helper is tested with one constant; no malformed key other than 'Hello World', no timestamp parse.",
     [UTILS, HASH],
     [("hash helpers", HASH + ":keccak_hash, keccak_hash_list; " + UTILS + ":Utils.hash_data, sha256, sha512"), ("key check", UTILS + ":Utils.rsa_key_valid"), ("timestamps", UTILS + ":Utils.get_timestamp_string, from_timstamp_string"), ("paths", UTILS + ":Utils.file_exists, dir_exists")],
     [], ["Utils and keccak helpers"])

prop("C28", "A crash at any storage access loses at most the operation in flight",
     "If the process stops at any moment, for instance between any two accesses an update, a delete or a rebuild makes to the storages, then a trie reopened on what had reached the storages with the root noted before that operation has exactly the contents it had then, older noted roots too, and repeating the operation or doing another one instead gives the root it gives without a crash. "
     "For an extended trie every entry except the one being written reads its value and that one reads its old value or raises, and rebuilding from the data restores a trie with the contents from before or after the operation; a crash during a rebuild loses no data, never yields a wrong value, and rebuilding again restores the trie.",
     ["crash_points", "histories", "configurations"],
     "all crash points between storage accesses of every operation in all histories, plain, sparse and extended tries, secure on/off",
     "The tests never look at the storages in the middle of an operation and never reopen a trie after an interruption.",
     [MPT, EMPT],
     [("new nodes are added, none is changed or removed", MPT + ":MPT._store_node, _update, _delete"), ("trie and data written in turn", EMPT + ":EMPT.update, delete"), ("rebuild", EMPT + ":EMPT.build_trie")],
     [], ["every item set and delete on the storages", "root() after each operation"])

prop("C29", "Outcomes do not depend on the process, its environment or its past",
     "The same calls with the same inputs give the same roots, stored nodes, encodings, proofs (time stamps aside), verdicts, hashes and refusals in every process: whatever the hash seed, the optimisation level (python -O, -OO), the time zone, the locale, the working directory, the thread and whatever the process did before. "
     "In particular no check of an input disappears with assertions off, and what one process encoded, signed, encrypted or saved, another decodes, verifies, decrypts and loads.",
     ["configurations", "inputs", "histories"],
     "all environments a process can run in and all inputs, including hostile and malformed ones",
     "The tests run in one process with assertions on, one time zone and one locale.",
     [MPT, EMPT, NODE, NIB, PROOF, MT, MTOOLS, KEYS, UTILS],
     [("input checks", NODE + ":Node.decode; " + MPT + ":MPT._delete, _create_branch_node"), ("codecs", "encode/decode of every class"), ("text encodings", KEYS + ":to_key_string, from_key_string; " + UTILS + ":Utils.encrypt, decrypt")],
     [], ["results of public calls, process by process"])

prop("C30", "A refused write changes nothing",
     "Whenever a write raises, be it for a key or value of the wrong type, a value whose encoding is missing, fails or is not bytes, a key that is absent, or a bad argument of any kind, the object and its storages are as before: same root, contents, stored data and its order, leaves, ready state, keys and nickname, and no stored node is lost. "
     "Everything done afterwards goes as if the refused write had not been tried; a rebuild that is refused leaves the data as it is, and rebuilding once the obstacle is gone restores the trie.",
     ["inputs", "histories"],
     "all refused writes at all points of all histories of tries, extended and sparse tries, Merkle trees and key pairs",
     "The tests check that some wrong types raise, on an empty object, and never look at the state afterwards.",
     [MPT, EMPT, MT, MTOOLS, KEYS],
     [("checks before writing", EMPT + ":EMPT.update, delete; SparseEMPT.update, delete"), ("root set last", MPT + ":MPT.update, delete"), ("leaf checks", MT + ":MerkleTree.put; " + MTOOLS + ":MerkleTools.add_leaf")],
     [], ["state before and after each raising write"])

prop("C31", "Concurrent readers, and writers of different objects, answer as if alone",
     "Threads that only read one unchanging trie or built Merkle tree (reads, membership, proofs, verification, encoding, views), and threads that each work on objects of their own, get exactly the answers they get when running alone, however they are interleaved; nothing is changed by them. "
     "The same holds for tries that grow from one version on a shared node storage in different directions.",
     ["schedules", "histories"],
     "all interleavings of threads at line and byte code granularity over shared unchanging objects, separate objects, and separate versions on one storage",
     "The tests use one thread.",
     [MPT, EMPT, NODE, NIB, MT, MTOOLS, PROOF],
     [("no scratch state on objects or modules", MPT + ":MPT._get, _get_proof_of_inclusion, verify_*; " + MTOOLS + ":MerkleTools.get_proof_of_inclusion"), ("content-addressed nodes", MPT + ":MPT._store_node")],
     [], ["answers per thread", "hand-overs between threads"])

prop("C32", "Equality and hashing tell objects apart by what they stand for",
     "Two tries, or two built Merkle trees, compare equal exactly when their root hashes are equal; two proofs exactly when type, time stamp, key, root and steps are; two data references exactly when key and data are; two nibble paths exactly when they have the same nibbles; two key pairs of one class exactly when public key and nickname are. "
     "However the objects came to be, `!=` is the opposite of `==`, equality is symmetric, equal objects have equal hashes and can be found in sets and dictionaries, comparing changes nothing, and comparing a trie, tree, proof, reference or key pair with anything else answers false.",
     ["inputs", "histories"],
     "all pairs of objects of one kind, equal, nearly equal (leading zeros, shifted boundaries, one field apart) or different",
     "The tests compare one pair of references and of proofs made the same way.",
     [MPT, EMPT, MTOOLS, PROOF, NIB, KEYS],
     [("equality by root", MPT + ":MPT.__eq__, __hash__; " + MTOOLS + ":MerkleTools.__eq__, __hash__"), ("equality by fields", PROOF + ":Proof.__eq__, __hash__; " + KEYS + ":RsaKeyPair.__eq__, __hash__"), ("equality by nibbles", NIB + ":NibblePath.__eq__")],
     [], ["==, !=, hash, set and dict membership"])

prop("C33", "An operation needs and touches only the nodes on its key's path",
     "A get, membership test, reference, proof, update or delete on a non-empty trie reads only nodes on the path of its key (a delete that leaves a branch with one child also reads that child), writes nodes only if it is an update or delete, never lists, counts or deletes anything in the node storage, and makes a number of accesses proportional to the path; verifying a proof uses no storage. "
     "A storage that holds just these nodes is therefore enough for the same answer, proof and new root; an inclusion proof is exactly the nodes of the path from the root on, embedded ones included, an exclusion proof those as far as the trie goes and a marker. In an extended trie an operation on a key touches no entry of the data storage but that key's, and reads do not write there.",
     ["inputs", "histories"],
     "every operation of histories that build and prune tries of any shape, with and without key hashing, raw, extended and sparse; all subsets of small key universes",
     "The tests use dictionaries that hold everything and look at results only.",
     [MPT, EMPT],
     [("descent along the path", MPT + ":MPT._get_node, _get, _contains, _update, _delete"), ("proofs are the path", MPT + ":MPT._get_proof_of_inclusion, _get_proof_of_exclusion"), ("verification from the proof alone", MPT + ":MPT.verify_proof_of_inclusion, verify_proof_of_exclusion"), ("one data entry per operation", EMPT + ":EMPT.get, update, delete, contains")],
     [], ["get", "update", "delete", "contains", "get_proof_of_inclusion", "get_proof_of_exclusion", "verify_proof_of_inclusion", "verify_proof_of_exclusion", "get_reference"])

prop("C34", "An operation interrupted anywhere happens completely or not at all",
     "If an exception strikes anywhere inside an operation (a keyboard interrupt, exhausted memory, too small a stack), an update or delete of a plain or sparse trie has happened completely or not at all: root hash, contents, older versions and stored nodes are those from before or after it and the object goes on working; a query so interrupted raises or answers right, and changes nothing. "
     "In an extended trie all other entries are intact, the key being written reads its old or new value or raises, the data are those from before or after, and writing the key again or rebuilding makes the trie whole; an interrupted rebuild loses no data and never yields a wrong value. A Merkle tree keeps its leaves, gains those being added in full or a first part of a list, is not taken as built when its building was cut short, and can be built afterwards; a key pair keeps its old keys or has new ones that fit.",
     ["inputs", "histories", "crash_points"],
     "every line, and every byte code instruction, that operations pass in the package; every stack depth; tries of all shapes, on the same object again and again",
     "The tests never interrupt an operation.",
     [MPT, EMPT, MTOOLS, MT, KEYS],
     [("root assigned last", MPT + ":MPT.update, MPT.delete"), ("trie and data", EMPT + ":EMPT.update, delete, build_trie"), ("ready when built", MTOOLS + ":MerkleTools.make_tree"), ("keys replaced as a pair", KEYS + ":RsaKeyPair.generate_keypair")],
     [], ["update", "delete", "build_trie", "make_tree", "put", "put_list", "generate_keypair"])

prop("C35", "Finished work leaves nothing behind in memory",
     "The package keeps in memory only what objects still in use need: a value, proof, view, tree or storage is released once it was overwritten, deleted, refused or dropped and the objects it was given to are gone or have no use for it. "
     "However many operations were performed, on one object or on ever new ones, alike or all different, accepted or rejected, the memory in use does not grow with their number, apart from what the caller's storages hold; a cache with a fixed bound is allowed.",
     ["inputs", "histories"],
     "histories of any length of every kind of operation, with the objects handed in and out watched until they are released",
     "The tests run a few operations in a process that ends right afterwards.",
     [MPT, EMPT, MTOOLS, MT, PROOF, NODE, NIB, KEYS],
     [("tries hold a storage and a root", MPT + ":MPT.__init__"), ("values kept encoded", EMPT + ":EMPT.update, delete"), ("proofs built for one call", MPT + ":MPT.verify_proof_of_inclusion; " + MTOOLS + ":MerkleTools.verify_proof_of_inclusion")],
     [], ["every public operation"])

prop("C36", "Refusals raise the documented kind of error",
     "Proof and delete calls on an empty trie raise ValueError, an exclusion proof of a stored key PoeError, verifying a proof of the other kind TypeError; deleting an absent key from an extended or sparse trie raises KeyNotFoundError and reading one from an extended trie KeyError, data that do not match their reference raise InvalidReferenceError (it and KeyNotFoundError are no KeyErrors), a value without codec NotImplementedError, and a plain trie that needs a node its storage lacks lets the storage's KeyError through rather than answer. "
     "Arguments of the wrong type raise TypeError (ValueError in key pairs), a bad Merkle index IndexError, a proof of an unknown leaf or from an unbuilt Merkle tree ValueError, a damaged data reference ValueError, a wrong passphrase, password, sender, receiver or tampered message ValueError, a missing key file FileNotFoundError, setting or deleting a public key ValueError, an unreadable key checked with raise_exeptions KeyError, and what a class does not support (proof codecs of Patricia proofs, encryption by authentication key pairs, signing by encryption key pairs, Merkle exclusion proofs) NotImplementedError. "
     "None of these calls, nor loading a key from what is no saved key, is answered, and an argument that merely looks odd but is allowed (a subclass of bytes, a negative index in range, a hash name in capitals) is not refused.",
     ["inputs", "histories", "configurations"],
     "all calls with one thing wrong with them, on objects in every state a history leads to (new, filled, emptied, built, out of date, reset, loaded), secure on/off",
     "The tests try a few wrong types on fresh objects and mostly check only that something is raised; what calling code does depends on the kind.",
     [MPT, EMPT, MT, MTOOLS, PROOF, KEYS, UTILS, NODE, "src/pymt/utils/exceptions.py"],
     [("documented Raises sections", MPT + ":MPT.get_proof_of_inclusion, verify_proof_of_inclusion, get_proof_of_exclusion, verify_proof_of_exclusion"), ("type checks", EMPT + ":EMPT.get, update, delete; " + MT + ":MerkleTree.put, get"), ("error classes", "src/pymt/utils/exceptions.py")],
     [], ["every public call that can be refused"])

prop("C37", "Work stays in proportion to what is worked on, and every call ends",
     "Every call ends, also on hostile bytes, hostile proofs and storages in which part of a key leads from a node back to itself, within work in proportion to the bytes it was given. "
     "A call about one key of a trie (read, membership, update, delete, proof, verification) works in proportion to its key's length and the nodes on its path, not to the number of entries, to the size of values beyond handling them once, or to what the object did before; reading a leaf or the root of a built Merkle tree and adding a leaf take the same work however many leaves there are, its proofs and their verification grow with its depth only (finding the leaf aside). "
     "Building, rebuilding, encoding, decoding (apart from copies the rlp library makes) and proofs of many parts grow in proportion to what they work on.",
     ["inputs", "histories"],
     "inputs of all sizes the recursion limit allows: entries, key lengths, nested prefixes, leaves, proof parts, bytes, numbers of past calls; hostile encodings, proofs and storages",
     "The tests use small inputs and do not look at the effort; a loop too many, a rebuild per query or a quadratic copy passes them all.",
     [MPT, EMPT, MT, MTOOLS, PROOF, NIB, NODE],
     [("one path per operation", MPT + ":MPT._get, _update, _delete"), ("path arithmetic without copying", NIB + ":NibblePath.consume, starts_with, common_prefix"), ("levels kept", MTOOLS + ":MerkleTools.make_tree, get_proof_of_inclusion"), ("one pass verification", MPT + ":MPT.verify_proof_of_inclusion")],
     [], ["every public operation"])

prop("C38", "The package acts through its results alone and shows no secret",
     "Apart from the key files it is asked to save, load or look up, nothing the package does (valid, refused or hostile calls) opens or leaves files, writes to the standard streams or logs, warns, starts threads or processes, uses the network, runs anything it decodes, or changes process-wide state: environment, working directory, random generator, limits, handlers, hooks, filters, locale, other modules. "
     "A key file is saved under exactly the name given, whatever characters it has, and nothing else is made or changed, nor does loading or a refused call change any file. "
     "Private keys, passphrases, passwords and plaintexts appear in nothing but the results and protected forms meant to hold them: not in printed objects, public parts, error texts, signatures, messages or files (the key check, asked to raise, names the bytes it was given).",
     ["inputs", "histories", "configurations"],
     "all calls of the public interface, with valid, refused and hostile arguments; all file names; keys, passphrases, passwords and messages of any content",
     "Tests look at results only; a stray print, a debugging file, a seeded generator, an evaluated input or a passphrase in an error text passes them all.",
     [MPT, EMPT, MT, MTOOLS, PROOF, KEYS, UTILS],
     [("printed forms hold the public key only", KEYS + ":RsaKeyPair.__repr__, __str__"), ("errors name types, not contents", KEYS + ":RsaKeyPair.sign, from_key_file"), ("the file asked for", KEYS + ":RsaKeyPair.to_key_file, from_key_file"), ("codecs that only parse", PROOF + ":Proof.decode_json, decode_rlp")],
     [], ["every public call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
