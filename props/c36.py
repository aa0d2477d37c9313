"""C36: refusals raise the documented kind of error."""
import json
import os
import random
import shutil
import tempfile

import rlp

from vlib import boot, gen, keys as K, ref_merkle as M, ref_trie as R, tries as T, forge as F
from vlib.core import scenario
from vlib.objs import Item, enc, make
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.exceptions import KeyNotFoundError, InvalidReferenceError, PoeError
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node, Leaf, Extension, Branch
from pymt.utils.utils import Utils

ID = "C36"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: calls outside the contract made between valid ones on live objects; the class of every exception checked against the documented one"
LEVEL_NOTE = "every refused call in the executed workloads raised the documented kind of error, and none was answered"
RULE = ("a case is a live object with random contents and a shuffled list of calls that have to be refused, each with its documented kind of error, and "
        "valid calls between them that must not be; non-trivial when more than ten refusals of more than five kinds were seen")
REQUIRED = ["refusals", "kind_ValueError", "kind_TypeError", "kind_KeyError", "kind_KeyNotFoundError", "kind_PoeError", "kind_InvalidReferenceError",
            "kind_NotImplementedError", "kind_IndexError", "kind_FileNotFoundError", "missing_nodes", "allowed", "not_a_saved_key"]
ASSUMPTIONS = ["one thing is wrong with a call at a time", "how a plain trie reports an absent key is not prescribed, except that it is an error"]


class NoCodec:
    pass


class HalfCodec:
    def encode_rlp(self):
        return b"half"


class OtherHalf:
    @staticmethod
    def decode_rlp(data):
        return data


class Key(bytes):
    pass


def not_bytes(rng):
    return rng.choice(("text", "", None, 0, 7, 1.5, True, [b"x"], (b"x",), {}, {b"a": 1}, object(), bytearray(b"key"), memoryview(b"key"), b"x".hex, bytes, set(), range(3)))


def not_text(rng):
    return rng.choice((b"text", b"", None, 0, 7, 1.5, True, ["x"], ("x",), {}, object(), bytearray(b"key"), str))


def not_proof(rng, p=None):
    r = [b"proof", "proof", None, 0, (), [b"x"], {}, object(), Proof]
    if p is not None:
        r += [p.proof, dict(p.items()), p.items()]
    return rng.choice(r)


class Calls:
    """Collects calls that have to be refused, and makes them in some order."""

    def __init__(self, mon, rng):
        self.mon, self.rng, self.todo, self.kinds = mon, rng, [], set()
        self.n = 0

    def refuse(self, kind, what, fn, *args, **kw):
        self.todo.append((kind, what, fn, args, kw))

    def run(self, probe=lambda: None):
        self.rng.shuffle(self.todo)
        for kind, what, fn, args, kw in self.todo:
            try:
                res = fn(*args, **kw)
            except Exception as e:
                self.mon.check(isinstance(e, kind), "%s raised %s (%.80s), documented is %s", what, type(e).__name__, e, _name(kind))
                # these exist to be told apart from the KeyError of a storage
                self.mon.check(kind not in (KeyNotFoundError, InvalidReferenceError, PoeError) or not isinstance(e, LookupError),
                               "%s raised %s, which is also a %s", what, type(e).__name__, "KeyError" if isinstance(e, KeyError) else "LookupError")
                self.mon.saw("refusals")
                for k in kind if isinstance(kind, tuple) else (kind,):
                    if isinstance(e, k):
                        self.mon.saw("kind_" + k.__name__)
                        self.kinds.add(k)
                self.n += 1
                self.mon.state(what, type(e).__name__)
            else:
                self.mon.check(False, "%s was answered with %s, documented is %s", what, T.hx(res), _name(kind))
            if self.rng.random() < 0.15:
                probe()
        self.todo = []
        probe()

    def allow(self, what, fn, *args, **kw):
        res = T.attempt(fn, *args, **kw)
        self.mon.check(not T.raised(res), "%s was refused: %s", what, res)
        self.mon.saw("allowed")
        return res


def _name(kind):
    return " or ".join(k.__name__ for k in kind) if isinstance(kind, tuple) else kind.__name__


def gen_case(rng, size):
    c = gen.history(rng, size, rng.random() < 0.4, False, False)
    c["seed"] = rng.getrandbits(48)
    return c


def absent_keys(rng, model, keys, n=4):
    return [k for k in keys + gen.near_misses(rng, keys, 6) if k not in model][:n] + [b"an absent key of some length"]


def proofs_of(t, model, keys):
    poi = [t.get_proof_of_inclusion(k) for k in list(model)[:3]]
    poe = [t.get_proof_of_exclusion(k) for k in keys if k not in model][:3]
    return poi, poe


def other_kinds(c, what, t, poi, poe):
    mt = F.mk(b"leaf", b"00", ((b"left", b"00"),), b"MT-POI")
    for p in poe + [mt]:
        c.refuse(TypeError, "verify_proof_of_inclusion of a %r proof by %s" % (p.type, what), t.verify_proof_of_inclusion, p)
    for p in poi + [mt]:
        c.refuse(TypeError, "verify_proof_of_exclusion of a %r proof by %s" % (p.type, what), t.verify_proof_of_exclusion, p)


def run_plain(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    store = {}
    t = MPT(store, secure=secure)
    model = {}
    c = Calls(mon, rng)
    empty(c, "a new trie", t, rng)
    c.run()
    ops = [o for o in case["ops"] if not (o[0] == "put" and not o[2])]
    cuts = sorted(rng.randrange(len(ops) + 1) for _ in range(2)) if ops else []
    for i, op in enumerate(ops + [None]):
        if i in cuts or op is None:
            plain_calls(c, t, store, model, case["keys"], secure, rng)
        if op is not None:
            T.apply(t, model, op)
    for k in list(model):
        t.delete(k)
    if ops:
        empty(c, "an emptied trie", t, rng)
        empty(c, "an emptied trie, opened again", MPT(store, t.root(), secure=secure), rng)
        d = T.attempt(lambda: MPT.decode(t.encode()))
        if not T.raised(d):
            empty(c, "an emptied trie, loaded", d, rng)
        c.run()
    if c.n > 10 and len(c.kinds) > 3:
        mon.mark()


def empty(c, what, t, rng):
    k = rng.choice((b"", b"k", b"key", b"x" * 32))
    c.refuse((ValueError, KeyError), "get from " + what, t.get, k)
    c.refuse((ValueError, KeyError), "[] of " + what, t.__getitem__, k)
    c.refuse(ValueError, "delete from " + what, t.delete, k)
    c.refuse(ValueError, "del of " + what, t.__delitem__, k)
    c.refuse(ValueError, "inclusion proof from " + what, t.get_proof_of_inclusion, k)
    c.refuse(ValueError, "exclusion proof from " + what, t.get_proof_of_exclusion, k)
    for root in (t.root_hash(), b"r" * 32):
        for nodes in ((), (b"node",), (b"\xc0",)):
            poi, poe = F.mk(k, root, nodes, F.POI), F.mk(k, root, nodes, F.POE)
            c.refuse(ValueError, "verify_proof_of_inclusion by " + what, t.verify_proof_of_inclusion, poi)
            c.refuse(ValueError, "verify_proof_of_exclusion by " + what, t.verify_proof_of_exclusion, poe)
    other_kinds(c, what, t, [F.mk(k, t.root_hash(), (), F.POI)], [F.mk(k, t.root_hash(), (), F.POE)])


def plain_calls(c, t, store, model, keys, secure, rng):
    if not model:
        empty(c, "a trie without entries", t, rng)
        return c.run()
    gone = absent_keys(rng, model, keys)
    for k in list(model)[:6]:
        c.refuse(PoeError, "exclusion proof of the stored key %s" % T.hx(k), t.get_proof_of_exclusion, k)
    for k in gone:
        for n in ("get", "__getitem__", "delete", "__delitem__", "get_proof_of_inclusion"):
            c.refuse(Exception, "%s of the absent key %s" % (n, T.hx(k)), getattr(t, n), k)
    poi, poe = proofs_of(t, model, gone)
    other_kinds(c, "a trie", t, poi, poe)
    o = MPT({}, t.root(), secure=secure)
    other_kinds(c, "a trie known by its root", o, poi, poe)
    # nodes that are not in the storage
    k = rng.choice(list(model))
    lost = dict(store)
    bare = MPT(lost, t.root(), secure=secure)
    poi = T.attempt(t.get_proof_of_inclusion, k)
    path = [R.keccak256(n) for n in poi.proof] if not T.raised(poi) else []
    path = [h for h in path if h in lost]
    if path:
        del lost[rng.choice(path)]
        for n in ("get", "__getitem__", "contains", "__contains__", "delete", "__delitem__", "get_proof_of_inclusion", "get_proof_of_exclusion"):
            c.refuse(KeyError, "%s of a stored key with a node of its path missing" % n, getattr(bare, n), k)
        c.refuse(KeyError, "update of a stored key with a node of its path missing", bare.update, k, b"another value")
        c.mon.saw("missing_nodes")
    c.run(lambda: T.check_key(c.mon, t, model, rng.choice(keys), secure, 0))
    for k in list(model)[:2]:
        c.mon.check(c.allow("get of a stored key", t.get, Key(k)) == model[k], "get of an equal key gave something else")


def run_extended(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    nodes, data = {}, {}
    t = EMPT(nodes, data, secure=secure)
    s = SparseEMPT({}, secure=secure)
    c = Calls(mon, rng)
    model = {}
    ops = case["ops"]
    cuts = sorted(rng.randrange(len(ops) + 1) for _ in range(2)) if ops else []
    for i, op in enumerate(ops + [None]):
        if i in cuts or op is None:
            extended_calls(c, t, s, model, case["keys"], secure, rng, nodes, data)
        if op is None:
            break
        if op[0] == "put":
            v = make(rng.randrange(3), op[2])
            t.update(op[1], v)
            s[op[1]] = v
            model[op[1]] = op[2]
        elif op[1] in model:
            del t[op[1]]
            s.delete(op[1])
            del model[op[1]]
    if c.n > 10 and len(c.kinds) > 5:
        mon.mark()


def extended_calls(c, t, s, model, keys, secure, rng, nodes, data):
    gone = absent_keys(rng, model, keys)
    both = (("an extended trie", t), ("a sparse trie", s))
    for what, x in both:
        for k in gone:
            c.refuse(KeyNotFoundError, "delete of an absent key from " + what, x.delete, k)
            c.refuse(KeyNotFoundError, "del of an absent key of " + what, x.__delitem__, k)
            c.refuse(Exception, "reference of an absent key of " + what, x.get_reference, k)
        for n in ("delete", "contains", "get_reference", "get_proof_of_inclusion", "get_proof_of_exclusion", "__contains__", "__delitem__"):
            b = not_bytes(rng)
            c.refuse(TypeError, "%s of the key %r of %s" % (n, b, what), getattr(x, n), b)
        for n in ("update", "__setitem__"):
            b = not_bytes(rng)
            c.refuse(TypeError, "%s with the key %r of %s" % (n, b, what), getattr(x, n), b, rng.choice((b"value", Item(b"value"), bytearray(b"v"))))
            for v in ("text", "", None, 0, 1.5, [b"x"], (b"x",), {}, object(), NoCodec(), HalfCodec(), OtherHalf(), memoryview(b"x")):
                k = rng.choice(keys)
                c.refuse(NotImplementedError, "%s with the value %r of %s" % (n, v, what), getattr(x, n), k, v)
        for k in list(model)[:3]:
            c.refuse(PoeError, "exclusion proof of a stored key of " + what, x.get_proof_of_exclusion, k)
        for n in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
            p = not_proof(rng)
            c.refuse(TypeError, "%s of %r by %s" % (n, p, what), getattr(x, n), p)
        if not model:
            for k in gone[:2]:
                c.refuse(ValueError, "inclusion proof from an empty " + what, x.get_proof_of_inclusion, k)
                c.refuse(ValueError, "exclusion proof from an empty " + what, x.get_proof_of_exclusion, k)
            c.refuse(ValueError, "verify_proof_of_inclusion by an empty " + what, x.verify_proof_of_inclusion, F.mk(b"k", x.root_hash(), (), F.POI))
            c.refuse(ValueError, "verify_proof_of_exclusion by an empty " + what, x.verify_proof_of_exclusion, F.mk(b"k", x.root_hash(), (), F.POE))
        else:
            poi, poe = proofs_of(x, model, gone)
            other_kinds(c, what, x, poi, poe)
            r = x.get_root_trie()
            other_kinds(c, "the root of " + what, r, poi, poe)
            for n in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
                p = not_proof(rng, poi[0])
                c.refuse(TypeError, "%s of %r by the root of %s" % (n, p, what), getattr(r, n), p)
    for k in gone:
        c.refuse(KeyError, "get of an absent key", t.get, k)
        c.refuse(KeyError, "[] of an absent key", t.__getitem__, k)
        c.refuse(KeyError, "pop of an absent key", t.pop, k)
    for n in ("get", "__getitem__"):
        b = not_bytes(rng)
        c.refuse(TypeError, "%s of the key %r" % (n, b), getattr(t, n), b)
    for k in (gone + list(model))[:4]:
        c.refuse(TypeError, "[] of a sparse trie", s.__getitem__, k)
    if not model:
        c.refuse(KeyError, "popitem of an empty extended trie", t.popitem)
    # what others did to the data
    if model:
        k = rng.choice(list(model))
        other = rng.choice(list(model))
        d2 = dict(data)
        x = EMPT(nodes, d2, root=t.root(), secure=secure)
        v = rng.choice((model[k] + b"\0", model[k] + model[k] + b"x", b"altered" + model[k], model[other] if model[other] != model[k] else b"x" + model[k]))
        d2[k] = make(rng.randrange(3), v)
        for n in ("get", "__getitem__", "pop"):
            c.refuse(InvalidReferenceError, "%s of altered data" % n, getattr(x, n), k)
        c.refuse(InvalidReferenceError, "pop of altered data with a default", x.pop, k, b"default")
        c.refuse(InvalidReferenceError, "setdefault of altered data", x.setdefault, k, b"default")
        d3 = dict(data)
        y = EMPT(nodes, d3, root=t.root(), secure=secure)
        del d3[k]
        for n in ("get", "__getitem__"):
            c.refuse(KeyError, "%s of lost data" % n, getattr(y, n), k)
        c.refuse(ValueError, "an extended trie on used nodes without a root", EMPT, dict(nodes) or {b"x": b"y"}, {})
    c.refuse(TypeError, "an extended trie without data storage", EMPT, {}, None)

    def probe():
        k = rng.choice(keys)
        c.mon.check((k in t) == (k in model) == s.contains(k), "membership changed")
        if k in model:
            c.mon.check(enc(t[k]) == model[k], "the value changed")
    c.run(probe)
    for k in list(model)[:2]:
        c.allow("get with a key of a kind of bytes", t.get, Key(k))


def gen_merkle(rng, size):
    return {"n": rng.choice((1, 2, 3, 4, 5, 7, 8, 9, size * 2 + 1)), "hash": rng.choice(M.HASHES), "secure": rng.random() < 0.5, "seed": rng.getrandbits(48)}


def run_merkle(case, mon):
    rng = random.Random(case["seed"])
    c = Calls(mon, rng)
    t = MerkleTree(secure=case["secure"], hash_type=case["hash"])
    u = MerkleTools(secure=case["secure"], hash_type=case["hash"])
    both = (("a Merkle tree", t), ("Merkle tools", u))
    for what, x in both:
        c.refuse(ValueError, "root of an empty unbuilt tree", u.get_merkle_root)
        c.refuse(ValueError, "proof from an empty %s" % what, x.get_proof_of_inclusion, b"leaf")
        c.refuse(IndexError, "leaf 0 of an empty tree", x.get_leaf, 0)
    c.refuse(IndexError, "get(0) of an empty tree", t.get, 0)
    c.run()
    leaves = [b"%d" % i + gen.rbytes(rng, rng.randrange(40)) for i in range(case["n"])]
    n = len(leaves)
    for l in leaves:
        t.put(l)
        u.add_leaf(l)
    for l in leaves[:3]:
        for what, x in both:
            c.refuse(ValueError, "proof from a %s that is not built" % what, x.get_proof_of_inclusion, l)
    c.refuse(ValueError, "root of Merkle tools that are not built", u.get_merkle_root)

    def bad():
        for x in (not_bytes(rng), not_bytes(rng), bytearray(b"leaf")):
            c.refuse(TypeError, "put(%r)" % (x,), t.put, x)
            c.refuse(TypeError, "proof of the leaf %r" % (x,), t.get_proof_of_inclusion, x)
            c.refuse(TypeError, "put_list with %r" % (x,), t.put_list, [x])
        for x in (b"leaf", "leaf", None, 3, {b"a"}, {}, iter([b"a"]), bytearray(b"x")):
            c.refuse(TypeError, "put_list(%r)" % (x,), t.put_list, x)
        for x in ("0", None, 0.0, b"0", [0], (0,)):
            c.refuse(TypeError, "get(%r)" % (x,), t.get, x)
        for i in (n, n + 1, 10 ** 6, 10 ** 30, -n - 1, -10 ** 9):
            c.refuse(IndexError, "get(%d) of %d leaves" % (i, n), t.get, i)
            c.refuse(IndexError, "get_leaf(%d) of %d leaves" % (i, n), u.get_leaf, i)
        for x in (b"absent", b"", leaves[0] + b"\0", leaves[-1][:-1], b"z" * 32):
            if x not in leaves:
                for what, y in both:
                    c.refuse(ValueError, "proof of a leaf %s does not have" % what, y.get_proof_of_inclusion, x)
        for i in range(2):
            c.refuse(TypeError, "verify_proof_of_inclusion of no proof", t.verify_proof_of_inclusion, not_proof(rng))
        c.refuse(NotImplementedError, "exclusion proof of a Merkle tree", t.get_proof_of_exclusion)
    bad()
    c.run(lambda: mon.check(t.get_count() == n == len(u), "the number of leaves changed"))
    u.make_tree()
    t.make_tree()
    bad()
    p = t.get_proof_of_inclusion(rng.choice(leaves))
    c.refuse(TypeError, "the content of a proof as a proof", t.verify_proof_of_inclusion, p.proof)
    root = u.get_merkle_root()
    c.run(lambda: mon.check(t.verify_proof_of_inclusion(p) and u.get_merkle_root() == root, "a proof of an unchanged tree is no longer accepted"))
    for i in (0, n - 1, -1, -n, True if n > 1 else 0):
        mon.check(c.allow("get(%d)" % i, t.get, i) == u.get_leaf(i), "get(%d) is not the leaf there", i)
    # out of date
    t.put(b"one more")
    u.add_leaf(b"one more")
    for what, x in both:
        c.refuse(ValueError, "proof from a %s with a leaf added" % what, x.get_proof_of_inclusion, rng.choice(leaves))
    c.refuse(ValueError, "root of Merkle tools with a leaf added", u.get_merkle_root)
    c.run()
    t.reset_tree()
    u.reset_tree()
    for what, x in both:
        c.refuse(ValueError, "proof from a %s that was reset" % what, x.get_proof_of_inclusion, rng.choice(leaves))
    c.refuse(ValueError, "root of Merkle tools that were reset", u.get_merkle_root)
    for s in (1, 0, None, "yes", b""):
        c.refuse(TypeError, "MerkleTree(secure=%r)" % (s,), MerkleTree, secure=s)
    for h in ("sha1", "sha-256", "", "sha3", "md4", "blake2b", "sha256 ", "shake_128", "__name__", "new"):
        c.refuse(Exception, "hash type %r" % h, rng.choice((MerkleTree, MerkleTools)), hash_type=h)
    c.run()
    c.allow("hash type in upper case", MerkleTree, hash_type=case["hash"].upper())
    if c.n > 10 and n > 2:
        mon.mark()


def gen_small(rng, size):
    return {"seed": rng.getrandbits(48), "n": size}


def run_keys(case, mon):
    rng = random.Random(case["seed"])
    c = Calls(mon, rng)
    cls = rng.choice((RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair))
    a, b = K.pool(cls, 2)
    general = K.pool(RsaKeyPair, 2)
    pub = general[0].public_key
    d = tempfile.mkdtemp(dir=boot._cache)
    path = os.path.join(d, "key")
    pw = rng.choice(("password", "p\u00e4ss", "x" * 40))
    data = gen.rbytes(rng, rng.randrange(80))
    for x in (not_bytes(rng), not_bytes(rng)):
        if cls is not RsaEncKeyPair:
            c.refuse(ValueError, "sign(%r)" % (x,), a.sign, x)
            c.refuse(ValueError, "signature_valid of %r" % (x,), a.signature_valid, x, b"sig")
            c.refuse(ValueError, "signature_valid with the signature %r" % (x,), a.signature_valid, data, x)
            if x is not None:
                c.refuse(ValueError, "signature_valid with the public key %r" % (x,), a.signature_valid, data, b"sig", x)
        if cls is not RsaAuthKeyPair:
            c.refuse(ValueError, "encrypt(%r)" % (x,), a.encrypt, x, pub)
            c.refuse(ValueError, "encrypt for %r" % (x,), a.encrypt, data, x)
            c.refuse(ValueError, "decrypt(%r)" % (x,), a.decrypt, x, pub)
            c.refuse(ValueError, "decrypt from %r" % (x,), a.decrypt, b"{}", x)
    if cls is not RsaAuthKeyPair:
        msg = a.encrypt(data, b.public_key)
        mon.check(c.allow("decrypt", b.decrypt, msg, a.public_key) == data, "decrypted to something else")
        c.refuse(ValueError, "decrypt with another sender's key", b.decrypt, msg, b.public_key)
        c.refuse(ValueError, "decrypt by another receiver", a.decrypt, msg, a.public_key)
    else:
        for x in (data, b""):
            c.refuse(NotImplementedError, "encrypt by an authentication key pair", a.encrypt, x, b.public_key)
            c.refuse(NotImplementedError, "decrypt by an authentication key pair", a.decrypt, general[0].encrypt(x, general[0].public_key), pub)
    if cls is RsaEncKeyPair:
        c.refuse(NotImplementedError, "sign by an encryption key pair", a.sign, data)
        c.refuse(NotImplementedError, "signature_valid by an encryption key pair", a.signature_valid, data, general[0].sign(data))
        c.refuse(NotImplementedError, "signature_valid by an encryption key pair", a.signature_valid, data, general[0].sign(data), pub)
    text = a.to_key_string(pw)
    a.to_key_file(path, pw)
    for w in (pw + "x", "", pw[:-1], pw.upper() + "1", "other"):
        c.refuse(ValueError, "from_key_string with the passphrase %r" % w, cls.from_key_string, text, w)
        c.refuse(ValueError, "from_key_file with the passphrase %r" % w, cls.from_key_file, path, w)
    for x in (not_text(rng), not_text(rng)):
        c.refuse(ValueError, "from_key_string(%r)" % (x,), cls.from_key_string, x, pw)
        c.refuse(ValueError, "from_key_string with the passphrase %r" % (x,), cls.from_key_string, text, x)
        c.refuse(ValueError, "to_key_string(%r)" % (x,), a.to_key_string, x)
        c.refuse(ValueError, "from_key_file(%r)" % (x,), cls.from_key_file, x, pw)
        c.refuse(ValueError, "from_key_file with the passphrase %r" % (x,), cls.from_key_file, path, x)
        c.refuse(ValueError, "to_key_file(%r)" % (x,), a.to_key_file, x, pw)
        c.refuse(ValueError, "to_key_file with the passphrase %r" % (x,), a.to_key_file, os.path.join(d, "no"), x)
        if x is not None:
            c.refuse(ValueError, "the nickname %r" % (x,), cls, x, False)
            if not isinstance(x, int):
                c.refuse(ValueError, "a key length of %r" % (x,), a.generate_keypair, x)
    # what is no saved key
    kept = json.loads(text)
    hexed = kept["private_key"]
    bad = ["", "no key", text[:-1], text[: len(text) // 2], text[1:], "{}", "[]", "null", "5", json.dumps({"nickname": "x"}), json.dumps(kept["public_key"]), text + text, pub.decode(),
           json.dumps(dict(kept, private_key="")), json.dumps(dict(kept, private_key=hexed[: len(hexed) // 2])), json.dumps(dict(kept, private_key="zz" + hexed[2:])),
           json.dumps(dict(kept, private_key=None)), json.dumps({k: v for k, v in kept.items() if k != "private_key"}), json.dumps(dict(kept, private_key=b"no key at all".hex()))]
    other = os.path.join(d, "other")
    for x in rng.sample(bad, 6):
        r = T.attempt(cls.from_key_string, x, pw)
        mon.check(T.raised(r), "%.60r... is no saved key, and from_key_string gave %r", x, r)
        with open(other, "w") as f:
            f.write(x)
        r = T.attempt(cls.from_key_file, other, pw)
        mon.check(T.raised(r), "%.60r... is no saved key, and from_key_file gave %r", x, r)
        os.unlink(other)
        mon.saw("not_a_saved_key")
    for p in (os.path.join(d, "missing"), os.path.join(d, "no such directory", "key"), d, ""):
        c.refuse(FileNotFoundError, "from_key_file of a missing file", cls.from_key_file, p, pw)
    for n in ("public_key", "public_key_string"):
        c.refuse(ValueError, "setting " + n, setattr, a, n, getattr(b, n))
        c.refuse(ValueError, "deleting " + n, delattr, a, n)
    c.refuse(ValueError, "deleting the nickname", delattr, a, "nickname")
    before = (a.public_key, a.nickname)
    c.run(lambda: mon.check((a.public_key, a.nickname) == before, "the key pair changed"))
    mon.check(os.listdir(d) == ["key"], "a refused call left a file: %r", os.listdir(d))
    shutil.rmtree(d)
    if c.n > 10:
        mon.mark()


def run_helpers(case, mon):
    rng = random.Random(case["seed"])
    c = Calls(mon, rng)
    K.pool(RsaKeyPair, 2)
    pub = K.pool(RsaKeyPair, 2)[0].public_key
    data = gen.rbytes(rng, rng.randrange(80))
    blob = Utils.encrypt(data, "password")
    for x in (not_bytes(rng), not_bytes(rng), not_bytes(rng)):
        c.refuse(TypeError, "hash_data(%r)" % (x,), Utils.hash_data, x)
        c.refuse(TypeError, "sha256(%r)" % (x,), Utils.sha256, x, rng.random() < 0.5)
        c.refuse(TypeError, "sha512(%r)" % (x,), Utils.sha512, x, rng.random() < 0.5)
        c.refuse(TypeError, "encrypt(%r)" % (x,), Utils.encrypt, x, "password")
        c.refuse(TypeError, "decrypt(%r)" % (x,), Utils.decrypt, x, "password")
        c.refuse(TypeError, "rsa_key_valid(%r)" % (x,), Utils.rsa_key_valid, x)
        c.refuse(TypeError, "a reference with the key %r" % (x,), DataReference, x, data)
        c.refuse(TypeError, "a reference to %r" % (x,), DataReference, b"key", x)
        c.refuse(TypeError, "a reference from %r" % (x,), DataReference.decode, x)
        c.refuse(TypeError, "a proof from %r" % (x,), Proof.decode_rlp, x)
        c.refuse(TypeError, "a proof of %r" % (x,), Proof, x, b"r" * 32, (b"n",), rng.choice(Proof.accepted_types))
        c.refuse(TypeError, "a proof with the root %r" % (x,), Proof, b"k", x, (b"n",), rng.choice(Proof.accepted_types))
        c.refuse(TypeError, "a proof of the type %r" % (x,), Proof, b"k", b"r" * 32, (b"n",), x)
        if not isinstance(x, tuple):
            c.refuse(TypeError, "a proof containing %r" % (x,), Proof, b"k", b"r" * 32, x, rng.choice(Proof.accepted_types))
        if not isinstance(x, bytearray):
            c.refuse(TypeError, "a node from %r" % (x,), Node.decode, x)
            c.refuse(TypeError, "a leaf with %r" % (x,), Leaf, NibblePath(b"p"), x)
            c.refuse(TypeError, "an extension to %r" % (x,), Extension, NibblePath(b"p"), x)
            c.refuse(TypeError, "a branch to %r" % (x,), Branch, [b""] * 15 + [x])
            c.refuse(TypeError, "a branch to %r" % (x,), Branch, [x] + [b""] * 15)
            if x is not None:
                c.refuse(TypeError, "a branch with %r" % (x,), Branch, [b""] * 16, x)
        c.refuse(TypeError, "a leaf with the path %r" % (x,), Leaf, x, b"data")
        c.refuse(TypeError, "an extension with the path %r" % (x,), Extension, x, b"r" * 32)
        c.refuse(TypeError, "a reference to the node %r" % (x,), Node.into_reference, x)
        if not isinstance(x, list):
            c.refuse(TypeError, "a branch of %r" % (x,), Branch, x)
    c.refuse(TypeError, "a leaf with a path of bytes", Leaf, b"path", b"data")
    c.refuse(TypeError, "an extension with a path of bytes", Extension, b"path", b"r" * 32)
    for x in (not_text(rng), not_text(rng)):
        c.refuse(TypeError, "encrypt with the password %r" % (x,), Utils.encrypt, data, x)
        c.refuse(TypeError, "decrypt with the password %r" % (x,), Utils.decrypt, blob, x)
        c.refuse(TypeError, "file_exists(%r)" % (x,), Utils.file_exists, x)
        c.refuse(TypeError, "dir_exists(%r)" % (x,), Utils.dir_exists, x)
        c.refuse(TypeError, "rsa_key_valid with the type %r" % (x,), Utils.rsa_key_valid, pub, x)
        c.refuse(TypeError, "a proof from the JSON %r" % (x,), Proof.decode_json, x)
    for x in ("sha1", "SHA256", "", "md5", "sha256 ", "sha-512", None, 256):
        c.refuse(ValueError, "hash_data with the type %r" % (x,), Utils.hash_data, data, rng.random() < 0.5, x)
    for x in ("Public", "", "secret", "public ", "privat"):
        c.refuse(ValueError, "rsa_key_valid with the type %r" % x, Utils.rsa_key_valid, pub, x)
    for x in (0, 1, None, "yes", b""):
        c.refuse(TypeError, "rsa_key_valid with raise_exeptions=%r" % (x,), Utils.rsa_key_valid, pub, "public", x)
    for x in (b"", b"not a key", pub[:-40], pub[40:], data):
        for kind in ("public", "private"):
            c.refuse(KeyError, "rsa_key_valid of %.40r" % (x,), Utils.rsa_key_valid, x, kind, True)
    for w in ("Password", "", "password ", "passwor"):
        c.refuse(ValueError, "decrypt with the password %r" % w, Utils.decrypt, blob, w)
    i = rng.randrange(len(blob))
    c.refuse(ValueError, "decrypt of a damaged blob", Utils.decrypt, blob[:i] + bytes([blob[i] ^ (1 << rng.randrange(8))]) + blob[i + 1:], "password")
    c.refuse(ValueError, "decrypt of a cut blob", Utils.decrypt, blob[: rng.randrange(32, len(blob))] if data else blob[:20], "password")
    # references
    key = gen.rbytes(rng, rng.randrange(40))
    ref = DataReference(key, data)
    flag, k, d, h = rlp.decode(ref.encode())
    for parts in ([b"FE", k, d, h], [b"ff", k, d, h], [b"", k, d, h], [b"FFF", k, d, h], [flag, k + b"x", d, h], [flag, k, d + b"\0", h], [flag, b"x" + k, d, h],
                  [flag, k, d, h + b"\x01"], [flag, k, d, b"\x01"], [flag, k, d, b""], [flag, k, d, h[:-1]], [flag, k, d, b"\x01" + h]):
        c.refuse(ValueError, "a reference from %.80r" % (parts,), DataReference.decode, rlp.encode(parts))
    # proofs
    for typ in (b"MPT", b"mt-poi", b"", b"POI", b"MT-POE", b"MPT-POI ", b"MPT_POI"):
        c.refuse(TypeError, "a proof of the type %r" % typ, Proof, b"k", b"r" * 32, (b"n",), typ)
    for typ in (F.POI, F.POE):
        c.refuse(NotImplementedError, "a %r proof as JSON" % typ, Proof(b"k", b"r" * 32, (b"n",), typ).encode_json)
        c.refuse(NotImplementedError, "a %r proof as RLP" % typ, Proof(b"k", b"r" * 32, (b"n",), typ).encode_rlp)
        j = Proof(b"k", b"r" * 32, (b"n",), b"MT-POI").encode_json().replace("MT-POI", typ.decode())
        c.refuse(NotImplementedError, "a %r proof from JSON" % typ, Proof.decode_json, j)
    j = Proof(b"k", b"r" * 32, (b"n",), b"MT-POI").encode_json()
    for typ in ("MT", "", "SPV", "mt-poi", "MT-POE"):
        c.refuse(TypeError, "a proof of the type %r from JSON" % typ, Proof.decode_json, j.replace("MT-POI", typ))
    # nodes
    for n in (0, 1, 3, 4, 15, 16, 18, 19, 40):
        c.refuse(ValueError, "a node of %d items" % n, Node.decode, rlp.encode([b"x"] * n))
    leaf = Leaf(NibblePath(b"p"), b"data")
    for x in (0, 1, None, "no", b""):
        for node in (leaf, Extension(NibblePath(b"p"), b"r" * 32), Branch([b""] * 16, b"data")):
            c.refuse(TypeError, "encode(%r)" % (x,), node.encode, x)
        c.refuse(TypeError, "decode with include_data=%r" % (x,), Node.decode, leaf.encode(), x)

    def probe():
        mon.check(DataReference.decode(ref.encode()) == ref and Utils.decrypt(blob, "password") == data, "a valid call is answered otherwise")
    c.run(probe)
    if c.n > 10:
        mon.mark()


SCENARIOS = [
    scenario("plain", gen_case, run_plain, 400, 12000, sizes=(2, 2, 4, 14)),
    scenario("extended", gen_case, run_extended, 260, 8000, sizes=(2, 2, 4, 14)),
    scenario("merkle", gen_merkle, run_merkle, 400, 12000, sizes=(1, 2, 4, 12)),
    scenario("keys", gen_small, run_keys, 60, 1500),
    scenario("helpers", gen_small, run_helpers, 260, 8000),
]
