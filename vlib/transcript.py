"""What a run of the code answers, as lines of text: the same inputs must give
the same lines in any process, environment and order of runs.

    python -m vlib.transcript   reads a pickled request, writes pickled lines
"""
import json
import os
import pathlib
import pickle
import random
import sys
import tempfile

sys.dont_write_bytecode = True
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import boot  # noqa: F401,E402  (makes pymt importable)
from vlib import forge, gen, ref_merkle as M, ref_trie as R, tries as T  # noqa: E402
from vlib.objs import Item, make  # noqa: E402
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference  # noqa: E402
from pymt.keypairs import RsaKeyPair  # noqa: E402
from pymt.merkletools import MerkleTools  # noqa: E402
from pymt.mpt import MPT  # noqa: E402
from pymt.mt import MerkleTree  # noqa: E402
from pymt.proof import Proof  # noqa: E402
from pymt.utils.hash import keccak_hash, keccak_hash_list  # noqa: E402
from pymt.utils.nibble_path import NibblePath  # noqa: E402
from pymt.utils.node import Branch, Extension, Leaf, Node  # noqa: E402
from pymt.utils.utils import Utils  # noqa: E402


def norm(x, depth=0):
    if T.raised(x):
        return "raised"
    if isinstance(x, Proof):
        return ("proof", x.target_key, x.trie_root, tuple(x.proof), x.type)
    if isinstance(x, DataReference):
        return ("ref", x.key, x.data, x.hash)
    if isinstance(x, Item):
        return ("item", bytes(x.body))
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, dict):
        return tuple((norm(k), norm(v)) for k, v in x.items())
    if isinstance(x, Node):
        return ("node", type(x).__name__, x.encode())
    if isinstance(x, NibblePath):
        return ("path", [x.at(i) for i in range(len(x))])
    if depth < 4 and hasattr(x, "__iter__"):
        return tuple(norm(y, depth + 1) for y in x)
    return type(x).__name__


class Lines:
    def __init__(self):
        self.out = []

    def say(self, label, fn, *a, **kw):
        x = T.attempt(fn, *a, **kw)
        n = T.attempt(norm, x)
        self.out.append("%s: %r" % (label, "raised" if T.raised(n) else n))
        return None if T.raised(x) else x


def hostile(rng, p, keys, secure):
    """Proofs made from a true one."""
    path = R.path_of(p.target_key, secure) or (1,)
    try:
        what, nodes = forge.shape(rng, p.proof, (), path, p.type)
    except Exception:
        what, nodes = "reversed", list(p.proof)[::-1]
    typ = p.type if rng.random() < 0.7 else (b"MPT-POI" if p.type == b"MPT-POE" else b"MPT-POE")
    return forge.mk(p.target_key if rng.random() < 0.7 else rng.choice(keys), p.trie_root, nodes, typ)


def part_mpt(rng, say):
    secure = rng.random() < 0.35
    h = gen.history(rng, 1, secure=secure)
    storage = {}
    t = MPT(storage, secure=secure)
    probe = h["keys"] + gen.near_misses(rng, h["keys"], 3)
    for op in h["ops"]:
        if op[0] == "put":
            say("update", t.update, op[1], op[2])
        else:
            say("delete", t.delete, op[1])
        say("root", t.root_hash)
    bad = rng.choice(("text", None, 5, [b"x"]))
    say("bad key", t.update, bad, b"x")
    say("bad value", t.update, b"x", bad if bad is not None else 7)
    say("bad get", t.get, bad)
    say("nodes", lambda: sorted((bytes(k), bytes(v)) for k, v in storage.items()))
    say("encode", t.encode)
    for k in probe:
        say("get", t.get, k)
        say("contains", t.contains, k)
    proofs = []
    for k in probe[:8]:
        for fn in (t.get_proof_of_inclusion, t.get_proof_of_exclusion):
            p = say("proof", fn, k)
            if p is not None:
                proofs.append(p)
                proofs.append(hostile(rng, p, probe, secure))
    r = RootEMPT(t.root(), secure=secure)
    for p in proofs:
        for o in (t, r):
            say("inclusion", T.accepted, o.verify_proof_of_inclusion, p)
            say("exclusion", T.accepted, o.verify_proof_of_exclusion, p)
    # nodes lost or spoilt
    nodes = sorted(storage)
    for n in nodes[:4]:
        old = storage.pop(n)
        say("lost get", t.get, probe[0])
        storage[n] = forge.flip_bit(rng, bytes(old)) if rng.random() < 0.5 else R.rlp_encode([b"\x20", b"v", b"w"])
        say("spoilt get", t.get, probe[0])
        say("spoilt contains", t.contains, rng.choice(probe))
        say("spoilt put", MPT(dict(storage), t.root(), secure=secure).update, rng.choice(probe), b"v")
        say("spoilt delete", MPT(dict(storage), t.root(), secure=secure).delete, rng.choice(probe))
        storage[n] = old


def part_empt(rng, say):
    secure = rng.random() < 0.35
    h = gen.history(rng, 1, secure=secure, empty=True)
    nodes, data = {}, {}
    t = EMPT(nodes, data, secure=secure)
    s = SparseEMPT(secure=secure)
    for op in h["ops"]:
        v = make(rng.randrange(3), op[2]) if op[0] == "put" else None
        for o in (t, s):
            if op[0] == "put":
                say("update", o.update, op[1], v)
            else:
                say("delete", o.delete, op[1])
            say("root", o.root_hash)
    say("bad value", t.update, b"k", 5)
    say("bad key", t.update, "k", b"v")
    say("items", lambda: list(t.items()))
    say("keys", lambda: list(t))
    say("len", len, t)
    for k in h["keys"] + gen.near_misses(rng, h["keys"], 3):
        say("get", t.get, k)
        say("reference", s.get_reference, k)
        say("reference codec", lambda: DataReference.decode(s.get_reference(k).encode()))
        say("contains", s.contains, k)
        p = say("proof", t.get_proof_of_inclusion, k) or say("proof", t.get_proof_of_exclusion, k)
        if p is not None:
            say("verify", T.accepted, t.get_root_trie().verify_proof_of_inclusion, p)
            say("verify", T.accepted, t.get_sparse_trie().verify_proof_of_exclusion, p)
        say("sparse", t.get_sparse_trie().encode_rlp)
    say("root view", t.get_root_trie().encode_rlp)
    for k in list(data)[:2]:
        data[k] = b"something else"
        say("tampered", t.get, k)
    say("build", t.build_trie)
    say("root", t.root_hash)
    say("popitem", t.popitem)
    say("root", t.root_hash)


def part_merkle(rng, say):
    for cls in (MerkleTree, MerkleTools):
        secure = rng.random() < 0.5
        name = rng.choice(M.HASHES)
        t = cls(secure=secure, hash_type=name)
        leaves = [gen.value(rng, False, True) for _ in range(rng.choice((1, 2, 3, 5, 8, 13)))]
        say("root before", t.get_merkle_root)
        for l in leaves:
            say("add", t.add_leaf, l)
        say("not ready", t.get_tree_ready_state)
        say("make", t.make_tree)
        say("root", t.get_merkle_root)
        say("leaf", t.get_leaf, rng.randrange(len(leaves) + 1))
        for l in leaves[:4] + [b"absent"]:
            p = say("proof", t.get_proof_of_inclusion, l)
            if p is None:
                continue
            if cls is MerkleTree:
                say("verify", t.verify_proof_of_inclusion, p)
                say("json", lambda: norm(Proof.decode_json(p.encode_json())))
                say("rlp", lambda: norm(Proof.decode_rlp(p.encode_rlp())))
                q = Proof(b"other", p.trie_root, p.proof, p.type)
                say("verify", T.accepted, t.verify_proof_of_inclusion, q)
                q = Proof(l, p.trie_root, p.proof[::-1], p.type)
                say("verify", T.accepted, t.verify_proof_of_inclusion, q)
            else:
                target = bytes.fromhex(M.leaf(l, secure, name).hex())
                say("verify", t.verify_proof_of_inclusion, p, target, bytes.fromhex(t.get_merkle_root()))
                say("verify", t.verify_proof_of_inclusion, p[::-1] + [{"left": "00"}], target, bytes.fromhex(t.get_merkle_root()))
                say("verify", T.accepted, t.verify_proof_of_inclusion, [{"up": "00"}], target, target)
        say("bad put", t.add_leaf, 5.5)
        say("bad hash", cls, hash_type="none")


# time stamps a proof may carry, with and without a zone, in the gaps and folds of daylight saving
STAMPS = ("2023-03-26 02:30:00.000001", "2023-10-29 02:30:00.000001", "2024-03-10 02:15:00.5", "2024-01-01 00:00:00", "2024-06-30 23:59:59.999999",
          "2024-01-01 00:00:00.000001+05:00", "2024-01-01T00:00:00Z", "2024-01-01 00:00:00 +0130", "1969-12-31 23:59:59", "1704067200", "0001-01-01 00:00:00",
          "2023-09-24 02:30:00.25", "", "today", "\u00e9\u00e9n uur")


def part_codec(rng, say):
    for _ in range(12):
        b = gen.node_like(rng) if rng.random() < 0.4 else R.rlp_encode(
            [gen.rbytes(rng, rng.randrange(4)) for _ in range(rng.choice((0, 1, 2, 2, 3, 4, 16, 17, 18)))])
        if rng.random() < 0.2:
            b = forge.flip_bit(rng, b)
        say("node", Node.decode, b)
        say("skeleton", Node.decode, b, False)
        say("reference", DataReference.decode, b)
        say("proof", Proof.decode_rlp, b)
        say("trie", lambda: MPT.decode(b).root_hash())
    for _ in range(6):
        b = gen.rbytes(rng, rng.randrange(6))
        p = NibblePath(b, rng.randrange(2) if b else 0)
        say("path", lambda: [p.at(i) for i in range(len(p))])
        say("hp", p.encode, rng.random() < 0.5)
        say("hp", NibblePath.decode_with_type, b)
        say("print", str, p)
        say("at", p.at, len(p) + 1)
    d = gen.value(rng, False, True)
    say("keccak", keccak_hash, d, True)
    say("sha", lambda: (Utils.sha256(d), Utils.sha512(d)))
    say("bad", Utils.sha256, "text")
    say("time", lambda: (lambda x: (x.year, x.month, x.day, x.hour, x.minute, x.second, x.utcoffset().total_seconds()))(
        Utils.from_timstamp_string("20%02d-0%d-1%d 0%d:3%d:4%d %s0%d30" % (
            rng.randrange(100), rng.randrange(1, 10), rng.randrange(10), rng.randrange(10), rng.randrange(10), rng.randrange(10),
            rng.choice("+-"), rng.randrange(10)))))
    say("bad time", Utils.from_timstamp_string, "yesterday")
    for _ in range(3):
        stamp = rng.choice(STAMPS)
        d = {"proof_type": "MT-POI", "timestamp": stamp, "target_key": "k", "root_hash": "ab", "proof": [["left", "0a"]]}
        say("stamp", lambda: Proof.decode_json(json.dumps(d)).timestamp)
        say("stamp", lambda: Proof.decode_json(json.dumps(d)).encode_json())
        say("stamp", lambda: hash(Proof.decode_json(json.dumps(d))))
        say("stamp", lambda: Proof.decode_rlp(R.rlp_encode([b"MT-POI", stamp.encode(), b"k", b"ab", []])).timestamp)
        say("stamp", lambda: repr(Proof.decode_json(json.dumps(d))))


def part_crypto(rng, say, made):
    """`made`: what another process wrote."""
    if not made:
        return
    a = say("load", RsaKeyPair.from_key_string, made["a"], made["pw"])
    b = say("load", RsaKeyPair.from_key_string, made["b"], made["pw"])
    say("wrong passphrase", RsaKeyPair.from_key_string, made["a"], made["pw"] + "x")
    say("public", lambda: (a.public_key, a.public_key_string, a.nickname))
    # the files: one written elsewhere and one written and read here
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "key")
        with open(path, "wb") as f:
            f.write(made["file"])
        say("key file", lambda: (lambda k: (k.nickname, k.public_key))(RsaKeyPair.from_key_file(path, made["pw"])))
        say("key file, wrong passphrase", RsaKeyPair.from_key_file, path, made["pw"] + "x")
        path = os.path.join(d, "other")
        b.nickname = made["nick"]
        say("write key file", b.to_key_file, path, made["pw"])
        say("written key file", lambda: (lambda k: (k.nickname, k.public_key))(RsaKeyPair.from_key_file(path, made["pw"])))
        say("contents", lambda: (lambda x: (x["nickname"], x["public_key"]))(json.loads(pathlib.Path(path).read_bytes().decode("utf-8"))))
    say("print", lambda: (str(b), repr(b)))
    say("sign", a.sign, made["data"])
    say("valid", b.signature_valid, made["data"], made["sig"], made["apub"])
    say("invalid", b.signature_valid, made["data"] + b"!", made["sig"], made["apub"])
    say("decrypt", b.decrypt, made["enc"], made["apub"])
    say("wrong sender", b.decrypt, made["enc"], b.public_key)
    say("wrong receiver", a.decrypt, made["enc"], made["apub"])
    i = rng.randrange(len(made["enc"]))
    say("altered", b.decrypt, made["enc"][:i] + bytes([made["enc"][i] ^ 1]) + made["enc"][i + 1:], made["apub"])
    say("password", Utils.decrypt, made["pwenc"], made["pw2"])
    say("wrong password", Utils.decrypt, made["pwenc"], made["pw2"] + " ")
    say("key check", Utils.rsa_key_valid, made["apub"], "public")
    say("key check", Utils.rsa_key_valid, made["apub"], "private")
    say("key check", Utils.rsa_key_valid, made["apub"][:-40], "public")
    say("bad data", a.sign, "text")
    say("bad sender", b.decrypt, made["enc"], "text")


# arguments of another kind, or of the right kind but senseless
WRONG = (None, True, -1, 0, 5, 1 << 70, 2.5, "", "text", "ab" * 32, b"", b"x", b"y" * 32, bytearray(b"z" * 32), memoryview(b"m"), [], [b"x"], ["x"], (b"x", b"y"), {},
         {"left": b"x"}, {b"x"}, Exception, Ellipsis)


class Bad:
    """Passes for nothing."""

    def __bool__(self):
        raise ValueError("no truth value")


def kind_of(x):
    """For results that differ from call to call."""
    return type(x).__name__


def calls_with_one_wrong(rng, say, label, fn, args, share=1.0, result=None):
    """`fn` called with every argument replaced in turn."""
    for i in range(len(args)):
        for w in WRONG + (Bad(),):
            if rng.random() > share:
                continue
            a = list(args)
            a[i] = w
            if result is None:
                say("%s, argument %d a %s" % (label, i, type(w).__name__), fn, *a)
            else:
                say("%s, argument %d a %s" % (label, i, type(w).__name__), lambda: result(fn(*a)))


def part_refusals(rng, say):
    """Every public callable with arguments it should not have been given, and encodings with one part spoilt."""
    secure = rng.random() < 0.35
    h = gen.history(rng, 1, secure=secure)
    keys = h["keys"][:6] or [b"k"]
    k, v = keys[0], b"value" * rng.choice((1, 9))

    def trie(cls=MPT, **kw):
        t = cls(secure=secure, **kw)
        for x in keys:
            t.update(x, v)
        return t

    share = 0.3
    t, e = trie(storage={}), trie(EMPT)
    mt = MerkleTree(secure=secure, hash_type=rng.choice(M.HASHES))
    ml = MerkleTools(secure=secure)
    for x in keys:
        mt.add_leaf(x)
        ml.add_leaf(x)
    mt.make_tree()
    ml.make_tree()
    for name, o in (("MPT", t), ("EMPT", e), ("SparseEMPT", trie(SparseEMPT))):
        for m in ("get", "get_reference", "contains", "delete", "get_proof_of_inclusion", "get_proof_of_exclusion", "__getitem__", "__contains__", "__delitem__"):
            if hasattr(o, m) and rng.random() < 0.7:
                calls_with_one_wrong(rng, say, name + "." + m, getattr(o, m), [k], share)
        calls_with_one_wrong(rng, say, name + ".update", o.update, [k, v], share)
        calls_with_one_wrong(rng, say, name + ".__setitem__", o.__setitem__, [k, v], share)
        say("root", o.root_hash)
    for o in (t, e, trie(SparseEMPT), RootEMPT(t.root(), secure=secure), mt):
        for m in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
            calls_with_one_wrong(rng, say, type(o).__name__ + "." + m, getattr(o, m), [None], share)
    calls_with_one_wrong(rng, say, "MPT()", lambda a, b, c: MPT(a, b, c).root_hash(), [{}, None, secure], share)
    calls_with_one_wrong(rng, say, "EMPT()", lambda a, b, c, d: EMPT(a, b, c, d).root_hash(), [{}, {}, None, secure], share)
    calls_with_one_wrong(rng, say, "RootEMPT()", lambda a, b: RootEMPT(a, b).root_hash(), [t.root(), secure], share)
    calls_with_one_wrong(rng, say, "SparseEMPT()", lambda a: SparseEMPT(secure=a).root_hash(), [secure], share)
    calls_with_one_wrong(rng, say, "MerkleTree()", lambda a, b: MerkleTree(a, b).secure, [secure, "sha256"], share)
    calls_with_one_wrong(rng, say, "MerkleTools()", lambda a, b: MerkleTools(a, b).secure, ["sha256", secure], share)
    calls_with_one_wrong(rng, say, "DataReference()", DataReference, [k, v], share)
    p = Proof(k, b"r" * 32, (b"n",), b"MPT-POI")
    calls_with_one_wrong(rng, say, "Proof()", Proof, [k, p.trie_root, p.proof, p.type], share)
    for f, a in ((Proof.decode_rlp, b""), (Proof.decode_json, ""), (DataReference.decode, b""), (MPT.decode, b""), (SparseEMPT.decode_rlp, b""),
                 (RootEMPT.decode_rlp, b""), (Node.decode, b""), (Node.into_reference, None), (NibblePath.decode, b""), (NibblePath.decode_with_type, b""),
                 (keccak_hash, b""), (keccak_hash_list, []), (Utils.sha256, b""), (Utils.sha512, b""), (Utils.from_timstamp_string, "")):
        calls_with_one_wrong(rng, say, getattr(f, "__qualname__", "f"), f, [a], share)
    calls_with_one_wrong(rng, say, "keccak_hash", keccak_hash, [v, False], share)
    calls_with_one_wrong(rng, say, "Node.decode", Node.decode, [R.rlp_encode([b"\x20", b"v"]), False], share)
    path = NibblePath(b"\x12\x34")
    calls_with_one_wrong(rng, say, "NibblePath()", lambda a, b: NibblePath(a, b).at(0), [b"\x12", 1], share)
    for m in ("at", "consume", "encode", "starts_with", "common_prefix", "combine", "__eq__"):
        calls_with_one_wrong(rng, say, "NibblePath." + m, getattr(path, m), [0], share)
    calls_with_one_wrong(rng, say, "Leaf", Leaf, [path, v], share)
    calls_with_one_wrong(rng, say, "Extension", Extension, [path, b"r" * 32], share)
    calls_with_one_wrong(rng, say, "Branch", Branch, [[b""] * 16, v], share)
    for n in (0, 1, 15, 17, 18):
        say("branch of %d" % n, lambda: Branch([b""] * n, v).encode())
    # Merkle trees: what they refuse leaves them as they were
    for name, o in (("MerkleTree", mt), ("MerkleTools", ml)):
        for m in ("add_leaf", "put", "put_list", "get_leaf", "get", "get_proof_of_inclusion", "__eq__"):
            if hasattr(o, m):
                calls_with_one_wrong(rng, say, name + "." + m, getattr(o, m), [k], share)
        say("root", o.get_merkle_root)
        say("count", o.get_leaf_count)
        o.reset_tree()
        say("emptied", o.make_tree)
        say("emptied", o.get_merkle_root)
        say("emptied", o.get_proof_of_inclusion, k)
        for x in keys[:3]:
            say("add", o.add_leaf, x)
        say("early root", o.get_merkle_root)
        say("early proof", lambda: norm(o.get_proof_of_inclusion(k)))
        o.make_tree()
    say("no exclusion", mt.get_proof_of_exclusion)
    say("no exclusion", mt.verify_proof_of_exclusion)
    q = ml.get_proof_of_inclusion(0 if isinstance(k, int) else k)
    calls_with_one_wrong(rng, say, "MerkleTools.verify", ml.verify_proof_of_inclusion, [q, M.leaf(k, secure, "sha256"), bytes.fromhex(ml.get_merkle_root())], share)
    for step in ({"left": "zz"}, {"left": ""}, {"left": None}, {}, {"left": "00", "right": "00"}, "left", ("left", "00"), {"": "00"}, {5: "00"}):
        say("step", ml.verify_proof_of_inclusion, [step], M.leaf(k, secure, "sha256"), bytes.fromhex(ml.get_merkle_root()))
        say("step", T.accepted, mt.verify_proof_of_inclusion, T.attempt(Proof, k, b"r" * 32, (step,), b"MT-POI"))

    # encodings with one part changed
    ref = DataReference(k, v)
    parts = R.rlp_decode(ref.encode())
    for i in range(len(parts)):
        for w in (b"", b"x", parts[i][:-1], parts[i] + b"\0", forge.flip_bit(rng, parts[i]) if parts[i] else b"y", list(parts[:2])):
            say("reference, part %d" % i, DataReference.decode, R.rlp_encode(parts[:i] + [w] + parts[i + 1:]))
    say("reference, one less", DataReference.decode, R.rlp_encode(parts[:-1]))
    say("reference, one more", DataReference.decode, R.rlp_encode(list(parts) + [b""]))
    for name, f, enc in (("trie", lambda b: MPT.decode(b).root_hash(), t.encode()), ("sparse", lambda b: SparseEMPT.decode_rlp(b).root_hash(), trie(SparseEMPT).encode_rlp()),
                         ("root", lambda b: RootEMPT.decode_rlp(b).root_hash(), RootEMPT(t.root(), secure=secure).encode_rlp()),
                         ("proof", Proof.decode_rlp, None)):
        if enc is None:
            mt.add_leaf(b"text")
            mt.make_tree()
            mp = mt.get_proof_of_inclusion(b"text")
            enc = R.rlp_encode([b"2024-01-01 00:00:00" if x == mp.timestamp else x for x in R.rlp_decode(mp.encode_rlp())])
        for b in (enc[:-1], enc + b"\0", enc[1:], b"", forge.flip_bit(rng, enc)):
            say(name + " spoilt", f, b)
        got = T.attempt(R.rlp_decode, enc)
        if isinstance(got, list):
            for i in range(min(len(got), 6)):
                for w in (b"", b"x", b"\1", b"\2", [], [b"", b""], got[i][:-1]):
                    say("%s, part %d" % (name, i), f, R.rlp_encode(got[:i] + [w] + got[i + 1:]))
            say(name + ", one less", f, R.rlp_encode(got[:-1]))
            say(name + ", one more", f, R.rlp_encode(got + [b""]))
    d = dict(json.loads(mp.encode_json()), timestamp="2024-01-01 00:00:00")
    for f in list(d):
        for w in (None, "", "x", 5, [], {}, [["left", "zz"]], [["up", "00"]], [["left"]], "MPT-POI"):
            say("json, %s" % f, lambda: Proof.decode_json(json.dumps(dict(d, **{f: w}))), )
        say("json without %s" % f, Proof.decode_json, json.dumps({x: y for x, y in d.items() if x != f}))
    # nodes of every shape
    for body in ([b""], [b"", b""], [b"\x20", b""], [b"\x3f", b""], [b"\x00", b""], [b"\x00", b"r" * 32], [b"\x11", b"x"], [b"\x40", b"v"], [b"\x00\x12", [b"\x20", b"v"]],
                 [b"\x20", [b"v"]], [[], b"v"], [b""] * 16, [b""] * 17, [b""] * 18, [[]] * 17, [b"x" * 40] + [b""] * 16, [b""] * 16 + [[b"a", b"b"]]):
        enc = R.rlp_encode(body)
        say("node shape", Node.decode, enc)
        say("node shape", Node.decode, enc, False)
        say("node shape, read", lambda: MPT({R.keccak256(enc): enc}, R.keccak256(enc)).get(b"\x12"))
        say("node shape, asked", lambda: MPT({R.keccak256(enc): enc}, R.keccak256(enc)).contains(b""))
        say("node shape, written", lambda: (lambda x: (x.update(b"\x12", b"v"), x.root_hash()))(MPT({R.keccak256(enc): enc}, R.keccak256(enc))))
        say("node shape, deleted", lambda: (lambda x: (x.delete(b"\x12"), x.root_hash()))(MPT({R.keccak256(enc): enc}, R.keccak256(enc))))


def part_badkeys(rng, say, made):
    """Key pairs and the password cipher with arguments they should not have been given."""
    if not made:
        return
    a = RsaKeyPair.from_key_string(made["a"], made["pw"])
    calls_with_one_wrong(rng, say, "sign", a.sign, [b""], 0.5, kind_of)
    calls_with_one_wrong(rng, say, "signature_valid", a.signature_valid, [made["data"], made["sig"], made["apub"]], 0.3)
    calls_with_one_wrong(rng, say, "encrypt", a.encrypt, [made["data"], made["apub"]], 0.3, kind_of)
    calls_with_one_wrong(rng, say, "decrypt", a.decrypt, [made["enc"], made["apub"]], 0.3)
    calls_with_one_wrong(rng, say, "Utils.decrypt", Utils.decrypt, [made["pwenc"], made["pw2"]], 0.15)
    calls_with_one_wrong(rng, say, "Utils.encrypt", Utils.encrypt, [made["data"], made["pw2"]], 0.1, kind_of)
    calls_with_one_wrong(rng, say, "Utils.rsa_key_valid", Utils.rsa_key_valid, [made["apub"], "public"], 0.3)
    calls_with_one_wrong(rng, say, "from_key_string", RsaKeyPair.from_key_string, [made["a"], made["pw"]], 0.15, kind_of)
    calls_with_one_wrong(rng, say, "to_key_string", a.to_key_string, [made["pw"]], 0.15, kind_of)
    for name in ("public_key", "public_key_string", "nickname"):
        say("delete " + name, delattr, a, name)
        for w in WRONG:
            if name != "nickname" or not isinstance(w, str):
                say("set %s to a %s" % (name, type(w).__name__), setattr, a, name, w)
    say("still", lambda: (a.public_key, a.public_key_string, a.nickname))
    enc, sig = made["enc"], made["sig"]
    for b in (enc[:-1], enc + b"\0", enc[:16], enc[16:], b"", enc[::-1]):
        say("cut short", a.decrypt, b, made["apub"])
    for b in (sig[:-1], sig + b"\0", b"\0" + sig, b"", sig[::-1], b"\xff" * len(sig)):
        say("bad signature", a.signature_valid, made["data"], b, made["apub"])
    pw = made["pwenc"]
    for b in (pw[:-1], pw + b"\0", pw[:16], b"", pw[::-1]):
        say("password cipher cut short", Utils.decrypt, b, made["pw2"])
    for b in (made["apub"][:-1], made["apub"] + b"\0", made["apub"].replace(b"PUBLIC", b"PRIVATE"), made["a"].encode() if isinstance(made["a"], str) else made["a"], b"\n"):
        say("bad public key", lambda: kind_of(a.encrypt(b"x", b)))
        say("bad public key", a.signature_valid, b"x", sig, b)
        say("bad public key", Utils.rsa_key_valid, b, "public")


PARTS = ("mpt", "empt", "merkle", "codec", "refusals", "crypto", "badkeys")


def transcript(seed, parts=PARTS, made=None):
    out = Lines()
    for p in parts:
        rng = random.Random("%s/%s" % (seed, p))
        if p in ("crypto", "badkeys"):
            globals()["part_" + p](rng, out.say, made)
        else:
            globals()["part_" + p](rng, out.say)
    return out.out


def main():
    req = pickle.loads(sys.stdin.buffer.read())
    res = []
    for seed in req["seeds"]:
        res.append(transcript(seed, req["parts"], req["made"]))
    sys.stdout.buffer.write(pickle.dumps({"lines": res, "flags": (sys.flags.optimize, sys.flags.hash_randomization, sys.flags.utf8_mode), "hash": hash(b"probe")}))
    sys.stdout.buffer.flush()


if __name__ == "__main__":
    main()
