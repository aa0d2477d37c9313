"""C37: the work of a call stays in proportion to what it works on."""
import collections.abc
import math
import random
import time

import rlp

from vlib import forge as F, gen, keys as K, mined, ref_merkle as M, tries as T
from vlib.core import scenario
from vlib.effort import TooMuch, steps
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
from pymt.keypairs import RsaKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node, Leaf, Extension, Branch
from pymt.utils.utils import Utils

ID = "C37"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the lines, jumps and function entries a call executes are counted by the interpreter's monitoring events (and processor time taken for work "
             "done in C), the counts compared between sizes of the input")
LEVEL_NOTE = ("in the executed workloads every call ended, and its work grew no faster with entries, key length, depth, leaves, steps, bytes and past calls "
              "than stated")
RULE = ("a case is a kind of work at a small and a large size with random contents; the work of every call at the large size must stay below a small "
        "multiple of that at the small size times the stated growth; hostile input is also run under an absolute budget; non-trivial when all calls were "
        "measured at both sizes")
REQUIRED = ["calls_measured", "steps_counted", "by_entries", "by_key_length", "by_depth", "by_leaves", "by_steps", "by_bytes", "by_past_calls", "hostile_calls", "timed", "by_volume"]
ASSUMPTIONS = ["the decoder of the rlp library copies the bytes of a list once per item; decoding is judged by its steps, not by the time of these copies", "deeply nested tries of some hundred levels are within Python's recursion limit only as far as the limit goes"]

SLACK = 2.6   # allowed factor over the stated growth
PAD = 1500    # lines a call may take whatever the size


class Cost:
    def __init__(self, mon):
        self.mon = mon
        self.small = {}

    def measure(self, fns):
        out = {}
        for name, fn in fns:
            try:
                LISTED[0] = 0
                n, res, exc = steps(fn)
                n += 200 * LISTED[0]
            except TooMuch:
                self.mon.check(False, "%s did not end within fifty million steps", name)
            self.mon.saw("calls_measured")
            self.mon.saw("steps_counted", n)
            out[name] = (n, type(exc).__name__ if exc is not None else "")
        return out

    def compare(self, what, small, large, growth, slack=SLACK, pad=PAD):
        for name, (n, e) in small.items():
            n2, e2 = large[name]
            if e2 == "RecursionError":
                continue
            limit = slack * growth * n + pad
            self.mon.check(n2 <= limit, "%s of %s: %d steps at the small size, %d at the large one, no more than %d expected", name, what, n, n2, int(limit))
            self.mon.state(what, name, n.bit_length(), n2.bit_length())


CLASSES = ("mpt", "empt", "sparse")
LISTED = [0]


class Listing(dict):
    """A storage that counts what it hands out one by one."""

    def __iter__(self):
        for k in dict.__iter__(self):
            LISTED[0] += 1
            yield k

    def keys(self):
        return collections.abc.KeysView(self)

    def items(self):
        return collections.abc.ItemsView(self)

    def values(self):
        return collections.abc.ValuesView(self)

    def copy(self):
        LISTED[0] += len(self)
        return dict.copy(self)


def new(kind, secure, store=dict):
    return MPT(store(), secure=secure) if kind == "mpt" else EMPT(store(), store(), secure=secure) if kind == "empt" else SparseEMPT(store(), secure=secure)


def trie_calls(t, kind, k, absent, rng):
    """Every per-key call, in an order in which each means what it says."""
    poi = T.attempt(t.get_proof_of_inclusion, k)
    poe = T.attempt(t.get_proof_of_exclusion, absent)
    r = RootEMPT(t.root(), secure=False) if kind == "mpt" else t.get_root_trie()
    v = rng.randbytes(30)
    calls = [("contains", lambda: t.contains(k)), ("contains (absent)", lambda: t.contains(absent)),
             ("get (absent)", lambda: t.get(absent) if kind == "mpt" else t.get_reference(absent)),
             ("inclusion proof", lambda: t.get_proof_of_inclusion(k)), ("inclusion proof (absent)", lambda: t.get_proof_of_inclusion(absent)),
             ("exclusion proof", lambda: t.get_proof_of_exclusion(absent)), ("exclusion proof (stored)", lambda: t.get_proof_of_exclusion(k)),
             ("root hash", t.root_hash), ("root", t.root)]
    calls.append(("get", lambda: t.get(k)) if kind != "sparse" else ("get_reference", lambda: t.get_reference(k)))
    if not T.raised(poi):
        calls += [("verifying an inclusion proof", lambda: t.verify_proof_of_inclusion(poi)), ("verifying an inclusion proof by root", lambda: r.verify_proof_of_inclusion(poi)),
                  ("verifying an inclusion proof of another key", lambda: t.verify_proof_of_inclusion(F.mk(absent, poi.trie_root, poi.proof, F.POI)))]
    if not T.raised(poe):
        calls += [("verifying an exclusion proof", lambda: t.verify_proof_of_exclusion(poe)), ("verifying an exclusion proof by root", lambda: r.verify_proof_of_exclusion(poe)),
                  ("verifying an exclusion proof of another key", lambda: t.verify_proof_of_exclusion(F.mk(k, poe.trie_root, poe.proof, F.POE)))]
    calls += [("update", lambda: t.update(k, v)), ("insert", lambda: t.update(absent, v)), ("delete", lambda: t.delete(absent)),
              ("delete (absent)", lambda: t.delete(absent)), ("get_root_trie", (lambda: t.get_root_trie()) if kind != "mpt" else t.root)]
    return calls


def gen_entries(rng, size):
    return {"kind": rng.choice(CLASSES), "secure": rng.random() < 0.4, "n": rng.choice((400, 800, 1600)), "seed": rng.getrandbits(48),
            "len": rng.choice((4, 20, 32, 32, 70, 130, rng.choice([n for n in mined.SMALL_LENGTHS if n > 2])))}


def run_entries(case, mon):
    """The number of entries in the trie only counts by the depth it gives."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    res = []
    for n in (12, case["n"]):
        t = new(case["kind"], case["secure"], Listing if case["seed"] % 4 else dict)
        ks = [rng.randbytes(case["len"]) for _ in range(n)]
        for k in ks:
            t.update(k, rng.randbytes(30))
        worst = {}
        for _ in range(5):
            m = c.measure(trie_calls(t, case["kind"], rng.choice(ks), rng.randbytes(case["len"]), rng))
            for name, x in m.items():
                worst[name] = max(worst.get(name, (0, "")), x)
        res.append(worst)
    # a path of a small trie has a level or two, and a call that refuses may stop at the first
    c.compare("a trie by its entries", res[0], res[1], math.log(case["n"], 16) + 1.5, slack=2.0, pad=4000)
    mon.saw("by_entries")
    mon.mark()


def gen_lengths(rng, size):
    return {"kind": rng.choice(CLASSES), "n": rng.choice((300, 500, 800)), "seed": rng.getrandbits(48), "shape": rng.randrange(4)}


def run_lengths(case, mon):
    """Long keys, alone, sharing all but the end, the middle, or nothing."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    res = []
    small = 20
    tail = rng.random() < 0.5
    for n in (small, case["n"]):
        t = new(case["kind"], False)
        k = rng.randbytes(n)
        if case["shape"] == 1:
            t.update(k[:-1] + bytes([k[-1] ^ 1]), b"v" * 40)
        elif case["shape"] == 2:
            t.update(k[: n // 2] + bytes(x ^ 0x10 for x in k[n // 2:]), b"v" * 40)
        elif case["shape"] == 3:
            t.update(k[: n // 3], b"v" * 40)
            t.update(bytes([k[0] ^ 0x11]) + k[1:], b"w" * 40)
        t.update(k, b"x" * 40)
        absent = k[:-1] + bytes([k[-1] ^ 0x20]) if tail else k[: n * 2 // 3]
        res.append(c.measure(trie_calls(t, case["kind"], k, absent, rng)))
    c.compare("a trie by the length of its keys", res[0], res[1], case["n"] / small)
    res = []
    for n in (small, case["n"]):
        d = rng.randbytes(n)
        p, q = NibblePath(d), NibblePath(d)
        e = p.encode(True)
        calls = [("encode", lambda: p.encode(True)), ("decode", lambda: NibblePath.decode_with_type(e)), ("==", lambda: p == q), ("starts_with", lambda: p.starts_with(q)),
                 ("str", lambda: str(p)), ("leaf encode", lambda: Leaf(p, d).encode()), ("extension", lambda: Extension(p, b"r" * 32).encode()),
                 ("node decode", lambda: Node.decode(Leaf(p, d).encode())), ("reference", lambda: Node.into_reference(Leaf(p, d)))]
        res.append(c.measure(calls))
    c.compare("nibble paths and nodes by length", res[0], res[1], case["n"] / small)
    mon.saw("by_key_length")
    mon.mark()


def gen_depth(rng, size):
    return {"kind": rng.choice(CLASSES), "n": rng.choice((40, 60, 90)), "seed": rng.getrandbits(48)}


def run_depth(case, mon):
    """Keys that are prefixes of each other: one node or two per level."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    res = []
    small = 5
    for n in (small, case["n"]):
        t = new(case["kind"], False)
        b = rng.randbytes(1)
        for i in range(1, n + 1):
            t.update(b * i, rng.randbytes(rng.choice((3, 40))))
        k = b * n
        res.append(c.measure(trie_calls(t, case["kind"], k, k + b"z", rng)))
    c.compare("a trie by its depth", res[0], res[1], case["n"] / small)
    mon.saw("by_depth")
    mon.mark()


def gen_leaves(rng, size):
    return {"hash": rng.choice(M.HASHES), "secure": rng.random() < 0.5, "n": rng.choice((500, 1000, 1023, 2048, 3001)), "seed": rng.getrandbits(48)}


def run_leaves(case, mon):
    rng = random.Random(case["seed"])
    c = Cost(mon)
    res = []
    small = 16
    for n in (small, case["n"]):
        t = MerkleTree(secure=case["secure"], hash_type=case["hash"])
        u = MerkleTools(secure=case["secure"], hash_type=case["hash"])
        ls = [b"%d-" % i + rng.randbytes(4) for i in range(n)]
        a = {}
        a["lin"] = c.measure([("put_list", lambda: t.put_list(ls)), ("make_tree", t.make_tree), ("make_tree again", t.make_tree), ("str", lambda: str(t))])
        for l in ls:
            u.add_leaf(l)
        u.make_tree()
        x = rng.choice((ls[0], ls[-1], rng.choice(ls)))
        p, q = t.get_proof_of_inclusion(x), None
        q = u.get_proof_of_inclusion(x)
        a["log"] = c.measure([("inclusion proof", lambda: t.get_proof_of_inclusion(x)), ("inclusion proof of tools", lambda: u.get_proof_of_inclusion(x)),
                              ("verifying", lambda: t.verify_proof_of_inclusion(p)),
                              ("verifying of another leaf", lambda: t.verify_proof_of_inclusion(F.mk(b"x", p.trie_root, p.proof, p.type))),
                              ("proof of an absent leaf", lambda: t.get_proof_of_inclusion(b"absent"))])
        a["const"] = c.measure([("root", t.get_merkle_root), ("root of tools", u.get_merkle_root), ("get", lambda: t.get(n - 1)), ("get_leaf", lambda: u.get_leaf(0)),
                                ("count", t.get_count), ("len", lambda: len(u)), ("hash", lambda: hash(t)), ("==", lambda: t == u), ("put", lambda: t.put(b"one more")),
                                ("add_leaf", lambda: u.add_leaf(b"one more")), ("reset", t.reset_tree)])
        res.append(a)
    c.compare("a Merkle tree by its leaves", res[0]["lin"], res[1]["lin"], case["n"] / small, pad=300)
    c.compare("a Merkle tree by its leaves", res[0]["log"], res[1]["log"], math.log2(case["n"]) / math.log2(small), slack=2, pad=120)
    c.compare("a Merkle tree by its leaves", res[0]["const"], res[1]["const"], 1.0, slack=2, pad=60)
    mon.saw("by_leaves")
    mon.mark()


def gen_steps(rng, size):
    return {"n": rng.choice((400, 700, 1000)), "seed": rng.getrandbits(48), "what": rng.randrange(4)}


def run_steps(case, mon):
    """Proofs of many parts, whether or not they make sense."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    t = MPT({})
    for i in range(20):
        t.update(b"key%d" % i, rng.randbytes(40))
    mt = MerkleTree(secure=False)
    mt.put_list([b"%d" % i for i in range(9)])
    mt.make_tree()
    res = []
    small = 16
    for n in (small, case["n"]):
        h = [rng.randbytes(32).hex().encode() for _ in range(n)]
        sides = tuple((rng.choice((b"left", b"right")), x) for x in h)
        p = Proof(b"target", mt.get_merkle_root(), sides, b"MT-POI")
        f = Proof(b"target", mt.get_merkle_root(), tuple(h), b"MT-POI")
        genuine = t.get_proof_of_inclusion(b"key3").proof
        other = [genuine, (b"\xc2\x20\x80",), (rng.randbytes(40),), tuple(rlp.encode([bytes([0x00]), rng.randbytes(32)]) for _ in range(3))][case["what"]]
        nodes = (genuine + other * n)[: n] if case["what"] else tuple(rlp.encode([bytes([0x20]), b"%d" % i * 10]) for i in range(n)) + genuine
        calls = [("verifying a Merkle proof", lambda: mt.verify_proof_of_inclusion(p))]
        for typ, name in ((F.POI, "verify_proof_of_inclusion"), (F.POE, "verify_proof_of_exclusion")):
            for k in (b"key3", b"absent"):
                q = F.mk(k, t.root_hash(), nodes, typ)
                calls.append(("%s of %s" % (name, k), lambda q=q, name=name: getattr(t, name)(q)))
        calls += [("encode_rlp", f.encode_rlp), ("encode_json", f.encode_json), ("hash", lambda: hash(p)), ("repr", lambda: repr(p)), ("==", lambda: p == f),
                  ("items", lambda: list(p))]
        e, j = f.encode_rlp(), f.encode_json()
        calls += [("decode_rlp", lambda: Proof.decode_rlp(e)), ("decode_json", lambda: Proof.decode_json(j))]
        j2 = p.encode_json()
        calls += [("decode_json of pairs", lambda: Proof.decode_json(j2))]
        res.append(c.measure(calls))
    c.compare("proofs by their steps", res[0], res[1], case["n"] / small)
    mon.saw("by_steps")
    mon.mark()


def gen_whole(rng, size):
    return {"n": rng.choice((80, 120, 200)), "secure": rng.random() < 0.4, "seed": rng.getrandbits(48)}


def run_whole(case, mon):
    """Calls that work on all of a trie."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    res = []
    small = 12
    for n in (small, case["n"]):
        m, t = MPT({}, secure=case["secure"]), EMPT({}, {}, secure=case["secure"])
        for i in range(n):
            k, v = rng.randbytes(6), rng.randbytes(30)
            m.update(k, v)
            t.update(k, v)
        s = t.get_sparse_trie()
        e, se = m.encode(), s.encode_rlp()
        res.append(c.measure([("encode", m.encode), ("decode", lambda: MPT.decode(e)), ("sparse encode", s.encode_rlp), ("sparse decode", lambda: SparseEMPT.decode_rlp(se)),
                              ("get_sparse_trie", t.get_sparse_trie), ("build_trie", t.build_trie), ("iterating", lambda: list(t)), ("items", lambda: list(t.items())),
                              ("==", lambda: MPT.decode(e) == m), ("len", lambda: len(t)), ("clear", t.clear)]))
    g = case["n"] / small
    c.compare("a whole trie by its entries", res[0], res[1], g * 1.4)
    mon.saw("by_entries")
    mon.mark()


def gen_past(rng, size):
    return {"kind": rng.choice(CLASSES + ("merkle", "tools")), "rounds": rng.choice((40, 80)), "secure": rng.random() < 0.4, "seed": rng.getrandbits(48)}


def run_past(case, mon):
    """An object that was used much before works no more than a fresh one of
    the same contents."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    kind = case["kind"]
    if kind in ("merkle", "tools"):
        t = (MerkleTree if kind == "merkle" else MerkleTools)(secure=case["secure"])
        put = t.put if kind == "merkle" else t.add_leaf
        ls = [b"%d" % i for i in range(9)]

        def work():
            t.reset_tree()
            for l in ls:
                put(l)
            t.make_tree()
            t.get_proof_of_inclusion(ls[3])
            T.attempt(t.get_proof_of_inclusion, b"absent")
            if kind == "merkle":
                t.verify_proof_of_inclusion(t.get_proof_of_inclusion(ls[4]))

        def calls():
            x = ls[5]
            out = [("make_tree", t.make_tree), ("root", t.get_merkle_root), ("proof", lambda: t.get_proof_of_inclusion(x)), ("get_leaf", lambda: t.get_leaf(3)),
                   ("add", lambda: put(b"more")), ("str", lambda: str(t)), ("reset", t.reset_tree), ("add again", lambda: put(b"more"))]
            return out
    else:
        t = new(kind, case["secure"])
        ks = [b"key%d" % i for i in range(9)]

        def work():
            for i, k in enumerate(ks):
                t.update(k, rng.randbytes(30))
            extra = rng.randbytes(5)
            t.update(extra, b"something for a moment, long enough")
            p = t.get_proof_of_inclusion(extra)
            t.verify_proof_of_inclusion(p)
            t.delete(extra)
            T.attempt(t.verify_proof_of_inclusion, p)
            t.verify_proof_of_exclusion(t.get_proof_of_exclusion(extra))
            t.contains(extra)

        def calls():
            return trie_calls(t, kind, ks[4], b"absent", rng)
    work()
    first = c.measure(calls())
    for _ in range(case["rounds"]):
        work()
    c.compare("%s by past calls" % kind, first, c.measure(calls()), 1.0, slack=1.6, pad=60)
    mon.saw("by_past_calls")
    mon.mark()


def hostile_bytes(rng, n):
    r = rng.randrange(8)
    if r == 0:
        return rng.randbytes(n)
    if r == 1:
        return bytes([rng.choice((0xC1, 0xC0, 0xF8, 0xFF, 0xBF, 0x80, 0x00, 0xF9, 0xC2))]) * n
    if r == 2:
        x = b"\xc0"
        for _ in range(min(n, 300)):
            x = rlp.encode([b"", x]) if rng.random() < 0.5 else rlp.encode([x])
        return x
    if r == 3:
        return rlp.encode([rng.randbytes(rng.randrange(4)) for _ in range(n)])
    if r == 4:
        return b"\xff" + b"\xff" * 8 + rng.randbytes(n)
    if r == 5:
        return rlp.encode([rlp.encode([b""] * 17)] * max(1, n // 20))
    if r == 6:
        return rlp.encode([[b"a", [b"b"] * (n // 2)], [b"c"] * (n // 2)])
    m = MPT({})
    for i in range(min(n, 60)):
        m.update(rng.randbytes(3), rng.randbytes(20))
    e = bytearray(m.encode())
    for _ in range(rng.randrange(1, 6)):
        e[rng.randrange(len(e))] = rng.getrandbits(8)
    return bytes(e)


def gen_hostile(rng, size):
    return {"seed": rng.getrandbits(48), "n": rng.choice((10, 100, 1000, 4000)), "rounds": 6}


def run_hostile(case, mon):
    """Whatever bytes come in, every call ends, within lines per byte."""
    rng = random.Random(case["seed"])
    t = MPT({})
    for i in range(20):
        t.update(b"key%d" % i, rng.randbytes(40))
    mt = MerkleTree()
    mt.put(b"leaf")
    mt.make_tree()
    for _ in range(case["rounds"]):
        data = hostile_bytes(rng, case["n"])
        parts = tuple(hostile_bytes(rng, rng.choice((5, 40))) for _ in range(rng.randrange(1, 30)))
        size = len(data) + sum(len(p) for p in parts)
        kept = {keccak_hash(data): data}
        # storages in which the reference of a node leads back to itself
        # (along part of a key; a path of nothing leads nowhere, and is not judged)
        step = rng.choice((b"\x10", b"\x11", b"\x00\x00", b"\x00k"))
        loop = {b"r" * 32: rlp.encode([step, b"r" * 32]), b"b" * 32: rlp.encode([b"b" * 32] * 16 + [b""])}
        key = rng.choice((rng.randbytes(rng.choice((0, 1, 5, 60))), b"\x00" * rng.choice((1, 5, 60)), b"k" * rng.choice((1, 5, 60))))
        calls = [("MPT.decode", lambda: MPT.decode(data)), ("Node.decode", lambda: Node.decode(data)), ("DataReference.decode", lambda: DataReference.decode(data)),
                 ("Proof.decode_rlp", lambda: Proof.decode_rlp(data)), ("Proof.decode_json", lambda: Proof.decode_json(data.decode("latin-1"))),
                 ("SparseEMPT.decode_rlp", lambda: SparseEMPT.decode_rlp(data)), ("RootEMPT.decode_rlp", lambda: RootEMPT.decode_rlp(data)),
                 ("NibblePath.decode", lambda: NibblePath.decode_with_type(data))]
        for root in (keccak_hash(data), b"r" * 32, b"b" * 32):
            o = MPT(dict(kept, **{}) | loop, root)
            for n in ("get", "contains", "delete", "get_proof_of_inclusion", "get_proof_of_exclusion"):
                calls.append((n + " on hostile nodes", lambda o=o, n=n: getattr(o, n)(key)))
            calls.append(("update on hostile nodes", lambda o=o: o.update(key, b"value")))
        for typ in (F.POI, F.POE):
            for r, nodes in ((keccak_hash(data), (data,) + parts), (t.root_hash(), parts), (t.root_hash(), t.get_proof_of_inclusion(b"key7").proof + (data,))):
                p = F.mk(rng.choice((key, b"key7")), r, nodes, typ)
                n = "verify_proof_of_inclusion" if typ == F.POI else "verify_proof_of_exclusion"
                calls.append((n, lambda p=p, n=n: getattr(t, n)(p)))
                calls.append((n + " by root", lambda p=p, n=n, r=r: getattr(RootEMPT(r), n)(p)))
        mp = Proof(key, mt.get_merkle_root(), parts, b"MT-POI")
        calls.append(("verify of a Merkle tree", lambda: mt.verify_proof_of_inclusion(mp)))
        for name, fn in calls:
            # what is stored may be as deep as the recursion limit, whatever its size
            limit = 400 * size + 600_000
            try:
                n, res, exc = steps(fn, limit)
            except TooMuch:
                mon.check(False, "%s did not end within %d steps on %d bytes", name, limit, size)
            mon.check(n <= limit, "%s took %d steps on %d bytes", name, n, size)
            mon.saw("hostile_calls")
            mon.saw("steps_counted", n)
            mon.state(name, n.bit_length(), type(exc).__name__ if exc else "")
    mon.mark()


# ------------------------------------------------------------ processor time
def quickest(fn, k=7):
    best = None
    for _ in range(k):
        a = time.thread_time_ns()
        try:
            fn()
        except Exception:
            pass
        b = time.thread_time_ns() - a
        best = b if best is None or b < best else best
    return best


def timed(mon, what, small, large, growth, slack=8, floor=400_000):
    """small, large: callables; what is done in C is linear at most."""
    for i in range(6):
        a, b = quickest(small), quickest(large, 4)
        mon.saw("timed")
        if b <= slack * growth * a + floor:
            return
    mon.check(False, "%s: %.1f us at the small size, %.1f us at %g times that", what, a / 1e3, b / 1e3, growth)


def gen_bytes(rng, size):
    return {"seed": rng.getrandbits(48), "n": rng.choice((1 << 18, 1 << 19, 1 << 20))}


def run_bytes(case, mon):
    """Large values, data, files of bytes."""
    rng = random.Random(case["seed"])
    c = Cost(mon)
    small, big = 1 << 12, case["n"]
    res, fns = [], []
    a = K.pool(RsaKeyPair, 2)
    for n in (small, big):
        v = rng.randbytes(n)
        t, e = MPT({}), EMPT({}, {})
        for x in (t, e):
            for i in range(5):
                x.update(b"k%d" % i, b"w" * 40)
            x.update(b"k1", v)
        mt = MerkleTree(secure=False)
        p, q = t.get_proof_of_inclusion(b"k1"), e.get_proof_of_inclusion(b"k1")
        ref = DataReference(b"k", v)
        enc, blob, te = ref.encode(), Utils.encrypt(v, "pw"), t.encode()
        msg = a[0].encrypt(v, a[1].public_key)
        calls = [("update", lambda t=t, v=v: t.update(b"k2", v)), ("get", lambda t=t: t.get(b"k1")), ("inclusion proof", lambda t=t: t.get_proof_of_inclusion(b"k1")),
                 ("verify", lambda t=t, p=p: t.verify_proof_of_inclusion(p)), ("extended update", lambda e=e, v=v: e.update(b"k3", v)), ("extended get", lambda e=e: e.get(b"k1")),
                 ("extended verify", lambda e=e, q=q: e.verify_proof_of_inclusion(q)), ("reference", lambda v=v: DataReference(b"k", v).encode()),
                 ("reference decode", lambda enc=enc: DataReference.decode(enc)), ("encode", t.encode), ("decode", lambda te=te: MPT.decode(te)),
                 ("keccak", lambda v=v: keccak_hash(v)), ("keccak of a list", lambda v=v: keccak_hash_list([v[:1000]] * (len(v) // 1000))),
                 ("hash_data", lambda v=v: Utils.hash_data(v)), ("encrypt", lambda v=v: Utils.encrypt(v, "pw")), ("decrypt", lambda blob=blob: Utils.decrypt(blob, "pw")),
                 ("sign", lambda v=v: a[0].sign(v)), ("encrypt for a receiver", lambda v=v: a[0].encrypt(v, a[1].public_key)),
                 ("decrypt from a sender", lambda msg=msg: a[1].decrypt(msg, a[0].public_key)), ("put of a leaf", lambda mt=mt, v=v: mt.put(v)),
                 ("nibble path", lambda v=v: NibblePath(v).at(5))]
        res.append(c.measure([x for x in calls if x[0] != "keccak of a list"]))
        fns.append(dict(calls))
    c.compare("data by its bytes", res[0], res[1], 1.0, slack=3)
    for name in rng.sample(list(fns[0]), 6):
        timed(mon, name + " by bytes", fns[0][name], fns[1][name], big / small)
    mon.saw("by_bytes")
    mon.mark()


def gen_many(rng, size):
    return {"seed": rng.getrandbits(48), "n": rng.choice((20000, 40000)), "secure": rng.random() < 0.5}


def run_many(case, mon):
    """What is done per leaf or per entry in C does not grow with their number."""
    rng = random.Random(case["seed"])
    pair = []
    for n in (100, case["n"]):
        t = MerkleTree(secure=case["secure"])
        u = MerkleTools(secure=case["secure"])
        t.put_list([b"%d" % i for i in range(n)])
        for i in range(n):
            u.add_leaf(b"%d" % i)
        t.make_tree()
        u.make_tree()
        p = t.get_proof_of_inclusion(b"7")
        data = {b"k%d" % i: b"v" for i in range(n)}
        base = {}
        e = EMPT(base, data, root=MPT({}).root())
        e.update(b"k5", b"value")
        e.update(b"k6", b"value")
        pair.append({"get": lambda t=t, n=n: t.get(n - 1), "get_leaf": lambda u=u: u.get_leaf(3), "root": t.get_merkle_root, "count": t.get_count,
                     "verify": lambda t=t, p=p: t.verify_proof_of_inclusion(p), "==": lambda t=t, u=u: t == u, "hash": lambda t=t: hash(t),
                     "extended get": lambda e=e: e.get(b"k5"), "extended contains": lambda e=e: b"k5" in e, "extended update": lambda e=e: e.update(b"k6", b"another"),
                     "extended len": lambda e=e: len(e), "extended proof": lambda e=e: e.get_proof_of_inclusion(b"k6"),
                     "put": lambda t=t, n=n: t.put(b"%d" % n), "add_leaf": lambda u=u, n=n: u.add_leaf(b"%d" % n)})
    for name in pair[0]:
        timed(mon, name + " by the number of leaves or entries", pair[0][name], pair[1][name], 1.0, slack=12, floor=100_000)
    mon.mark()


# not decoding: the decoder of the rlp library itself gathers the bytes of a list item by item, copying all of them each time
VOLUMES = ("encode", "put_list", "make_tree", "get_sparse_trie", "sparse encode", "iterating", "proof encode", "add_leaf", "fill a trie", "fill an extended trie", "hash_list", "tree text")


def volume(what, n, rng):
    """A call whose work is linear in n, made afresh each time."""
    k = lambda i: i.to_bytes(32, "big")
    if what == "encode":
        return MPT({k(i): b"\xc2\x20\x80" + k(i) for i in range(n)}, b"r" * 32).encode
    if what in ("put_list", "make_tree", "tree text"):
        ls = [b"%d" % i for i in range(n)]

        def put():
            t = MerkleTree(secure=False)
            t.put_list(ls)
        if what == "put_list":
            return put
        m = MerkleTree(secure=False)
        m.put_list(ls)
        if what == "tree text":
            m.make_tree()
            return lambda: str(m)
        return m.make_tree
    if what == "add_leaf":
        def add():
            t = MerkleTools(secure=False)
            for i in range(n):
                t.add_leaf(b"%d" % i)
        return add
    if what in ("get_sparse_trie", "sparse encode"):
        e = EMPT({k(i): b"\xc2\x20\x80" + k(i) for i in range(n)}, {}, root=b"r" * 32)
        s = e.get_sparse_trie()
        return e.get_sparse_trie if what == "get_sparse_trie" else s.encode_rlp
    if what == "iterating":
        e = EMPT({}, {k(i): b"v" for i in range(n)}, root=MPT({}).root())
        return lambda: (sum(1 for _ in e), list(e.keys()))
    if what == "proof encode":
        return Proof(b"target", b"root", tuple(k(i).hex().encode() for i in range(n)), b"MT-POI").encode_rlp
    if what == "hash_list":
        ls = [k(i) for i in range(n)]
        return lambda: keccak_hash_list(ls)
    nk = [(i * 2654435761 % (1 << 32)).to_bytes(4, "big") for i in range(n // 10)]
    cls = MPT if what == "fill a trie" else EMPT

    def fill():
        t = MPT({}) if cls is MPT else EMPT({}, {})
        for x in nk:
            t.update(x, b"v" * 34)
    return fill


def gen_volume(rng, size):
    return {"seed": rng.getrandbits(48), "n": 60000, "what": rng.choice(VOLUMES)}


def run_volume(case, mon):
    """Many entries at once: each costs what it costs among few."""
    rng = random.Random(case["seed"])
    what, n = case["what"], case["n"]
    small = n // 20
    a, b = volume(what, small, rng), volume(what, n, rng)
    for i in range(4):
        x, y = quickest(a, 5), quickest(b, 1 + (i > 0))
        mon.saw("timed")
        if y <= 5 * 20 * x + 20_000_000:
            break
    else:
        mon.check(False, "%s of %d: %.1f ms, of %d: %.1f ms", what, small, x / 1e6, n, y / 1e6)
    mon.saw("by_volume")
    mon.state(what, n)
    mon.mark()


SCENARIOS = [
    scenario("entries", gen_entries, run_entries, 40, 800),
    scenario("lengths", gen_lengths, run_lengths, 60, 2000),
    scenario("depth", gen_depth, run_depth, 40, 1200),
    scenario("leaves", gen_leaves, run_leaves, 60, 2000),
    scenario("steps", gen_steps, run_steps, 60, 2000),
    scenario("whole", gen_whole, run_whole, 20, 500),
    scenario("past", gen_past, run_past, 60, 2000),
    scenario("hostile", gen_hostile, run_hostile, 150, 5000),
    scenario("bytes", gen_bytes, run_bytes, 16, 300),
    scenario("many", gen_many, run_many, 8, 120),
    scenario("volume", gen_volume, run_volume, 28, 400),
]
