"""C32: equality and hashing tell objects apart by what they stand for."""
import itertools
import random

from vlib import gen, keys as K, ref_merkle as M, ref_trie as R, tries as T
from vlib.core import scenario
from pymt.empt import DataReference
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.nibble_path import NibblePath

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: equality and hash laws checked on families of equal, nearly equal and different objects against their independently computed identity"
LEVEL_NOTE = ("in the executed families every pair compared equal exactly when the identities (root, fields, nibbles, public key and nickname) were equal, "
              "with ==, != and hash agreeing and unchanged by use in sets and dictionaries")
RULE = ("a case is a family of six to sixteen objects of one kind, made in different ways, many of them equal or nearly equal; every ordered pair is "
        "compared; non-trivial when the family had equal and different pairs")
REQUIRED = ["tries_compared", "merkle_compared", "proofs_compared", "references_compared", "paths_compared", "keypairs_compared", "equal_pairs", "parts_compared",
            "different_pairs", "foreign_compared", "hashes_compared", "set_members", "leading_zero_roots", "same_history_other_order", "opened_by_hash", "other_key_treatment", "steps_reordered"]
ASSUMPTIONS = ["Merkle trees are built and have leaves before they are compared", "keccak256 and the tree's hash do not collide"]

FOREIGN = (None, 0, 5, "text", b"bytes", (), [], {}, object(), 1.5, True, {b"a"}, bytearray(b"x"))


def parts(o, i):
    """What an object is made of, or known by: none of it is the object."""
    out = [i, hash(o), str(hash(o)), str(o), repr(o)]
    if isinstance(i, tuple):
        out += list(i) + [list(i), dict(enumerate(i))]
    for name in ("root_hash", "root", "encode", "encode_rlp", "encode_json", "get_merkle_root", "get_leaf_count", "items", "__iter__"):
        f = getattr(o, name, None)
        if f is not None:
            x = T.attempt(f)
            if not T.raised(x):
                out.append(x)
                if name == "items":
                    out += [list(x), dict(x)]
    for name in ("public_key", "public_key_string", "nickname", "proof", "target_key", "trie_root", "type", "timestamp", "key", "data", "hash"):
        x = T.attempt(lambda: getattr(o, name))
        if not T.raised(x):
            out += [x] + ([x.decode("latin-1")] if isinstance(x, bytes) else [x.encode()] if isinstance(x, str) else [])
    for x in list(out):
        if isinstance(x, bytes):
            out += [bytearray(x), int.from_bytes(x, "big"), x.hex()]
    if isinstance(o, MerkleTools):
        n = o.get_leaf_count()
        out += [[o.get_leaf(j) for j in range(n)]]
        if n:
            out.append(o.get_leaf(0))
    return out


def family(mon, objs, what, foreign=True, hashed=True):
    """objs: (object, identity) pairs."""
    eq = ne = 0
    hashes = [hash(o) for o, _ in objs] if hashed else None
    for (i, (a, ia)), (j, (b, ib)) in itertools.product(enumerate(objs), repeat=2):
        same = ia == ib
        mon.check((a == b) is same, "%s: `==` answers %r for %r and %r", what, a == b, ia, ib)
        mon.check((a != b) is (not same), "%s: `!=` answers %r for %r and %r", what, a != b, ia, ib)
        mon.saw(what + "_compared")
        if i != j:
            mon.saw("equal_pairs" if same else "different_pairs")
            eq, ne = eq + same, ne + (not same)
        if hashed and same:
            mon.check(hashes[i] == hashes[j], "%s: equal objects (%r) have different hashes", what, ia)
            mon.saw("hashes_compared")
    if hashed:
        mon.check([hash(o) for o, _ in objs] == hashes, "%s: a hash changed by comparing", what)
        ids = []
        for _, i in objs:
            if i not in ids:
                ids.append(i)
        mon.check(len({o for o, _ in objs}) == len(ids), "%s: a set holds %d of the %d different objects", what, len({o for o, _ in objs}), len(ids))
        d = {}
        for o, i in objs:
            d[o] = i
        for o, i in objs:
            mon.check(d[o] == i, "%s: a dictionary finds another object for %r", what, i)
            mon.saw("set_members")
    if foreign:
        for f in FOREIGN:
            for o, i in objs[:3]:
                r = T.attempt(lambda: (o == f, o != f))
                mon.check(r == (False, True), "%s: comparing %r with %r gives %r", what, i, f, r)
                mon.saw("foreign_compared")
        for o, i in objs:
            for f in parts(o, i):
                r = T.attempt(lambda: (o == f, o != f, f == o, f != o))
                mon.check(r == (False, True, False, True), "%s: comparing %r with a part of it, %.200r, gives %r", what, i, f, r)
                mon.saw("parts_compared")
    if eq and ne:
        mon.mark()


def gen_seed(rng, size):
    return {"seed": rng.getrandbits(40), "size": size}


def run_tries(case, mon):
    rng = random.Random(case["seed"])
    secure = rng.random() < 0.3
    h = gen.history(rng, 1 if case["size"] < 3 else 2, secure=secure)
    objs = []

    def put(t, m):
        objs.append((t, R.root_hash(m, t.secure)))

    storage = {}
    t, m = MPT(storage, secure=secure), {}
    put(MPT({}, secure=secure), {})
    for op in h["ops"]:
        T.apply(t, m, op)
        if rng.random() < 0.4 and len(objs) < 10:
            put(MPT(storage, t.root(), secure=secure), dict(m))
    put(t, m)
    # the same contents in another order, through detours
    ks = list(m)
    rng.shuffle(ks)
    u = MPT({}, secure=secure)
    for k in ks:
        u.update(k, b"first something else" * 2)
    for k in ks:
        u.update(k, m[k])
    put(u, m)
    mon.saw("same_history_other_order")
    put(MPT.decode(t.encode()), m)
    if m:
        k = rng.choice(ks)
        m2 = dict(m)
        m2[k] = m2[k] + b"\x00" if rng.random() < 0.5 else b"\x00" + m2[k]
        v = MPT(dict(storage), t.root(), secure=secure)
        v.update(k, m2[k])
        put(v, m2)
        m3 = dict(m)
        del m3[k]
        v = MPT(dict(storage), t.root(), secure=secure)
        v.delete(k)
        put(v, m3)
        v.update(k, m[k])
        objs[-1] = (v, R.root_hash(m, secure))
    # opened by the hash of the root alone
    put(MPT({}, R.root_hash(m, secure), secure=secure), m)
    put(MPT({}, R.root_hash({}, secure), secure=secure), {})
    mon.saw("opened_by_hash")
    # it is the root that counts, not how keys are treated on the way to it
    put(MPT({}, secure=not secure), {})
    put(MPT({}, t.root(), secure=not secure), m)
    objs[-1] = (objs[-1][0], R.root_hash(m, secure))
    w = MPT({}, secure=False)
    for k in ks:
        w.update(R.keccak256(k), m[k])
    objs.append((w, R.root_hash(m, True)))
    mon.saw("other_key_treatment")
    family(mon, objs, "tries")
    mon.state([i for _, i in objs])


def merkle(cls, secure, name, leaves):
    t = MerkleTree(secure, name) if cls == 0 else MerkleTools(name, secure)
    for l in leaves:
        t.add_leaf(l)
    t.make_tree()
    return t, M.root(leaves, secure, name)


def run_merkle(case, mon):
    rng = random.Random(case["seed"])
    name, secure = rng.choice(M.HASHES), rng.random() < 0.5
    leaves = [gen.value(rng, False, True) for _ in range(rng.choice((1, 1, 2, 3, 4, 5, 7)))]
    lists = [leaves, leaves[::-1], leaves + [leaves[-1]], leaves[:-1] or [b"x"], [l + b"\x00" for l in leaves], [b"\x00" + l for l in leaves], list(leaves)]
    if rng.random() < 0.6:
        # single short leaves: their roots are the leaves themselves when not hashed
        n = rng.choice((b"", b"\x01", b"\x10", b"\x0a\x00"))
        lists += [[n], [b"\x00" + n], [b"\x00\x00" + n], [n + b"\x00"], [n]]
        mon.saw("leading_zero_roots")
    objs = []
    for l in lists:
        objs.append(merkle(rng.randrange(2), secure, name, l))
    objs.append(merkle(0, not secure, name, leaves))
    objs.append(merkle(1, secure, rng.choice(M.HASHES), leaves))
    family(mon, objs, "merkle")
    # a tree that grows, and is built again
    t, _ = objs[0]
    t.add_leaf(b"one more")
    t.make_tree()
    objs[0] = (t, M.root(leaves + [b"one more"], secure, name))
    family(mon, objs[:4], "merkle", foreign=False)
    mon.state([i for _, i in objs])


def run_proofs(case, mon):
    rng = random.Random(case["seed"])
    key, root = gen.value(rng, False, True)[:80], gen.rbytes(rng, 32)
    typ = rng.choice((b"MPT-POI", b"MPT-POE", b"MT-POI"))
    if typ == b"MT-POI":
        steps = tuple((rng.choice((b"left", b"right")), gen.rbytes(rng, 4).hex().encode()) for _ in range(rng.randrange(4)))
    else:
        steps = tuple(gen.value(rng)[:60] for _ in range(rng.randrange(1, 4)))
    objs = []

    def put(p):
        objs.append((p, (p.timestamp, p.target_key, p.trie_root, p.proof, p.type)))

    a = Proof(key, root, steps, typ)
    put(a)
    if typ == b"MT-POI":
        b = Proof.decode_rlp(a.encode_rlp())
        put(b)
        put(Proof.decode_rlp(b.encode_rlp()))
        put(Proof.decode_json(Proof(b"key", b"root", steps, typ).encode_json()))
    put(Proof(key, root, steps, typ))
    put(Proof(key + b"\x00", root, steps, typ))
    put(Proof(root, key, steps, typ))
    put(Proof(key, root, steps[:-1], typ))
    put(Proof(key, root, steps + steps[:1], typ))
    put(Proof(key, root, steps, b"MPT-POE" if typ != b"MPT-POE" else b"MPT-POI"))
    # the same time stamp and a difference elsewhere, by way of the encoding
    if typ == b"MT-POI":
        parts = R.rlp_decode(a.encode_rlp())
        for i in (2, 3, 1):
            q = list(parts)
            q[i] = q[i] + b"1" if rng.random() < 0.5 else q[i][:-1]
            x = T.attempt(Proof.decode_rlp, R.rlp_encode(q))
            if not T.raised(x):
                put(x)
        # the same steps in another order, or put together otherwise
        for other in (parts[4][::-1], [x[::-1] for x in parts[4]], parts[4] + parts[4][-1:], [b for x in parts[4] for b in x], [[b"".join(x)] for x in parts[4]],
                      rng.sample(parts[4], len(parts[4]))):
            q = list(parts)
            q[4] = other
            x = T.attempt(Proof.decode_rlp, R.rlp_encode(q))
            if not T.raised(x):
                put(x)
                mon.saw("steps_reordered")
        q = list(parts)
        q[2], q[3] = q[2] + q[3][:1], q[3][1:]
        x = T.attempt(Proof.decode_rlp, R.rlp_encode(q))
        if not T.raised(x):
            put(x)
    family(mon, objs, "proofs")
    mon.state(key, root, steps)


def run_references(case, mon):
    rng = random.Random(case["seed"])
    both = gen.value(rng, False, True)[:60] + b"\x00split"
    objs = []
    for _ in range(4):
        i = rng.randrange(len(both) + 1)
        r = DataReference(both[:i], both[i:])
        objs.append((r, (both[:i], both[i:])))
        objs.append((DataReference.decode(r.encode()), (both[:i], both[i:])))
    k, d = objs[0][1]
    for a, b in ((k, d + b"\x00"), (k + b"\x00", d), (d, k), (k, d)):
        objs.append((DataReference(a, b), (a, b)))
    # equal hashes only for equal references would be too much to ask; hash() must agree for equal ones
    family(mon, objs, "references")
    mon.state(both)


def run_paths(case, mon):
    rng = random.Random(case["seed"])
    b = gen.rbytes(rng, rng.randrange(0, 5))
    objs = []

    def put(p, nib):
        objs.append((p, tuple(nib)))

    full = R.nibbles(b)
    for off in range(0, len(full) + 1):
        put(NibblePath(b, off), full[off:])
        put(NibblePath(gen.rbytes(rng, 1) + b, off + 2), full[off:])
    if full:
        i = rng.randrange(len(full) + 1)
        c = bytearray(b)
        c[0] ^= rng.choice((0x10, 0x01))
        put(NibblePath(bytes(c), 0), R.nibbles(bytes(c)))
        put(NibblePath(b, 0).combine(NibblePath(b"", 0)), full)
        p = NibblePath(b, 0)
        p.consume(i)
        put(p, full[i:])
    put(NibblePath(b + b"\x00", 0), R.nibbles(b + b"\x00"))
    family(mon, objs[:18], "paths", foreign=False, hashed=False)
    mon.state(b)


def run_keypairs(case, mon):
    rng = random.Random(case["seed"])
    cls = rng.choice((RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair))
    a, b = K.pool(cls, 2)
    objs = []

    def put(p):
        objs.append((p, (p.public_key, p.nickname)))

    for src in (a, b):
        for nick in (src.nickname, "other", "Other", "", None, src.nickname + " ", "\u00e9", "e\u0301", "\ufb01", "fi"):
            p = cls.from_key_string(src.to_key_string("pw"), "pw")
            p.nickname = nick
            put(p)
    put(a)
    family(mon, objs, "keypairs")
    for p, (pub, nick) in objs:
        mon.check(hash(p) == (hash(a) if pub == a.public_key else hash(b)), "key pairs with one public key have different hashes")
    mon.mark()
    mon.state(rng.random())


SCENARIOS = [
    scenario("tries", gen_seed, run_tries, 500, 20000),
    scenario("merkle", gen_seed, run_merkle, 600, 20000),
    scenario("proofs", gen_seed, run_proofs, 400, 15000),
    scenario("references", gen_seed, run_references, 300, 10000),
    scenario("paths", gen_seed, run_paths, 400, 15000),
    scenario("keypairs", gen_seed, run_keypairs, 8, 100),
]
