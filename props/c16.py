"""C16: every Merkle leaf has an inclusion proof that verifies."""
import random

from vlib import gen, mined, tries as T, ref_merkle as M, longlife, words
from vlib.core import scenario
from props.c15 import leaf_value, new
from pymt.mt import MerkleTree
from pymt.merkletools import MerkleTools
from pymt.proof import Proof

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every generated proof is judged by independent hashing and by every verifier"
LEVEL_NOTE = ("every leaf of every executed tree had a proof that folds to the root and is accepted by the tree and by separately built "
              "trees; requests for values that are not leaves were refused")
RULE = ("sizes: every leaf of every tree size up to 66 with every hash type and mode; history: trees that are built, extended, rebuilt "
        "and reset, all leaves proved at every stage; non-trivial when the tree had at least two leaves")
REQUIRED = ["words_tried", "proofs_accepted", "proofs_accepted_elsewhere", "folds_compared", "absent_refused", "empty_refused", "changed_tree_requests",
            "duplicate_leaves", "tools_proofs_accepted", "single_leaf_proofs", "digest_requests_refused", "decoded_proofs_accepted", "operations_of_long_lives"]
ASSUMPTIONS = []


def sides(proof):
    return [(s.decode(), bytes.fromhex(d.decode())) for s, d in proof.proof]


def prove(mon, t, leaves, v, secure, h, others):
    """v is a leaf of the built tree t; others hold the same leaves."""
    want = M.root(leaves, secure, h)
    p = t.get_proof_of_inclusion(v)
    mon.check(isinstance(p, Proof) and p.type == b"MT-POI", "the proof is %r", p)
    mon.check(p.target_key == v, "the proof names %r instead of %r", p.target_key, v)
    mon.check(p.trie_root == want.hex().encode(), "the proof names another root than the tree's")
    sibs = sides(p)
    folded = M.fold(M.leaf(v, secure, h), sibs, h)
    mon.check(folded == want, "hashing the siblings of leaf %s upwards does not give the root (%d leaves)", T.hx(v), len(leaves))
    mon.check(any(sibs == M.siblings(leaves, i, secure, h) for i, l in enumerate(leaves) if l == v),
              "the siblings of leaf %s are not those of its position", T.hx(v))
    mon.saw("folds_compared")
    if len(leaves) == 1:
        mon.saw("single_leaf_proofs")
    else:
        mon.mark()
    mon.check(t.verify_proof_of_inclusion(p) is True, "the tree refuses its own proof of %s (%d leaves, secure=%s, %s)", T.hx(v), len(leaves), secure, h)
    mon.saw("proofs_accepted")
    for o in others:
        mon.check(o.verify_proof_of_inclusion(p) is True, "a separately built tree refuses the proof of %s", T.hx(v))
        mon.saw("proofs_accepted_elsewhere")
    return p


def prove_tools(mon, t, leaves, v, secure, h, others):
    want = M.root(leaves, secure, h)
    p = t.get_proof_of_inclusion(v)
    mon.check(isinstance(p, list) and all(isinstance(x, dict) and len(x) == 1 for x in p), "the proof is %r", p)
    sibs = [(s, bytes.fromhex(d)) for x in p for s, d in x.items()]
    leaf = M.leaf(v, secure, h)
    mon.check(M.fold(leaf, sibs, h) == want, "hashing the siblings of leaf %s upwards does not give the root", T.hx(v))
    mon.saw("folds_compared")
    for o in [t] + others:
        mon.check(bool(o.verify_proof_of_inclusion(p, leaf, want)) is True, "the proof of %s is refused (%d leaves)", T.hx(v), len(leaves))
        mon.saw("tools_proofs_accepted")
    # the target and root may be what the tree reports
    mon.check(bool(t.verify_proof_of_inclusion(p, bytes.fromhex(t.get_leaf(leaves.index(v))), bytes.fromhex(t.get_merkle_root()))) is True,
              "the proof is refused for the reported leaf and root")


def refusals(mon, t, leaves, secure, h, rng, cls):
    absent = [x for x in (b"", b"\x00", b"absent", rng.choice(leaves) + b"x", rng.choice(leaves)[:-1], b"x" + rng.choice(leaves)) if x not in leaves]
    lv = M.levels(leaves, secure, h)
    if secure:  # a leaf's digest is not a leaf value
        absent += [x for x in (lv[0][0], lv[-1][0], rng.choice(lv[0]).hex().encode()) if x not in leaves]
        mon.saw("digest_requests_refused")
    else:
        absent += [x for x in (lv[-1][0], rng.choice(lv[0]).hex().encode()) if x not in leaves]
    for lf in rng.sample(leaves, min(3, len(leaves))):
        absent += [x for x in (lf.lower(), lf.upper(), lf.swapcase(), lf.strip(), lf.hex().encode(), b" " + lf, lf + b"\n", lf[::-1], lf.rstrip(b"\x00"), lf + lf,
                               lf.lstrip(b"\x00"), lf[:32], lf[:64], h.encode() + lf) if x not in leaves]
    for x in absent:
        r = T.attempt(t.get_proof_of_inclusion, x)
        mon.check(T.raised(r), "a proof of %s, which is no leaf, was given", T.hx(x))
        mon.saw("absent_refused")


def gen_case(rng, size):
    n = {1: rng.randrange(1, 8), 2: rng.randrange(4, 24), 3: rng.randrange(12, 60)}[size]
    pool = [gen.value(rng), gen.shaped(rng)]
    secure, h = rng.random() < 0.6, rng.choice(M.HASHES)
    stages = []
    left = n
    if rng.random() < 0.25:
        stages = [M.nested(rng, n + 1, secure, h)]
        left = rng.choice((0, 2))
    while left > 0:
        k = rng.randrange(1, left + 1)
        stages.append([leaf_value(rng, pool) for _ in range(k)])
        left -= k
    return {"ops": [("add", s) for s in stages], "cls": rng.choice((0, 0, 1)), "secure": secure, "hash": h, "seed": rng.getrandbits(32),
            "reset": rng.random() < 0.2}


def run_case(case, mon):
    rng = random.Random(case["seed"])
    cls, secure, h = case["cls"], case["secure"], case["hash"]
    t = new(cls, secure, h)
    mon.check(T.raised(T.attempt(t.get_proof_of_inclusion, b"x")), "an empty tree gave a proof")
    t.make_tree()
    mon.check(T.raised(T.attempt(t.get_proof_of_inclusion, b"x")), "an empty built tree gave a proof")
    mon.saw("empty_refused")
    leaves = []
    for _, vals in case["ops"]:
        for v in vals:
            t.add_leaf(v)
            leaves.append(v)
        # the tree changed since it was built: an error, or a proof of the current leaves
        v = rng.choice(leaves)
        r = T.attempt(t.get_proof_of_inclusion, v)
        mon.saw("changed_tree_requests")
        if not T.raised(r):
            sibs = sides(r) if cls == 0 else [(s, bytes.fromhex(d)) for x in r for s, d in x.items()]
            mon.check(M.fold(M.leaf(v, secure, h), sibs, h) == M.root(leaves, secure, h), "a changed tree gave a proof of other leaves")
            if cls == 0:
                mon.check(r.trie_root == M.root(leaves, secure, h).hex().encode(), "a changed tree gave a proof for another root")
        if cls == 0 and rng.random() < 0.3:
            t.get_merkle_root()  # builds it
        else:
            t.make_tree()
        if len(set(leaves)) < len(leaves):
            mon.saw("duplicate_leaves")
        o = new(cls, secure, h)
        for v in leaves:
            o.add_leaf(v)
        others = [o]
        if rng.random() < 0.6:
            o.make_tree()
        todo = leaves if len(leaves) < 12 else rng.sample(leaves, 10) + leaves[-2:] + leaves[:1]
        for v in todo:
            p = (prove if cls == 0 else prove_tools)(mon, t, leaves, v, secure, h, others)
            if cls == 0 and rng.random() < 0.15:
                d = Proof.decode_rlp(p.encode_rlp())
                mon.check(t.verify_proof_of_inclusion(d) is True, "the proof is refused after encoding and decoding")
                mon.saw("decoded_proofs_accepted")
        refusals(mon, t, leaves, secure, h, rng, cls)
        mon.state(cls, secure, h, leaves)
        if case["reset"] and rng.random() < 0.5:
            old = rng.choice(leaves)
            t.reset_tree()
            mon.check(T.raised(T.attempt(t.get_proof_of_inclusion, old)), "a tree gave a proof after a reset")
            mon.saw("empty_refused")
            leaves = []


SIZES = 67 * len(M.HASHES) * 4


def gen_sizes(i):
    i = i * 1231 % SIZES
    n, rest = divmod(i, len(M.HASHES) * 4)
    return {"n": n, "hash": M.HASHES[rest // 4], "secure": bool(rest & 1), "cls": (rest >> 1) & 1}


def run_sizes(case, mon):
    n, h, secure, cls = case["n"], case["hash"], case["secure"], case["cls"]
    if not n:
        return
    leaves = [b"leaf %d" % i for i in range(n)]
    t, o = new(cls, secure, h), new(cls, secure, h)
    for v in leaves:
        t.add_leaf(v)
        o.add_leaf(v)
    t.make_tree()
    o.make_tree()
    for v in leaves:
        (prove if cls == 0 else prove_tools)(mon, t, leaves, v, secure, h, [o])
    refusals(mon, t, leaves, secure, h, random.Random(n), cls)
    mon.state(n, h, secure, cls)


BIG_COUNTS = [n for n in mined.SIZES if 300 < n <= 10000]


def gen_large(rng, size):
    n = rng.choice((100, 127, 128, 129, 255, 257, 513, 1000, 1025) + tuple(x for x in mined.SMALL_LENGTHS if x))
    if rng.random() < 0.15:
        n = rng.choice(BIG_COUNTS) + rng.randrange(4)
    return {"n": n, "hash": rng.choice(M.HASHES), "secure": rng.random() < 0.5, "seed": rng.getrandbits(32), "cls": rng.randrange(2)}


def run_large(case, mon):
    rng = random.Random(case["seed"])
    n, h, secure, cls = case["n"], case["hash"], case["secure"], case["cls"]
    leaves = [rng.randbytes(rng.choice((3, 32))) for _ in range(n)]
    t = new(cls, secure, h)
    for v in leaves:
        t.add_leaf(v)
    t.make_tree()
    for i in {0, 1, n - 1, max(n - 2, 0), rng.randrange(n), rng.randrange(n)}:
        if i < n:
            (prove if cls == 0 else prove_tools)(mon, t, leaves, leaves[i], secure, h, [])
    mon.state(n, h, secure, cls)


def gen_long(rng, size):
    return {"cls": rng.randrange(2), "secure": rng.random() < 0.5, "hash": rng.choice(M.HASHES), "seed": rng.getrandbits(48), "n": rng.choice((600, 1100, 2100)),
            "leaves": rng.choice((2, 5, 9, 60)), "grow": rng.choice((0.0, 0.01, 0.2))}


def run_long(case, mon):
    """One tree asked for thousands of proofs."""
    rng = random.Random(case["seed"])
    secure, h = case["secure"], case["hash"]
    t = new(case["cls"], secure, h)
    leaves = [b"%d" % i for i in range(case["leaves"])]
    for l in leaves:
        t.add_leaf(l)
    t.make_tree()
    for i in range(case["n"]):
        if rng.random() < case["grow"] and len(leaves) < 150:
            leaves.append(b"%d" % len(leaves))
            t.add_leaf(leaves[-1])
            t.make_tree()
        (prove if case["cls"] == 0 else prove_tools)(mon, t, leaves, rng.choice(leaves), secure, h, [])
        if rng.random() < 0.1:
            x = b"no leaf %d" % i
            mon.check(T.raised(T.attempt(t.get_proof_of_inclusion, x)), "a proof of %s, which is no leaf, was given after %d proofs", T.hx(x), i + 1)
        mon.saw("operations_of_long_lives")
    mon.state(case["seed"])


def words_cases(w, i):
    h = M.HASHES[i % len(M.HASHES)]
    for leaves in ([w], [w, b"other", w], [b"a", w, b"b", w + b"x", w[:-1], b"c"]):
        yield {"ops": [("add", leaves), ("add", [w])], "cls": (0, 0, 1)[i % 3], "secure": bool(i & 2), "hash": h, "seed": i, "reset": False}


SCENARIOS = [
    words.each(run_case, words_cases),
    scenario("history", gen_case, run_case, 5000, 200000),
    scenario("sizes", gen_sizes, run_sizes, SIZES, SIZES, enum=True),
    scenario("large", gen_large, run_large, 120, 4000),
    scenario("long", gen_long, run_long, 24, 600),
]
