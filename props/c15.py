"""C15: the Merkle tree root is the defined function of its current leaves."""
import random

from vlib import gen, mined, tries as T, ref_merkle as M, longlife, words
from vlib.core import scenario
from pymt.mt import MerkleTree
from pymt.merkletools import MerkleTools

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every state of a tree's history is compared with an independently computed pairwise hash tree"
LEVEL_NOTE = ("in the executed histories every reported root, count and leaf was the one of the leaves present; all leaf counts up to "
              "the stated size were built with every hash type and mode")
RULE = ("sizes: every leaf count up to 130 with every hash type and mode; history: adding, building, resetting, querying in any order "
        "on MerkleTree and MerkleTools, checked after each step; large: thousands of leaves; non-trivial when a tree of two or more "
        "leaves was built")
REQUIRED = ["words_tried", "roots_compared", "not_ready_refused", "leaves_compared", "built_after_adding", "resets", "empty_refused", "sizes_built",
            "class_MerkleTree", "class_MerkleTools", "bad_values_refused", "list_failures", "operations_of_long_lives"]
ASSUMPTIONS = []


def new(cls, secure, h):
    return MerkleTree(secure=secure, hash_type=h) if cls == 0 else MerkleTools(hash_type=h, secure=secure)


def root_of(t):
    r = t.get_merkle_root()
    return r.decode() if isinstance(r, bytes) else r


def check_built(mon, t, leaves, secure, h):
    """t was just built (or is a MerkleTree): its root must be there."""
    got = T.attempt(root_of, t)
    if not leaves:
        mon.check(T.raised(got), "a tree without leaves has the root %r", got)
        mon.saw("empty_refused")
        return
    mon.check(not T.raised(got), "the root of a built tree with %d leaves: %r", len(leaves), got)
    want = M.root(leaves, secure, h).hex()
    mon.check(got == want, "root of %d leaves (%s, secure=%s) is %s, should be %s", len(leaves), h, secure, got, want)
    mon.saw("roots_compared")
    if len(leaves) > 1:
        mon.mark()


def check_any(mon, t, leaves, secure, h, rng):
    """Whatever state the tree is in."""
    n = len(leaves)
    counts = [len(t), t.get_leaf_count()] + ([t.get_count()] if isinstance(t, MerkleTree) else [])
    mon.check(all(c == n for c in counts), "leaf counts are %r, added were %d", counts, n)
    for i in ({0, n - 1, rng.randrange(n), rng.randrange(n)} if n else ()):
        want = M.leaf(leaves[i], secure, h).hex()
        mon.check(t.get_leaf(i) == want, "leaf %d is %s, should be %s", i, t.get_leaf(i), want)
        if isinstance(t, MerkleTree):
            mon.check(t.get(i) == want, "get(%d) is %s, should be %s", i, t.get(i), want)
        mon.saw("leaves_compared")
    mon.check(T.raised(T.attempt(t.get_leaf, n)), "a leaf behind the last one was given")
    mon.check(T.raised(T.attempt(t.get_leaf, -n - 1)), "a leaf before the first one was given")
    ready = t.get_tree_ready_state()
    if not ready:
        mon.saw("not_ready_refused")
    if ready or rng.random() < 0.4:  # asking a MerkleTree for its root may build it
        got = T.attempt(root_of, t)
        if not T.raised(got):
            mon.check(bool(n), "a tree without leaves has the root %r", got)
            want = M.root(leaves, secure, h).hex()
            mon.check(got == want, "the root reported is %s, that of the %d leaves present is %s", got, n, want)
            mon.saw("roots_compared")
        elif ready and n:
            mon.check(False, "a ready tree refuses its root: %r", got)


def leaf_value(rng, pool):
    r = rng.random()
    if r < 0.25 and pool:
        return rng.choice(pool)
    if r < 0.32:
        return rng.choice((b"", b"\x00", b"\x00" * 32, b"a" * 64)) if rng.random() < 0.4 else gen.shaped(rng)
    if r < 0.4:  # text, so that other spellings of it are near misses
        s = "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice((1, 2, 16, 31, 32, 33, 40, 56, 64, 64, 96, 128))))
        return (s if rng.random() < 0.6 else s.upper()).encode()
    return gen.value(rng, rng.random() < 0.05)


def gen_case(rng, size):
    n = {1: rng.randrange(2, 14), 2: rng.randrange(6, 40), 3: rng.randrange(20, 120)}[size]
    pool = [gen.value(rng) for _ in range(rng.choice((1, 2, 4)))]
    secure, h = rng.random() < 0.5, rng.choice(M.HASHES)
    ops = []
    if rng.random() < 0.25:
        ops = [("list", M.nested(rng, rng.choice((4, 5, 6, 8, 13, 24)), secure, h)), ("make",)]
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            ops.append(("add", leaf_value(rng, pool)))
        elif r < 0.6:
            n = rng.choice((0, 1, 2, 3, 5, 9, 17))
            ops.append(("list", M.nested(rng, max(n, 2), secure, h) if rng.random() < 0.35 else [leaf_value(rng, pool) for _ in range(n)]))
        elif r < 0.8:
            ops.append(("make",))
        elif r < 0.84:
            ops.append(("reset",))
        elif r < 0.88:
            ops.append(("bad",))
        elif r < 0.91:
            ops.append(("badlist", [leaf_value(rng, pool) for _ in range(rng.randrange(3))]))
        else:
            ops.append(("query",))
    return {"ops": ops, "cls": rng.randrange(2), "secure": secure, "hash": h, "seed": rng.getrandbits(32)}


def run_case(case, mon):
    rng = random.Random(case["seed"])
    cls, secure, h = case["cls"], case["secure"], case["hash"]
    t = new(cls, secure, h if rng.random() < 0.8 else h.upper())
    mon.saw("class_" + type(t).__name__)
    mon.check(t.secure is secure, "secure is reported as %r", t.secure)
    leaves = []
    was_built = False
    for op in case["ops"]:
        if op[0] == "add":
            if cls == 0:
                (t.put if rng.random() < 0.7 else t.add_leaf)(op[1])
            else:
                t.add_leaf(op[1] if rng.random() < 0.8 else bytearray(op[1]))
            leaves.append(op[1])
        elif op[0] == "list":
            if cls == 0:
                t.put_list(op[1] if rng.random() < 0.5 else tuple(op[1]))
            else:
                for v in op[1]:
                    t.add_leaf(v)
            leaves += op[1]
        elif op[0] == "make":
            t.make_tree()
            check_built(mon, t, leaves, secure, h)
            if was_built and leaves:
                mon.saw("built_after_adding")
            was_built = True
        elif op[0] == "reset":
            t.reset_tree()
            leaves = []
            mon.saw("resets")
        elif op[0] == "bad" and cls == 0:
            for bad in (None, 5, "text", [b"x"], bytearray(b"x")):
                mon.check(T.raised(T.attempt(t.put, bad)), "the value %r was accepted", bad)
            mon.check(T.raised(T.attempt(t.put_list, b"abc")), "put_list accepted bytes")
            mon.saw("bad_values_refused")
        elif op[0] == "badlist" and cls == 0:
            vals = op[1] + [None] + op[1]
            mon.check(T.raised(T.attempt(t.put_list, vals)), "a list with None was accepted")
            n = len(t) - len(leaves)  # none or those before the bad one
            mon.check(0 <= n <= len(op[1]), "a refused list added %d leaves", n)
            leaves += op[1][:n]
            mon.saw("list_failures")
        elif op[0] == "query":
            if leaves:
                T.attempt(t.get_proof_of_inclusion, rng.choice(leaves))
            T.attempt(str, t)
        check_any(mon, t, leaves, secure, h, rng)
        mon.state(cls, secure, h, leaves[-3:], len(leaves), t.get_tree_ready_state())
    t.make_tree()
    check_built(mon, t, leaves, secure, h)
    # a second build without change, and one after one more leaf
    t.make_tree()
    check_built(mon, t, leaves, secure, h)
    t.add_leaf(b"one more")
    leaves.append(b"one more")
    check_any(mon, t, leaves, secure, h, rng)
    t.make_tree()
    check_built(mon, t, leaves, secure, h)
    # the same leaves put into a fresh tree at once
    f = new(cls, secure, h)
    for v in leaves:
        f.add_leaf(v)
    f.make_tree()
    check_built(mon, f, leaves, secure, h)


SIZES = 131 * len(M.HASHES) * 4


def gen_sizes(i):
    i = i * 1231 % SIZES
    n, rest = divmod(i, len(M.HASHES) * 4)
    return {"n": n, "hash": M.HASHES[rest // 4], "secure": bool(rest & 1), "cls": (rest >> 1) & 1}


def run_sizes(case, mon):
    n, h, secure, cls = case["n"], case["hash"], case["secure"], case["cls"]
    rng = random.Random(n * 7 + secure)
    leaves = [(b"leaf %d" % i if n % 3 else bytes([i % 5])) * (1 if n % 2 else 1 + i % 4) for i in range(n)]
    t = new(cls, secure, h)
    for v in leaves:
        t.add_leaf(v)
    t.make_tree()
    check_built(mon, t, leaves, secure, h)
    check_any(mon, t, leaves, secure, h, rng)
    mon.saw("sizes_built")
    # grow it by one and build again
    t.add_leaf(b"grown")
    t.make_tree()
    check_built(mon, t, leaves + [b"grown"], secure, h)
    t.reset_tree()
    mon.saw("resets")
    check_any(mon, t, [], secure, h, rng)
    t.add_leaf(b"afterwards")
    t.make_tree()
    check_built(mon, t, [b"afterwards"], secure, h)
    mon.state(n, h, secure, cls)


def gen_large(rng, size):
    n = rng.choice((255, 256, 257, 500, 511, 513, 1000, 1023, 1024, 1025, 2048, 3001) + tuple(x for x in mined.SMALL_LENGTHS if x) * (1 if mined.SMALL_LENGTHS else 0))
    return {"n": min(n, 5000), "hash": rng.choice(M.HASHES), "secure": rng.random() < 0.5, "cls": rng.randrange(2), "seed": rng.getrandbits(32)}


def run_large(case, mon):
    rng = random.Random(case["seed"])
    leaves = [rng.randbytes(rng.choice((1, 8, 32))) for _ in range(case["n"])]
    t = new(case["cls"], case["secure"], case["hash"])
    cut = rng.randrange(len(leaves) + 1)
    for i, v in enumerate(leaves):
        if i == cut:
            t.make_tree()
            check_built(mon, t, leaves[:i], case["secure"], case["hash"])
        t.add_leaf(v)
    t.make_tree()
    check_built(mon, t, leaves, case["secure"], case["hash"])
    check_any(mon, t, leaves, case["secure"], case["hash"], rng)
    mon.state(t.get_merkle_root())


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Leaves of one length, every byte of which counts."""
    rng = random.Random(case["n"])
    a, b = rng.randbytes(case["n"]), bytearray(rng.randbytes(case["n"]))
    c = bytearray(b)
    if c:
        c[case["i"] % len(c)] ^= 1
    leaves = [a, bytes(b), bytes(c), b"", a[: len(a) // 2]]
    for h in (M.HASHES[case["i"] % len(M.HASHES)], "sha256"):
        for secure in (True, False):
            for cls in (0, 1):
                t = new(cls, secure, h)
                for v in leaves:
                    t.add_leaf(v)
                t.make_tree()
                check_built(mon, t, leaves, secure, h)
    mon.saw("lengths")
    mon.state(case["n"])


def gen_long(rng, size):
    return {"cls": rng.randrange(2), "secure": rng.random() < 0.5, "hash": rng.choice(M.HASHES), "seed": rng.getrandbits(48), "n": rng.choice((300, 600, 1100)),
            "most": rng.choice((3, 20, 150))}


def run_long(case, mon):
    """One tree built, asked, extended and reset hundreds of times."""
    rng = random.Random(case["seed"])
    secure, h = case["secure"], case["hash"]
    t, leaves = new(case["cls"], secure, h), []
    for i in range(case["n"]):
        if len(leaves) >= case["most"]:
            t.reset_tree()
            leaves = []
            mon.saw("resets")
        v = leaf_value(rng, leaves)
        t.add_leaf(v)
        leaves.append(v)
        if rng.random() < 0.5:
            t.make_tree()
            check_built(mon, t, leaves, secure, h)
        else:
            check_any(mon, t, leaves, secure, h, rng)
        for _ in range(rng.choice((0, 0, 5))):
            j = rng.randrange(len(leaves))
            mon.check(t.get_leaf(j) == M.leaf(leaves[j], secure, h).hex(), "leaf %d is wrong after %d rounds", j, i + 1)
            mon.saw("leaves_compared")
        mon.saw("operations_of_long_lives")
    mon.state(case["seed"])


def words_cases(w, i):
    h = M.HASHES[i % len(M.HASHES)]
    for leaves in ([w], [w, b"other", w], [b"a", w, b"b", w + b"x", w[:-1], b"c"]):
        yield {"ops": [("list", leaves), ("make",), ("query",), ("add", w), ("make",), ("query",)], "cls": i & 1, "secure": bool(i & 2), "hash": h, "seed": i}


SCENARIOS = [
    words.each(run_case, words_cases),
    scenario("history", gen_case, run_case, 8000, 300000),
    scenario("sizes", gen_sizes, run_sizes, SIZES, SIZES, enum=True),
    scenario("large", gen_large, run_large, 150, 5000),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
    scenario("long", gen_long, run_long, 24, 600),
]
