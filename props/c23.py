"""C23: nibble paths behave as nibble sequences and encode losslessly."""
import random

from vlib import gen, mined, ref_trie as R, tries as T, words
from vlib.core import scenario
from pymt.utils.nibble_path import NibblePath

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every operation on nibble paths is compared with the same operation on a list of nibbles, all live paths are re-read after each one"
LEVEL_NOTE = "in the executed runs every path agreed with its nibble list after every operation and encoded in hex-prefix form; all paths of up to three nibbles are enumerated"
RULE = "a case is one nibble sequence with all its forms, one pair of paths, one chain of operations over a pool of live paths, or one path of hundreds or thousands of nibbles cut to nothing; non-trivial always"
REQUIRED = ["words_tried", "paths_compared", "encoded_leaf", "encoded_extension", "decoded", "prefix_true", "prefix_false", "common_prefix", "combined", "consumed",
            "equal", "unequal", "odd_offset", "derived_of_derived", "printed", "out_of_range", "long_cuts"]
ASSUMPTIONS = ["offsets and cut lengths lie between 0 and the length of the path"]


def nibs(b):
    return tuple(x for c in b for x in (c >> 4, c & 15))


def compare(mon, p, want, what):
    mon.check(len(p) == len(want), "%s: the length is %d instead of %d", what, len(p), len(want))
    got = tuple(p.at(i) for i in range(len(want)))
    mon.check(got == tuple(want), "%s: the nibbles are %r instead of %r", what, got, tuple(want))
    mon.saw("paths_compared")


def encodings(mon, p, want, what):
    for leaf in (True, False):
        e = p.encode(leaf)
        mon.check(isinstance(e, (bytes, bytearray)) and bytes(e) == R.hp_encode(want, leaf), "%s: encoded (leaf %r) as %s", what, leaf, T.hx(e))
        mon.saw("encoded_leaf" if leaf else "encoded_extension")
        q, is_leaf = NibblePath.decode_with_type(e)
        mon.check(is_leaf is leaf or is_leaf == leaf, "%s: the kind decodes as %r", what, is_leaf)
        compare(mon, q, want, what + ", decoded")
        mon.check(q == p and p == q, "%s: the decoded path is not equal", what)
        mon.check(q.encode(leaf) == e and q.encode(not leaf) == R.hp_encode(want, not leaf), "%s: the decoded path encodes differently", what)
        compare(mon, NibblePath.decode(e), want, what + ", decoded without kind")
        mon.saw("decoded")
    mon.check(p.encode() == R.hp_encode(want, False), "%s: encode() is not the extension form", what)
    compare(mon, p, want, what + ", after encoding")


def printed(mon, p, what):
    mon.check(isinstance(repr(p), str) and isinstance(str(p), str), "%s cannot be printed", what)
    mon.saw("printed")


# -------------------------------------------------- all short nibble sequences
SHORT = 1 + 16 + 256 + 4096


def gen_short(i):
    i = i * 1931 % SHORT
    n = 0
    while i >= 16 ** n:
        i -= 16 ** n
        n += 1
    return {"nibbles": [(i >> 4 * j) & 15 for j in range(n)]}


def forms(n):
    """The same sequence made from different bytes and offsets."""
    out = []
    for front in range(5):
        if (front + len(n)) % 2 == 0:
            full = [15, 0, 7, 8, 1][:front] + list(n)
            out.append(NibblePath(bytes(full[i] * 16 + full[i + 1] for i in range(0, len(full), 2)), front))
    return out


def run_short(case, mon):
    n = tuple(case["nibbles"])
    mon.mark()
    fs = forms(n)
    for k, p in enumerate(fs):
        what = "form %d of %r" % (k, n)
        compare(mon, p, n, what)
        encodings(mon, p, n, what)
        for q in fs:
            mon.check(p == q and not (p != q) and p.starts_with(q), "%s is not equal to another form", what)
            mon.saw("equal")
        for cut in range(len(n) + 1):
            for a in forms(n[:cut]):
                for b in forms(n[cut:]):
                    compare(mon, a.combine(b), n, "joined at %d" % cut)
                    mon.check(a.combine(b) == p, "the joined path is not equal")
                mon.check(p.starts_with(a) is True and a.starts_with(p) is (cut == len(n)), "prefix test of the first %d of %r", cut, n)
                compare(mon, p.common_prefix(a), n[:cut], "common prefix with the first %d" % cut)
                mon.check((a == p) is (cut == len(n)), "a prefix compares equal")
    mon.saw("combined")
    mon.state(n)


# ---------------------------------------------------------------------- pairs
def path_of(rng, like=None):
    """(bytes, offset)"""
    r = rng.random()
    if like is not None and r < 0.7:
        n = list(like)
        k = rng.randrange(5)
        if k == 0:
            n = n[: rng.randrange(len(n) + 1)]
        elif k == 1:
            n = n + [rng.randrange(16) for _ in range(rng.randrange(1, 6))]
        elif k == 2 and n:
            n[rng.randrange(len(n))] ^= rng.choice((1, 2, 4, 8, 15))
        elif k == 3 and n:
            n[-1] ^= rng.choice((1, 8))
    else:
        n = [rng.randrange(16) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 63, 64, 65, 100)))]
        if rng.random() < 0.3:
            n = [rng.choice((0, 1, 15)) for _ in n]
    front = rng.randrange(7)
    if (front + len(n)) % 2:
        front += 1
    full = [rng.randrange(16) for _ in range(front)] + n
    return bytes(full[i] * 16 + full[i + 1] for i in range(0, len(full), 2)), front


def gen_pair(rng, size):
    a = path_of(rng)
    b = path_of(rng, nibs(a[0])[a[1]:])
    return {"a": a, "b": b, "cut": rng.random()}


def lcp(x, y):
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    return x[:i]


def run_pair(case, mon):
    (da, oa), (db, ob) = case["a"], case["b"]
    x, y = nibs(da)[oa:], nibs(db)[ob:]
    if case["cut"] < 0.1:
        da = bytearray(da)
    p, q = NibblePath(da, oa), NibblePath(db, ob)
    mon.mark()
    if oa % 2 or ob % 2:
        mon.saw("odd_offset")
    compare(mon, p, x, "a")
    compare(mon, q, y, "b")
    for u, v, m, n in ((p, q, x, y), (q, p, y, x)):
        mon.check((u == v) is (m == n) and (u != v) is (m != n), "equality of %r and %r", m, n)
        mon.saw("equal" if m == n else "unequal")
        want = m[: len(n)] == n
        mon.check(u.starts_with(v) is want, "%r starts with %r: %r", m, n, not want)
        mon.saw("prefix_true" if want else "prefix_false")
        compare(mon, u.common_prefix(v), lcp(m, n), "common prefix of %r and %r" % (m, n))
        mon.saw("common_prefix")
        c = u.combine(v)
        compare(mon, c, m + n, "%r joined with %r" % (m, n))
        encodings(mon, c, m + n, "the joined path")
        printed(mon, c, "the joined path")
        mon.saw("combined")
    encodings(mon, p, x, "a")
    encodings(mon, q, y, "b")
    for i in (len(x), len(x) + 1, len(x) + 9):
        mon.check(T.raised(T.attempt(p.at, i)), "there is a nibble at %d of %d", i, len(x))
        mon.saw("out_of_range")
    k = int(case["cut"] * (len(x) + 1))
    r = p.consume(k)
    compare(mon, r, x[k:], "after cutting %d of %r" % (k, x))
    compare(mon, p, x[k:], "the path that was cut")
    compare(mon, q, y, "the other path")
    encodings(mon, p, x[k:], "the cut path")
    printed(mon, p, "the cut path")
    mon.saw("consumed")
    mon.state(x, y, k)


# --------------------------------------------------------------------- chains
OPS = ("new", "combine", "combine", "lcp", "lcp", "cut", "cut", "code", "code", "ask", "print", "self")


def gen_chain(rng, size):
    ops = []
    for _ in range({1: 12, 2: 25, 3: 60}[size]):
        a = path_of(rng)
        ops.append((rng.choice(OPS), a if rng.random() < 0.8 else (a[0][:4], min(a[1], 2 * len(a[0][:4]))), rng.random(), rng.random(), rng.random()))
    return {"ops": ops}


def run_chain(case, mon):
    pool = []  # [path, nibbles, derived]

    def add(p, n, d=0):
        if len(pool) < 14:
            pool.append([p, tuple(n), d])
        else:
            pool[hash((len(n), d)) % 14] = [p, tuple(n), d]
        if d > 1:
            mon.saw("derived_of_derived")

    add(NibblePath(b"\x12\x34"), (1, 2, 3, 4))
    mon.mark()
    for step, (what, (data, off), r1, r2, r3) in enumerate(case["ops"]):
        a = pool[int(r1 * len(pool))]
        b = pool[int(r2 * len(pool))]
        if what == "new":
            add(NibblePath(data, off), nibs(data)[off:])
        elif what == "combine" and len(a[1]) + len(b[1]) < 300:
            add(a[0].combine(b[0]), a[1] + b[1], max(a[2], b[2]) + 1)
        elif what == "lcp":
            add(a[0].common_prefix(b[0]), lcp(a[1], b[1]), max(a[2], b[2]) + 1)
        elif what == "self":
            add(a[0].common_prefix(a[0]), a[1], a[2] + 1)
            if len(a[1]) < 100:
                add(a[0].combine(a[0]), a[1] + a[1], a[2] + 1)
        elif what == "cut":
            k = int(r3 * (len(a[1]) + 1))
            a[0].consume(k)
            a[1] = a[1][k:]
            mon.saw("consumed")
        elif what == "code":
            e = a[0].encode(r3 < 0.5)
            mon.check(e == R.hp_encode(a[1], r3 < 0.5), "step %d: the encoding of %r is %s", step, a[1], T.hx(e))
            q, leaf = NibblePath.decode_with_type(e)
            mon.check(bool(leaf) is (r3 < 0.5), "step %d: the kind changed", step)
            add(q, a[1], a[2] + 1)
        elif what == "ask":
            mon.check((a[0] == b[0]) is (a[1] == b[1]), "step %d: equality", step)
            mon.check(a[0].starts_with(b[0]) is (a[1][: len(b[1])] == b[1]), "step %d: prefix test", step)
        elif what == "print":
            printed(mon, a[0], "a path")
        for k, (p, n, d) in enumerate(pool):  # everything else stayed as it was
            compare(mon, p, n, "step %d (%s): path %d of the pool" % (step, what, k))
        mon.state(a[1], b[1], what)


LENGTHS = sorted({128, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1024, 1500, 2047, 2048, 3000, 4100} |
                 {n + d for n in mined.SMALL_LENGTHS if 100 < n < 6000 for d in (0, 1)})


def gen_long(rng, size):
    return {"n": rng.choice(LENGTHS) + rng.choice((0, 0, 1, -1)), "front": rng.choice((0, 0, 1, 2, 3, rng.randrange(700))), "seed": rng.getrandbits(32)}


def run_long(case, mon):
    """Paths of hundreds and thousands of nibbles, cut in many places."""
    rng = random.Random(case["seed"])
    n, front = case["n"], case["front"]
    front += (n + front) % 2
    few = rng.random() < 0.3
    data = bytes(rng.choice((0, 0x11, 0xF0, 0xFF)) for _ in range((n + front) // 2)) if few else rng.randbytes((n + front) // 2)
    x = nibs(data)[front:]
    p = NibblePath(bytearray(data) if rng.random() < 0.1 else data, front)
    mon.mark()
    compare(mon, p, x, "a path of %d nibbles" % n)
    printed(mon, p, "a long path")
    encodings(mon, p, x, "a path of %d nibbles" % n)
    # one that differs late, and one cut off late
    at = rng.choice((n - 1, n - 2, n // 2, rng.randrange(n)))
    y = x[:at] + ((x[at] + rng.randrange(1, 16)) % 16,) + x[at + 1:]
    z = x[:at]
    for m in (y, z, x):
        q = NibblePath(R.hp_encode(m, False), 1 if len(m) % 2 else 2)
        mon.check((p == q) is (m == x) and (q != p) is (m != x), "equality of paths of %d and %d nibbles that part at %d", n, len(m), at)
        mon.check(p.starts_with(q) is (x[: len(m)] == m) and q.starts_with(p) is (m == x), "prefix test of paths of %d and %d nibbles", n, len(m))
        compare(mon, p.common_prefix(q), lcp(x, m), "common prefix up to %d" % at)
        c = q.combine(p)
        compare(mon, c, m + x, "%d nibbles joined with %d" % (len(m), n))
    encodings(mon, c, x + x, "the joined path")
    while len(x):
        k = min(len(x), rng.choice((1, 1, 2, 3, 7, 64, 99, 255, 256, 301, len(x))))
        r = p.consume(k)
        x = x[k:]
        compare(mon, p, x, "after cutting %d" % k)
        mon.check(len(r) == len(x), "the cut path returned has %d nibbles", len(r))
        if rng.random() < 0.3:
            encodings(mon, p, x, "a long path that was cut")
            printed(mon, p, "a long path that was cut")
        mon.saw("long_cuts")
    mon.state(n, front, at)


def words_cases(w, i):
    for b in (w, w[:-1], w[1:], w + bytes([i % 256]), w[:-1] + bytes([w[-1] ^ 1]), w + w):
        for oa, ob in ((0, 0), (1, 1), (0, min(i % 3, 2 * len(b)))):
            yield {"a": (w, oa), "b": (b, min(ob, 2 * len(b))), "cut": (i % 7) / 7}


SCENARIOS = [
    words.each(run_pair, words_cases),
    scenario("short", gen_short, run_short, SHORT, SHORT, enum=True),
    scenario("pairs", gen_pair, run_pair, 30000, 600000),
    scenario("chains", gen_chain, run_chain, 1200, 30000),
    scenario("long", gen_long, run_long, 300, 6000),
]
