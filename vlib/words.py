"""Every word that might mean something to the code, in every role it can take.

Words are the byte strings and texts the code under test mentions itself, the
library's markers, all single bytes and other bytes with a meaning to encodings.
Random generators meet one of them in one role now and then; here each is met."""
from . import gen, mined
from . import ref_trie as R
from .core import scenario

_all = (gen.MARKERS + gen.SPECIAL_VALUES + mined.BYTES + [bytes([i]) for i in range(256)]
        + [b"\x80" * 2, b"\xb8", b"\xf8", b"\xc2\x80\x80", R.keccak256(b""), b"\x20", b"\x00\x00", b"\x80\x01", b"True", b"{}", b"[]", b'""', b"''", b"\r\n", b"b''"])
WORDS = list(dict.fromkeys(w for w in _all if w))
COUNT = len(WORDS)


def word(i):
    # neighbours in the list are alike: a budget that ends early still saw all sorts
    step = 211
    while COUNT % step == 0 or step % COUNT == 0:
        step += 2
    return WORDS[i * step % COUNT]


def contents(w):
    """Histories of raw puts and deletes in which w is value or key at every kind of place."""
    long = b"a value that is longer than thirty-two bytes"
    p = b"pre"
    return [
        # the value of a lone leaf, of a leaf below a branch, of a branch, of one with the empty key
        [("put", b"key", w)],
        [("put", b"ka", w), ("put", b"kb", long), ("put", b"kc", b"v")],
        [("put", b"k", w), ("put", b"ka", b"v"), ("put", b"kp", long)],
        [("put", b"", w), ("put", b"\x00", long), ("put", b"\xf0", w), ("put", b"\x01", b"v")],
        [("put", b"k", b"v"), ("put", b"ka", w), ("put", b"kp", long), ("del", b"k")],
        [("put", b"k", w), ("put", b"ka", b"v"), ("put", b"kp", long), ("del", b"ka"), ("del", b"kp")],
        # a key: alone, extended, extending, absent among neighbours
        [("put", w, b"v")],
        [("put", w, long), ("put", w + b"x", b"v"), ("put", w + b"\x00", long), ("put", w[:-1], w)],
        [("put", w + b"x", b"v"), ("put", w + b"y", long), ("put", w[:-1] + b"~~", b"v")],
        [("put", p + w, long), ("put", p, b"v"), ("put", p + w + w, w), ("del", p)],
        # everything
        [("put", w, w), ("put", w + w, w), ("put", R.keccak256(w), w), ("put", p, w * 2), ("put", w, long), ("put", w, w)],
    ]


def raw(run, picks=None, others=False):
    """A scenario that gives every content of every word to `run(case, mon)`, a
    function for cases as gen.history makes them."""
    def make(i):
        return {"w": word(i), "i": i}

    def go(case, mon):
        w, i = case["w"], case["i"]
        all_of = contents(w)
        for j, ops in enumerate(all_of):
            if picks is not None and (i + j) % len(all_of) >= picks:
                continue
            keys = list(dict.fromkeys([o[1] for o in ops] + [w, w[:-1], b"pre"]))
            n = i * 16 + j
            case = {"secure": n % 5 == 0, "keys": keys, "ops": ops, "seed": n, "probe": n, "store": n % 2, "kind": "mpt", "size": 1}
            run(case, mon)
            if case["secure"]:
                run({**case, "secure": False}, mon)
            if others and j == i % len(all_of):
                run({**case, "kind": ("empt", "sparse")[i % 2]}, mon)
        mon.saw("words_tried")

    return scenario("words", make, go, COUNT, COUNT, enum=True)


def each(run, make, quick=COUNT):
    """A scenario over all words, `make(w, i)` giving the cases of one for `run`."""
    def go(case, mon):
        for c in make(case["w"], case["i"]):
            run(c, mon)
        mon.saw("words_tried")

    return scenario("words", lambda i: {"w": word(i), "i": i}, go, quick, COUNT, enum=True)


def extended(run, kinds=("put", "del"), tail=(), **more):
    """Like raw, for cases with ops (kind, key, value, form of value, *tail)."""
    put, rem = kinds

    def make(w, i):
        all_of = contents(w)
        for j in (i % len(all_of), (i + 5) % len(all_of), 10):
            ops = [(put, o[1], o[2], (i + n) % 4) + tail if o[0] == "put" else (rem, o[1], b"", 0) + tail for n, o in enumerate(all_of[j])]
            n = i * 16 + j
            yield dict({"secure": n % 5 == 0, "keys": list(dict.fromkeys([o[1] for o in ops] + [w, b"pre"])), "ops": ops, "seed": n, "stores": n % 4}, **more)

    return each(run, make)
