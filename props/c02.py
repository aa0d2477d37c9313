"""C02: the root hash is a canonical commitment to the contents."""
import random

from vlib import gen, tries as T, ref_trie as R, longlife, words
from vlib.core import scenario
from vlib.stores import STORES
from pymt.mpt import MPT

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: root hash compared after every operation with an independent Yellow Paper trie"
LEVEL_NOTE = ("every root hash seen in the executed histories equals the root computed by an independent implementation from "
              "the contents alone (which itself reproduces published Ethereum vectors); collision resistance of keccak is trusted")
RULE = ("a case is a pair of histories reaching the same contents, or one enumerated contents and every single operation on it; "
        "after every operation the root hash is compared with the reference root of the model; non-trivial when at least one "
        "non-empty root was compared")
REQUIRED = ["words_tried", "roots_compared", "equal_pairs", "different_pairs", "emptied", "operations_of_long_lives"]
ASSUMPTIONS = ["values non-empty", "keccak256 collision resistant"]


def gen_pair(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35, big=True)
    c["seed"] = rng.getrandbits(32)
    c["store"] = rng.choice(sorted(STORES))
    return c


def run_pair(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    store = STORES[case["store"]]()
    trie = MPT(store, secure=secure)
    model = {}
    T.check_root(mon, trie, model, secure, "root of a new trie")
    for i, op in enumerate(case["ops"]):
        T.apply(trie, model, op, syntax=bool(i & 1))
        T.check_root(mon, trie, model, secure, "root after operation %d" % i)
        mon.state(trie.root_hash())
        if model:
            mon.mark()
    # another history with the same result: other order, detours, overwrites
    other = MPT(store if case["seed"] % 3 == 0 else {}, secure=secure)
    m2 = {}
    items = list(model.items())
    rng.shuffle(items)
    extra = [k for k in case["keys"] + gen.near_misses(rng, case["keys"], 4) if k not in model]
    for k, v in items:
        r = rng.random()
        if r < 0.3 and extra:
            x = rng.choice(extra)
            other.update(x, b"detour")
            m2[x] = b"detour"
        if r > 0.7:
            other.update(k, b"old value")
        other.update(k, v)
        m2[k] = v
    for x in [x for x in m2 if x not in model]:
        other.delete(x)
        del m2[x]
        T.check_root(mon, other, m2, secure, "root after removing a detour")
    mon.check(other.root_hash() == trie.root_hash(), "two histories with the same contents have different roots")
    mon.check(other == trie and trie == other and not (trie != other), "tries with equal contents compare unequal")
    mon.check(hash(other) == hash(trie), "equal tries have different hashes")
    mon.saw("equal_pairs")
    # one difference
    k = rng.choice(case["keys"] + extra)
    if k in model and rng.random() < 0.5:
        other.delete(k)
        del m2[k]
    else:
        v = gen.value(rng)
        if model.get(k) == v:
            v += b"x"
        other.update(k, v)
        m2[k] = v
    mon.check(other.root_hash() != trie.root_hash(), "different contents have the same root hash")
    mon.check(other != trie and not (trie == other), "tries with different contents compare equal")
    mon.saw("different_pairs")
    # versions of one entry, so small that there may be no node in the storage for them
    small = []
    for key, value in ((b"", b"x"), (b"", b"y"), (case["keys"][0][:3], b"x"), (case["keys"][0][:3], b"y"), (b"", b"x")):
        small.append(((R.keccak256(key) if secure else key, value), MPT(store if rng.random() < 0.7 else {}, secure=secure)))
        small[-1][1].update(key, value)
    for what, a in small:
        for what2, b in small:
            mon.check((a == b) is (what == what2) and (a != b) is (what != what2), "tries of one entry each, %r and %r, compare %s", what, what2, a == b)
    # empty it
    order = list(model)
    rng.shuffle(order)
    for k in order:
        trie.delete(k)
        del model[k]
        T.check_root(mon, trie, model, secure, "root while emptying")
    mon.check(trie.root_hash() == R.EMPTY_ROOT, "an emptied trie does not have the empty root")
    mon.check(trie == MPT({}, secure=secure), "an emptied trie differs from a new one")
    mon.saw("emptied")
    if case["ops"] and case["ops"][0][0] == "put":  # and it can be used again
        T.apply(trie, model, case["ops"][0])
        T.check_root(mon, trie, model, secure, "root after filling an emptied trie")


def run_small(case, mon):
    secure, keys, storage, trie, model = T.small_build(case)
    t2 = T.small_build(case, order=1)[3]
    T.check_root(mon, trie, model, secure)
    mon.check(t2.root_hash() == trie.root_hash() and t2 == trie, "the insertion order changed the root")
    if model:
        mon.mark()
    root = trie.root()
    for i, k in enumerate(keys):
        for kind in (0, 1, 2):
            t = MPT(dict(storage), root, secure=secure)
            m = dict(model)
            if kind == 2:
                if k not in m:
                    continue
                t.delete(k)
                del m[k]
            else:
                v = b"\x05" if kind == 0 else b"a new value that is longer than 32 bytes!"
                t.update(k, v)
                m[k] = v
            T.check_root(mon, t, m, secure, "root after %s of %s" % (("short put", "long put", "delete")[kind], k.hex()))
            mon.state(t.root_hash())


def gen_big(rng, size):
    return {"secure": rng.random() < 0.5, "n": rng.choice((150, 400, 900)), "seed": rng.getrandbits(32),
            "klen": rng.choice((1, 2, 2, 3, 20, 32)), "vlen": rng.choice((1, 3, 30, 40, 200, 2000))}


def run_big(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    trie = MPT({}, secure=secure)
    model = {}
    for i in range(case["n"]):
        k = rng.randbytes(case["klen"] if rng.random() < 0.8 else rng.randrange(0, 5))
        if model and rng.random() < 0.2:
            k = rng.choice(list(model))
            trie.delete(k)
            del model[k]
        else:
            v = rng.randbytes(case["vlen"]) if rng.random() < 0.7 else b"v"
            trie.update(k, v)
            model[k] = v
        if i % 50 == 49:
            T.check_root(mon, trie, model, secure)
    T.check_root(mon, trie, model, secure)
    mon.mark()
    keys = list(model)
    rng.shuffle(keys)
    for j, k in enumerate(keys):
        trie.delete(k)
        del model[k]
        if j % 50 == 49 or len(model) < 20:
            T.check_root(mon, trie, model, secure, "root while emptying a big trie")
    mon.saw("emptied")


def run_long(case, mon):
    trie, secure = MPT({}, secure=case["secure"]), case["secure"]
    T_check = lambda i, model, keys: T.check_root(mon, trie, model, secure, "root after %d operations on one trie" % (i + 1))
    model, _ = longlife.live(case, mon, trie, None, T_check)
    for k in list(model):
        trie.delete(k)
        del model[k]
        T_check(case["n"], model, None)


SCENARIOS = [
    words.raw(lambda c, mon: run_pair({**c, "store": sorted(STORES)[c["seed"] % len(STORES)]}, mon)),
    scenario("small", T.small_case, run_small, 1500, T.SMALL_CASES, enum=True),
    scenario("pair", gen_pair, run_pair, 1500, 60000),
    scenario("deep", gen_pair, run_pair, 16, 500, sizes=(gen.DEEP,)),
    scenario("big", gen_big, run_big, 16, 400),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
