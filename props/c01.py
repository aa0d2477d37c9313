"""C01: the Patricia trie behaves as a key-value map."""
from vlib import gen, tries as T, longlife, words
from vlib.core import scenario, Violation
from vlib.stores import STORES
from pymt.mpt import MPT

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based history checker (dictionary model) on reads, membership and deletes"
LEVEL_NOTE = ("every answer of the executed histories is compared with a dictionary; exhaustive over all contents of eight "
              "8-key universes x one operation, random hostile histories beyond that; says nothing about inputs not generated")
RULE = ("a case is a history of puts and deletes over keys that share structure (or one enumerated contents plus every single "
        "operation); after operations the touched key, near misses and sampled keys are read through get/[]/contains/in and "
        "compared with a dictionary; non-trivial when the trie held at least two keys and both present and absent keys were read")
REQUIRED = ["words_tried", "present_reads", "absent_reads", "absent_deletes", "ops", "operations_of_long_lives"]
ASSUMPTIONS = ["keys are bytes, values non-empty bytes (an empty raw value is documented nowhere and means absence in a trie)",
               "key nesting below Python's recursion limit"]


def absent_delete(mon, trie, model, key):
    root = trie.root_hash()
    r = T.attempt(trie.delete, key)
    mon.saw("absent_deletes")
    mon.check(T.raised(r), "deleting the absent key %s did not raise", T.hx(key))
    mon.check(trie.root_hash() == root, "deleting the absent key %s changed the root", T.hx(key))


def gen_history(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35, big=True)
    c["store"] = rng.choice(sorted(STORES))
    c["probe"] = rng.getrandbits(32)
    return c


def run_history(case, mon):
    import random
    rng = random.Random(case["probe"])
    secure = case["secure"]
    trie = MPT(STORES[case["store"]](), secure=secure)
    model = {}
    keys = case["keys"]
    n = len(case["ops"])
    for i, op in enumerate(case["ops"]):
        was = op[1] in model
        if rng.random() < 0.06:  # bytes of a class of the caller's
            T.apply(trie, dict(model), (op[0],) + tuple(T.OwnBytes(x) for x in op[1:]), syntax=bool(i & 1))
            T.apply_ref(model, op)
            T.check_key(mon, trie, model, T.OwnBytes(op[1]), secure, 3)
            mon.saw("own_classes")
        else:
            T.apply(trie, model, op, syntax=bool(i & 1))
        mon.saw("ops")
        T.check_key(mon, trie, model, op[1], secure, 3)
        probes = rng.sample(keys, min(len(keys), 2)) + gen.near_misses(rng, [op[1]], 2)
        if n - i <= 2 or i % 16 == 7:
            probes = list(model) + keys + gen.near_misses(rng, keys, 8)
        for k in probes:
            T.check_key(mon, trie, model, k, secure, rng.randrange(8))
        if rng.random() < 0.3 or i == n - 1:
            for k in gen.near_misses(rng, keys, 2):
                if k not in model:
                    absent_delete(mon, trie, model, k)
                    if model:
                        T.check_key(mon, trie, model, rng.choice(list(model)), secure)
        mon.state(trie.root_hash())
        if len(model) >= 2:
            mon.mark()
    T.check_contents(mon, trie, model, keys, secure)
    for k in list(model):
        trie.delete(k)
        del model[k]
        T.check_key(mon, trie, model, k, secure, 7)
        if model and rng.random() < 0.5:
            T.check_key(mon, trie, model, rng.choice(list(model)), secure)
    T.check_contents(mon, trie, model, keys, secure)


def run_small(case, mon):
    secure, keys, storage, trie, model = T.small_build(case)
    root = trie.root()
    for i in range(len(keys)):
        for kind in (0, 1, 2):
            t = MPT(dict(storage), root, secure=secure)
            m = dict(model)
            k = keys[i]
            if kind == 2:
                if k in m:
                    t.delete(k)
                    del m[k]
                else:
                    absent_delete(mon, t, m, k)
            else:
                v = b"\x05" if kind == 0 else b"a new value that is longer than 32 bytes!"
                t.update(k, v)
                m[k] = v
            mon.saw("ops")
            mon.state(t.root_hash())
            for kk in keys:
                T.check_key(mon, t, m, kk, secure, 0)
    if len(model) >= 2:
        mon.mark()
    T.check_contents(mon, trie, model, keys, secure)


def gen_big(rng, size):
    n = rng.choice((300, 600, 1200)) if size > 1 else 200
    return {"secure": rng.random() < 0.5, "n": n, "seed": rng.getrandbits(32), "klen": rng.choice((1, 2, 2, 3, 20, 32)),
            "vlen": rng.choice((1, 3, 30, 40, 200))}


def run_big(case, mon):
    """Many keys: full branches and deep paths."""
    import random
    rng = random.Random(case["seed"])
    trie = MPT({}, secure=case["secure"])
    model = {}
    for i in range(case["n"]):
        k = rng.randbytes(case["klen"] if rng.random() < 0.8 else rng.randrange(0, 6))
        if rng.random() < 0.25 and model:
            k = rng.choice(list(model))
            if rng.random() < 0.5:
                trie.delete(k)
                del model[k]
                T.check_key(mon, trie, model, k, case["secure"], 2)
                continue
        v = (b"%d:" % i + rng.randbytes(case["vlen"]))[: max(1, case["vlen"])]
        trie.update(k, v)
        model[k] = v
        if i % 10 == 0:
            T.check_key(mon, trie, model, rng.choice(list(model)), case["secure"], 2)
            for kk in gen.near_misses(rng, [k], 2):
                T.check_key(mon, trie, model, kk, case["secure"], 0)
    mon.saw("ops", case["n"])
    mon.mark()
    T.check_contents(mon, trie, model, gen.near_misses(rng, list(model), 60), case["secure"])
    mon.state(trie.root_hash())


def run_long(case, mon):
    trie, secure = MPT({}, secure=case["secure"]), case["secure"]

    def each(i, op, model, keys):
        T.check_key(mon, trie, model, op[1], secure, i & 7)
        mon.saw("ops")

    def rare(i, model, keys):
        for k in keys:
            T.check_key(mon, trie, model, k, secure, i & 7)

    longlife.live(case, mon, trie, each, rare)


SCENARIOS = [
    words.raw(lambda c, mon: run_history({**c, "store": sorted(STORES)[c["seed"] % len(STORES)]}, mon)),
    scenario("small", T.small_case, run_small, 1000, T.SMALL_CASES, enum=True),
    scenario("history", gen_history, run_history, 1000, 60000),
    scenario("deep", gen_history, run_history, 16, 800, sizes=(gen.DEEP,)),
    scenario("big", gen_big, run_big, 16, 400),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
