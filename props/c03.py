"""C03: every past root stays readable with its own contents."""
import random

from vlib import gen, tries as T, ref_trie as R, longlife
from vlib.core import scenario
from vlib.stores import STORES, raw
from pymt.mpt import MPT

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: versions reopened on one shared storage, each against its own dictionary and reference root"
LEVEL_NOTE = ("every version opened in the executed histories is compared with the contents recorded when its root was current, "
              "after arbitrary interleaved writes to other versions on the same storage")
RULE = ("a case interleaves puts, deletes, re-opens of past roots and reads over up to six live tries on one storage; each live "
        "trie and at the end every root ever seen is compared with its recorded contents; non-trivial when a past root was read "
        "after later writes")
REQUIRED = ["versions_reopened", "interleaved_writes", "past_versions_read", "roots_compared", "operations_of_long_lives"]
ASSUMPTIONS = ["a version is reopened with the value root() returned then, as the constructor documents"]


def gen_case(rng, size):
    secure = rng.random() < 0.35
    h = gen.history(rng, size, secure=secure, length={1: 14, 2: 30, 3: 60}.get(size))
    ops = []
    for op in h["ops"]:
        r = rng.random()
        if r < 0.18:
            ops.append(("open", rng.getrandbits(20), rng.getrandbits(3)))
        elif r < 0.3:
            ops.append(("read", rng.getrandbits(20)))
        ops.append(op + (rng.getrandbits(8),))
    return {"secure": secure, "keys": h["keys"], "ops": ops, "store": rng.choice(sorted(STORES)), "seed": rng.getrandbits(32)}


def read_version(mon, storage, secure, root, contents, keys, rng, full):
    t = MPT(storage, root, secure=secure)
    want = R.root_hash(contents, secure)
    mon.check(t.root_hash() == want, "a reopened version reports root %s instead of %s", t.root_hash().hex(), want.hex())
    probe = list(contents) + [k for k in keys if k not in contents]
    if not full:
        probe = rng.sample(probe, min(len(probe), 4))
    for k in probe:
        T.check_key(mon, t, contents, k, secure, rng.randrange(8))
    mon.saw("past_versions_read")
    return t


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    storage = STORES[case["store"]]()
    live = [(MPT(storage, secure=secure), {})]
    past = []  # (root, contents)
    for op in case["ops"]:
        if op[0] == "open":
            if not past:
                continue
            root, contents = past[op[1] % len(past)]
            t = read_version(mon, storage, secure, root, contents, keys, rng, False)
            mon.saw("versions_reopened")
            if len(live) < 6:
                live.append((t, dict(contents)))
            else:
                live[op[2] % len(live)] = (t, dict(contents))
            continue
        if op[0] == "read":
            t, m = live[op[1] % len(live)]
            for k in rng.sample(keys, min(3, len(keys))):
                T.check_key(mon, t, m, k, secure)
            continue
        i = op[-1] % len(live)
        t, m = live[i]
        if op[0] == "del" and op[1] not in m:
            T.attempt(t.delete, op[1])
        T.apply(t, m, op[:-1])
        T.check_root(mon, t, m, secure, "root of version %d" % i)
        past.append((t.root(), dict(m)))
        mon.state(t.root_hash(), len(live))
        if len(live) > 1:
            mon.saw("interleaved_writes")
            j = rng.randrange(len(live))
            tj, mj = live[j]
            mon.check(tj.root_hash() == R.root_hash(mj, secure), "writing version %d changed the root of version %d", i, j)
            for k in rng.sample(keys, min(2, len(keys))) + [op[1]]:
                T.check_key(mon, tj, mj, k, secure)
            mon.mark()
    for t, m in live:
        T.check_contents(mon, t, m, keys, secure)
        T.check_root(mon, t, m, secure, "root of a live version at the end")
    seen = set()
    rng.shuffle(past)
    for root, contents in past:
        key = bytes(root)
        if key in seen or len(seen) > 25:
            continue
        seen.add(key)
        t = read_version(mon, storage, secure, root, contents, keys, rng, True)
    # the same from a copy of the storage: nothing lives only in the objects
    fresh = dict(raw(storage))
    for root, contents in past[:5]:
        t = read_version(mon, dict(fresh), secure, root, contents, keys, rng, True)
        m = dict(contents)
        for op in case["ops"][-3:]:
            if op[0] in ("put", "del"):
                T.apply(t, m, op[:-1])
        T.check_root(mon, t, m, secure, "root of a continued reopened version")


def run_small(case, mon):
    """All single operations applied to versions sharing one storage."""
    secure, keys, storage, trie, model = T.small_build(case)
    root = trie.root()
    made = []
    for i, k in enumerate(keys):
        for kind in (0, 1):
            t = MPT(storage, root, secure=secure)
            m = dict(model)
            if kind == 1:
                if k not in m:
                    continue
                t.delete(k)
                del m[k]
            else:
                v = b"a new value that is longer than 32 bytes!" if i % 2 else b"\x05"
                t.update(k, v)
                m[k] = v
            made.append((t, t.root(), m))
            mon.saw("interleaved_writes")
    mon.saw("versions_reopened", len(made))
    for t, r, m in made:
        T.check_root(mon, t, m, secure)
        mon.state(t.root_hash())
        for k in keys:
            T.check_key(mon, t, m, k, secure)
        t2 = MPT(storage, r, secure=secure)
        for k in keys[::3]:
            T.check_key(mon, t2, m, k, secure)
        mon.saw("past_versions_read")
    T.check_contents(mon, trie, model, keys, secure)
    T.check_root(mon, trie, model, secure, "root of the original")
    if len(model) > 1:
        mon.mark()


def run_long(case, mon):
    """One trie object makes thousands of versions."""
    rng = random.Random(case["seed"] + 1)
    storage, secure = STORES[rng.choice(sorted(STORES))](), case["secure"]
    trie = MPT(storage, secure=secure)
    past = []

    def each(i, op, model, keys):
        if len(past) < 40 or rng.random() < 0.2:
            past.append((trie.root(), dict(model)))
            if len(past) > 60:
                del past[rng.randrange(len(past))]

    def rare(i, model, keys):
        for root, contents in rng.sample(past, min(len(past), 3)):
            t = read_version(mon, storage, secure, root, contents, keys, rng, False)
            if rng.random() < 0.3:  # a version made from a past one is one too
                m = dict(contents)
                for k in rng.sample(keys, min(len(keys), 3)):
                    T.apply(t, m, ("put", k, b"of a branch, at %d" % i) if k not in m or rng.random() < 0.7 else ("del", k))
                if len(past) < 70:
                    past.append((t.root(), dict(m)))
                read_version(mon, storage, secure, t.root(), m, keys, rng, False)
                mon.saw("interleaved_writes")
        T.check_root(mon, trie, model, secure, "root of the trie itself")

    model, keys = longlife.live(case, mon, trie, each, rare)
    for root, contents in past:
        read_version(mon, storage, secure, root, contents, keys, rng, True)


SCENARIOS = [
    scenario("versions", gen_case, run_case, 700, 40000),
    scenario("deep", gen_case, run_case, 16, 500, sizes=(gen.DEEP,)),
    scenario("small", T.small_case, run_small, 500, T.SMALL_CASES, enum=True),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
