"""C05: a failing storage never corrupts the trie or its answers."""
import random

from vlib import gen, tries as T, ref_trie as R
from vlib.core import scenario, Violation
from vlib.stores import Faulty, FaultyMapping, FAULTS
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT
from pymt.utils import exceptions as X

ID = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: the storage fails at every single access of every operation"
LEVEL_NOTE = ("for each operation of the executed histories every storage access it makes is failed once (single faults, several "
              "exception types, and outages from that access on); reads, root and retries are then compared with the fault-free run")
RULE = ("a case is a trie and a set of operations; each operation is run once without faults to count its storage accesses and then "
        "once per access with that access raising; afterwards root hash, all contents and the retried operation are compared "
        "with the fault-free run; non-trivial when at least one fault fired")
REQUIRED = ["faults_fired", "fault_points", "retries_compared", "reads_under_fault", "get_faults", "set_faults",
            "extended_trie_faults"]
ASSUMPTIONS = ["a storage access that raises has no effect", "the storage works again for the verification reads"]

ABSENT = tuple(getattr(X, n) for n in ("KeyNotFoundError", "LeafPathError", "ExtensionPathError", "BranchPathError")
               if hasattr(X, n))


def reached_caller(mon, res, exc, what):
    mon.check(T.raised(res), "%s answered %s although the storage raised %s", what, T.hx(res) if not T.raised(res) else res,
              type(exc).__name__)
    mon.check(not isinstance(res.exc, ABSENT), "%s reported an absent key (%s) although the storage raised %s",
              what, type(res.exc).__name__, type(exc).__name__)


def key_sample(rng, keys, model, n):
    ks = rng.sample(keys, min(n, len(keys)))
    return ks + gen.near_misses(rng, keys, 1)


OPS = ["put", "del", "get", "contains", "in", "item", "poi", "poe"]


def do(trie, kind, k, v):
    if kind == "put":
        return trie.update(k, v)
    if kind == "del":
        return trie.delete(k)
    if kind == "get":
        return trie.get(k)
    if kind == "contains":
        return trie.contains(k)
    if kind == "in":
        return k in trie
    if kind == "item":
        return trie[k]
    if kind == "poi":
        return trie.get_proof_of_inclusion(k).proof
    return trie.get_proof_of_exclusion(k).proof


def gen_points(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35)
    c["seed"] = rng.getrandbits(32)
    # mostly larger values: nodes then really live in the storage
    if rng.random() < 0.7:
        c["ops"] = [("put", o[1], o[2] * (1 + 32 // len(o[2]))) if o[0] == "put" else o for o in c["ops"]]
    return c


def outcome(trie, kind, k, v):
    r = T.attempt(do, trie, kind, k, v)
    return ("raised",) if T.raised(r) else ("ok", r)


def run_points(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    clean = {}
    trie0 = MPT(clean, secure=secure)
    model = {}
    for op in case["ops"]:
        T.apply(trie0, model, op)
    if not model:
        trie0.update(keys[0], b"only" * 10)
        model[keys[0]] = b"only" * 10
    root = trie0.root()
    root_hash = trie0.root_hash()
    work = []
    for kind in OPS:
        for k in key_sample(rng, keys, model, 2 if kind in ("put", "del") else 1):
            work.append((kind, k, gen.value(rng)))
    if len(model) > 1:
        work.append(("del", rng.choice(list(model)), b""))
    for kind, k, v in work:
        ref_store = Faulty(clean)
        ref = MPT(ref_store, root, secure=secure)
        want = outcome(ref, kind, k, v)
        want_root = ref.root_hash()
        accesses = list(ref_store.log)
        m2 = dict(model)
        if want[0] == "ok" and kind in ("put", "del"):
            T.apply_ref(m2, (kind, k, v))
        for i in range(len(accesses)):
            mon.saw("fault_points")
            exc = FAULTS[(i + len(k)) % len(FAULTS)]("injected at access %d" % i)
            st = Faulty(clean)
            t = MPT(st, root, secure=secure)
            if rng.random() < 0.3:
                st.reset(fail_from=i, exc=exc)
            else:
                st.reset(fail_at={i}, exc=exc)
            res = T.attempt(do, t, kind, k, v)
            if not st.fired:
                # this run needed fewer accesses (state kept in the trie): nothing was injected
                mon.saw("fault_not_reached")
                continue
            mon.saw("faults_fired")
            mon.saw(accesses[i][0] + "_faults")
            mon.mark()
            what = "%s(%s) with access %d/%d failing" % (kind, T.hx(k), i, len(accesses))
            reached_caller(mon, res, exc, what)
            st.reset()
            mon.check(t.root_hash() == root_hash, "%s changed the root", what)
            for kk in ([k] + rng.sample(keys, min(3, len(keys)))):
                T.check_key(mon, t, model, kk, secure)
            if kind not in ("put", "del"):
                mon.saw("reads_under_fault")
            got = outcome(t, kind, k, v)
            mon.check(got == want, "%s: the repeated operation gave %r instead of %r", what, got[:1], want[:1])
            mon.check(t.root_hash() == want_root, "%s: repeating it gave another root than a run without failures", what)
            mon.saw("retries_compared")
            for kk in [k] + rng.sample(keys, min(2, len(keys))):
                T.check_key(mon, t, m2, kk, secure)
        mon.state(root_hash, kind, len(accesses))
    # all contents once more on the object that saw the most faults
    st = Faulty(clean)
    t = MPT(st, root, secure=secure)
    for kind, k, v in work:
        st.reset(fail_at={rng.randrange(0, 4)}, exc=OSError("injected"))
        r = T.attempt(do, t, kind, k, v)
        hit = st.fired
        st.reset()
        if kind in ("put", "del") and not hit and not T.raised(r):
            T.apply_ref(model, (kind, k, v))
        T.check_root(mon, t, model, secure, "root after faults")
    T.check_contents(mon, t, model, keys, secure)


def gen_noise(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35)
    if rng.random() < 0.7:
        c["ops"] = [("put", o[1], o[2] * (1 + 32 // len(o[2]))) if o[0] == "put" else o for o in c["ops"]]
    c["seed"] = rng.getrandbits(32)
    c["rate"] = rng.choice((0.02, 0.1, 0.3))
    return c


def run_noise(case, mon):
    """A whole history on a storage that fails again and again."""
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    st = Faulty()
    trie = MPT(st, secure=secure)
    model = {}
    for op in case["ops"]:
        for attempt in range(4):
            plan = {i for i in range(60) if rng.random() < case["rate"]}
            exc = rng.choice(FAULTS)("injected")
            st.reset(fail_at=plan, exc=exc)
            before = dict(model)
            if op[0] == "put":
                res = T.attempt(trie.update, op[1], op[2])
            else:
                res = T.attempt(trie.delete, op[1])
            fired = st.fired
            st.reset()
            mon.saw("fault_points")
            if fired:
                mon.saw("faults_fired")
                mon.mark()
                reached_caller(mon, res, exc, "%s(%s)" % (op[0], T.hx(op[1])))
            else:
                if op[0] == "put" or op[1] in model:
                    mon.check(not T.raised(res), "%s raised %r without a failing storage", op[0], res)
                    T.apply_ref(model, op)
            T.check_root(mon, trie, model, secure, "root")
            if not fired:
                break
            mon.saw("retries_compared")
        # reads under faults never turn into an answer
        k = rng.choice(keys)
        st.reset(fail_at={rng.randrange(3)}, exc=rng.choice(FAULTS)("injected"))
        kind = rng.choice(OPS[2:])
        res = T.attempt(do, trie, kind, k, b"")
        fired = st.fired
        st.reset()
        if fired:
            mon.saw("faults_fired")
            mon.saw("reads_under_fault")
            reached_caller(mon, res, st.exc or Exception(), "%s(%s)" % (kind, T.hx(k)))
        T.check_key(mon, trie, model, k, secure)
        mon.state(trie.root_hash())
    T.check_contents(mon, trie, model, keys, secure)


def gen_lost(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35)
    c["ops"] = [("put", o[1], o[2] * (1 + 32 // len(o[2]))) if o[0] == "put" else o for o in c["ops"]]
    c["seed"] = rng.getrandbits(32)
    c["kind"] = rng.randrange(3)
    return c


def run_lost(case, mon):
    """Nodes are missing for good (a plain dict without them): reads of keys
    below raise, and every key still readable has its right value; the same
    through the extended and the sparse trie."""
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    store = {}
    data = {}
    kind = case["kind"]
    trie = (MPT(store, secure=secure) if kind == 0 else
            EMPT(store, data, secure=secure) if kind == 1 else SparseEMPT(store, secure=secure))
    model = {}
    for op in case["ops"]:
        T.apply(trie, model, op)
    if not model or not store:
        return
    nodes = [k for k in store]
    full = dict(store)
    for lost in rng.sample(nodes, min(len(nodes), 12)):
        del store[lost]
        mon.saw("fault_points")
        for k in list(model)[:12] + gen.near_misses(rng, keys, 4):
            want = model.get(k)
            if kind != 2:
                g = T.attempt(trie.get, k)
                if T.raised(g):
                    if want is not None:
                        mon.saw("faults_fired")
                        mon.saw("reads_under_fault")
                        mon.mark()
                        mon.check(not isinstance(g.exc, ABSENT), "get(%s) reports the stored key as absent when a node is missing", T.hx(k))
                else:
                    mon.check(want is not None and bytes(g) == want, "get(%s) gave %s when a node is missing", T.hx(k), T.hx(g))
            c = T.attempt(trie.contains, k)
            if not T.raised(c):
                mon.check(c is (want is not None), "contains(%s) answered %r when a node is missing", T.hx(k), c)
            else:
                mon.saw("reads_under_fault")
            c = T.attempt(trie.get_proof_of_exclusion, k)
            if want is not None:
                mon.check(T.raised(c), "an exclusion proof of the stored key %s was made when a node is missing", T.hx(k))
            c = T.attempt(trie.get_proof_of_inclusion, k)
            if want is None:
                mon.check(T.raised(c), "an inclusion proof of the absent key %s was made when a node is missing", T.hx(k))
        store[lost] = full[lost]
    for k in model:
        if kind != 2:
            mon.check(bytes(trie.get(k)) == model[k], "get(%s) is wrong once the node is back", T.hx(k))
        mon.check(trie.contains(k) is True, "contains(%s) is wrong once the node is back", T.hx(k))
    mon.saw("retries_compared")
    mon.state(trie.root_hash())


EMPT_FAULTS = [f for f in FAULTS if f is not KeyError]  # a KeyError is how a mapping says "absent"


def gen_empt(rng, size):
    c = gen.history(rng, min(size, 2), secure=rng.random() < 0.35)
    c["ops"] = c["ops"][:10]
    c["seed"] = rng.getrandbits(32)
    return c


def run_empt(case, mon):
    """The extended trie on two storages, each access of either one failing."""
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    nodes, data = {}, {}
    full = EMPT(nodes, data, secure=secure)
    model = {}
    for op in case["ops"]:
        T.apply(full, model, op)
    if not model:
        full.update(keys[0], b"x")
        model[keys[0]] = b"x"
    root, root_hash = full.root(), full.root_hash()
    work = [(kind, k, b"new value") for kind in OPS for k in [rng.choice(keys)] + ([rng.choice(list(model))] if kind in ("put", "del") else [])]
    for kind, k, v in work:
        n_nodes, n_data = FaultyMapping(nodes), FaultyMapping(data)
        ref = EMPT(n_nodes, n_data, root=root, secure=secure)
        n_nodes.reset()
        n_data.reset()
        want = outcome(ref, kind, k, v)
        want_root = ref.root_hash()
        for which, n in (("nodes", n_nodes.n), ("data", n_data.n)):
            for i in range(n):
                mon.saw("fault_points")
                exc = EMPT_FAULTS[(i + len(k)) % len(EMPT_FAULTS)]("injected")
                a, b = FaultyMapping(nodes), FaultyMapping(data)
                t = EMPT(a, b, root=root, secure=secure)
                a.reset()
                b.reset()
                st = a if which == "nodes" else b
                st.reset(fail_at={i}, exc=exc)
                res = T.attempt(do, t, kind, k, v)
                if not st.fired:
                    continue
                mon.saw("faults_fired")
                mon.saw("extended_trie_faults")
                mon.mark()
                what = "extended trie %s(%s) with access %d to the %s failing" % (kind, T.hx(k), i, which)
                reached_caller(mon, res, exc, what)
                a.reset()
                b.reset()
                mon.check(t.root_hash() == root_hash, "%s changed the root", what)
                mon.check(len(t) == len(model), "%s changed the number of entries", what)
                for kk in [k] + rng.sample(keys, min(2, len(keys))):
                    g = T.attempt(t.get, kk)
                    mon.check(not T.raised(g) and g == model[kk] if kk in model else T.raised(g), "%s: afterwards get(%s) gave %s", what, T.hx(kk), T.hx(g))
                    mon.check(t.contains(kk) is (kk in model), "%s: afterwards contains(%s) is wrong", what, T.hx(kk))
                got = outcome(t, kind, k, v)
                mon.check(got == want and t.root_hash() == want_root, "%s: repeating it gives another result", what)
                mon.saw("retries_compared")


def run_small(case, mon):
    """All contents of small universes, every access of every update/delete."""
    secure, keys, storage, trie, model = T.small_build(case)
    if len(model) < 2:
        return
    root, root_hash = trie.root(), trie.root_hash()
    for j, k in enumerate(keys):
        for kind in ("put", "del"):
            v = b"a new value that is longer than 32 bytes!"
            st = Faulty(storage)
            ref = MPT(st, root, secure=secure)
            want = outcome(ref, kind, k, v)
            want_root = ref.root_hash()
            n = st.n
            for i in range(n):
                mon.saw("fault_points")
                exc = FAULTS[(i + j) % len(FAULTS)]("injected")
                st = Faulty(storage)
                t = MPT(st, root, secure=secure)
                st.reset(fail_at={i}, exc=exc)
                res = T.attempt(do, t, kind, k, v)
                if not st.fired:
                    continue
                mon.saw("faults_fired")
                mon.mark()
                reached_caller(mon, res, exc, "%s(%s) with access %d failing" % (kind, T.hx(k), i))
                st.reset()
                mon.check(t.root_hash() == root_hash, "a failed %s changed the root", kind)
                T.check_key(mon, t, model, k, secure)
                T.check_key(mon, t, model, keys[(j + 1) % len(keys)], secure)
                got = outcome(t, kind, k, v)
                mon.check(got == want and t.root_hash() == want_root, "repeating a failed %s gives another result", kind)
                mon.saw("retries_compared")
            mon.state(root_hash, kind, n)


SCENARIOS = [
    scenario("points", gen_points, run_points, 400, 15000),
    scenario("noise", gen_noise, run_noise, 500, 20000),
    scenario("lost", gen_lost, run_lost, 250, 6000),
    scenario("extended", gen_empt, run_empt, 150, 5000),
    scenario("small", T.small_case, run_small, 350, T.SMALL_CASES, enum=True),
]
