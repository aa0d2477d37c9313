"""C31: concurrent readers, and writers of different objects, answer as if alone."""
import random

from vlib import gen, ref_merkle as M, ref_trie as R, tries as T, transcript as X
from vlib.core import fp, scenario
from vlib.objs import make
from vlib.sched import Sched, record, run_at
from vlib.stores import Mapping
from pymt.empt import EMPT, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring with schedule control: threads are interleaved at seeded lines or byte code instructions of the package, or one is interrupted at each place in turn, and every "
             "answer is compared with the one given when running alone")
LEVEL_NOTE = ("in the interleavings executed (counted as distinct states) every reader of an unchanging object and every thread working on objects of "
              "its own got exactly the answers it gets alone, and the objects were unchanged afterwards")
RULE = ("a case is two or three threads, each with a list of queries on one shared unchanging object, or with a history on objects of its own (possibly "
        "on a shared node storage), and a schedule seed; non-trivial when at least ten hand-overs happened")
REQUIRED = ["handovers", "shared_readers", "own_objects", "shared_storage", "answers_compared", "byte_code_schedules", "readers_of_mpt", "readers_of_empt",
            "readers_of_sparse", "readers_of_merkle", "pairs_of_objects", "proofs_made", "proofs_verified", "interruptions", "ran_in_between"]
ASSUMPTIONS = ["storages are thread-safe for single item accesses, as dict is"]


def run_threads(case, mon, fns, alone, what):
    s = Sched(case["sched"], case["rate"], case["opcodes"])
    res = s.run(fns)
    mon.saw("handovers", s.switches)
    if s.stalls:
        mon.saw("stalled_handovers", s.stalls)
    if case["opcodes"]:
        mon.saw("byte_code_schedules")
    for i, (r, want) in enumerate(zip(res, alone)):
        if r[0] == "raised":
            mon.check(False, "%s: thread %d stopped with %r", what, i, r[1])
        mon.saw("answers_compared", len(want))
        for a, b in zip(want, r[1]):
            mon.check(a == b, "%s: alone thread %d gets %.300s, with the others %.300s", what, i, a, b)
        mon.check(len(want) == len(r[1]), "%s: thread %d gave another number of answers", what, i)
    if s.switches >= 10:
        mon.mark()
    mon.states.add(s.fingerprint())


def schedule(rng):
    op = rng.random() < 0.25
    return {"sched": rng.getrandbits(32), "opcodes": op, "rate": rng.choice((0.5, 0.15, 0.05, 0.01)) * (0.4 if op else 1)}


def gen_readers(rng, size):
    secure = rng.random() < 0.35
    way = rng.choice(("mpt", "mpt", "empt", "sparse", "tree", "tools"))
    h = gen.history(rng, min(size, 2), secure=secure, empty=way in ("empt", "sparse"))
    if way in ("mpt", "empt", "sparse") and rng.random() < 0.5:
        h["ops"] = [("put", o[1], o[2] + b"+" * 33) if o[0] == "put" else o for o in h["ops"]]
    c = {"secure": secure, "keys": h["keys"], "ops": h["ops"][:25], "way": way, "seed": rng.getrandbits(32), "threads": rng.choice((2, 2, 3)),
         "queries": rng.choice((2, 6, 14)), "same": rng.random() < 0.3, "hash": rng.choice(M.HASHES)}
    c.update(schedule(rng))
    return c


def build_readers(case, mon, rng):
    """An object, its storages and a maker of queries about it."""
    way, secure, keys = case["way"], case["secure"], case["keys"]
    nodes, data = {}, {}
    mon.saw("shared_readers")
    if way in ("tree", "tools"):
        t = (MerkleTree if way == "tree" else MerkleTools)(secure=secure, hash_type=case["hash"])
        leaves = [o[2] for o in case["ops"] if o[0] == "put"] or [b"leaf"]
        for l in leaves:
            t.add_leaf(l)
        t.make_tree()
        mon.saw("readers_of_merkle")
        probe = leaves + [b"absent"]
    else:
        t = MPT(nodes, secure=secure) if way == "mpt" else SparseEMPT(nodes, secure=secure) if way == "sparse" else EMPT(nodes, data, secure=secure)
        model = {}
        for op in case["ops"]:
            if op[0] == "put":
                t.update(op[1], make(rng.randrange(3) if way != "mpt" else 0, op[2]))
            elif op[1] in model:
                t.delete(op[1])
            T.apply_ref(model, op)
        mon.saw("readers_of_" + way)
        probe = keys + gen.near_misses(rng, keys, 3)
    proofs = []
    for k in rng.sample(probe, min(6, len(probe))):
        for name in ("get_proof_of_inclusion",) if way in ("tree", "tools") else ("get_proof_of_inclusion", "get_proof_of_exclusion"):
            p = T.attempt(getattr(t, name), k)
            if not T.raised(p):
                proofs.append((k, p))
                if isinstance(p, Proof) and way != "tree":
                    proofs.append((k, X.hostile(rng, p, probe, secure)))

    def queries(qrng):
        out = []
        for _ in range(case["queries"]):
            k = qrng.choice(probe)
            r = qrng.randrange(8)
            if r == 7:
                if way in ("tree", "tools"):
                    out.append(("root", qrng.choice((t.get_merkle_root, lambda: hash(t)))))
                else:
                    out.append(("root", lambda: (t.root_hash(), t.root(), hash(t) if way == "mpt" else None)))
                continue
            if way in ("tree", "tools"):
                if r in (0, 1):
                    out.append(("proof", lambda k=k: t.get_proof_of_inclusion(k)))
                    mon.saw("proofs_made")
                elif r in (2, 3, 4) and proofs:
                    k, p = qrng.choice(proofs)
                    if way == "tree":
                        q = p if r != 4 else Proof(k + b"!", p.trie_root, p.proof, p.type)
                        out.append(("verify", lambda q=q: t.verify_proof_of_inclusion(q)))
                    else:
                        target = bytes.fromhex(M.leaf(k if r != 4 else k + b"!", secure, case["hash"]).hex())
                        root = bytes.fromhex(t.get_merkle_root())
                        out.append(("verify", lambda p=p, a=target, b=root: t.verify_proof_of_inclusion(p, a, b)))
                    mon.saw("proofs_verified")
                else:
                    i = qrng.randrange(len(t) + 1)
                    out.append(("state", lambda i=i: (T.attempt(t.get_leaf, i) if i < len(t) else None, t.get_merkle_root(), len(t), str(t))))
                continue
            if r in (0, 1):
                out.append(("get", lambda k=k: t.get(k) if way != "sparse" else (lambda d: (d.key, d.data, d.hash))(t.get_reference(k))))
            elif r == 2:
                out.append(("contains", lambda k=k: t.contains(k)))
            elif r == 3:
                out.append(("inclusion proof", lambda k=k: t.get_proof_of_inclusion(k)))
                mon.saw("proofs_made")
            elif r == 4:
                out.append(("exclusion proof", lambda k=k: t.get_proof_of_exclusion(k)))
                mon.saw("proofs_made")
            elif r == 5 and proofs:
                p = qrng.choice(proofs)[1]
                fn = qrng.choice((t.verify_proof_of_inclusion, t.verify_proof_of_exclusion))
                out.append(("verify", lambda p=p, fn=fn: T.accepted(fn, p)))
                mon.saw("proofs_verified")
            else:
                if way == "mpt":
                    out.append(("encode", lambda: (t.encode(), t.root_hash())))
                elif way == "sparse":
                    out.append(("encode", lambda: (t.encode_rlp(), t.root_hash())))
                else:
                    out.append(("views", lambda: (t.get_sparse_trie().encode_rlp(), t.get_root_trie().root_hash(), sorted(t))))
        return out

    return t, nodes, data, queries


def asker(qs):
    return lambda: [(name, X.norm(T.attempt(fn))) for name, fn in qs]


def run_readers(case, mon):
    rng = random.Random(case["seed"])
    t, nodes, data, queries = build_readers(case, mon, rng)
    seeds = [rng.getrandbits(32)] * case["threads"] if case["same"] else [rng.getrandbits(32) for _ in range(case["threads"])]
    lists = [queries(random.Random(s)) for s in seeds]

    alone = [asker(qs)() for qs in lists]
    before = (dict(nodes), {k: X.norm(v) for k, v in data.items()})
    run_threads(case, mon, [asker(qs) for qs in lists], alone, "readers of one %s" % type(t).__name__)
    mon.check((dict(nodes), {k: X.norm(v) for k, v in data.items()}) == before, "readers changed what is stored")
    mon.check([asker(qs)() for qs in lists] == alone, "answers changed after readers ran together")


def between(mon, a, b, want_a, want_b, rng, opcodes, most, what, again=False):
    """`b` runs as a whole at one place of `a` after the other."""
    trail = record(a, opcodes)
    mon.check(a() == want_a, "%s: asking again gives another answer", what)
    places = {}
    for i, loc in enumerate(trail):
        places.setdefault(loc, []).append(i)
    once = [rng.choice((l[0], l[-1], rng.choice(l))) for l in places.values()]
    more = [rng.randrange(len(trail)) for _ in range(10)] if trail else []
    steps = sorted(set(rng.sample(once, min(most, len(once))) + more))
    for i in steps:
        x, y, done = run_at(a, i, b, opcodes)
        mon.saw("interruptions")
        if done:
            mon.saw("ran_in_between")
            mon.states.add(fp(trail[i][0].co_name, trail[i][1], what))
        where = "%s line %d" % (trail[i][0].co_name, trail[i][1]) if not opcodes else "%s instruction %d" % (trail[i][0].co_name, trail[i][1])
        mon.check(x == ("ok", want_a), "%s: interrupted in %s it gives %.300s, alone %.300s", what, where, x, want_a)
        if y is not None:
            mon.check(y == ("ok", want_b), "%s: run while another was in %s it gives %.300s, alone %.300s", what, where, y, want_b)
        if again:
            for fn, want in ((b, want_b), (a, want_a), (b, want_b)):
                z = fn()
                mon.check(z == want, "%s: after an interruption in %s one gives %.300s, alone %.300s", what, where, z, want)
    return len(steps)


def gen_between(rng, size):
    c = gen_readers(rng, size)
    c["queries"] = 30
    if rng.random() < 0.7:
        # contents that stay
        live = {}
        for o in c["ops"]:
            if o[0] == "put":
                live.setdefault(o[1], o)
        c["ops"] = list(live.values())
    c["opcodes"] = rng.random() < 0.3
    c["pairs"] = 5 if size < 3 else 8
    return c


def run_between(case, mon):
    rng = random.Random(case["seed"])
    t, nodes, data, queries = build_readers(case, mon, rng)
    qs = queries(random.Random(rng.getrandbits(32)))
    before = (dict(nodes), {k: X.norm(v) for k, v in data.items()})
    n = 0
    kinds = sorted({q[0] for q in qs})
    for kind in rng.sample(kinds, min(case["pairs"], len(kinds))):
        # one that succeeds, if there is any
        mine = [q for q in qs if q[0] == kind]
        rng.shuffle(mine)
        good = [q for q in mine[:6] if not T.raised(T.attempt(q[1]))]
        na, a = (good or mine)[0]
        # and another, often of the same kind
        nb, b = rng.choice(good[1:] or mine) if rng.random() < 0.6 else rng.choice(qs)
        fa, fb = asker([(na, a)]), asker([(nb, b)])
        n += between(mon, fa, fb, fa(), fb(), rng, case["opcodes"], 50 if case["opcodes"] else 100, "%s of one %s with a %s in between" % (na, type(t).__name__, nb))
    mon.check((dict(nodes), {k: X.norm(v) for k, v in data.items()}) == before, "readers changed what is stored")
    if n > 10:
        mon.mark()


def run_between_own(case, mon):
    """Work on one object interrupted by work on another."""
    rng = random.Random(case["sched"])
    parts = ["mpt", "empt", "merkle", "codec"]
    p2 = case["part"] if not case["mixed"] else rng.choice(parts)
    fa = lambda: X.transcript(case["seeds"][0], (case["part"],))  # noqa: E731
    fb = lambda: X.transcript(case["seeds"][1], (p2,))  # noqa: E731
    if between(mon, fa, fb, fa(), fb(), rng, case["opcodes"] and rng.random() < 0.3, 16, "work on a %s with other work (%s) in between" % (case["part"], p2)) > 8:
        mon.mark()


def gen_pair(rng, size):
    a, b = gen_readers(rng, 1), gen_readers(rng, 1)
    b["way"] = a["way"]
    if rng.random() < 0.6:
        b["secure"], b["hash"] = a["secure"], a["hash"]
    for c in (a, b):
        c["queries"] = 30
        if rng.random() < 0.4:
            # a single tiny entry
            k = rng.choice(c["keys"])
            c["ops"] = [("put", k, gen.rbytes(rng, rng.randrange(1, 9)))]
    return {"a": a, "b": b, "seed": rng.getrandbits(32), "opcodes": rng.random() < 0.3, "pairs": 4 if size < 3 else 8}


def run_pair(case, mon):
    """A query of one object with one of another object in between, and both asked again."""
    rng = random.Random(case["seed"])
    ta, _, _, qa = build_readers(case["a"], mon, rng)
    tb, _, _, qb = build_readers(case["b"], mon, rng)
    qa, qb = qa(random.Random(rng.getrandbits(32))), qb(random.Random(rng.getrandbits(32)))
    kinds = sorted({q[0] for q in qa} & {q[0] for q in qb})
    n = 0
    for kind in (["root"] if "root" in kinds else []) + rng.sample(kinds, min(case["pairs"], len(kinds))):
        first = []
        for qs in (qa, qb):
            mine = [q for q in qs if q[0] == kind]
            rng.shuffle(mine)
            first.append(([q for q in mine[:6] if not T.raised(T.attempt(q[1]))] or mine)[0])
        fa, fb = asker([first[0]]), asker([first[1]])
        n += between(mon, fa, fb, fa(), fb(), rng, case["opcodes"], 30, "%s of one %s with that of another in between" % (kind, type(ta).__name__), again=True)
        mon.saw("pairs_of_objects")
    if n > 10:
        mon.mark()


def gen_own(rng, size):
    c = {"seeds": [rng.getrandbits(40) for _ in range(rng.choice((2, 2, 3)))], "part": rng.choice(("mpt", "empt", "merkle", "codec")),
         "mixed": rng.random() < 0.4}
    c.update(schedule(rng))
    c["rate"] = min(c["rate"], 0.1)
    return c


def run_own(case, mon):
    parts = ["mpt", "empt", "merkle", "codec"]
    mine = [parts[(parts.index(case["part"]) + i * case["mixed"]) % 4] for i in range(len(case["seeds"]))]
    fns = [lambda s=s, p=p: X.transcript(s, (p,)) for s, p in zip(case["seeds"], mine)]
    alone = [fn() for fn in fns]
    mon.saw("own_objects")
    run_threads(case, mon, fns, alone, "threads with objects of their own (%s)" % ", ".join(mine))


def gen_shared(rng, size):
    secure = rng.random() < 0.35
    hs = []
    h = gen.history(rng, 1, secure=secure)
    keys = h["keys"]
    pool = gen.values_pool(rng, 1) + [b"a value that is stored in a node of its own" * 2]
    n = rng.choice((2, 2, 3))
    for _ in range(n):
        live, ops = [], []
        for _ in range(rng.randrange(3, 9)):
            if live and rng.random() < 0.3:
                k = live.pop(rng.randrange(len(live)))
                ops.append(("del", k))
            else:
                k = rng.choice(keys)
                ops.append(("put", k, rng.choice(pool)))
                if k not in live:
                    live.append(k)
        hs.append(ops)
    c = {"secure": secure, "keys": keys, "base": h["ops"], "threads": hs, "store": rng.randrange(2)}
    c.update(schedule(rng))
    return c


def run_shared(case, mon):
    """Each thread goes on from one version in its own direction, all on one node storage."""
    secure, keys = case["secure"], case["keys"]
    mk = (dict, Mapping)[case["store"]]

    def base(storage):
        t = MPT(storage, secure=secure)
        m = {}
        for op in case["base"]:
            T.apply(t, m, op)
        return t.root(), m

    roots = []

    def worker(storage, root, ops):
        def fn():
            t = MPT(storage, root, secure=secure)
            out = []
            for op in ops:
                r = T.attempt(t.update, op[1], op[2]) if op[0] == "put" else T.attempt(t.delete, op[1])
                out.append((op, T.raised(r), t.root_hash(), X.norm(T.attempt(t.get, op[1])), t.contains(op[1])))
            out += [(k, X.norm(T.attempt(t.get, k))) for k in keys]
            roots.append(t.root())
            return out
        return fn

    alone = []
    for ops in case["threads"]:
        st = mk()
        root, m = base(st)
        alone.append(worker(st, root, ops)())
    del roots[:]
    st = mk()
    root, m = base(st)
    mon.saw("shared_storage")
    run_threads(case, mon, [worker(st, root, ops) for ops in case["threads"]], alone, "versions on one storage")
    t = MPT(st, root, secure=secure)
    for k in keys:
        T.check_key(mon, t, m, k, secure)
    for ops, a in zip(case["threads"], alone):
        m2 = dict(m)
        for op in ops:
            T.apply_ref(m2, op)
        want = R.root_hash(m2, secure)
        mon.check(any(MPT(st, r, secure=secure).root_hash() == want for r in roots), "a version's final root is wrong")


SCENARIOS = [
    scenario("readers", gen_readers, run_readers, 400, 20000),
    scenario("own", gen_own, run_own, 120, 4000),
    scenario("between", gen_between, run_between, 160, 10000),
    scenario("between_own", gen_own, run_between_own, 32, 2000),
    scenario("pair", gen_pair, run_pair, 120, 8000),
    scenario("shared", gen_shared, run_shared, 300, 12000),
]
