"""C25: queries and proofs change nothing."""
import collections
import random

from vlib import forge, gen, mined, ref_merkle as M, ref_trie as R, stores, tries as T
from vlib.core import scenario
from vlib.objs import Item, enc, make
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: full state snapshots around every query, every query asked twice, a panel of answers compared, and an unqueried "
             "twin running the same history")
LEVEL_NOTE = ("in the executed histories no query, succeeding, failing or hostile, changed a snapshot, a later answer or the course of the object "
              "against its unqueried twin")
RULE = ("a case is a history of writes on an object and its twin with a batch of queries between the writes, asked of the object only; non-trivial when "
        "queries ran on a non-empty object")
REQUIRED = ["mpt_queries", "empt_queries", "sparse_queries", "root_queries", "merkle_queries", "proof_queries", "reference_queries", "raising_queries",
            "proofs_accepted", "proofs_rejected", "storage_failures", "twins_compared", "panels_compared", "bytearray_keys", "not_ready_tree", "views_written",
            "wrong_type_queries", "owner_swapped_data", "large_queries"]
ASSUMPTIONS = ["storages have no side effects on reading", "a Merkle tree may build itself on demand when asked; answers are compared within the same ready state"]


# ------------------------------------------------------------------- answers
def norm(x, depth=0):
    """An answer in a comparable form (without time stamps)."""
    if T.raised(x):
        return ("raised", type(x.exc).__name__)
    if isinstance(x, Proof):
        return ("proof", x.target_key, x.trie_root, tuple(x.proof), x.type)
    if isinstance(x, DataReference):
        return ("ref", x.key, x.data, x.hash)
    if isinstance(x, Item):
        return ("item", bytes(x.body))
    if isinstance(x, MPT):
        return ("mpt", x.root_hash(), x.secure, T.attempt(len, x) if not T.raised(T.attempt(len, x)) else None)
    if isinstance(x, SparseEMPT):
        return ("sparse", x.root_hash(), x.encode_rlp())
    if isinstance(x, RootEMPT):
        return ("root", x.root_hash(), x.secure)
    if isinstance(x, EMPT):
        return ("empt", x.root_hash())
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, dict):
        return ("dict",) + tuple((norm(k), norm(v)) for k, v in x.items())
    if depth < 4 and hasattr(x, "__iter__"):
        return tuple(norm(y, depth + 1) for y in x)
    return repr(type(x))


def ask(fn):
    return norm(T.attempt(fn))


def proof_state(p):
    return (p.timestamp, p.target_key, p.trie_root, tuple(p.proof), p.type)


class Pool:
    """Keys and proofs to ask with."""

    def __init__(self, rng, keys):
        self.rng = rng
        self.keys = list(keys)
        self.extra = gen.near_misses(rng, keys, 8) + [b"", b"\x00", b"absent"]
        self.proofs = []
        self.bad = ["text", None, 5, [b"x"], 1.5, b"".join, object()]

    def key(self):
        return self.rng.choice(self.keys if self.rng.random() < 0.7 else self.extra)

    def add(self, p):
        if isinstance(p, Proof):
            if len(self.proofs) < 25:
                self.proofs.append(p)
            else:
                self.proofs[self.rng.randrange(25)] = p
            if self.rng.random() < 0.7 and p.type != b"MT-POI":
                nodes = list(p.proof)
                path = R.path_of(p.target_key[:64], False) or (1,)
                try:
                    _, nodes = forge.shape(self.rng, nodes, [q for o in self.proofs[-3:] for q in o.proof if o.type != b"MT-POI"], path, p.type)
                except Exception:
                    nodes = nodes[::-1]
                target = p.target_key if self.rng.random() < 0.7 else self.key()
                typ = p.type if self.rng.random() < 0.8 else self.rng.choice((b"MPT-POI", b"MPT-POE", b"MT-POI"))
                self.proofs[self.rng.randrange(len(self.proofs))] = forge.mk(target, p.trie_root, nodes, typ)

    def proof(self):
        r = self.rng.random()
        if self.proofs and r < 0.9:
            return self.rng.choice(self.proofs)
        return forge.mk(self.key(), self.rng.choice((R.EMPTY_ROOT, b"\x00" * 32)), self.rng.choice(((), (b"",), (b"\xc0",), (b"\x80", b"\xff"), (gen.node_like(self.rng),))),
                        self.rng.choice((b"MPT-POI", b"MPT-POE")))


def trie_queries(t, pool, mon, sparse=False, root_only=False):
    """(name, thunk, argument watcher) of one query on any trie class."""
    rng = pool.rng
    what = rng.randrange(15)
    k = pool.key()
    if what == 14:
        b = rng.choice(pool.bad)
        name = rng.choice(["contains", "get", "get_proof_of_inclusion", "get_proof_of_exclusion", "verify_proof_of_inclusion", "verify_proof_of_exclusion", "get_reference"])
        fn = getattr(t, name, None)
        mon.saw("wrong_type_queries")
        return name + " of a wrong type", (lambda: fn(b)) if fn else (lambda: None), None
    if what in (0, 1, 2) or root_only:
        p = pool.proof()
        if rng.random() < 0.5:
            return "verify_proof_of_inclusion", lambda: t.verify_proof_of_inclusion(p), p
        return "verify_proof_of_exclusion", lambda: t.verify_proof_of_exclusion(p), p
    if what in (3, 4):
        return "get_proof_of_inclusion", lambda: t.get_proof_of_inclusion(k), None
    if what in (5, 6):
        return "get_proof_of_exclusion", lambda: t.get_proof_of_exclusion(k), None
    if what == 7:
        return "in", lambda: k in t, None
    if what == 8:
        return "contains", lambda: t.contains(k), None
    if what == 9:
        return "[]", lambda: t[k], None
    if what == 10 and not sparse:
        return "get", lambda: t.get(k), None
    if what == 11:
        return rng.choice([("root_hash", t.root_hash, None), ("root", t.root, None)])
    if isinstance(t, MPT):
        r = rng.randrange(8)
        if r == 0:
            return "len", lambda: len(t), None
        if r == 1:
            return "hash", lambda: hash(t), None
        if r == 2:
            return "==", lambda: (t == MPT({}, t.root(), secure=t.secure), t == 5, t != t), None
        if r == 3:
            return "encode", lambda: MPT.decode(t.encode()).root_hash(), None
        if r == 4:
            return "contains hashed", lambda: t.contains(R.keccak256(k), hash_key=False), None
        ba = bytearray(k)
        mon.saw("bytearray_keys")
        f = rng.choice((t.get, t.contains, t.get_proof_of_inclusion, t.get_proof_of_exclusion, t.__contains__, t.__getitem__))
        return "%s of a bytearray" % f.__name__, lambda: f(ba), (ba, bytes(ba))
    r = rng.randrange(9)
    if r == 0:
        return "get_reference", lambda: t.get_reference(k), None
    if r == 1:
        return "get_root_trie", t.get_root_trie, None
    if sparse:
        return "encode_rlp", lambda: SparseEMPT.decode_rlp(t.encode_rlp()).root_hash(), None
    if r == 2:
        def written():
            s = t.get_sparse_trie()
            a = s.root_hash()
            s.update(k, b"written into the view only")
            for x in pool.keys[:3]:
                if s.contains(x) and x != k:
                    s.delete(x)
            mon.saw("views_written")
            return a, s.root_hash()
        return "writing into a sparse view", written, None
    if r == 3:
        return "get_sparse_trie", t.get_sparse_trie, None
    if r == 4:
        return "len", lambda: len(t), None
    if r == 5:
        return "iteration", lambda: list(t), None
    if r == 6:
        return "keys, values, items", lambda: (list(t.keys()), list(t.values()), list(t.items())), None
    if r == 7:
        return "==", lambda: (t == t, t == 5, t != t), None
    return "half an iteration", lambda: next(iter(t), None), None


def quiet(stores_):
    for s in stores_:
        if isinstance(s, stores.Faulty):
            s.reset()


def trie_state(t, stores_):
    """Everything observable that a query could have touched."""
    out = [t.root_hash(), t.root() if hasattr(t, "root") else None, getattr(t, "secure", None)]
    for s in stores_:
        out.append({k: (type(v), enc(v) if not isinstance(v, (bytes, bytearray)) else bytes(v)) for k, v in stores.raw(s).items()})
        if isinstance(s, (stores.Faulty, stores.Counted)):
            out.append(s.writes)
    if isinstance(t, EMPT):
        out.append(list(t))
        out.append(len(t))
    return out


def panel(t, pool):
    ks = pool.keys[:5] + pool.extra[:3]
    out = [ask(t.root_hash)]
    if isinstance(t, RootEMPT):
        ps = pool.proofs[:8]
    else:
        ps = pool.proofs[:4]
        for k in ks:
            out.append(ask(lambda: t.contains(k)))
            if not isinstance(t, SparseEMPT):
                out.append(ask(lambda: t.get(k)))
            out.append(ask(lambda: t.get_proof_of_inclusion(k)))
            out.append(ask(lambda: t.get_proof_of_exclusion(k)))
    for p in list(ps):
        out.append(ask(lambda: t.verify_proof_of_inclusion(p)))
        out.append(ask(lambda: t.verify_proof_of_exclusion(p)))
    return out


def run_queries(mon, t, pool, stores_, n, tag, faults=True):
    rng = pool.rng
    sparse, root_only = isinstance(t, SparseEMPT), isinstance(t, RootEMPT)
    quiet(stores_)
    before = trie_state(t, stores_)
    answers = panel(t, pool)
    mon.check(trie_state(t, stores_) == before, "a panel of plain queries changed the state")
    for _ in range(n):
        name, fn, watch = trie_queries(t, pool, mon, sparse, root_only)
        ps = proof_state(watch) if isinstance(watch, Proof) else None
        if faults and stores_ and isinstance(stores_[0], stores.Faulty) and rng.random() < 0.4:
            for s in stores_:
                s.reset(fail_at={rng.choice((0, 0, 1, 1, 2, 3, 5))}, exc=rng.choice(stores.FAULTS)("storage down"))
            ask(fn)
            fired = sum(s.fired for s in stores_)
            quiet(stores_)
            if fired:
                mon.saw("storage_failures")
            mon.check(trie_state(t, stores_) == before, "%s with a failing storage changed the state", name)
        a = ask(fn)
        b = ask(fn)
        mon.check(a == b, "%s asked twice gave %s, then %s", name, T.hx(a), T.hx(b))
        after = trie_state(t, stores_)
        mon.check(after == before, "%s changed the state: %s", name, diff(before, after))
        if ps is not None:
            mon.check(proof_state(watch) == ps, "%s changed the proof", name)
            mon.saw("proofs_accepted" if a is True else "proofs_rejected")
        elif isinstance(watch, tuple):
            mon.check(bytes(watch[0]) == watch[1], "%s changed the key it was given", name)
        if isinstance(a, tuple) and a[:1] == ("raised",):
            mon.saw("raising_queries")
        mon.saw(tag + "_queries")
    quiet(stores_)
    mon.check(panel(t, pool) == answers, "queries changed the answers of later ones")
    mon.saw("panels_compared")
    mon.check(trie_state(t, stores_) == before, "the queries changed the state")


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                return "entries %r" % [(k.hex()[:16] if isinstance(k, bytes) else k, k in x, k in y) for k in list(x) + list(y) if x.get(k) != y.get(k)][:4]
            return "%r, then %r" % (x, y)
    return "?"


# ------------------------------------------------------------------------ MPT
def gen_trie(rng, size):
    h = gen.history(rng, size, secure=rng.random() < 0.35, big=rng.random() < 0.1, length={1: 8, 2: 14, 3: 30}[size])
    h["store"] = rng.choice(("dict", "dict", "faulty", "getset"))
    h["n"] = rng.choice((3, 6, 12))
    h["seed"] = rng.getrandbits(30)
    return h


def mpt_store(kind):
    return {"dict": dict, "getset": stores.GetSet, "faulty": stores.Faulty}[kind]()


def run_mpt(case, mon):
    rng = random.Random(case["seed"])
    sa, sb = mpt_store(case["store"]), mpt_store(case["store"])
    a, b = MPT(sa, secure=case["secure"]), MPT(sb, secure=case["secure"])
    pool = Pool(rng, case["keys"])
    ma, mb = {}, {}
    others = []
    for op in case["ops"]:
        T.apply(a, ma, op)
        T.apply(b, mb, op)
        for k in rng.sample(pool.keys, min(2, len(pool.keys))):
            pool.add(T.attempt(a.get_proof_of_inclusion, k))
            pool.add(T.attempt(a.get_proof_of_exclusion, k))
        run_queries(mon, a, pool, [sa], case["n"], "mpt")
        if ma:
            mon.mark()
        mon.check(stores.raw(sa) == stores.raw(sb) and a.root() == b.root(), "the queried trie diverges from its unqueried twin")
        mon.saw("twins_compared")
        mon.state(a.root_hash(), rng.getstate()[1][0])
        if rng.random() < 0.2:
            r = RootEMPT(a.root(), secure=case["secure"])
            run_queries(mon, r, pool, [], case["n"], "root")
            others.append((r, r.root_hash()))
    for r, h in others:
        mon.check(r.root_hash() == h, "a root-only view changed")
    T.check_contents(mon, b, mb, pool.extra, case["secure"])
    T.check_contents(mon, a, ma, pool.extra, case["secure"])


# ----------------------------------------------------------- extended tries
def gen_empt(rng, size):
    h = gen_trie(rng, size)
    h["store"] = rng.choice(("dict", "dict", "faulty", "mapping"))
    h["kinds"] = [rng.randrange(3) for _ in h["ops"]]
    h["sparse"] = rng.random() < 0.35
    return h


def empt_store(kind):
    return {"dict": dict, "mapping": stores.Mapping, "faulty": stores.FaultyMapping}[kind]()


def swap_representation(rng, da, db):
    """The owner of the data storages keeps some bytes in another type."""
    for k in list(stores.raw(da)):
        v = stores.raw(da)[k]
        if isinstance(v, (bytes, bytearray)) and rng.random() < 0.5:
            for d in (da, db):
                stores.raw(d)[k] = bytearray(v) if isinstance(v, bytes) else bytes(v)


def run_empt(case, mon):
    rng = random.Random(case["seed"])
    pair = []
    for _ in range(2):
        ts = empt_store(case["store"])
        if case["sparse"]:
            pair.append((SparseEMPT(ts, secure=case["secure"]), [ts]))
        else:
            ds = empt_store(case["store"])
            pair.append((EMPT(ts, ds, secure=case["secure"]), [ts, ds]))
    (a, sa), (b, sb) = pair
    pool = Pool(rng, case["keys"])
    live = set()
    views = []
    for op, kind in zip(case["ops"], case["kinds"]):
        if op[0] == "put":
            a.update(op[1], make(kind, op[2]))
            b.update(op[1], make(kind, op[2]))
            live.add(op[1])
        elif op[1] in live:
            a.delete(op[1])
            b.delete(op[1])
            live.discard(op[1])
        if not case["sparse"] and rng.random() < 0.2:
            swap_representation(rng, sa[1], sb[1])
            mon.saw("owner_swapped_data")
        for k in rng.sample(pool.keys, min(2, len(pool.keys))):
            pool.add(T.attempt(a.get_proof_of_inclusion, k))
            pool.add(T.attempt(a.get_proof_of_exclusion, k))
        run_queries(mon, a, pool, sa, case["n"], "sparse" if case["sparse"] else "empt")
        if live:
            mon.mark()
        quiet(sa), quiet(sb)
        mon.check(trie_state(a, sa) == trie_state(b, sb), "the queried trie diverges from its unqueried twin: %s", diff(trie_state(b, sb), trie_state(a, sa)))
        mon.saw("twins_compared")
        mon.state(a.root_hash(), rng.getstate()[1][0])
        if rng.random() < 0.2:
            v = a.get_root_trie() if rng.random() < 0.5 or case["sparse"] else a.get_sparse_trie()
            run_queries(mon, v, pool, [], case["n"], "root" if isinstance(v, RootEMPT) else "sparse")
            views.append((v, norm(v)))
            mon.check(trie_state(a, sa) == trie_state(b, sb), "queries of a view changed the trie")
    for v, n in views:
        mon.check(norm(v) == n, "a view changed")
        mon.check(ask(lambda: v.verify_proof_of_inclusion(pool.proof())) is not None, "no answer")


# ------------------------------------------------------------- large objects
def gen_large(rng, size):
    return {"way": rng.choice(("mpt", "mpt", "empt", "sparse", "merkle")), "n": rng.choice((40, 200, 400, 700, 1200) if size < 3 else (200, 700, 1500, 4000)),
            "secure": rng.random() < 0.3, "seed": rng.getrandbits(30), "hash": "sha256"}


def run_large(case, mon):
    """Each query of an object that holds a lot, and holds old nodes."""
    rng = random.Random(case["seed"])
    mon.mark()
    if case["way"] == "merkle":
        leaves = [b"leaf %d" % rng.randrange(case["n"] * 3) for _ in range(case["n"])]
        t = (MerkleTree if rng.random() < 0.7 else MerkleTools)(secure=case["secure"])
        for l in leaves:
            t.add_leaf(l)
        t.make_tree()
        pool = Pool(rng, [b"x"])
        pool.hash, pool.roots = "sha256", [M.root(leaves, case["secure"], "sha256")]
        pool.proofs = [t.get_proof_of_inclusion(l) for l in rng.sample(leaves, 5)]
        state = merkle_state(t)
        for _ in range(40):
            name, fn, watch = merkle_query(t, pool, leaves)
            x = ask(fn)
            mon.check(merkle_state(t) == state and merkle_ready(t) and root_text(t) == pool.roots[0].hex(), "%s changed a large tree", name)
            mon.check(ask(fn) == x, "%s of a large tree asked twice gave another answer", name)
            mon.saw("large_queries")
        mon.state(state[0], pool.roots)
        return
    nodes, data = stores.Counted(), stores.Counted()
    t = MPT(nodes, secure=case["secure"]) if case["way"] == "mpt" else SparseEMPT(nodes, secure=case["secure"]) if case["way"] == "sparse" else EMPT(nodes, data, secure=case["secure"])
    roots, live = [], {}
    for i in range(case["n"]):
        if live and rng.random() < 0.15:
            k = rng.choice(list(live)[:40])
            t.delete(k)
            del live[k]
        else:
            k = gen.rbytes(rng, rng.choice((1, 2, 2, 3)))
            live[k] = b"value %d of the trie, so long that it has a node" % i if rng.random() < 0.7 else b"%d" % i
            t.update(k, live[k])
        if i % 50 == 7:
            roots.append((t.root(), dict(live)))
    pool = Pool(rng, rng.sample(list(live), min(60, len(live))))
    for k in pool.keys[:6]:
        pool.add(T.attempt(t.get_proof_of_inclusion, k))
        pool.add(T.attempt(t.get_proof_of_exclusion, k + b"?"))
    stores_ = [nodes] if case["way"] != "empt" else [nodes, data]
    run_queries(mon, t, pool, stores_, 60, "large", faults=False)
    for name in ("encode", "encode_rlp", "get_sparse_trie", "get_root_trie", "__len__", "keys", "values", "items"):
        f = getattr(t, name, None)
        if f is None:
            continue
        before = trie_state(t, stores_)
        x = ask(lambda: list(f()) if name in ("keys", "values", "items") else f())
        mon.check(trie_state(t, stores_) == before, "%s changed a large object", name)
        mon.check(ask(lambda: list(f()) if name in ("keys", "values", "items") else f()) == x, "%s of a large object asked twice gave another answer", name)
        mon.saw("large_queries")
    for root, m in rng.sample(roots, min(3, len(roots))):
        old = MPT(nodes, root, secure=case["secure"])
        for k in rng.sample(list(m), min(5, len(m))):
            x = T.attempt(old.get, k)
            mon.check(not T.raised(x) and (case["way"] != "mpt" or x == m[k]), "after queries an older version lost %s", T.hx(k))
    mon.state(t.root_hash())


# --------------------------------------------------------------- Merkle trees
def gen_merkle(rng, size):
    ops = []
    for _ in range({1: 6, 2: 14, 3: 30}[size]):
        r = rng.random()
        if r < 0.6:
            ops.append(("add", gen.value(rng, empty=True) if rng.random() < 0.8 or not ops else ops[rng.randrange(len(ops))][1]))
        elif r < 0.9:
            ops.append(("make", b""))
        else:
            ops.append(("reset" if rng.random() < 0.3 else "add", b"z"))
    return {"ops": ops, "cls": rng.randrange(2), "secure": rng.random() < 0.6, "hash": rng.choice(("sha256", "sha256", "md5", "sha512", "sha3_256")),
            "seed": rng.getrandbits(30), "n": rng.choice((3, 8, 16))}


def merkle_new(case):
    if case["cls"] == 0:
        return MerkleTree(secure=case["secure"], hash_type=case["hash"])
    return MerkleTools(hash_type=case["hash"], secure=case["secure"])


def merkle_state(t):
    n = t.get_leaf_count()
    s = [n, len(t), t.secure, tuple(t.get_leaf(i) for i in range(n)), ask(lambda: t.get_leaf(n))]
    return s


def merkle_ready(t):
    return t.get_tree_ready_state()


def merkle_query(t, pool, leaves):
    """(name, thunk, watched argument)"""
    rng = pool.rng
    full = isinstance(t, MerkleTree)
    k = rng.choice(leaves) if leaves and rng.random() < 0.7 else rng.choice((b"", b"absent", gen.value(rng)))
    what = rng.randrange(11)
    if what == 0:
        return "get_merkle_root", t.get_merkle_root, None
    if what == 1:
        i = rng.randrange(-1, len(leaves) + 2)
        return "get_leaf", lambda: t.get_leaf(i), None
    if what == 2:
        return "len", lambda: (len(t), t.get_leaf_count()), None
    if what == 3:
        return "ready", t.get_tree_ready_state, None
    if what == 4:
        return "str", lambda: (str(t), repr(t)), None
    if what == 5:
        return "hash", lambda: (hash(t), t == t), None
    if what == 6:
        b = rng.choice(pool.bad)
        f = rng.choice([n for n in ("get_proof_of_inclusion", "get", "get_leaf") if hasattr(t, n)])
        return "a wrong type", lambda: getattr(t, f)(b), None
    if what == 7 and full:
        return "get, count", lambda: (t.get_count(), t.get(len(leaves) - 1)), None
    if what in (8, 7):
        return "get_proof_of_inclusion", lambda: t.get_proof_of_inclusion(k), None
    if full:
        p = rng.choice(pool.proofs) if pool.proofs and rng.random() < 0.85 else Proof(target_key=k, root_hash=rng.choice((b"00" * 32, b"zz", b"")), proof=(
            (rng.choice((b"left", b"right", b"up")), rng.choice((b"00" * 32, b"x", b""))),) * rng.randrange(3), proof_type=b"MT-POI")
        return "verify_proof_of_inclusion", lambda: t.verify_proof_of_inclusion(p), p
    lists = [p for p in pool.proofs if isinstance(p, list)]
    p = rng.choice(lists) if lists else [{"left": "00"}]
    target = bytes.fromhex(M.leaf(k, t.secure, pool.hash).hex())
    root = rng.choice(pool.roots) if pool.roots else b"\x00" * 32
    return "verify_proof_of_inclusion", lambda: t.verify_proof_of_inclusion(p, target, root), p


def snap(x):
    return proof_state(x) if isinstance(x, Proof) else repr(x)


def hostile(rng, p, leaves):
    """A proof of a Merkle tree, altered."""
    q = list(p.proof)
    i = rng.randrange(len(q))
    target, root = p.target_key, p.trie_root
    what = rng.randrange(7)
    if what == 0:
        q[i] = rng.choice(((b"left", q[i][1]), (b"right", q[i][1]), (q[i][0], q[i][1][::-1]), q[0], (q[i][0], b"zz"), (b"up", q[i][1]), (q[i][0],)))
    elif what == 1:
        q = q * rng.choice((2, 3, 6, 20, 100))
    elif what == 2:
        q = q + [(rng.choice((b"left", b"right")), gen.rbytes(rng, 32).hex().encode()) for _ in range(rng.choice((1, 2, 13, 40)))]
    elif what == 3:
        q = q[:i]
    elif what == 4:
        rng.shuffle(q)
    elif what == 5:
        root = rng.choice((root[::-1], b"00" * 32, b"", b"zz", q[0][1], root.upper()))
    if what == 6 or rng.random() < 0.3:
        target = rng.choice((rng.choice(leaves), b"", target + b"x", gen.value(rng)))
    return Proof(target_key=target, root_hash=root, proof=tuple(q), proof_type=p.type)


def run_merkle(case, mon):
    rng = random.Random(case["seed"])
    a, b = merkle_new(case), merkle_new(case)
    leaves = []
    pool = Pool(rng, [b"x"])
    pool.hash = case["hash"]
    pool.roots = []
    for what, v in case["ops"]:
        for t in (a, b):
            if what == "add":
                t.put(v) if isinstance(t, MerkleTree) and rng.random() < 0.5 else t.add_leaf(v)
            elif what == "make":
                t.make_tree()
            else:
                t.reset_tree()
        if what == "add":
            leaves.append(v)
        elif what == "reset":
            leaves = []
        if not merkle_ready(a):
            mon.saw("not_ready_tree")
        if merkle_ready(a) and leaves:
            p = T.attempt(a.get_proof_of_inclusion, rng.choice(leaves))
            if not T.raised(p):
                pool.proofs.append(p)
                if isinstance(p, Proof) and p.proof and rng.random() < 0.6:
                    pool.proofs.append(hostile(rng, p, leaves))
                    if len(pool.proofs) > 40:
                        del pool.proofs[rng.randrange(40)]
            pool.roots.append(M.root(leaves, case["secure"], case["hash"]))
        state = merkle_state(a)
        seen = {}
        for _ in range(case["n"]):
            name, fn, watch = merkle_query(a, pool, leaves)
            w = snap(watch)
            r0 = merkle_ready(a)
            x = ask(fn)
            r1 = merkle_ready(a)
            y = ask(fn)
            mon.check(r1 or not r0, "%s made a built tree unbuilt", name)
            if r0 == r1:
                mon.check(x == y, "%s asked twice gave %r, then %r", name, x, y)
            mon.check(merkle_state(a) == state, "%s changed the leaves: %r, then %r", name, state, merkle_state(a))
            mon.check(snap(watch) == w, "%s changed its argument", name)
            if r1 and leaves:
                mon.check(root_text(a) == M.root(leaves, case["secure"], case["hash"]).hex(), "after %s the root is another", name)
                mon.mark()
            if isinstance(watch, Proof):
                mon.saw("proofs_accepted" if x is True else "proofs_rejected")
            if isinstance(x, tuple) and x[:1] == ("raised",):
                mon.saw("raising_queries")
            mon.saw("merkle_queries")
            # answers given in the same ready state stay the same
            if name in ("get_merkle_root", "str", "hash") and r0 == r1:
                mon.check(seen.setdefault((name, r1), x) == x, "%s gives another answer than before", name)
        mon.check(merkle_state(b) == state, "the unqueried twin differs")
        if merkle_ready(b) and leaves:
            mon.check(merkle_ready(a) and root_text(a) == root_text(b), "the queried tree diverges from its unqueried twin")
            k = rng.choice(leaves)
            mon.check(ask(lambda: a.get_proof_of_inclusion(k)) == ask(lambda: b.get_proof_of_inclusion(k)), "a proof of the queried tree differs from its twin's")
        mon.saw("twins_compared")
        mon.state(state[3], merkle_ready(a))


def root_text(t):
    r = t.get_merkle_root()
    return r.decode() if isinstance(r, bytes) else r


# --------------------------------------------------------- proofs, references
def gen_objects(rng, size):
    h = gen_trie(rng, 1)
    h["order"] = [rng.randrange(14) for _ in range(40)]
    return h


def run_objects(case, mon):
    rng = random.Random(case["seed"])
    t = MPT({}, secure=case["secure"])
    m = {}
    for op in case["ops"]:
        T.apply(t, m, op)
    e = EMPT({}, {}, secure=case["secure"])
    for k, v in m.items():
        e.update(k, v)
    mt = MerkleTree()
    mt.put_list(list(m.values()) or [b"x"])
    mt.make_tree()
    ps = []
    for k in case["keys"][:4]:
        ps += [T.attempt(t.get_proof_of_inclusion, k), T.attempt(t.get_proof_of_exclusion, k)]
    ps.append(mt.get_proof_of_inclusion(rng.choice(list(m.values()) or [b"x"])))
    ps = [p for p in ps if isinstance(p, Proof)]
    p = rng.choice(ps)
    other = rng.choice(ps)
    before, first = proof_state(p), {}
    same = T.attempt(lambda: Proof.decode_json(p.encode_json()))
    mon.mark()
    queries = [p.encode_json, p.encode_rlp, lambda: list(p), lambda: list(p.items()), lambda: repr(p), lambda: str(p), lambda: hash(p), lambda: p == other,
               lambda: p == same, lambda: p == 5, lambda: next(iter(p)), lambda: Proof.decode_rlp(p.encode_rlp()), lambda: Proof.decode_json(p.encode_json()),
               lambda: [x for x in p for _ in p]]
    for i in case["order"]:
        x = ask(queries[i])
        mon.check(first.setdefault(i, x) == x, "query %d of a proof gave %r first, then %r", i, first[i], x)
        mon.check(proof_state(p) == before, "query %d changed the proof", i)
        mon.saw("proof_queries")
    for q in (p, other):
        for v in (t, e, mt):
            s = proof_state(q)
            for f in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
                ask(lambda: getattr(v, f)(q))
                mon.check(proof_state(q) == s, "verifying changed the proof")
    k = case["keys"][0]
    d = DataReference(k, case["keys"][-1])
    enc0 = d.encode()
    for i in case["order"][:15]:
        ask((lambda: d == DataReference(k, k), lambda: hash(d), d.encode, lambda: DataReference.decode(d.encode()), lambda: d == 5, lambda: d.hash, lambda: repr(d))[i % 7])
        mon.check(d.key == k and d.data == case["keys"][-1] and d.encode() == enc0, "a query changed the reference")
        mon.saw("reference_queries")
    mon.state(before)


SCENARIOS = [
    scenario("mpt", gen_trie, run_mpt, 220, 5000),
    scenario("empt", gen_empt, run_empt, 200, 4500),
    scenario("large", gen_large, run_large, 16, 400),
    scenario("merkle", gen_merkle, run_merkle, 1500, 30000),
    scenario("objects", gen_objects, run_objects, 600, 12000),
]
