"""C33: an operation on a key needs and touches only the nodes on the key's path."""
import random

from vlib import forge as F, gen, ref_trie as R, tries as T, empts as E
from vlib.core import scenario
from vlib.objs import enc, make
from vlib.stores import GetSet
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from pymt.mpt import MPT

ID = "C33"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: event logs of instrumented node and data storages checked against the path an independent walk takes; operations "
             "re-run on storages holding that path only")
LEVEL_NOTE = ("in the executed histories every operation touched only nodes of its path (and, for a collapse, the remaining child), and gave the same "
              "answer and root when it had nothing else")
RULE = ("a case is a history; every operation's storage events are compared with the path of its key in the independent model of the trie, and "
        "each kind of operation is repeated on a storage with the nodes of that path alone; non-trivial when the trie had nodes off the path")
REQUIRED = ["ops_logged", "reads_judged", "writes_judged", "off_path_nodes", "partial_gets", "partial_absent", "partial_updates", "partial_deletes",
            "partial_collapses", "partial_proofs", "proofs_compared", "exclusions_compared", "verified_without_storage", "altered_without_storage", "data_events", "empt_ops",
            "sparse_ops", "spied_views"]
ASSUMPTIONS = ["the trie is not empty", "reading a node more than once is allowed, up to a few times the length of the path"]


class Log:
    """Storage that keeps the events; item get and set only unless mapping."""

    def __init__(self, init=None):
        self._d = dict(init or {})
        self.ev = []

    def __getitem__(self, k):
        self.ev.append(("get", k))
        return self._d[k]

    def __setitem__(self, k, v):
        self.ev.append(("set", k))
        self._d[k] = v


class LogMap(Log):
    """... with the rest of the mapping interface, every access an event."""

    def __delitem__(self, k):
        self.ev.append(("del", k))
        del self._d[k]

    def __contains__(self, k):
        self.ev.append(("in", k))
        return k in self._d

    def get(self, k, default=None):
        self.ev.append(("get", k))
        return self._d.get(k, default)

    def pop(self, k, *a):
        self.ev.append(("del", k))
        return self._d.pop(k, *a)

    def setdefault(self, k, d=None):
        self.ev.append(("set", k))
        return self._d.setdefault(k, d)

    def __len__(self):
        self.ev.append(("len", None))
        return len(self._d)

    def __iter__(self):
        self.ev.append(("iter", None))
        return iter(list(self._d))

    def keys(self):
        self.ev.append(("iter", None))
        return self._d.keys()

    def values(self):
        self.ev.append(("iter", None))
        return self._d.values()

    def items(self):
        self.ev.append(("iter", None))
        return self._d.items()


class Shape:
    """The canonical trie of some contents: its nodes and paths."""

    def __init__(self, contents, secure):
        self.nodes = {}
        self.secure = secure
        enc_root = R.build({R.path_of(k, secure): v for k, v in contents.items()}, self.nodes)
        self.root = enc_root
        if enc_root is not None:
            self.nodes[R.keccak256(enc_root)] = enc_root

    def path(self, path):
        """(encodings of the nodes along path, hashes among them, the node
        lists)."""
        encs, hashes, lists = [], [], []
        if self.root is None:
            return encs, hashes, lists
        cur = R.rlp_decode(self.root)
        hashes.append(R.keccak256(self.root))
        path = tuple(path)
        while True:
            encs.append(R.rlp_encode(cur))
            lists.append(cur)
            if len(cur) == 17:
                if not path:
                    break
                nxt, path = cur[path[0]], path[1:]
            else:
                p, leaf = R.hp_decode(cur[0])
                if leaf or path[:len(p)] != p:
                    break
                nxt, path = cur[1], path[len(p):]
            if nxt == b"":
                break
            if not isinstance(nxt, list):
                hashes.append(nxt)
                nxt = R.rlp_decode(self.nodes[nxt])
            cur = nxt
        return encs, hashes, lists


def collapse_child(path, lists):
    """Hash of the child that stays alone when the key is deleted, if it is
    referenced by hash: the deepest branch on the path, less the key."""
    rest = tuple(path)
    branches = []
    for n in lists:
        if len(n) == 17:
            branches.append((n, rest))
            rest = rest[1:]
        else:
            p, leaf = R.hp_decode(n[0])
            rest = rest[len(p):]
    if not branches:
        return None
    n, rest = branches[-1]
    kids = [(i, c) for i, c in enumerate(n[:16]) if c != b""]
    if rest:
        kids = [(i, c) for i, c in kids if i != rest[0]]
        value = n[16]
    else:
        value = b""
    if len(kids) == 1 and not value and isinstance(kids[0][1], bytes):
        return kids[0][1]
    return None


def judge(mon, what, key, log, allowed, npath, writes, before):
    """The events of one operation: reads within the allowed nodes (or ones it
    has just written), no other access, and not too many."""
    mine = set()
    reads = sets = 0
    for kind, k in log:
        if kind == "set":
            mon.check(writes, "%s of %s wrote to the node storage", what, T.hx(key))
            mine.add(k)
            sets += 1
        elif kind in ("get", "in"):
            reads += 1
            mon.check(k in allowed or k in mine or k not in before, "%s of %s read the node %s, which is not on the path of the key", what, T.hx(key), T.hx(k))
        else:
            mon.check(False, "%s of %s did %r on the node storage", what, T.hx(key), kind)
    mon.check(reads <= 6 * (npath + 3), "%s of %s made %d reads for a path of %d nodes", what, T.hx(key), reads, npath)
    mon.check(sets <= 4 * (npath + 4), "%s of %s made %d writes for a path of %d nodes", what, T.hx(key), sets, npath)
    mon.saw("ops_logged")
    mon.saw("reads_judged", reads)
    mon.saw("writes_judged", sets)


QUERIES = ["get", "contains", "[]", "in", "poi", "poe"]


def call(t, what, key, value=None):
    if what == "get":
        return t.get(key)
    if what == "[]":
        return t[key]
    if what == "contains":
        return t.contains(key)
    if what == "in":
        return key in t
    if what == "poi":
        return t.get_proof_of_inclusion(key)
    if what == "poe":
        return t.get_proof_of_exclusion(key)
    if what == "ref":
        return t.get_reference(key)
    if what == "update":
        return t.update(key, value)
    if what == "delete":
        return t.delete(key)
    raise AssertionError(what)


def gen_hist(rng, size):
    secure = rng.random() < 0.4
    c = gen.history(rng, size, secure, size > 1)
    c["seed"] = rng.getrandbits(48)
    return c


def check_proof(mon, shape, key, what, p, secure):
    path = R.path_of(key, secure)
    encs, _, _ = shape.path(path)
    if what == "poi":
        mon.check([bytes(x) for x in p.proof] == encs, "the inclusion proof of %s has %d nodes which are not the %d of the path",
                  T.hx(key), len(p.proof), len(encs))
        mon.saw("proofs_compared")
    else:
        mon.check([bytes(x) for x in p.proof[:-1]] == encs, "the exclusion proof of %s has %d nodes which are not the %d of the path and a last marker",
                  T.hx(key), len(p.proof), len(encs))
        mon.saw("exclusions_compared")


def check_altered(mon, rng, views, root, secure, p, what, pool, path, logs):
    """Altered proofs: no storage is used for them either, and every holder of
    the root gives the same verdict."""
    fn = "verify_proof_of_inclusion" if what == "poi" else "verify_proof_of_exclusion"
    bare = RootEMPT(root, secure=secure)
    for _ in range(3):
        label, nodes = F.shape(rng, list(p.proof), pool, path, p.type)
        q = F.mk(p.target_key, p.trie_root, nodes, p.type)
        want = T.accepted(getattr(bare, fn), q)
        for v in views:
            for s in logs:
                s.ev = []
            got = T.accepted(getattr(v, fn), q)
            for s in logs:
                mon.check(not s.ev, "verifying a proof (%s) used the storage: %r", label, s.ev[:3])
            mon.check(got is want, "a proof (%s) is %s by %s, but %s by a view without storage", label, "accepted" if got else "rejected",
                      type(v).__name__, "accepted" if want else "rejected")
        mon.saw("altered_without_storage")


def run_logged(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    store = (Log if rng.random() < 0.7 else LogMap)()
    t = MPT(store, secure=secure)
    model = {}
    shape = Shape(model, secure)
    for op in case["ops"]:
        if op[0] == "del" and op[1] not in model:
            continue
        key = op[1]
        path = R.path_of(key, secure)
        encs, hashes, lists = shape.path(path)
        allowed = set(hashes)
        if op[0] == "del":
            c = collapse_child(path, lists)
            if c is not None:
                allowed.add(c)
        if len(shape.nodes) > len(hashes):
            mon.saw("off_path_nodes")
            mon.mark()
        store.ev = []
        before = set(store._d)
        T.apply(t, model, op)
        shape2 = Shape(model, secure)
        judge(mon, "update" if op[0] == "put" else "delete", key, store.ev, allowed, len(encs) + len(shape2.path(path)[0]), True, before)
        shape = shape2
        mon.state(shape.root)
        if not model or rng.random() < 0.4:
            continue
        for key in [rng.choice(list(model)), rng.choice(case["keys"]), gen.near_misses(rng, case["keys"], 1)[0]]:
            encs, hashes, lists = shape.path(R.path_of(key, secure))
            for what in rng.sample(QUERIES, 3):
                store.ev = []
                p = T.attempt(call, t, what, key)
                judge(mon, what, key, store.ev, set(hashes), len(encs), False, set(store._d))
                if what in ("poi", "poe"):
                    mon.check(T.raised(p) is ((what == "poi") != (key in model)), "%s of %s: %r", what, T.hx(key), p)
                    if T.raised(p):
                        continue
                    check_proof(mon, shape, key, what, p, secure)
                    store.ev = []
                    ok = t.verify_proof_of_inclusion(p) if what == "poi" else t.verify_proof_of_exclusion(p)
                    mon.check(ok is True, "the %s of %s is not accepted", what, T.hx(key))
                    mon.check(not store.ev, "verifying the %s of %s used the storage: %r", what, T.hx(key), store.ev[:3])
                    mon.saw("verified_without_storage")
                    check_altered(mon, rng, [t], t.root(), secure, p, what, list(shape.nodes.values())[:20], R.path_of(key, secure), [store])


def partial(mon, shape, root, secure, model, key, value, rng, cls=MPT, mk=GetSet):
    """Every operation on `key`, each on a fresh storage with the path alone."""
    path = R.path_of(key, secure)
    encs, hashes, lists = shape.path(path)
    have = {h: shape.nodes[h] for h in hashes}
    if len(shape.nodes) > len(have):
        mon.saw("off_path_nodes")
        mon.mark()

    def fresh(extra=()):
        d = dict(have)
        for h in extra:
            d[h] = shape.nodes[h]
        return cls(mk(d), root, secure=secure)

    t = fresh()
    T.check_key(mon, t, model, key, secure, 7)
    mon.saw("partial_gets" if key in model else "partial_absent")
    what = "poi" if key in model else "poe"
    p = call(fresh(), what, key)
    check_proof(mon, shape, key, what, p, secure)
    ok = t.verify_proof_of_inclusion(p) if key in model else t.verify_proof_of_exclusion(p)
    mon.check(ok is True, "the %s of %s made from the path alone is not accepted", what, T.hx(key))
    mon.saw("partial_proofs")
    t = fresh()
    t.update(key, value)
    after = dict(model)
    after[key] = value
    T.check_root(mon, t, after, secure, "the root after an update on the path alone")
    mon.check(t.get(key) == value, "an update on the path alone is not read back")
    mon.saw("partial_updates")
    if key in model:
        c = collapse_child(path, lists)
        t = fresh([c] if c is not None else [])
        t.delete(key)
        after = dict(model)
        del after[key]
        T.check_root(mon, t, after, secure, "the root after a delete on the path alone")
        mon.saw("partial_deletes")
        if c is not None:
            mon.saw("partial_collapses")


def gen_partial(rng, size):
    secure = rng.random() < 0.4
    c = gen.history(rng, size, secure, False)
    c["seed"] = rng.getrandbits(48)
    return c


def run_partial(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    t = MPT({}, secure=secure)
    model = {}
    for op in case["ops"]:
        T.apply(t, model, op)
    if not model:
        return
    shape = Shape(model, secure)
    mon.state(shape.root)
    root = t.root()
    keys = list(model)
    for key in (keys if len(keys) < 9 else rng.sample(keys, 9)) + rng.sample(case["keys"], min(3, len(case["keys"]))) + gen.near_misses(rng, keys, 4):
        partial(mon, shape, root, secure, model, key, gen.value(rng), rng)


def gen_small(i):
    return T.small_case(i)


def run_small(case, mon):
    secure, keys, storage, t, model = T.small_build(case)
    if not model:
        return
    rng = random.Random(repr(case))
    shape = Shape(model, secure)
    mon.state(shape.root)
    for i, key in enumerate(keys):
        partial(mon, shape, t.root(), secure, model, key, T.small_value((case["pattern"] + i) % T.PATTERNS, i), rng)


def gen_empt(rng, size):
    secure = rng.random() < 0.4
    c = gen.history(rng, size, secure, False, True)
    c["seed"] = rng.getrandbits(48)
    c["kinds"] = [rng.randrange(3) for _ in range(4)]
    return c


def judge_data(mon, what, key, log, wrote):
    mon.check(len(log) <= 8, "%s of %s accessed the data storage %d times", what, T.hx(key), len(log))
    for kind, k in log:
        mon.saw("data_events")
        mon.check(kind in ("get", "set", "del", "in") and k == key, "%s of %s did %s of %s on the data storage", what, T.hx(key), kind, T.hx(k))
        mon.check(wrote or kind in ("get", "in"), "%s of %s changed the data storage", what, T.hx(key))


def run_empt(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    nodes, data = LogMap(), LogMap()
    t = EMPT(nodes, data, secure=secure)
    snodes = LogMap()
    s = SparseEMPT(snodes, secure=secure)
    model = {}
    shape = Shape({}, secure)
    for n, op in enumerate(case["ops"]):
        if op[0] == "del" and op[1] not in model:
            continue
        key = op[1]
        path = R.path_of(key, secure)
        encs, hashes, lists = shape.path(path)
        allowed = set(hashes)
        if op[0] == "del":
            c = collapse_child(path, lists)
            if c is not None:
                allowed.add(c)
        if len(shape.nodes) > len(hashes):
            mon.saw("off_path_nodes")
            mon.mark()
        nodes.ev, data.ev, snodes.ev = [], [], []
        before = set(nodes._d), set(snodes._d)
        if op[0] == "put":
            kind = case["kinds"][n % 4]
            model[key] = op[2]
            t.update(key, make(kind, op[2]))
            s.update(key, make(kind, op[2]))
        else:
            del model[key]
            t.delete(key)
            s.delete(key)
        shape = Shape({k: E.ref_encoding(k, v) for k, v in model.items()}, secure)
        what = "update" if op[0] == "put" else "delete"
        np = len(encs) + len(shape.path(path)[0])
        judge(mon, "extended " + what, key, nodes.ev, allowed, np, True, before[0])
        judge(mon, "sparse " + what, key, snodes.ev, allowed, np, True, before[1])
        judge_data(mon, what, key, data.ev, True)
        mon.saw("empt_ops")
        mon.saw("sparse_ops")
        mon.state(shape.root)
        if not model or rng.random() < 0.4:
            continue
        for key in [rng.choice(list(model)), rng.choice(case["keys"])]:
            encs, hashes, lists = shape.path(R.path_of(key, secure))
            for what in rng.sample(QUERIES + ["ref"], 4):
                nodes.ev, data.ev = [], []
                p = T.attempt(call, t, what, key)
                judge(mon, "extended " + what, key, nodes.ev, set(hashes), len(encs), False, set(nodes._d))
                judge_data(mon, what, key, data.ev, False)
                if what in ("contains", "in", "poi", "poe", "ref"):
                    snodes.ev = []
                    q = T.attempt(call, s, what, key)
                    judge(mon, "sparse " + what, key, snodes.ev, set(hashes), len(encs), False, set(snodes._d))
                    mon.check(T.raised(p) is T.raised(q), "%s of %s: full %r, sparse %r", what, T.hx(key), p, q)
                if what in ("poi", "poe") and not T.raised(p):
                    check_proof(mon, shape, key, what, p, secure)
                    for label, view in (("the extended trie", t), ("the sparse trie", s)):
                        nodes.ev, data.ev, snodes.ev = [], [], []
                        ok = view.verify_proof_of_inclusion(p) if what == "poi" else view.verify_proof_of_exclusion(p)
                        mon.check(ok is True, "%s of %s is not accepted by %s", what, T.hx(key), label)
                        mon.check(not (nodes.ev or data.ev or snodes.ev), "verifying the %s of %s by %s used a storage", what, T.hx(key), label)
                        mon.saw("verified_without_storage")
                    check_altered(mon, rng, [t, s], t.root(), secure, p, what, list(shape.nodes.values())[:20], R.path_of(key, secure), [nodes, data, snodes])
    if not model:
        return
    # one entry of the data and its path are all a full trie needs for a key
    root = t.root()
    for key in rng.sample(list(model), min(4, len(model))) + gen.near_misses(rng, list(model), 2):
        encs, hashes, lists = shape.path(R.path_of(key, secure))
        have = {h: shape.nodes[h] for h in hashes}
        one = {key: data._d[key]} if key in model else {}
        v = EMPT(dict(have), dict(one), root, secure)
        E.check_key(mon, v, model, key)
        E.check_ref(mon, v, model, key)
        v.update(key, b"another value")
        after = dict(model)
        after[key] = b"another value"
        E.check_root(mon, v, after, secure, "the root after an update on the path alone")
        w = SparseEMPT(dict(have), root, secure)
        w.update(key, b"another value")
        E.check_root(mon, w, after, secure, "the root after a sparse update on the path alone")
        mon.saw("spied_views")
        if key in model:
            c = collapse_child(R.path_of(key, secure), lists)
            if c is not None:
                have[c] = shape.nodes[c]
            v = EMPT(dict(have), dict(one), root, secure)
            v.delete(key)
            after = dict(model)
            del after[key]
            E.check_root(mon, v, after, secure, "the root after a delete on the path alone")


SCENARIOS = [
    scenario("logged", gen_hist, run_logged, 900, 14000),
    scenario("partial", gen_partial, run_partial, 700, 12000, sizes=(1, 1, 2, 2, 3, gen.DEEP)),
    scenario("small", gen_small, run_small, 1200, T.SMALL_CASES, enum=True),
    scenario("empt", gen_empt, run_empt, 500, 8000),
]
