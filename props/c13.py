"""C13: sparse, root-only and rebuilt tries agree with the full trie."""
import random

from vlib import gen, tries as T, ref_trie as R, empts as E, longlife, words
from vlib.core import scenario
from vlib.objs import Item, enc, make
from vlib.stores import FalseMapping, Mapping
from pymt.empt import EMPT, SparseEMPT, RootEMPT, SEMPT, REMPT

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: one model per live object (full, sparse, root-only), all checked while all evolve; rebuild under damage"
LEVEL_NOTE = ("in the executed runs every view agreed with the contents at the moment it was taken, lock-step sparse and full tries had "
              "equal roots, and every rebuild gave the independently computed root of the stored data")
RULE = ("views: an extended trie, sparse and root-only views taken at random moments, all written further in random interleaving; "
        "lockstep: the same operations on a sparse and a full trie; rebuild: build_trie after the data or node storage was changed, "
        "lost or supplied from outside; non-trivial when a view held entries and an object was written afterwards")
REQUIRED = ["words_tried", "views_taken", "root_views_taken", "root_views_of_sparse", "roots_compared", "references_checked", "view_membership",
            "view_proofs_accepted", "stale_proofs_refused", "lockstep_roots", "rebuilds", "rebuilds_after_node_damage",
            "rebuilds_after_data_change", "rebuilds_of_supplied_data", "rebuilds_of_nothing", "sparse_written", "operations_of_long_lives"]
ASSUMPTIONS = ["the storages are mappings as the class documents"]


def gen_views(rng, size):
    secure = rng.random() < 0.4
    keys = gen.universe(rng, size, secure)
    pool = gen.values_pool(rng, size, True, True, keys)
    n = {1: rng.randrange(4, 16), 2: rng.randrange(8, 30), 3: rng.randrange(20, 60)}[size]
    ops = []
    for _ in range(n):
        r = rng.random()
        kind = "put" if r < 0.5 else "del" if r < 0.7 else "sparse" if r < 0.8 else "root" if r < 0.88 else "rootsparse" if r < 0.93 else "reroot" if r < 0.95 else "rebuild"
        v = gen.value(rng, False, True, keys) if rng.random() < 0.4 else rng.choice(pool)
        ops.append((kind, rng.choice(keys), v, rng.choice((0, 0, 1, 2, 3)), rng.randrange(6)))
    return {"secure": secure, "keys": keys, "ops": ops, "seed": rng.getrandbits(32), "stores": rng.randrange(4)}


def check_view(mon, v, model, keys, secure, rng, full=False):
    """v: ('full'|'sparse'|'root', object)"""
    kind, t = v
    E.check_root(mon, t, model, secure, "root of a %s trie" % kind)
    probe = list(keys) if full else rng.sample(list(keys), min(3, len(keys)))
    if kind == "root":
        mon.check(t.secure is secure, "the root-only view has secure=%r", t.secure)
        return
    for k in probe:
        mon.check(t.contains(k) is (k in model), "%s trie answers contains(%s)=%r", kind, T.hx(k), t.contains(k))
        mon.check((k in t) is (k in model), "%s trie: `in` is wrong for %s", kind, T.hx(k))
        E.check_ref(mon, t, model, k)
        mon.saw("view_membership")
        if kind == "sparse":
            mon.check(T.raised(T.attempt(t.__getitem__, k)), "a sparse trie gave data")


def cross_proofs(mon, objs, keys, rng):
    """Proofs made by one object judged by all others."""
    for v, model in objs:
        if v[0] == "root" or not model:
            continue
        for k in rng.sample(list(keys), min(3, len(keys))):
            if k in model:
                p, what = v[1].get_proof_of_inclusion(k), "verify_proof_of_inclusion"
            else:
                p, what = v[1].get_proof_of_exclusion(k), "verify_proof_of_exclusion"
            other = "verify_proof_of_exclusion" if k in model else "verify_proof_of_inclusion"
            for w, m2 in objs:
                if m2 == model:
                    mon.check(getattr(w[1], what)(p) is True, "a %s trie with the same contents refuses a proof of a %s trie", w[0], v[0])
                    mon.saw("view_proofs_accepted")
                else:
                    mon.check(not T.accepted(getattr(w[1], what), p), "a %s trie with other contents accepts a proof", w[0])
                    mon.saw("stale_proofs_refused")
                mon.check(not T.accepted(getattr(w[1], other), p), "a %s trie accepts a proof of the other kind", w[0])


def run_views(case, mon):
    rng = random.Random(case["seed"])
    secure, keys, s = case["secure"], case["keys"], case["stores"]
    full = EMPT({} if s & 1 else rng.choice((Mapping, FalseMapping))(), {} if s & 2 else rng.choice((Mapping, FalseMapping))(), secure=secure)
    objs = [[("full", full), {}]]
    probe = keys + gen.near_misses(rng, keys, 3)
    for kind, k, body, vk, which in case["ops"]:
        writable = [o for o in objs if o[0][0] != "root"]
        o = writable[0] if which < 3 else rng.choice(writable)
        (okind, t), model = o
        if kind in ("put", "del"):
            if len(objs) > 1:
                mon.mark()
            if okind == "sparse":
                mon.saw("sparse_written")
            if kind == "put":
                v = make(vk, body)
                (t.update if which & 1 else t.__setitem__)(k, v)
                model[k] = bytes(body)
            elif k in model:
                (t.delete if which & 1 else t.__delitem__)(k)
                del model[k]
            else:
                mon.check(T.raised(T.attempt(t.delete, k)), "deleting an absent key from a %s trie did not raise", okind)
        elif kind == "sparse" and len(objs) < 7:
            objs.append([("sparse", full.get_sparse_trie()), dict(objs[0][1])])
            mon.saw("views_taken")
        elif kind == "root" and len(objs) < 7:
            objs.append([("root", full.get_root_trie()), dict(objs[0][1])])
            mon.saw("root_views_taken")
        elif kind == "rootsparse" and len(objs) < 7:
            sp = [x for x in writable if x[0][0] == "sparse"]
            if sp:
                x = rng.choice(sp)
                objs.append([("root", x[0][1].get_root_trie()), dict(x[1])])
                mon.saw("root_views_of_sparse")
        elif kind == "reroot" and okind == "sparse":
            # another sparse trie from a node-for-node reopened root
            objs.append([("root", rng.choice((RootEMPT, REMPT))(t.root(), secure=secure)), dict(model)])
        elif kind == "rebuild":
            full.build_trie()
            mon.saw("rebuilds")
        for v, m in objs:
            check_view(mon, v, m, probe, secure, rng)
        mon.state(sorted((v[0], v[1].root_hash()) for v, m in objs))
    for v, m in objs:
        check_view(mon, v, m, probe, secure, rng, True)
    E.check_mapping(mon, full, objs[0][1], keys)
    cross_proofs(mon, objs[:4] + objs[-2:], keys, rng)


def gen_lock(rng, size):
    c = gen_views(rng, size)
    c["ops"] = [("del" if o[0] == "del" or (o[0] != "put" and o[4] == 0) else "put",) + o[1:] for o in c["ops"]]
    c["cut"] = rng.randrange(len(c["ops"]) + 1)
    return c


def run_lock(case, mon):
    secure, keys, s = case["secure"], case["keys"], case["stores"]
    full = EMPT({}, {} if s & 1 else Mapping(), secure=secure)
    sparse = [("own", SparseEMPT({} if s & 2 else Mapping(), secure=secure))]
    if s & 1:
        sparse.append(("default", (SparseEMPT, SEMPT)[case["seed"] & 1](secure=secure)))
    model = {}
    rng = random.Random(case["seed"])
    for i, (kind, k, body, vk, which) in enumerate(case["ops"]):
        if i == case["cut"]:
            sparse.append(("view", full.get_sparse_trie()))
            dec = SparseEMPT.decode_rlp(sparse[0][1].encode_rlp())
            sparse.append(("decoded", dec))
        every = [("full", full)] + sparse
        if kind == "put":
            for j, (_, t) in enumerate(every):
                t.update(k, make((vk + j) % 4, body))  # the same value in any admitted form
            model[k] = bytes(body)
        else:
            res = [T.raised(T.attempt(t.delete, k)) for _, t in every]
            mon.check(all(r is (k not in model) for r in res), "delete(%s): raised %r over the tries", T.hx(k), res)
            model.pop(k, None)
        want = E.want_root(model, secure)
        for name, t in every:
            mon.check(t.root_hash() == want, "root of the %s trie is %s after the same operations, should be %s", name, T.hx(t.root_hash()), T.hx(want))
            mon.saw("lockstep_roots")
        if len(model) > 1:
            mon.mark()
        mon.state(want)
    for k in keys:
        for name, t in sparse:
            E.check_ref(mon, t, model, k)
    objs = [[("full" if n == "full" else "sparse", t), model] for n, t in [("full", full)] + sparse]
    cross_proofs(mon, objs, keys, rng)


def run_rebuild(case, mon):
    rng = random.Random(case["seed"])
    secure, keys, s = case["secure"], case["keys"], case["stores"]
    nodes = {} if s & 1 else Mapping()
    data = {} if s & 2 else Mapping()
    supplied = rng.random() < 0.3
    model = {}
    t = None
    if supplied:
        for kind, k, body, vk, which in case["ops"]:
            if kind != "del":
                v = make(vk, body)
                data[k] = v
                model[k] = bytes(body)
        t = EMPT(nodes, data, secure=secure)
        t.build_trie()
        mon.saw("rebuilds_of_supplied_data")
        E.check_root(mon, t, model, secure, "root built from supplied data")
        E.check_mapping(mon, t, model, keys)
    else:
        t = EMPT(nodes, data, secure=secure)
    views = []
    for kind, k, body, vk, which in case["ops"]:
        if kind == "del":
            if k in model:
                t.delete(k)
                del model[k]
        elif kind == "put":
            t.update(k, make(vk, body))
            model[k] = bytes(body)
        elif kind in ("sparse", "root"):
            if len(views) < 4:
                views.append([("sparse", t.get_sparse_trie()) if kind == "sparse" else ("root", t.get_root_trie()), dict(model)])
        else:
            # some damage or outside change, then a rebuild
            for _ in range(rng.randrange(0, 4)):
                r = rng.randrange(8)
                if r == 0:
                    v = make(vk, body)
                    data[k] = v
                    model[k] = bytes(body)
                    mon.saw("rebuilds_after_data_change")
                elif r == 1 and model:
                    x = rng.choice(list(model))
                    del data[x]
                    del model[x]
                    mon.saw("rebuilds_after_data_change")
                elif r == 2:
                    x = rng.choice(list(data.keys())) if len(data) else None
                    if x is not None and isinstance(data[x], Item):
                        data[x].body = data[x].body + b"!"
                        model[x] = model[x] + b"!"
                        mon.saw("rebuilds_after_data_change")
                elif r == 3 and len(nodes):
                    del nodes[rng.choice(list(nodes.keys()))]
                    mon.saw("rebuilds_after_node_damage")
                elif r == 4 and len(nodes):
                    nodes[rng.choice(list(nodes.keys()))] = rng.choice((b"", b"garbage", b"\xc0"))
                    mon.saw("rebuilds_after_node_damage")
                elif r == 5:
                    nodes[R.keccak256(body)] = body
                    mon.saw("rebuilds_after_node_damage")
                elif r == 6:
                    for x in list(nodes.keys()):
                        del nodes[x]
                    mon.saw("rebuilds_after_node_damage")
                elif r == 7 and rng.random() < 0.3:
                    for x in list(data.keys()):
                        del data[x]
                    model.clear()
                    mon.saw("rebuilds_of_nothing")
            if rng.random() < 0.2:  # opened again by a later process, then rebuilt
                t = EMPT(nodes, data, root=t.root(), secure=secure)
            for _ in range(rng.choice((1, 1, 2))):
                t.build_trie()
                mon.saw("rebuilds")
                E.check_root(mon, t, model, secure, "root after a rebuild")
            mon.check(t.secure is secure, "a rebuild changed the mode")
            E.check_mapping(mon, t, model, keys)
            for x in keys + list(model):
                E.check_ref(mon, t, model, x)
            if model:
                mon.mark()
                x = rng.choice(list(model))
                mon.check(t.verify_proof_of_inclusion(t.get_proof_of_inclusion(x)) is True, "no valid proof after a rebuild")
            for v, m in views:
                check_view(mon, v, m, keys, secure, rng, True)
        E.check_root(mon, t, model, secure)
        mon.state(t.root_hash())
    if not model or rng.random() < 0.3:
        for x in list(data.keys()):
            del data[x]
        t.build_trie()
        mon.saw("rebuilds_of_nothing")
        E.check_root(mon, t, {}, secure, "root after rebuilding from no data")
        t.update(b"one", b"1")
        E.check_root(mon, t, {b"one": b"1"}, secure)
    for v, m in views:
        check_view(mon, v, m, keys, secure, rng, True)


def run_small(case, mon):
    secure, keys = T.UNIVERSES[case["universe"]]
    idx = [i for i in range(len(keys)) if case["mask"] >> i & 1]
    model = {keys[i]: T.small_value(case["pattern"], i) for i in idx}
    full, sparse = EMPT({}, {}, secure=secure), SparseEMPT({}, secure=secure)
    for k in reversed(list(model)):
        full[k] = model[k]
    for k in model:
        sparse[k] = model[k]
    rng = random.Random(case["mask"])
    view = full.get_sparse_trie()
    objs = [[("full", full), model], [("sparse", sparse), model], [("sparse", view), model], [("root", full.get_root_trie()), model],
            [("root", sparse.get_root_trie()), model], [("root", view.get_root_trie()), model]]
    for v, m in objs:
        check_view(mon, v, m, keys, secure, rng, True)
    cross_proofs(mon, objs, keys, rng)
    full.build_trie()
    mon.saw("rebuilds")
    if model:
        mon.mark()
    for v, m in objs:
        check_view(mon, v, m, keys, secure, rng, True)
    # each one changed on its own
    k = keys[case["mask"] % len(keys)]
    m2 = dict(model)
    m2[k] = b"other value"
    full[k] = b"other value"
    objs[0][1] = m2
    for v, m in objs:
        check_view(mon, v, m, keys, secure, rng)
    m3 = dict(model)
    for k in list(m3)[:2]:
        view.delete(k)
        del m3[k]
    objs[2][1] = m3
    for v, m in objs:
        check_view(mon, v, m, keys, secure, rng, v[0] == "sparse")
    mon.state(full.root_hash(), view.root_hash())


class Both:
    """The same writes to a full trie and a sparse one."""

    def __init__(self, full, sparse):
        self.full, self.sparse = full, sparse

    def update(self, k, v):
        self.full.update(k, v)
        self.sparse.update(k, v)

    def delete(self, k):
        self.full.delete(k)
        self.sparse.delete(k)

    def root_hash(self):
        return self.sparse.root_hash()


def run_long(case, mon):
    """Views taken all along a long life, of the moment they were taken at."""
    rng = random.Random(case["seed"] + 1)
    secure = case["secure"]
    t, lone = EMPT({}, {}, secure=secure), SparseEMPT({}, secure=secure)
    views = []

    def rare(i, model, keys):
        E.check_root(mon, t, model, secure, "root after %d operations on one trie" % (i + 1))
        E.check_root(mon, lone, model, secure, "root after %d operations on one sparse trie" % (i + 1))
        for k in rng.sample(keys, min(4, len(keys))):
            E.check_ref(mon, lone, model, k)
        mon.saw("lockstep_roots")
        views.append((t.get_sparse_trie() if rng.random() < 0.5 else t.get_root_trie(), dict(model)))
        if len(views) > 12:
            del views[rng.randrange(len(views) - 1)]
        for v, m in views[-1:] + rng.sample(views, min(3, len(views))):
            E.check_root(mon, v, m, secure, "root of a view taken before")
        v, m = views[-1]
        for k in rng.sample(keys, min(4, len(keys))):
            if k in m:
                mon.check(v.verify_proof_of_inclusion(t.get_proof_of_inclusion(k)) is True, "a view refuses the trie's inclusion proof of %s", T.hx(k))
            elif m:
                mon.check(v.verify_proof_of_exclusion(t.get_proof_of_exclusion(k)) is True, "a view refuses the trie's exclusion proof of %s", T.hx(k))
            if isinstance(v, SparseEMPT):
                E.check_ref(mon, v, m, k)

    longlife.live(case, mon, Both(t, lone), None, rare)
    again = EMPT({}, {k: v for k, v in t.items()}, secure=secure)
    again.build_trie()
    mon.check(again.root_hash() == t.root_hash(), "the trie built from the entries has another root")


def run_words(case, mon):
    run_lock(case, mon)
    run_rebuild(case, mon)


SCENARIOS = [
    words.extended(run_words, tail=(0,), cut=1),
    scenario("views", gen_views, run_views, 500, 20000),
    scenario("lockstep", gen_lock, run_lock, 500, 20000),
    scenario("rebuild", gen_views, run_rebuild, 500, 20000),
    scenario("small", T.small_case, run_small, 500, T.SMALL_CASES, enum=True),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
