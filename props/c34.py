"""C34: an operation interrupted anywhere happens completely or not at all."""
import random

from vlib import gen, keys as K, ref_merkle as M, ref_trie as R, tries as T, empts as E
from vlib.core import fp, scenario
from vlib.objs import enc, make
from vlib.sched import raise_at, record, with_depth
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair, RsaKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree

ID = "C34"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: an exception raised at each line (or byte code instruction) of the package an operation "
             "passes, and a stack that ends at each depth; the object is compared with what it was before and what the operation makes of it")
LEVEL_NOTE = ("for the executed operations, at every place interrupted the object had either its state from before or the complete new one, answered "
              "accordingly, and went on as if nothing had happened")
RULE = ("a case is an object with a history and some operations, each interrupted at every distinct place it passes (a sample of them for long "
        "ones) by KeyboardInterrupt, MemoryError or an exhausted stack; non-trivial when at least ten places inside operations were interrupted")
REQUIRED = ["interruptions", "trie_writes", "extended_writes", "queries_interrupted", "merkle_writes", "stack_limits", "stack_ended", "left_as_before",
            "complete_nevertheless", "same_object_again", "rebuilds_interrupted", "rewritten", "key_generations", "byte_code_places", "older_versions_read"]
ASSUMPTIONS = ["interruptions arrive while the package's own code runs", "reset_tree and saving to a key file are not claimed"]


class Stop(KeyboardInterrupt):
    pass


def exc(rng):
    return rng.choice((Stop(), MemoryError("injected"), Stop()))


def steps_of(trail, rng, most):
    places = {}
    for i, loc in enumerate(trail):
        places.setdefault(loc, []).append(i)
    once = [rng.choice((l[0], l[-1], rng.choice(l))) for l in places.values()]
    out = set(rng.sample(once, min(most, len(once))))
    n = len(trail)
    out |= {n - 1 - i for i in range(min(n, 6))}  # where things get their final state
    out |= {rng.randrange(n) for _ in range(min(n, 6))}
    return sorted(out)


def where(trail, i):
    return "%s, %s" % (trail[i][0].co_name, trail[i][1])


def want_root(way, model, secure):
    return R.root_hash(model, secure) if way == "mpt" else E.want_root(model, secure)


def check_trie(mon, way, t, model, keys, secure, what):
    mon.check(t.root_hash() == want_root(way, model, secure), "%s: wrong root", what)
    for k in keys:
        if way == "mpt":
            T.check_key(mon, t, model, k, secure)
        else:
            mon.check(t.contains(k) is (k in model), "%s: contains(%s) is wrong", what, T.hx(k))
            E.check_ref(mon, t, model, k)


def do(t, op):
    if op[0] == "put":
        t.update(op[1], op[2])
    else:
        t.delete(op[1])


def some_ops(rng, keys, model, n, empty=False):
    out = []
    for _ in range(n):
        k = rng.choice(keys)
        if model and rng.random() < 0.5:
            out.append(("del", rng.choice(list(model))))
        else:
            out.append(("put", k, gen.value(rng, empty=empty)))
    return out


def gen_trie(rng, size):
    way = rng.choice(("mpt", "mpt", "sparse"))
    secure = rng.random() < 0.35
    c = gen.history(rng, min(size, 2), secure, False, way == "sparse")
    c["way"] = way
    c["seed"] = rng.getrandbits(48)
    c["opcodes"] = rng.random() < 0.3
    return c


def built(way, ops, secure):
    storage = {}
    t = (MPT if way == "mpt" else SparseEMPT)(storage, secure=secure)
    model = {}
    past = []
    for op in ops:
        T.apply(t, model, op)
        past.append((t.root(), dict(model)))
    return storage, t, model, past


def run_trie(case, mon):
    rng = random.Random(case["seed"])
    way, secure, keys = case["way"], case["secure"], case["keys"]
    cls = MPT if way == "mpt" else SparseEMPT
    storage, t0, model, past = built(way, case["ops"], secure)
    hits = 0
    for _ in range(3):
        op = some_ops(rng, keys, model, 1, way == "sparse")[0]
        root = t0.root()
        after = dict(model)
        T.apply_ref(after, op)
        w0, w1 = want_root(way, model, secure), want_root(way, after, secure)
        probe = [op[1]] + rng.sample(keys, min(3, len(keys)))
        t = cls(dict(storage), root, secure=secure)
        trail = record(lambda: do(t, op), case["opcodes"])
        mon.check(t.root_hash() == w1, "%s of %s gives a wrong root", op[0], T.hx(op[1]))
        mon.saw("trie_writes")
        if case["opcodes"]:
            mon.saw("byte_code_places", len(trail))
        same = cls(dict(storage), root, secure=secure)
        for i in steps_of(trail, rng, 30):
            st = dict(storage)
            again = rng.random() < 0.4
            t = same if again else cls(st, root, secure=secure)
            e = exc(rng)
            res, fired = raise_at(lambda: do(t, op), i, e, case["opcodes"])
            if not fired:
                # the operation took fewer steps this time, and went through
                if again:
                    same = cls(dict(storage), root, secure=secure)
                continue
            mon.saw("interruptions")
            hits += 1
            mon.states.add(fp(trail[i][0].co_name, trail[i][1], way, op[0]))
            what = "%s of %s interrupted in %s by %s" % (op[0], T.hx(op[1]), where(trail, i), type(e).__name__)
            got = t.root_hash()
            if res[0] == "ok":
                mon.check(got == w1, "%s returned, with a wrong root", what)
            mon.check(got in (w0, w1), "%s: the root is neither the one before nor the one after it", what)
            now = after if got == w1 and (w0 != w1 or res[0] == "ok") else model
            mon.saw("left_as_before" if now is model else "complete_nevertheless")
            check_trie(mon, way, t, now, probe, secure, what)
            if not again:
                for h, v in storage.items():
                    mon.check(st.get(h) == v, "%s: a stored node is lost or changed", what)
                for h, v in st.items():
                    mon.check(R.keccak256(v) == h, "%s: a node is stored under the hash of another", what)
                if past:
                    r, m = rng.choice(past)
                    check_trie(mon, way, cls(st, r, secure=secure), m, probe[:2], secure, what + ", older version")
                    mon.saw("older_versions_read")
            else:
                mon.saw("same_object_again")
            if now is model:
                if rng.random() < 0.5:
                    if not again:
                        do(t, op)
                        check_trie(mon, way, t, after, probe, secure, what + ", repeated")
                else:
                    # another write instead
                    o = some_ops(rng, keys, model, 1)[0]
                    if not again:
                        m = dict(model)
                        T.apply_ref(m, o)
                        do(t, o)
                        check_trie(mon, way, t, m, probe, secure, what + ", then something else")
            elif again:
                same = cls(dict(storage), root, secure=secure)
        do(same, op)
        check_trie(mon, way, same, after, probe, secure, "%s of %s after many interruptions" % (op[0], T.hx(op[1])))
        t0 = cls(storage, root, secure=secure)
        do(t0, op)
        model = after
        past.append((t0.root(), dict(model)))
    if hits >= 10:
        mon.mark()


def queries_of(way, t, probe, model, secure, rng):
    """(name, thunk, right(answer)) with what each query must answer."""
    out = []
    for k in probe:
        if way == "sparse":
            out.append(("reference", lambda k=k: t.get_reference(k), lambda r, k=k: k in model and bytes(r.data) == model[k]))
        elif way == "empt":
            out.append(("get", lambda k=k: t.get(k), lambda r, k=k: k in model and enc(r) == model[k]))
        else:
            out.append(("get", lambda k=k: t.get(k), lambda r, k=k: k in model and r == model[k]))
        out.append(("contains", lambda k=k: t.contains(k), lambda r, k=k: r is (k in model)))
        p = t.get_proof_of_inclusion(k) if k in model else t.get_proof_of_exclusion(k)
        fn = "get_proof_of_inclusion" if k in model else "get_proof_of_exclusion"
        out.append((fn, lambda k=k, fn=fn: getattr(t, fn)(k), lambda r, p=p: (r.trie_root, r.proof, r.target_key, r.type) == (p.trie_root, p.proof, p.target_key, p.type)))
        other = "get_proof_of_exclusion" if k in model else "get_proof_of_inclusion"
        out.append((other, lambda k=k, fn=other: getattr(t, fn)(k), lambda r: False))
        vf = "verify_proof_of_inclusion" if k in model else "verify_proof_of_exclusion"
        out.append((vf, lambda p=p, vf=vf: getattr(t, vf)(p), lambda r: bool(r)))
    if way == "mpt":
        e = t.encode()
        out.append(("encode", t.encode, lambda r: r == e))
    elif way == "sparse":
        e = t.encode_rlp()
        out.append(("encode", t.encode_rlp, lambda r: r == e))
    else:
        e = t.get_sparse_trie().encode_rlp()
        out.append(("get_sparse_trie", t.get_sparse_trie, lambda r: r.encode_rlp() == e))
        h = t.root_hash()
        out.append(("get_root_trie", t.get_root_trie, lambda r: r.root_hash() == h))
    return out


def gen_queries(rng, size):
    way = rng.choice(("mpt", "sparse", "empt"))
    c = gen.history(rng, min(size, 2), rng.random() < 0.35, False, way != "mpt")
    c["way"] = way
    c["seed"] = rng.getrandbits(48)
    c["opcodes"] = rng.random() < 0.25
    return c


def run_queries(case, mon):
    rng = random.Random(case["seed"])
    way, secure, keys = case["way"], case["secure"], case["keys"]
    if way == "empt":
        nodes, data = {}, {}
        t = EMPT(nodes, data, secure=secure)
        model = {}
        for op in case["ops"]:
            T.apply(t, model, op)
    else:
        nodes, t, model, _ = built(way, case["ops"], secure)
        data = {}
    if not model:
        return
    before = dict(nodes), dict(data), t.root_hash()
    probe = [rng.choice(list(model)), rng.choice(keys), gen.near_misses(rng, list(model), 1)[0]]
    hits = 0
    qs = queries_of(way, t, probe, model, secure, rng)
    for name, fn, right in rng.sample(qs, min(7, len(qs))):
        trail = record(lambda: T.attempt(fn), case["opcodes"])
        for i in steps_of(trail, rng, 14):
            e = exc(rng)
            res, fired = raise_at(fn, i, e, case["opcodes"])
            if not fired:
                continue
            hits += 1
            mon.saw("interruptions")
            mon.saw("queries_interrupted")
            mon.states.add(fp(trail[i][0].co_name, trail[i][1], way, name))
            if res[0] == "ok":
                mon.check(right(res[1]), "%s interrupted in %s by %s gives the wrong answer %.200r", name, where(trail, i), type(e).__name__, res[1])
            mon.check((nodes, data, t.root_hash()) == before, "%s interrupted in %s changed something", name, where(trail, i))
        res = T.attempt(fn)
        if not T.raised(res):
            mon.check(right(res), "%s gives another answer after being interrupted", name)
    for k in probe:
        if way == "mpt":
            T.check_key(mon, t, model, k, secure, 7)
        elif way == "empt":
            E.check_key(mon, t, model, k)
        else:
            E.check_ref(mon, t, model, k)
    if hits >= 10:
        mon.mark()


def gen_empt(rng, size):
    c = gen.history(rng, min(size, 2), rng.random() < 0.35, False, True)
    c["seed"] = rng.getrandbits(48)
    c["opcodes"] = rng.random() < 0.25
    c["kinds"] = [rng.randrange(3) for _ in range(3)]
    return c


def do_empt(t, op):
    what = op[0]
    if what == "put":
        t.update(op[1], op[2])
    elif what == "set":
        t[op[1]] = op[2]
    elif what == "del":
        t.delete(op[1])
    elif what == "pop":
        t.pop(op[1])
    elif what == "build":
        t.build_trie()


def run_empt(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    nodes, data = {}, {}
    t0 = EMPT(nodes, data, secure=secure)
    model = {}
    for n, op in enumerate(case["ops"]):
        if op[0] == "put":
            t0.update(op[1], make(case["kinds"][n % 3], op[2]))
            model[op[1]] = op[2]
        elif op[1] in model:
            t0.delete(op[1])
            del model[op[1]]
    root = t0.root()
    hits = 0
    for _ in range(3):
        r = rng.random()
        if model and r < 0.35:
            op = (rng.choice(("del", "pop")), rng.choice(list(model)))
        elif r < 0.5:
            op = ("build", None)
        else:
            op = (rng.choice(("put", "set")), rng.choice(keys), make(rng.randrange(3), gen.value(rng, empty=True)))
        key = op[1]
        after = dict(model)
        if op[0] in ("put", "set"):
            after[key] = enc(op[2])
        elif op[0] != "build":
            del after[key]
        w0, w1 = E.want_root(model, secure), E.want_root(after, secure)
        probe = [rng.choice(keys) for _ in range(3)] + ([key] if key is not None else [])

        def fresh():
            return EMPT(dict(nodes), dict(data), root, secure)

        t = fresh()
        trail = record(lambda: do_empt(t, op), case["opcodes"])
        mon.check(t.root_hash() == w1, "%s of %s gives a wrong root", op[0], T.hx(key))
        mon.saw("extended_writes")
        if case["opcodes"]:
            mon.saw("byte_code_places", len(trail))
        for i in steps_of(trail, rng, 25):
            d = dict(data)
            t = EMPT(dict(nodes), d, root, secure)
            e = exc(rng)
            res, fired = raise_at(lambda: do_empt(t, op), i, e, case["opcodes"])
            if not fired:
                continue
            hits += 1
            mon.saw("interruptions")
            mon.states.add(fp(trail[i][0].co_name, trail[i][1], "empt", op[0]))
            what = "%s of %s interrupted in %s by %s" % (op[0], T.hx(key), where(trail, i), type(e).__name__)
            got = t.root_hash()
            if res[0] == "ok":
                mon.check(got == w1, "%s returned, with a wrong root", what)
            # the data: that of before or that of after
            have = {k: enc(v) for k, v in d.items()}
            mon.check(have in (model, after), "%s: the data is neither that before nor that after it", what)
            now = model if have == model else after
            mon.saw("left_as_before" if now is model else "complete_nevertheless")
            if op[0] == "build":
                mon.saw("rebuilds_interrupted")
                for k in probe:
                    g = T.attempt(t.get, k)
                    mon.check(T.raised(g) or (k in model and enc(g) == model[k]), "%s: %s reads as %r", what, T.hx(k), g)
            else:
                mon.check(got in (w0, w1), "%s: the root is neither the one before nor the one after it", what)
                for k in probe:
                    if k == key:
                        g = T.attempt(t.get, k)
                        mon.check(T.raised(g) or enc(g) in (model.get(k), after.get(k)), "%s: the key reads as %r", what, g)
                        c = t.contains(k)
                        mon.check(c in (k in model, k in after), "%s: contains answers %r", what, c)
                    else:
                        E.check_key(mon, t, model, k)
                        E.check_ref(mon, t, model, k)
            r = rng.randrange(3)
            if r == 0 or op[0] == "build":
                t.build_trie()
                E.check_root(mon, t, now, secure, what + "; the root after rebuilding")
                for k in probe:
                    E.check_key(mon, t, now, k)
            elif r == 1:
                v = gen.value(rng, empty=True)
                t.update(key, v)
                m = dict(model)
                m[key] = v
                E.check_root(mon, t, m, secure, what + "; the root after writing the key")
                for k in probe:
                    E.check_key(mon, t, m, k)
                E.check_mapping(mon, t, m, probe[:1])
                mon.saw("rewritten")
            elif op[0] in ("put", "set"):
                do_empt(t, op)
                E.check_root(mon, t, after, secure, what + "; the root after repeating it")
                for k in probe:
                    E.check_key(mon, t, after, k)
    if hits >= 10:
        mon.mark()


def gen_merkle(rng, size):
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17))
    return {"kind": rng.choice(("tree", "tools")), "secure": rng.random() < 0.5, "hash": rng.choice(M.HASHES),
            "leaves": [gen.value(rng, empty=True) for _ in range(n)], "seed": rng.getrandbits(48), "opcodes": rng.random() < 0.25}


def hexof(x):
    return x.decode() if isinstance(x, bytes) else x


def check_merkle(mon, t, kind, secure, name, leaves, what, root=True):
    mon.check([hexof(t.get_leaf(i)) for i in range(t.get_leaf_count())] == [M.leaf(l, secure, name).hex() for l in leaves], "%s: other leaves", what)
    if root and leaves and (t.get_tree_ready_state() or kind == "tree"):
        want = M.root(leaves, secure, name).hex()
        mon.check(hexof(t.get_merkle_root()) == want, "%s: the tree answers with a root that is not that of its leaves", what)


def full_merkle(mon, t, kind, secure, name, leaves, what, rng):
    t.make_tree()
    check_merkle(mon, t, kind, secure, name, leaves, what)
    if kind == "tree" and leaves:
        l = rng.choice(leaves)
        p = t.get_proof_of_inclusion(l)
        mon.check(t.verify_proof_of_inclusion(p) is True, "%s: a proof is not accepted", what)
        idx = leaves.index(l)
        mon.check([(a.decode(), bytes.fromhex(b.decode())) for a, b in p.proof] == M.siblings(leaves, [M.leaf(x, secure, name) for x in leaves].index(M.leaf(leaves[idx], secure, name)), secure, name),
                  "%s: a proof has other steps", what)


def run_merkle(case, mon):
    rng = random.Random(case["seed"])
    kind, secure, name, leaves = case["kind"], case["secure"], case["hash"], case["leaves"]

    def fresh(ready):
        t = (MerkleTree if kind == "tree" else MerkleTools)(secure=secure, hash_type=name)
        for l in leaves:
            t.add_leaf(l)
        if ready:
            t.make_tree()
        return t

    hits = 0
    new = [gen.value(rng, empty=True) for _ in range(rng.randrange(1, 5))]
    root = M.root(leaves, secure, name).hex()
    target = rng.choice(leaves)
    right = None
    if kind == "tree":
        right = fresh(True).get_proof_of_inclusion(target)
    ops = {
        "add_leaf": (lambda t: t.add_leaf(new[0]), new[:1], None),
        "make_tree": (lambda t: t.make_tree(), [], None),
    }
    if kind == "tree":
        ops["put"] = (lambda t: t.put(new[0]), new[:1], None)
        ops["put_list"] = (lambda t: t.put_list(list(new)), new, None)
        ops["get_merkle_root"] = (lambda t: t.get_merkle_root(), [], lambda r: hexof(r) == root)
        ops["get_proof_of_inclusion"] = (lambda t: t.get_proof_of_inclusion(target), [], lambda r: (r.trie_root, r.proof, r.target_key) == (right.trie_root, right.proof, right.target_key))
        ops["verify_proof_of_inclusion"] = (lambda t: t.verify_proof_of_inclusion(right), [], lambda r: bool(r))
    for what in sorted(ops):
        fn, added, ok = ops[what]
        ready = rng.random() < 0.6 or what == "get_proof_of_inclusion"
        t = fresh(ready)
        trail = record(lambda: fn(t), case["opcodes"])
        if case["opcodes"]:
            mon.saw("byte_code_places", len(trail))
        mon.saw("merkle_writes")
        for i in steps_of(trail, rng, 20):
            t = fresh(ready)
            e = exc(rng)
            res, fired = raise_at(lambda: fn(t), i, e, case["opcodes"])
            if not fired:
                continue
            hits += 1
            mon.saw("interruptions")
            mon.states.add(fp(trail[i][0].co_name, trail[i][1], kind, what))
            label = "%s on %d leaves interrupted in %s by %s" % (what, len(leaves), where(trail, i), type(e).__name__)
            if res[0] == "ok" and ok is not None:
                mon.check(ok(res[1]), "%s gives the wrong answer %.200r", label, res[1])
            n = t.get_leaf_count() - len(leaves)
            mon.check(0 <= n <= len(added), "%s: the tree has %d leaves", label, t.get_leaf_count())
            if res[0] == "ok":
                mon.check(n == len(added), "%s returned, with %d leaves", label, t.get_leaf_count())
            mon.saw("left_as_before" if n < len(added) else "complete_nevertheless")
            now = leaves + added[:n]
            # a leaf being added may or may not have made the built tree out of date
            check_merkle(mon, t, kind, secure, name, now, label, not ready)
            if rng.random() < 0.5:
                t.add_leaf(b"one more")
                now = now + [b"one more"]
            full_merkle(mon, t, kind, secure, name, now, label + ", then built", rng)
    if hits >= 10:
        mon.mark()


def gen_depth(rng, size):
    c = gen.history(rng, rng.choice((1, 2, gen.DEEP)), rng.random() < 0.3, False)
    c["seed"] = rng.getrandbits(48)
    c["way"] = rng.choice(("mpt", "empt"))
    return c


def run_depth(case, mon):
    """The stack ends at each depth in turn."""
    rng = random.Random(case["seed"])
    way, secure, keys = case["way"], case["secure"], case["keys"]
    nodes, data = {}, {}

    def opened(n, d, root):
        return MPT(n, root, secure=secure) if way == "mpt" else EMPT(n, d, root, secure)

    t = MPT(nodes, secure=secure) if way == "mpt" else EMPT(nodes, data, secure=secure)
    model = {}
    for op in case["ops"]:
        T.apply(t, model, op)
    if not model:
        return
    root = t.root()
    hits = 0
    deep = max(model, key=len)
    for op in [("put", deep, b"new value"), ("del", deep), ("put", rng.choice(keys), gen.value(rng)), ("del", rng.choice(list(model)))]:
        after = dict(model)
        T.apply_ref(after, op)
        w0, w1 = want_root(way, model, secure), want_root(way, after, secure)
        probe = [op[1], rng.choice(keys)]
        extra, done = 1, False
        while not done:
            n, d = dict(nodes), dict(data)
            t = opened(n, d, root)
            mon.saw("stack_limits")
            how, e = with_depth(lambda: do(t, op), extra)
            done = how == "ok"
            extra += 1 if extra < 12 else rng.randrange(1, 4 + extra // 6)
            if not done:
                mon.saw("stack_ended")
                mon.saw("interruptions")
                hits += 1
            got = t.root_hash()
            what = "%s of %s with %d frames left" % (op[0], T.hx(op[1]), extra)
            mon.states.add(fp(extra, way, op[0], how))
            mon.check(got == w1 if done else got in (w0, w1), "%s: the root is not that of complete contents", what)
            now = after if got == w1 else model
            if not done:
                mon.saw("left_as_before" if now is model else "complete_nevertheless")
            for k in probe:
                if way == "mpt":
                    T.check_key(mon, t, now, k, secure)
                elif k != op[1] or done:
                    E.check_key(mon, t, now, k)
                else:
                    g = T.attempt(t.get, k)
                    mon.check(T.raised(g) or enc(g) in (model.get(k), after.get(k)), "%s: the key reads as %r", what, g)
            if extra > 3000:
                break
    # questions
    t = opened(nodes, data, root)
    for key in [deep, rng.choice(keys), gen.near_misses(rng, list(model), 1)[0]]:
        p = t.get_proof_of_inclusion(key) if key in model else t.get_proof_of_exclusion(key)
        qs = [("contains", lambda: t.contains(key), lambda r: r is (key in model)),
              ("get", lambda: t.get(key), lambda r: key in model and enc(r) == model[key]),
              ("inclusion proof", lambda: t.get_proof_of_inclusion(key), lambda r: key in model and r.proof == p.proof),
              ("exclusion proof", lambda: t.get_proof_of_exclusion(key), lambda r: key not in model and r.proof == p.proof),
              ("verify", lambda: t.verify_proof_of_inclusion(p) if key in model else t.verify_proof_of_exclusion(p), None)]
        for name, fn, right in qs:
            extra = 1
            while extra < 400:
                how, r = with_depth(fn, extra)
                mon.saw("stack_limits")
                mon.saw("queries_interrupted")
                if how == "ok":
                    mon.check(right(r) if right else True, "%s of %s with %d frames left: %.200r", name, T.hx(key), extra, r)
                    break
                extra += 1 if extra < 12 else rng.randrange(1, 4 + extra // 6)
        mon.check(t.root_hash() == want_root(way, model, secure), "asking with too small a stack changed the trie")
    if hits >= 10:
        mon.mark()


def gen_keys(rng, size):
    return {"cls": rng.randrange(3), "seed": rng.getrandbits(48), "opcodes": rng.random() < 0.5}


def run_keys(case, mon):
    """Key pairs whose keys are made again, or which are used, with interruptions."""
    rng = random.Random(case["seed"])
    cls = (RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair)[case["cls"]]
    p = K.make(cls, 1024, "mine")
    other = K.pool(RsaKeyPair)[0]
    q = K.make(cls, 1024, "mine")
    trail = record(lambda: q.generate_keypair(1024), case["opcodes"])
    if not trail:
        return
    steps = sorted(set([0, len(trail) - 1] + [rng.randrange(len(trail)) for _ in range(3)]))
    for i in steps:
        old = p.public_key
        e = exc(rng)
        res, fired = raise_at(lambda: p.generate_keypair(1024), i, e, case["opcodes"])
        if not fired:
            continue
        mon.saw("interruptions")
        mon.saw("key_generations")
        mon.mark()
        mon.states.add(fp(trail[i][0].co_name, trail[i][1], "keys"))
        mon.check(p.nickname == "mine", "the nickname is %r after an interrupted generation", p.nickname)
        mon.check(res[0] == "raised" or p.public_key != old, "keys were generated, but are the old ones")
        # one pair, that works as a whole
        data = rng.randbytes(20)
        if case["cls"] != 2:
            sig = p.sign(data)
            mon.check(p.signature_valid(data, sig) and RsaKeyPair.signature_valid(other, data, sig, p.public_key), "after an interrupted generation the keys do not fit")
        if case["cls"] != 1:
            mon.check(p.decrypt(other.encrypt(data, p.public_key), other.public_key) == data, "after an interrupted generation the keys do not fit")
        mon.saw("left_as_before" if p.public_key == old else "complete_nevertheless")


SCENARIOS = [
    scenario("trie", gen_trie, run_trie, 160, 8000),
    scenario("queries", gen_queries, run_queries, 160, 8000),
    scenario("empt", gen_empt, run_empt, 160, 8000),
    scenario("merkle", gen_merkle, run_merkle, 160, 8000),
    scenario("depth", gen_depth, run_depth, 80, 4000),
    scenario("keys", gen_keys, run_keys, 8, 120),
]
