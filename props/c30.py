"""C30: a write that is refused changes nothing."""
import random

from vlib import gen, keys as K, ref_merkle as M, ref_trie as R, tries as T, empts as E
from vlib.core import scenario
from vlib.objs import Item, enc, make
from vlib.stores import Mapping, GetSet, raw
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from pymt.keypairs import RsaKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: refused writes injected into histories; state snapshots around each, and the history checked against its model throughout"
LEVEL_NOTE = ("in the executed histories no write that raised changed a root, contents, data, leaves, readiness or keys, nor the course of the "
              "history afterwards")
RULE = ("a case is a history of valid writes with refused ones between them (wrong types of key or value, values without or with failing codecs, absent "
        "keys, bad arguments); after every refused write the snapshot is compared, after every valid one the model; non-trivial when a "
        "write was refused on a non-empty object")
REQUIRED = ["refused", "snapshots_compared", "refused_mpt", "refused_empt", "refused_sparse", "refused_merkle", "refused_keypair", "failing_codecs",
            "absent_deleted", "wrong_types", "roots_compared", "refused_rebuilds", "refused_constructions"]
ASSUMPTIONS = ["values of a plain trie are non-empty bytes; None is no value", "a list of leaves may be put in part"]


class NoCodec:
    pass


class HalfCodec:
    def encode_rlp(self):
        return b"half"


class Failing(Item):
    """Encodes only while it is told to."""

    __slots__ = ("exc",)

    def __init__(self, exc, body=b"body"):
        Item.__init__(self, body)
        self.exc = exc

    def encode_rlp(self):
        if self.exc is not None:
            raise self.exc
        return self.body


class Odd(Item):
    """Encodes to something that is not bytes."""

    __slots__ = ()

    def encode_rlp(self):
        return self.body


def bad_key(rng):
    return rng.choice(("text", "", None, 5, 0, 1.5, [b"x"], (b"x",), {}, object(), b"x".hex))


def bad_value(rng, mon, codec):
    r = rng.randrange(8)
    if codec and r == 0:
        mon.saw("failing_codecs")
        return Failing(rng.choice((ValueError("no"), KeyError("no"), TypeError("no"), AttributeError("encode_rlp"), RuntimeError("no"))))
    if codec and r == 1:
        mon.saw("failing_codecs")
        return Odd(rng.choice(("text", None, 1.5, [b"x"])))
    if codec and r == 2:
        return NoCodec()
    if codec and r == 3:
        return HalfCodec()
    return rng.choice(("text", "", 5, 0, 1.5, [b"x"], {}, object(), {b"k": b"v"}))


def absent(rng, model, keys):
    return rng.choice([k for k in keys + gen.near_misses(rng, keys, 4) if k not in model] or [b"an absent key of some length"])


def refused_trie(rng, mon, way, t, model, keys):
    """(label, thunk) of a write that must be refused."""
    k = rng.choice(keys)
    r = rng.randrange(8 if way != "empt" else 12)
    if r in (0, 1):
        mon.saw("absent_deleted")
        a = absent(rng, model, keys)
        return "delete of an absent key", (lambda: t.delete(a)) if r == 0 else (lambda: t.__delitem__(a))
    if r in (2, 3):
        mon.saw("wrong_types")
        b = bad_key(rng)
        v = b"value"
        return "update of a key %r" % (b,), (lambda: t.update(b, v)) if r == 2 else (lambda: t.__setitem__(b, v))
    if r in (4, 5):
        mon.saw("wrong_types")
        v = bad_value(rng, mon, way != "mpt")
        return "update with a value %r" % (v,), (lambda: t.update(k, v)) if r == 4 else (lambda: t.__setitem__(k, v))
    if r == 6:
        mon.saw("wrong_types")
        b = bad_key(rng)
        return "delete of a key %r" % (b,), lambda: t.delete(b)
    if r == 7:
        mon.saw("wrong_types")
        b, v = bad_key(rng), bad_value(rng, mon, way != "mpt")
        return "update of a key and a value of wrong types", lambda: t.update(b, v)
    a = absent(rng, model, keys)
    if r == 8:
        mon.saw("absent_deleted")
        return "pop of an absent key", lambda: t.pop(a)
    if r == 9:
        v = bad_value(rng, mon, True)
        return "setdefault of an absent key with a value %r" % (v,), lambda: t.setdefault(a, v)
    if r == 10 and not model:
        return "popitem of an empty trie", t.popitem
    b = bad_key(rng)
    mon.saw("wrong_types")
    return "pop of a key %r" % (b,), lambda: t.pop(b)


def gen_trie(rng, size):
    secure = rng.random() < 0.35
    way = rng.choice(("mpt", "mpt", "sparse", "empt", "empt"))
    h = gen.history(rng, min(size, 2) if size != gen.DEEP else size, secure=secure, empty=way != "mpt")
    ops = [o + (rng.choice((0, 0, 1, 2, 3)),) if o[0] == "put" and way != "mpt" else o for o in h["ops"]]
    return {"secure": secure, "keys": h["keys"], "ops": ops, "way": way, "seed": rng.getrandbits(32), "store": rng.randrange(3)}


def data_state(d):
    return {k: (type(v).__name__, enc(v)) for k, v in raw(d).items()}


def run_trie(case, mon):
    way, secure, keys = case["way"], case["secure"], case["keys"]
    mk = (dict, Mapping, GetSet if way == "mpt" else Mapping)[case["store"]]
    nodes, data = mk(), mk() if way == "empt" else {}
    if way == "mpt":
        t = MPT(nodes, secure=secure)
    elif way == "sparse":
        t = SparseEMPT(nodes, secure=secure)
    else:
        t = EMPT(nodes, data, secure=secure)
    model = {}
    kept = None  # a stored object whose codec fails for a while
    for i, op in enumerate(case["ops"] + [None]):
        rng = random.Random("%d-%d" % (case["seed"], i))
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            fork = rng.getstate()
            what, thunk = refused_trie(rng, mon, way, t, model, keys)
            if way == "mpt":
                # plain tries take whatever can be encoded: see on a copy whether this is refused at all
                rng.setstate(fork)
                f = MPT(dict(raw(nodes)), t.root(), secure=secure)
                if not T.raised(T.attempt(refused_trie(rng, mon, way, f, model, keys)[1])):
                    mon.saw("not_refused")
                    continue
            root, rh, before, kept_nodes = t.root(), t.root_hash(), data_state(data), dict(raw(nodes))
            order = list(raw(data)) if way == "empt" else None
            r = T.attempt(thunk)
            mon.check(T.raised(r), "%s was accepted", what)
            mon.saw("refused")
            mon.saw("refused_" + way)
            if model:
                mon.mark()
            mon.check(t.root() == root and t.root_hash() == rh, "%s was refused but changed the root", what)
            now = raw(nodes)
            mon.check(all(k in now and now[k] == v for k, v in kept_nodes.items()), "%s was refused but a stored node is gone or changed", what)
            if way == "empt":
                mon.check(data_state(data) == before and list(raw(data)) == order, "%s was refused but changed the data", what)
                mon.check(len(t) == len(model), "%s was refused but the length is %d instead of %d", what, len(t), len(model))
            mon.saw("snapshots_compared")
            for k in rng.sample(keys, min(2, len(keys))):
                if way == "mpt":
                    T.check_key(mon, t, model, k, secure)
                else:
                    mon.check(t.contains(k) is (k in model), "%s was refused but contains(%s) is wrong", what, T.hx(k))
                    E.check_ref(mon, t, model, k)
                    if way == "empt":
                        E.check_key(mon, t, model, k)
        if op is None:
            break
        if op[0] == "del" and op[1] not in model:
            continue
        if op[0] == "put":
            t.update(op[1], make(op[3], op[2]) if len(op) > 3 else op[2])
        else:
            t.delete(op[1])
        T.apply_ref(model, op)
        if way == "mpt":
            T.check_root(mon, t, model, secure)
        else:
            E.check_root(mon, t, model, secure)
        mon.state(t.root_hash())
    for k in keys:
        if way == "mpt":
            T.check_key(mon, t, model, k, secure, 7)
        else:
            E.check_ref(mon, t, model, k)
    if way == "empt":
        E.check_mapping(mon, t, model, keys)
        rng = random.Random(case["seed"])
        # a rebuild refused because a value cannot be encoded just then
        if model:
            k = rng.choice(list(model))
            o = Failing(None, model[k])
            t.update(k, o)
            E.check_root(mon, t, model, secure)
            o.exc = ValueError("not now")
            r = T.attempt(t.build_trie)
            mon.check(T.raised(r), "a rebuild was done although a value could not be encoded")
            o.exc = None
            mon.saw("refused_rebuilds")
            mon.check({a: enc(v) for a, v in raw(data).items()} == model, "a refused rebuild changed the data")
            t.build_trie()
            E.check_root(mon, t, model, secure, "root rebuilt after a refused rebuild")
            E.check_mapping(mon, t, model, keys)
        # constructions refused because the root is not given
        if raw(nodes):
            before = (dict(raw(nodes)), data_state(data))
            r = T.attempt(EMPT, nodes, data)
            mon.check(T.raised(r), "an extended trie was opened on stored nodes without a root")
            mon.check((dict(raw(nodes)), data_state(data)) == before, "a refused construction changed the storages")
            mon.saw("refused_constructions")


BAD_LEAVES = ("text", "", None, 1.5, [b"x"], (b"x", b"y"), object(), {b"k": b"v"}, [300], "5")


def gen_merkle(rng, size):
    return {"secure": rng.random() < 0.5, "cls": rng.randrange(2), "hash": rng.choice(M.HASHES), "seed": rng.getrandbits(32),
            "ops": [rng.choice(("add", "add", "bad", "bad", "make", "reset" if rng.random() < 0.2 else "add", "ask"))
                    for _ in range({1: 15, 2: 30, 3: 60}[size])]}


def run_merkle(case, mon):
    secure, name = case["secure"], case["hash"]
    t = (MerkleTree, MerkleTools)[case["cls"]](secure=secure, hash_type=name)
    leaves, ready = [], False

    def state():
        return ([t.get_leaf(i) for i in range(len(t))], t.get_leaf_count(), t.get_tree_ready_state(),
                T.attempt(MerkleTools.get_merkle_root, t) if t.get_tree_ready_state() and leaves else None)

    for i, op in enumerate(case["ops"]):
        rng = random.Random("%d-%d" % (case["seed"], i))
        if op == "add":
            v = gen.value(rng, False, True)
            (t.put if case["cls"] == 0 and rng.random() < 0.7 else t.add_leaf)(v)
            leaves.append(v)
            ready = False
        elif op == "make":
            t.make_tree()
            ready = True
        elif op == "reset":
            t.reset_tree()
            leaves, ready = [], False
        elif op == "ask":
            if leaves and ready:
                got = t.get_merkle_root()
                mon.check((got.decode() if isinstance(got, bytes) else got) == M.root(leaves, secure, name).hex(), "Merkle root is wrong")
                mon.saw("roots_compared")
        else:
            before = state()
            v = rng.choice(BAD_LEAVES)
            how = rng.randrange(4)
            if case["cls"] == 0 and how < 2:
                r = T.attempt(t.put, v if rng.random() < 0.8 else bytearray(b"x"))
                mon.check(T.raised(r), "put accepted a leaf %r", v)
            elif case["cls"] == 0 and how == 2:
                r = T.attempt(t.put_list, rng.choice((None, "text", b"bytes", {b"a"}, 5, {b"k": b"v"})))
                mon.check(T.raised(r), "put_list accepted what is no list or tuple")
            else:
                v = rng.choice(("text", None, 1.5, object()))
                r = T.attempt(t.add_leaf, v)
                mon.check(T.raised(r), "add_leaf accepted a leaf %r", v)
            mon.saw("refused")
            mon.saw("refused_merkle")
            mon.saw("wrong_types")
            mon.check(state() == before, "a refused leaf changed the tree: %r became %r", before, state())
            mon.saw("snapshots_compared")
            if leaves:
                mon.mark()
        mon.check(len(t) == len(leaves), "the tree has %d leaves instead of %d", len(t), len(leaves))
    if leaves:
        t.make_tree()
        got = t.get_merkle_root()
        mon.check((got.decode() if isinstance(got, bytes) else got) == M.root(leaves, secure, name).hex(), "Merkle root is wrong at the end")
        mon.saw("roots_compared")
        mon.state(got)


def gen_keys(rng, size):
    return {"seed": rng.getrandbits(32)}


def run_keys(case, mon):
    rng = random.Random(case["seed"])
    p = K.make(RsaKeyPair, 1024, "nick")

    def state():
        return (p.nickname, p.public_key, p.public_key_string, hash(p), p.sign(b"probe"))

    for _ in range(12):
        before = state()
        r = rng.randrange(9)
        bad = rng.choice((None, 5, b"bytes", 1.5, [], object()))
        if r == 0:
            g = T.attempt(setattr, p, "nickname", bad)
        elif r == 1:
            g = T.attempt(delattr, p, "nickname")
        elif r == 2:
            g = T.attempt(setattr, p, "public_key", rng.choice((b"x", K.pool(RsaKeyPair, 2)[0].public_key)))
        elif r == 3:
            g = T.attempt(setattr, p, "public_key_string", "x")
        elif r == 4:
            g = T.attempt(delattr, p, "public_key")
        elif r == 5:
            g = T.attempt(p.generate_keypair, rng.choice(("1024", None, 1024.0, 512, 0, -1, 1023)))
        elif r == 6:
            g = T.attempt(delattr, p, "public_key_string")
        elif r == 7:
            g = T.attempt(type(p).from_key_string, p.to_key_string("pw"), "other")
        else:
            g = T.attempt(p.to_key_string, bad)
        if T.raised(g):
            mon.saw("refused")
            mon.saw("refused_keypair")
            mon.mark()
            mon.check(state() == before, "a refused change of a key pair changed it (%d)", r)
            mon.saw("snapshots_compared")
        else:
            # accepted (a nickname may be any of these): put it back
            if r == 0:
                p.nickname = "nick"
    mon.state(p.public_key)


SCENARIOS = [
    scenario("tries", gen_trie, run_trie, 700, 30000),
    scenario("deep", gen_trie, run_trie, 8, 300, sizes=(gen.DEEP,)),
    scenario("merkle", gen_merkle, run_merkle, 500, 20000),
    scenario("keypairs", gen_keys, run_keys, 40, 800),
]
