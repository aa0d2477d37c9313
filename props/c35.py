"""C35: finished work leaves nothing behind in memory."""
import gc
import random
import sys
import weakref

from vlib import forge as F, gen, keys as K, ref_merkle as M, tries as T
from vlib.core import scenario
from vlib.objs import Item
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
from pymt.keypairs import RsaKeyPair
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.node import Node
from pymt.utils.nibble_path import NibblePath
from pymt.utils.utils import Utils

ID = "C35"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring (leak detection): weak references to everything handed in or out, and the interpreter's allocated blocks after each of "
             "several batches of work")
LEVEL_NOTE = ("in the executed workloads every object was released once its owner was gone, and memory in use did not grow with the amount of work done")
RULE = ("a case is a kind of work and its contents: either objects watched by weak references through use, overwriting, deletion and disposal, or "
        "batches of repeated work, all different or all alike, with the allocated blocks read after each; non-trivial when work was done in all batches")
REQUIRED = ["released", "overwritten_values", "deleted_values", "proofs_released", "storages_released", "refused_objects", "batches_measured", "units_of_work",
            "kinds_of_growth", "trees_released", "products_kept", "callers_released"]
ASSUMPTIONS = ["caches with a bound of a few thousand entries are allowed", "node storages are the caller's: what they keep is not judged"]


class Value(Item):
    """A self-encoding value that can be watched."""

    __slots__ = ("__weakref__",)


class Store(dict):
    __slots__ = ("__weakref__",)


def gone(mon, ref, what):
    if ref() is not None:
        gc.collect()
    mon.check(ref() is None, "%s is still held after it should have been released", what)
    mon.saw("released")


def gen_released(rng, size):
    c = gen.history(rng, size, rng.random() < 0.35, False, True)
    c["seed"] = rng.getrandbits(48)
    return c


def watch_empt(case, mon, rng):
    secure = case["secure"]
    nodes, data = Store(), Store()
    t = EMPT(nodes, data, secure=secure)
    s = SparseEMPT(Store(), secure=secure)
    refs = {}
    n = 0
    for op in case["ops"]:
        key = op[1]
        if op[0] == "put":
            v = Value(op[2])
            old = refs.get(key)
            refs[key] = weakref.ref(v)
            if rng.random() < 0.5:
                t.update(key, v)
            else:
                t[key] = v
            s.update(key, v)
            del v
            if old is not None:
                gone(mon, old, "a value that was overwritten")
                mon.saw("overwritten_values")
        elif key in refs:
            r = refs.pop(key)
            if rng.random() < 0.5:
                t.delete(key)
            else:
                t.pop(key)
            s.delete(key)
            gone(mon, r, "a value that was deleted")
            mon.saw("deleted_values")
        n += 1
        if refs and n % 4 == 0:
            k = rng.choice(list(refs))
            t.get(k)
            k in t
            p = t.get_proof_of_inclusion(k)
            t.verify_proof_of_inclusion(p)
            s.verify_proof_of_inclusion(p)
            t.get_root_trie().verify_proof_of_inclusion(p)
            q = F.mk(p.target_key + b"!", p.trie_root, p.proof, p.type)
            T.accepted(t.verify_proof_of_inclusion, q)
            rp, rq = weakref.ref(p), weakref.ref(q)
            del p, q
            gone(mon, rp, "a proof that was verified")
            gone(mon, rq, "a proof that was rejected")
            mon.saw("proofs_released")
        if n % 5 == 0:
            # refused: neither value nor key is kept
            class Bad(Value):
                __slots__ = ()

                def encode_rlp(self):
                    raise ValueError("no")
            b = Bad(b"x")
            T.attempt(t.update, b"refused", b)
            T.attempt(s.update, b"refused", b)
            rb = weakref.ref(b)
            del b
            gone(mon, rb, "a value that was refused")
            mon.saw("refused_objects")
    if refs:
        t.build_trie()
        sp = t.get_sparse_trie()
        rt = t.get_root_trie()
        rsp = weakref.ref(sp), weakref.ref(rt)
        del sp, rt
        for r in rsp:
            gone(mon, r, "a view that was dropped")
    for k, r in refs.items():
        mon.check(r() is not None, "the value of %s was dropped", T.hx(k))
    r = [weakref.ref(t), weakref.ref(s), weakref.ref(nodes), weakref.ref(data)] + list(refs.values())
    del t, s, nodes, data
    for x in r:
        gone(mon, x, "an extended trie, or what it held,")
    mon.saw("storages_released")
    if len(case["ops"]) > 3:
        mon.mark()


def watch_mpt(case, mon, rng):
    secure = case["secure"]
    store = Store()
    t = MPT(store, secure=secure)
    model = {}
    for op in case["ops"]:
        if op[0] == "put" and not op[2]:
            continue
        T.apply(t, model, op)
    proofs = []
    for k in case["keys"][:6]:
        for name in ("get_proof_of_inclusion", "get_proof_of_exclusion"):
            p = T.attempt(getattr(t, name), k)
            if not T.raised(p):
                T.accepted(t.verify_proof_of_inclusion, p)
                T.accepted(t.verify_proof_of_exclusion, p)
                proofs.append(weakref.ref(p))
            del p
        T.attempt(t.get, k)
        t.contains(k)
    for r in proofs:
        gone(mon, r, "a proof")
        mon.saw("proofs_released")
    if model:
        e = t.encode()
        d = MPT.decode(e)
        o = MPT(store, t.root(), secure=secure)
        d == t, o == t, hash(o), {d: 1}.get(t)
        rs = [weakref.ref(d), weakref.ref(o)]
        del d, o, e
        for r in rs:
            gone(mon, r, "a copy of a trie")
    rs = [weakref.ref(t), weakref.ref(store)]
    del t, store
    for r in rs:
        gone(mon, r, "a trie, or its storage,")
    mon.saw("storages_released")


def watch_merkle(case, mon, rng):
    name = rng.choice(M.HASHES)
    leaves = [o[2] for o in case["ops"] if o[0] == "put"] or [b"leaf"]
    t = MerkleTree(secure=case["secure"], hash_type=name)
    t.put_list(leaves)
    t.make_tree()
    u = MerkleTools(secure=case["secure"], hash_type=name)
    for l in leaves:
        u.add_leaf(l)
    u.make_tree()
    u.get_proof_of_inclusion(leaves[0])
    p = t.get_proof_of_inclusion(rng.choice(leaves))
    t.verify_proof_of_inclusion(p)
    q = T.attempt(Proof.decode_rlp, T.attempt(p.encode_rlp)) if hasattr(p, "encode_rlp") else None
    hash(t), t == u, str(t)
    rs = [weakref.ref(p)]
    del p, q
    gone(mon, rs[0], "a proof of a Merkle tree")
    t.reset_tree()
    t.put(b"again")
    rs = [weakref.ref(t), weakref.ref(u)]
    del t, u
    for r in rs:
        gone(mon, r, "a Merkle tree")
    mon.saw("trees_released")


def watch_products(case, mon, rng):
    """What was got from an object does not keep the object."""
    secure = case["secure"]
    puts = {o[1]: o[2] for o in case["ops"] if o[0] == "put" and o[2]} or {b"k": b"v"}
    keys = sorted(puts)

    def full():
        nodes, data = Store(), Store()
        t = EMPT(nodes, data, secure=secure)
        for k in keys:
            t[k] = Value(puts[k])
        return t, nodes, data

    k, absent = rng.choice(keys), rng.choice(keys) + b"-not"
    made = {
        "a root-only view": lambda t: t.get_root_trie(), "a sparse view": lambda t: t.get_sparse_trie(),
        "a root-only view of a sparse view": lambda t: t.get_sparse_trie().get_root_trie(),
        "a reference": lambda t: t.get_reference(k), "an inclusion proof": lambda t: t.get_proof_of_inclusion(k),
        "an exclusion proof": lambda t: t.get_proof_of_exclusion(absent), "its root": lambda t: (t.root(), t.root_hash()),
        "the list of its keys": list, "an encoded view": lambda t: t.get_sparse_trie().encode_rlp(),
        "a decoded view": lambda t: SparseEMPT.decode_rlp(t.get_sparse_trie().encode_rlp()),
        "a view that verified a proof": lambda t: (lambda v: (T.accepted(v.verify_proof_of_inclusion, t.get_proof_of_inclusion(k)), v)[1])(t.get_root_trie()),
    }
    for what in made:
        t, nodes, data = full()
        x = T.attempt(made[what], t)
        if T.raised(x):
            continue
        v = weakref.ref(data[k])
        r = [weakref.ref(t), weakref.ref(nodes), weakref.ref(data), v]
        del t, nodes, data
        for y in r:
            gone(mon, y, "an extended trie, or what it held, of which only %s is in use," % what)
        del x
        mon.saw("products_kept")
    plain = {
        "an inclusion proof": lambda t: t.get_proof_of_inclusion(k), "an exclusion proof": lambda t: t.get_proof_of_exclusion(absent),
        "a value": lambda t: t.get(k), "its encoding": lambda t: t.encode(), "a decoded copy": lambda t: MPT.decode(t.encode()),
        "its root": lambda t: (t.root(), t.root_hash(), hash(t)), "another trie it was compared with": lambda t: (lambda o: (o == t, t == o, o)[2])(MPT({})),
        "another trie that verified its proof": lambda t: (lambda o: (T.accepted(o.verify_proof_of_inclusion, t.get_proof_of_inclusion(k)), o)[1])(MPT({}, t.root(), secure=secure)),
    }
    for what in plain:
        store = Store()
        t = MPT(store, secure=secure)
        for key in keys:
            t.update(key, puts[key])
        x = T.attempt(plain[what], t)
        if T.raised(x):
            continue
        r = [weakref.ref(t), weakref.ref(store)]
        del t, store
        for y in r:
            gone(mon, y, "a trie, or its storage, of which only %s is in use," % what)
        del x
        mon.saw("products_kept")
    # a version reopened on the storage keeps the storage, not the trie
    store = Store()
    t = MPT(store, secure=secure)
    t.update(k, puts[k])
    o = MPT(store, t.root(), secure=secure)
    r = weakref.ref(t)
    del t
    gone(mon, r, "a trie of which a version was reopened")
    leaves = [puts[x] for x in keys]
    tree = {
        "an inclusion proof": lambda t: t.get_proof_of_inclusion(leaves[0]), "the root": lambda t: t.get_merkle_root(), "a leaf": lambda t: t.get(0), "its text": str,
        "a tree it was compared with": lambda t: (lambda o: (o.put(leaves[0]), o.make_tree(), o == t, o)[3])(MerkleTree(secure=secure)),
    }
    for what in tree:
        t = MerkleTree(secure=secure)
        t.put_list(leaves)
        t.make_tree()
        x = T.attempt(tree[what], t)
        if T.raised(x):
            continue
        r = weakref.ref(t)
        del t
        gone(mon, r, "a Merkle tree of which only %s is in use" % what)
        del x
        mon.saw("products_kept")


def watch_callers(case, mon, rng):
    """Whatever a call came to, it does not keep what its caller was working with."""
    secure = case["secure"]
    puts = {o[1]: o[2] for o in case["ops"] if o[0] == "put" and o[2]} or {b"k": b"v"}
    t, e, s = MPT({}, secure=secure), EMPT(secure=secure), SparseEMPT(secure=secure)
    for k, v in puts.items():
        t.update(k, v)
        e.update(k, v)
        s.update(k, v)
    r = e.get_root_trie()
    m = MerkleTree(secure=secure)
    m.put_list(list(puts.values()))
    m.make_tree()
    a = K.pool(RsaKeyPair, 1)[0]
    k = rng.choice(sorted(puts))
    absent = k + b"-not"
    p, x = t.get_proof_of_inclusion(k), t.get_proof_of_exclusion(absent)
    bad = F.mk(p.target_key + b"!", p.trie_root, p.proof, p.type)
    q = m.get_proof_of_inclusion(puts[k])
    calls = [
        (t, "get", absent), (t, "contains", absent), (t, "delete", absent), (t, "get", k), (t, "get", 5), (t, "update", k, 5), (t, "update", 5, k),
        (t, "get_proof_of_inclusion", absent), (t, "get_proof_of_exclusion", k), (t, "verify_proof_of_inclusion", bad), (t, "verify_proof_of_inclusion", x),
        (t, "verify_proof_of_exclusion", p), (MPT, "decode", b"no"),
        (e, "get", absent), (e, "get", 5), (e, "delete", absent), (e, "update", k, 5), (e, "update", 5, k), (e, "pop", absent), (e, "get_reference", absent),
        (e, "verify_proof_of_inclusion", bad), (e, "verify_proof_of_exclusion", p), (e, "get_proof_of_exclusion", k), (e, "get_proof_of_inclusion", absent),
        (s, "get_reference", absent), (s, "delete", absent), (s, "update", k, 5), (s, "verify_proof_of_inclusion", bad), (s, "__getitem__", k),
        (r, "verify_proof_of_inclusion", bad), (r, "verify_proof_of_exclusion", p), (DataReference, "decode", b"no"), (DataReference, "decode", 5),
        (m, "put", 5), (m, "put_list", [b"x", 5]), (m, "get", 10**6), (m, "get_proof_of_inclusion", b"no leaf"), (m, "verify_proof_of_inclusion", bad),
        (m, "verify_proof_of_inclusion", F.mk(q.target_key, b"zz", q.proof, q.type)), (m, "verify_proof_of_inclusion", F.mk(q.target_key, q.trie_root, ((b"left", b"zz"),), q.type)),
        (a, "sign", 5), (a, "signature_valid", b"data", b"no signature"), (a, "signature_valid", b"data", b"x", b"no key"), (a, "decrypt", b"{}", a.public_key),
        (a, "encrypt", b"data", b"no key"), (RsaKeyPair, "from_key_string", "{}", "pw"), (RsaKeyPair, "from_key_file", "/nowhere", "pw"), (a, "to_key_string", 5),
        (Proof, "decode_rlp", b"no"), (Proof, "decode_json", "no"), (p, "encode_rlp"), (Node, "decode", b"no"), (NibblePath, "decode", b""),
        (Utils, "decrypt", b"no" * 20, "pw"), (Utils, "rsa_key_valid", b"no", "public", True), (Utils, "rsa_key_valid", b"no"), (Utils, "hash_data", 5),
        (Utils, "from_timstamp_string", "no"), (Utils, "generate_ecc_key", "no"), (keccak_hash_list, "__call__", [5]),
    ]

    def called(c):
        mine = Value(b"what the caller works with")
        T.attempt(lambda: getattr(c[0], c[1])(*c[2:]))
        return weakref.ref(mine)

    for c in calls:
        ref = called(c)
        if ref() is not None:
            gc.collect()
        mon.check(ref() is None, "after %s.%s%.80r what its caller was working with is still held", type(c[0]).__name__, c[1], c[2:])
        mon.saw("callers_released")


def run_released(case, mon):
    gc.collect()
    rng = random.Random(case["seed"])
    watch_callers(case, mon, rng)
    watch_products(case, mon, rng)
    watch_empt(case, mon, rng)
    watch_mpt(case, mon, rng)
    watch_merkle(case, mon, rng)


# ------------------------------------------------------------------- growth
def w_tries(rng, i):
    t = MPT({}, secure=i % 3 == 0)
    ks = [rng.randbytes(3) for _ in range(3)]
    for k in ks:
        t.update(k, rng.randbytes(5 + i % 40))
    t.delete(ks[0])
    t.root_hash()
    t.get(ks[1])


def w_proofs(rng, i):
    t = MPT({}, secure=i % 2 == 0)
    ks = [rng.randbytes(3) for _ in range(3)]
    for k in ks:
        t.update(k, rng.randbytes(36))
    p = t.get_proof_of_inclusion(ks[0])
    t.verify_proof_of_inclusion(p)
    q = t.get_proof_of_exclusion(b"absent%d" % i)
    t.verify_proof_of_exclusion(q)
    T.accepted(t.verify_proof_of_inclusion, q)
    RootEMPT(t.root(), secure=t.secure).verify_proof_of_inclusion(p)


def w_same_trie(rng, i, t=None, state=[]):
    """One trie between a few states, its storage as large as it gets."""
    if not state or i == 0:
        state[:] = [MPT({}), [rng.randbytes(4) for _ in range(6)]]
    t, ks = state
    k = ks[i % 6]
    if i // 6 % 3 == 2:
        T.attempt(t.delete, k)
    else:
        t.update(k, b"value %d" % (i // 6 % 3) * 6)


def w_same_queries(rng, i, state=[]):
    """One unchanging trie asked about ever new keys."""
    if not state:
        t = MPT({})
        for j in range(20):
            t.update(b"k%d" % j, b"v%d" % j * 12)
        state.append(t)
    t = state[0]
    k = rng.randbytes(6)
    t.contains(k)
    T.attempt(t.get, k)
    T.attempt(t.get_proof_of_inclusion, k)
    p = t.get_proof_of_exclusion(k)
    t.verify_proof_of_exclusion(p)
    T.accepted(t.verify_proof_of_inclusion, Proof(k, t.root(), (k,), b"MPT-POI"))


def w_empt(rng, i):
    t = EMPT({}, {}, secure=i % 3 == 0)
    ks = [rng.randbytes(3) for _ in range(3)]
    for k in ks:
        t[k] = Value(rng.randbytes(20)) if i % 2 else rng.randbytes(20)
    t.get(ks[0])
    del t[ks[1]]
    t.get_sparse_trie().get_reference(ks[0])
    t.get_root_trie().root_hash()
    if i % 4 == 0:
        t.build_trie()


def w_same_empt(rng, i, state=[]):
    if not state or i == 0:
        state[:] = [EMPT({}, {}), [rng.randbytes(4) for _ in range(6)]]
    t, ks = state
    k = ks[i % 6]
    if i // 6 % 3 == 2:
        T.attempt(t.delete, k)
    else:
        t[k] = b"value %d" % (i // 6 % 3) * 6
        t[k]
    T.attempt(t.update, k, object())
    T.attempt(t.get, rng.randbytes(5))


def w_merkle(rng, i):
    t = MerkleTree(secure=i % 2 == 0, hash_type=M.HASHES[i % len(M.HASHES)])
    ls = [rng.randbytes(6) for _ in range(1 + i % 5)]
    t.put_list(ls)
    p = t.get_merkle_root() and t.get_proof_of_inclusion(ls[0])
    t.verify_proof_of_inclusion(p)
    T.accepted(t.verify_proof_of_inclusion, Proof(rng.randbytes(4), p.trie_root, p.proof, p.type))


def w_same_merkle(rng, i, state=[]):
    """One built tree, asked and verifying."""
    if not state:
        t = MerkleTree()
        t.put_list([b"%d" % j for j in range(9)])
        t.make_tree()
        state.append(t)
    t = state[0]
    t.make_tree()
    p = t.get_proof_of_inclusion(b"%d" % (i % 9))
    t.verify_proof_of_inclusion(p)
    T.accepted(t.verify_proof_of_inclusion, Proof(rng.randbytes(6), p.trie_root, p.proof, p.type))
    T.attempt(t.get_proof_of_inclusion, rng.randbytes(4))
    bad(t, rng, i)


def bad(t, rng, i):
    """Proofs that cannot even be read, and arguments of no use."""
    x = rng.randbytes(6)
    h = x.hex().encode()
    for root, steps in ((b"zz" + h, ()), (h, ((b"right", b"zz" + h),)), (h, ((b"left", h[1:]),)), (h, ((b"up", h),)), (h, (h,)), (h, ((b"left",),)),
                        (h, ((b"left", x),)), (h + b"\xff", ((b"right", h),)), (h, ((b"", b""),) * 40)):
        for typ in (b"MT-POI", b"MPT-POI", b"MPT-POE"):
            p = Proof(x, root, steps, typ)
            T.attempt(t.verify_proof_of_inclusion, p)
            if typ != b"MT-POI":
                T.attempt(t.verify_proof_of_exclusion, p)
    T.attempt(t.verify_proof_of_inclusion, h)
    for f in ("put", "put_list", "get", "get_leaf", "get_proof_of_inclusion", "contains", "delete", "get_reference"):
        if hasattr(t, f):
            T.attempt(getattr(t, f), [i + 1000.5, h])
            T.attempt(getattr(t, f), h.decode())


def w_bad_proofs(rng, i, state=[]):
    """Each kind of trie asked to verify what is no proof at all."""
    if not state:
        for t in (MPT({}), EMPT(), SparseEMPT()):
            for j in range(9):
                t.update(b"k%d" % j, b"v%d" % j * 12)
            state.append(t)
        state.append(state[1].get_root_trie())
    bad(state[i % 4], rng, i)


def w_codec(rng, i):
    t = MPT({}, secure=i % 2 == 0)
    for _ in range(3):
        t.update(rng.randbytes(4), rng.randbytes(40))
    d = MPT.decode(t.encode())
    d == t, hash(d)
    r = DataReference(rng.randbytes(4), rng.randbytes(6))
    DataReference.decode(r.encode()) == r, hash(r)
    T.attempt(MPT.decode, rng.randbytes(9))
    T.attempt(DataReference.decode, rng.randbytes(9))
    T.attempt(Node.decode, rng.randbytes(9))


def w_paths(rng, i):
    p = NibblePath(rng.randbytes(5))
    q = NibblePath(rng.randbytes(3))
    c = NibblePath.combine(p, q)
    c.starts_with(p), c.encode(True), str(c), c == p
    NibblePath.decode(p.encode(False))
    p.common_prefix(c)
    p.consume(2)


def w_proof_objects(rng, i):
    t = MerkleTree()
    t.put_list([rng.randbytes(4) for _ in range(3)])
    t.make_tree()
    p = t.get_proof_of_inclusion(bytes.fromhex(t.get(0))) if not t.secure else None
    p = p or Proof(rng.randbytes(4), rng.randbytes(32), ((b"left", b"ab"), (b"right", b"cd")), b"MT-POI")
    for name in ("encode_rlp", "encode_json"):
        f = getattr(p, name, None)
        if f:
            T.attempt(f)
    list(p), hash(p), p == p, str(p), repr(p)


def w_keys(rng, i):
    p = K.pool(RsaKeyPair)[i % 3]
    d = rng.randbytes(10)
    s = p.sign(d)
    p.signature_valid(d, s)
    p.signature_valid(d + b"!", s)
    hash(p), p == K.pool(RsaKeyPair)[0], str(p)
    if i % 4 == 0:
        m = p.encrypt(d, p.public_key)
        p.decrypt(m, p.public_key)
        T.attempt(p.decrypt, m[:-4] + b'00"}', p.public_key)


def w_helpers(rng, i):
    d = rng.randbytes(4 + i % 50)
    keccak_hash(d), keccak_hash(d, hexdigest=True), keccak_hash_list([d, d])
    Utils.sha256(d), Utils.sha512(d), Utils.hash_data(d)
    Utils.get_id(), Utils.get_id_string()
    T.attempt(Utils.from_timstamp_string, Utils.get_timestamp_string())
    Utils.file_exists("/nowhere/%d" % i), Utils.dir_exists("/nowhere/%d" % i)
    T.attempt(Utils.rsa_key_valid, d)


KINDS = {
    "helpers": (w_helpers, 1000),
    "tries": (w_tries, 1200), "proofs": (w_proofs, 700), "one trie": (w_same_trie, 2500), "questions to one trie": (w_same_queries, 900),
    "extended tries": (w_empt, 700), "one extended trie": (w_same_empt, 1500), "Merkle trees": (w_merkle, 1500),
    "one Merkle tree": (w_same_merkle, 450), "encodings": (w_codec, 700), "paths": (w_paths, 2500), "bad proofs": (w_bad_proofs, 350), "proof objects": (w_proof_objects, 1200),
    "key pairs": (w_keys, 60),
}
NAMES = sorted(KINDS)
BATCHES = 7
WARM = 3


def gen_growth(i):
    return {"kind": NAMES[i % len(NAMES)], "seed": i, "times": 1 if i < len(NAMES) else 2}


def run_growth(case, mon):
    fn, n = KINDS[case["kind"]]
    n *= case["times"]
    rng = random.Random("growth %s %d" % (case["kind"], case["seed"]))
    blocks = []
    i = 0
    for _ in range(BATCHES):
        for _ in range(n):
            fn(rng, i)
            i += 1
            mon.saw("units_of_work")
        gc.collect()
        blocks.append(sys.getallocatedblocks())
        mon.saw("batches_measured")
    steps = [b - a for a, b in zip(blocks[WARM - 1:], blocks[WARM:])]
    # kept work shows in every batch, as one or more blocks for each unit that leaves something
    mon.check(min(steps) < n * 0.25, "%d more units of %s leave %s more blocks allocated", n, case["kind"], steps)
    mon.saw("kinds_of_growth")
    mon.state(case["kind"], case["times"])
    mon.mark()


SCENARIOS = [
    scenario("released", gen_released, run_released, 400, 8000),
    scenario("growth", gen_growth, run_growth, len(NAMES), len(NAMES) * 2, enum=True),
]
