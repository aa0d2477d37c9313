"""C14: independently created objects share no state."""
import random

from vlib import gen, tries as T, ref_trie as R, ref_merkle as M, empts as E
from vlib.core import scenario
from vlib.objs import Item, enc, make
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from pymt.mt import MerkleTree
from pymt.merkletools import MerkleTools
from pymt.proof import Proof
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: many live objects with one model each; every operation on one is followed by checks on all others"
LEVEL_NOTE = ("in the executed interleavings no operation on one object, and no later change of a caller's buffer, changed what any other "
              "object or the same object answers")
RULE = ("a case creates up to nine tries, extended/sparse/root-only tries, Merkle trees and proofs in all documented ways (default, "
        "keyword and explicit arguments), interleaves operations on them and checks all of them after each; buffers: writes from "
        "bytearrays and lists that are scribbled over afterwards; non-trivial when at least three objects were live and written")
REQUIRED = ["others_checked", "created_default_EMPT", "created_default_SparseEMPT", "created_MPT", "created_MerkleTree",
            "created_MerkleTools", "created_RootEMPT", "created_Proof", "late_objects_empty", "buffers_scribbled", "hollow_reads",
            "lists_scribbled", "keypairs_checked", "returned_objects_scribbled", "created_decoded",
            "encodings_kept"]
ASSUMPTIONS = []


def image(o):
    """All a trie holds, whatever the order its nodes are kept in."""
    if isinstance(o, MPT):
        x = R.rlp_decode(o.encode())
        return x[0], sorted(x[1], key=repr), x[2]
    x = R.rlp_decode(o.encode_rlp())
    return tuple(sorted(y, key=repr) if isinstance(y, list) else y for y in x)


class Live:
    """A live object with its model."""

    def __init__(self, kind, obj, model, secure=False, hash_type="sha256", alone=False):
        self.kind, self.obj, self.model, self.secure, self.hash_type = kind, obj, model, secure, hash_type
        # for a trie with storages of its own: what it is encoded as
        self.alone = alone or kind == "mpt"
        self.image = image(obj) if self.alone else None

    def check(self, mon, rng, keys, full=False):
        o, m = self.obj, self.model
        mon.saw("others_checked")
        if self.alone and (full or rng.random() < 0.3):
            mon.check(image(o) == self.image, "a %s nobody changed is encoded differently: it holds other nodes", type(o).__name__)
            mon.saw("encodings_kept")
        if self.kind == "mpt":
            T.check_root(mon, o, m, self.secure, "root of a trie nobody changed")
            for k in keys if full else rng.sample(keys, 1):
                T.check_key(mon, o, m, k, self.secure)
        elif self.kind in ("empt", "sparse"):
            E.check_root(mon, o, m, self.secure, "root of a trie nobody changed")
            if self.kind == "empt":
                mon.check(len(o) == len(m), "a mapping nobody changed has length %d instead of %d", len(o), len(m))
                mon.check(set(o) == set(m), "a mapping nobody changed has other keys")
            for k in keys if full else rng.sample(keys, 1):
                mon.check(o.contains(k) is (k in m), "contains is wrong")
                E.check_ref(mon, o, m, k)
        elif self.kind == "root":
            E.check_root(mon, o, m, self.secure, "root of a root-only view")
        elif self.kind in ("tree", "tools"):
            mon.check(len(o) == len(m), "a Merkle tree nobody changed has %d leaves instead of %d", len(o), len(m))
            if m:
                if self.kind == "tools":
                    o.make_tree()
                want = M.root(m, self.secure, self.hash_type).hex()
                got = o.get_merkle_root()
                mon.check((got.decode() if isinstance(got, bytes) else got) == want, "root of a Merkle tree nobody changed is wrong")
                i = rng.randrange(len(m))
                mon.check(o.get_leaf(i) == M.leaf(m[i], self.secure, self.hash_type).hex(), "leaf of a Merkle tree nobody changed")
        else:
            mon.check((o.type, o.target_key, o.trie_root, o.proof, o.timestamp) == m, "a proof changed: %r", o)

    def write(self, *args):
        self.change(*args)
        if self.alone:
            self.image = image(self.obj)

    def change(self, mon, rng, keys, k, body, vk):
        o, m = self.obj, self.model
        if self.kind == "mpt":
            v = body or b"\x00"
            if rng.random() < 0.25 and k in m:
                o.delete(k)
                del m[k]
            else:
                o.update(k, v)
                m[k] = v
        elif self.kind in ("empt", "sparse"):
            r = rng.random()
            if r < 0.25 and k in m:
                o.delete(k)
                del m[k]
            elif r < 0.3 and self.kind == "empt":
                o.clear()
                m.clear()
            else:
                o[k] = make(vk, body)
                m[k] = body
        elif self.kind in ("tree", "tools"):
            if rng.random() < 0.06:
                o.reset_tree()
                m.clear()
            else:
                o.add_leaf(body) if self.kind == "tools" else o.put(body)
                m.append(body)
            if m and rng.random() < 0.3:
                o.make_tree()
                o.get_proof_of_inclusion(rng.choice(m))
        elif self.kind == "root":
            T.attempt(o.verify_proof_of_inclusion, Proof(k, o.root_hash(), (body,), b"MPT-POI"))
        else:
            list(o)
            T.attempt(o.encode_json)
            T.attempt(o.encode_rlp)
            hash(o)


def create(rng, lives, mon):
    r = rng.randrange(17)
    secure = rng.random() < 0.4
    if r >= 15:
        # a copy by way of the encoding
        src = [x for x in lives if x.alone]
        if src:
            x = rng.choice(src)
            y = MPT.decode(x.obj.encode()) if x.kind == "mpt" else SparseEMPT.decode_rlp(x.obj.encode_rlp())
            mon.check(image(y) == x.image, "a decoded %s holds other nodes than the encoded one", type(y).__name__)
            mon.saw("created_decoded")
            return Live(x.kind, y, dict(x.model), x.secure, alone=True)
        r = rng.choice((0, 1, 7))
    if r == 0:
        return Live("mpt", MPT({}, secure=secure), {}, secure)
    if r == 1:
        return Live("mpt", MPT(storage={}), {})
    if r in (2, 3):
        return Live("empt", EMPT(), {})
    if r == 4:
        return Live("empt", EMPT(secure=secure), {}, secure)
    if r == 5:
        return Live("empt", EMPT(trie_storage={}, secure=secure), {}, secure)
    if r == 6:
        return Live("empt", EMPT(data_storage={}), {})
    if r in (7, 8):
        return Live("sparse", SparseEMPT(), {}, alone=True)
    if r == 9:
        return Live("sparse", SparseEMPT(secure=secure), {}, secure, alone=True)
    if r == 10:
        return Live("tree", MerkleTree(), [], True)
    if r == 11:
        h = rng.choice(M.HASHES)
        return Live("tree", MerkleTree(secure=secure, hash_type=h), [], secure, h)
    if r == 12:
        return Live("tools", MerkleTools(), [], False)
    if r == 13:
        src = [x for x in lives if x.kind in ("empt", "sparse")]
        if src:
            x = rng.choice(src)
            if x.kind == "empt" and rng.random() < 0.5:
                return Live("sparse", x.obj.get_sparse_trie(), dict(x.model), x.secure)
            return Live("root", x.obj.get_root_trie(), dict(x.model), x.secure)
        return Live("sparse", SparseEMPT({}), {})
    src = [x for x in lives if x.kind in ("mpt", "empt", "sparse", "tree") and x.model]
    if src:
        x = rng.choice(src)
        if x.kind == "tree":
            x.obj.make_tree()
            p = x.obj.get_proof_of_inclusion(rng.choice(x.model))
        else:
            p = x.obj.get_proof_of_inclusion(rng.choice(list(x.model)))
    else:
        p = Proof(b"k", b"r", (b"a",), b"MT-POI")
    return Live("proof", p, (p.type, p.target_key, p.trie_root, p.proof, p.timestamp))


def gen_case(rng, size):
    keys = gen.universe(rng, min(size, 2))
    n = {1: rng.randrange(8, 24), 2: rng.randrange(16, 40), 3: rng.randrange(30, 80)}[size]
    pool = gen.values_pool(rng, size, False, True, keys)
    ops = [("new",) if rng.random() < 0.2 or i < 3 else
           ("op", rng.randrange(9), rng.choice(keys), gen.value(rng, False, True, keys) if rng.random() < 0.4 else rng.choice(pool), rng.randrange(3))
           for i in range(n)]
    return {"keys": keys, "ops": ops, "seed": rng.getrandbits(32)}


def run_case(case, mon):
    keys = case["keys"]
    lives = []
    for i, op in enumerate(case["ops"]):
        rng = random.Random("%d-%d" % (case["seed"], i))
        if op[0] == "new":
            if len(lives) >= 9:
                lives.pop(rng.randrange(len(lives)))
            x = create(rng, lives, mon)
            lives.append(x)
            name = type(x.obj).__name__
            mon.saw("created_" + name)
            if name in ("EMPT", "SparseEMPT"):
                mon.saw("created_default_" + name)
            if not x.model:
                x.check(mon, rng, keys, True)
                mon.saw("late_objects_empty")
        elif lives:
            x = lives[op[1] % len(lives)]
            x.write(mon, rng, keys, op[2], op[3], op[4])
        for y in lives:
            y.check(mon, rng, keys)
        if sum(1 for y in lives if y.model) >= 3:
            mon.mark()
        mon.state([y.obj.root_hash() if hasattr(y.obj, "root_hash") else len(y.model) for y in lives])
    rng = random.Random(case["seed"])
    for y in lives:
        y.check(mon, rng, keys, True)
        if y.kind == "mpt" and y.model and len(y.obj.root()) == 32:
            # another trie told the same root but given no nodes knows nothing
            h = MPT({}, y.obj.root(), secure=y.secure)
            for k in keys:
                g = T.attempt(h.get, k)
                mon.check(T.raised(g), "a trie without nodes read %s of another trie", T.hx(k))
                g = T.attempt(h.contains, k)
                mon.check(T.raised(g), "a trie without nodes answered contains(%s)", T.hx(k))
                mon.saw("hollow_reads")


def scribble(b):
    for i in range(len(b)):
        b[i] ^= 0xA5
    b.extend(b"scribbled")


def gen_buf(rng, size):
    secure = rng.random() < 0.4
    keys = gen.universe(rng, min(size, 2), secure)
    pool = gen.values_pool(rng, size, True, True, keys)
    ops = [(rng.choice(keys), gen.value(rng, False, True, keys) if rng.random() < 0.5 else rng.choice(pool)) for _ in range(rng.randrange(2, 16))]
    return {"secure": secure, "keys": keys, "ops": ops, "seed": rng.getrandbits(32), "hash": rng.choice(M.HASHES)}


def run_buf(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    mpt, empt, sparse = MPT({}, secure=secure), EMPT(secure=secure), SparseEMPT(secure=secure)
    tools, tree = MerkleTools(case["hash"], secure), MerkleTree(secure, case["hash"])
    m_mpt, m_empt, leaves, tleaves = {}, {}, [], []
    mon.mark()
    for k, body in case["ops"]:
        bufs = []
        def buf(x):
            b = bytearray(x)
            bufs.append(b)
            return b
        kb = buf(k) if rng.random() < 0.5 else k
        if body:
            mpt.update(kb, buf(body))
            m_mpt[k] = body
        empt.update(k, buf(body))
        sparse.update(k, buf(body))
        m_empt[k] = body
        tools.add_leaf(buf(body))
        leaves.append(body)
        lst = [body, k]
        tree.put_list(lst)
        tleaves += [body, k]
        if rng.random() < 0.4:
            tools.make_tree()
            tree.make_tree()
        lst[:] = [b"scribbled"] * 3
        mon.saw("lists_scribbled")
        for b in bufs:
            scribble(b)
            mon.saw("buffers_scribbled")
        T.check_root(mon, mpt, m_mpt, secure, "root after the caller's buffer changed")
        E.check_root(mon, empt, m_empt, secure, "root after the caller's buffer changed")
        E.check_root(mon, sparse, m_empt, secure, "root after the caller's buffer changed")
        E.check_key(mon, empt, m_empt, k)
        E.check_ref(mon, sparse, m_empt, k)
        if body:
            T.check_key(mon, mpt, m_mpt, k, secure)
        tools.make_tree()
        mon.check(tools.get_merkle_root() == M.root(leaves, secure, case["hash"]).hex(), "Merkle root after the caller's buffer changed")
        mon.check(tools.get_leaf(len(leaves) - 1) == M.leaf(body, secure, case["hash"]).hex(), "leaf after the caller's buffer changed")
        mon.check(tree.get_merkle_root() == M.root(tleaves, secure, case["hash"]).hex().encode(), "Merkle root after the caller's list changed")
        # what the tree handed out belongs to the caller
        t = rng.choice(leaves)
        pr = tools.get_proof_of_inclusion(t)
        for d in pr:
            for side in list(d):
                d[side] = "00"
        pr.append({"left": "11"})
        mon.saw("returned_objects_scribbled")
        i = leaves.index(t)  # the first equal leaf
        want = [{s: d.hex()} for s, d in M.siblings(leaves, i, secure, case["hash"])]
        idx = [j for j, l in enumerate(leaves) if l == t]
        got = tools.get_proof_of_inclusion(t)
        mon.check(any(got == [{s: d.hex()} for s, d in M.siblings(leaves, j, secure, case["hash"])] for j in idx), "a proof handed out before was changed and the tree with it")
        mon.check(tools.get_merkle_root() == M.root(leaves, secure, case["hash"]).hex(), "Merkle root after a returned proof was changed")
        p = tree.get_proof_of_inclusion(body)
        d = p.__dict__()
        before = (p.target_key, p.trie_root, p.proof, p.type, p.timestamp)
        for x in list(d):
            d[x] = b"scribbled"
        mon.check((p.target_key, p.trie_root, p.proof, p.type, p.timestamp) == before, "changing a proof's dictionary view changed the proof")
        view = dict(p.items())
        mon.check(b"scribbled" not in p.__dict__().values() and dict(p.__dict__()) == view and b"scribbled" not in view.values(),
                  "changing a proof's dictionary view changed what the proof reports: %r", view)
        if m_empt:
            ks = list(empt.keys())
            ks[:] = []
            mon.check(len(empt) == len(m_empt), "changing the list of keys changed the mapping")
        mon.state(mpt.root_hash(), empt.root_hash())
    for k in keys:
        T.check_key(mon, mpt, m_mpt, k, secure)
        E.check_key(mon, empt, m_empt, k)


def gen_keys(rng, size):
    return {"seed": rng.getrandbits(32)}


def run_keys(case, mon):
    rng = random.Random(case["seed"])
    pairs = []
    for i in range(3):
        cls = rng.choice((RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair))
        nick = rng.choice((None, None, "nick%d" % i, "same"))
        p = cls(nick, _generate_keys=False) if nick else cls(_generate_keys=False)
        p.generate_keypair(1024)
        mon.check(nick is None or p.nickname == nick, "the nickname is %r", p.nickname)
        pairs.append([p, p.nickname, p.public_key, p.public_key_string, hash(p)])
        if nick is None:
            mon.check(sum(1 for q in pairs if q[1] == p.nickname) == 1, "two key pairs were given the same generated nickname")
    mon.check(len({q[2] for q in pairs}) == 3, "two key pairs share a key")
    for step in range(6):
        x = rng.choice(pairs)
        p = x[0]
        r = rng.randrange(6)
        if r == 0:
            p.nickname = "renamed%d" % step
            x[1], x[4] = p.nickname, hash(p)
        elif r == 1:
            p.generate_keypair(1024)
            x[2], x[3] = p.public_key, p.public_key_string
            x[4] = hash(p)
        elif r == 2:
            q = type(p).from_key_string(p.to_key_string("pw"), "pw")
            mon.check(q.public_key == p.public_key, "a loaded key pair has another key")
            q.nickname = "copy"
            q.generate_keypair(1024)
        elif r == 3 and not isinstance(p, RsaEncKeyPair):
            sig = p.sign(b"data")
            for y in pairs:
                if not isinstance(y[0], RsaEncKeyPair):
                    mon.check(y[0].signature_valid(b"data", sig) is (y is x), "a signature is valid for another key pair or not for its own")
        elif r == 4 and not isinstance(p, RsaAuthKeyPair):
            p.encrypt(b"data", rng.choice(pairs)[2])
        else:
            str(p), repr(p), p == pairs[0][0]
        for y in pairs:
            q = y[0]
            mon.check((q.nickname, q.public_key, q.public_key_string, hash(q)) == (y[1], y[2], y[3], y[4]), "a key pair changed with another one")
            mon.saw("keypairs_checked")
        mon.state([y[1] for y in pairs], step)
    mon.mark()


SCENARIOS = [
    scenario("interleaved", gen_case, run_case, 700, 30000),
    scenario("buffers", gen_buf, run_buf, 500, 20000),
    scenario("keypairs", gen_keys, run_keys, 40, 600),
]
