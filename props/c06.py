"""C06: every stored key has an inclusion proof that verifies."""
import random

from vlib import stores, gen, tries as T, ref_trie as R, views, longlife, words
from vlib.core import scenario
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every key of every visited contents is proved and offered to every kind of verifier"
LEVEL_NOTE = ("completeness of inclusion proofs on the executed contents and verifiers; exhaustive over the subsets of eight "
              "small adversarial universes, random structures beyond")
RULE = ("a case is a contents (enumerated, or reached by a random history, of a plain, extended or sparse trie); every stored key "
        "is proved and the proof offered to the trie, reopened, decoded, sparse and root-only verifiers; near misses must be "
        "refused; non-trivial when at least one proof was verified")
REQUIRED = ["words_tried", "proofs_verified", "refusals_checked", "empty_refusals", "views_used", "tiny_roots", "operations_of_long_lives"]
ASSUMPTIONS = ["values non-empty in raw tries"]


def prove(mon, trie, key, secure, verifiers, what=""):
    p = trie.get_proof_of_inclusion(T.own(key, trie.root_hash()[:4]))
    want = R.keccak256(key) if secure else key
    mon.check(p.target_key == want, "the proof%s of %s names the key %s", what, T.hx(key), T.hx(p.target_key))
    mon.check(p.type == b"MPT-POI", "the inclusion proof has type %r", p.type)
    mon.check(p.trie_root in (trie.root(), trie.root_hash()), "the proof of %s names another root", T.hx(key))
    for name, v in verifiers:
        r = T.attempt(v.verify_proof_of_inclusion, p)
        mon.check(r is True, "%s does not accept the inclusion proof%s of %s: %r", name, what, T.hx(key), r)
        mon.saw("proofs_verified")
    mon.mark()
    return p


def refuse(mon, trie, key):
    r = T.attempt(trie.get_proof_of_inclusion, key)
    mon.check(T.raised(r), "an inclusion proof was made for the absent key %s", T.hx(key))
    mon.saw("refusals_checked")


def check_empty(mon, secure):
    for t in (MPT({}, secure=secure), EMPT(secure=secure), SparseEMPT(secure=secure)):
        for k in (b"", b"\x00", b"key"):
            r = T.attempt(t.get_proof_of_inclusion, k)
            mon.check(T.raised(r), "an empty trie made an inclusion proof")
            mon.saw("empty_refusals")


def run_small(case, mon):
    secure, keys, storage, trie, model = T.small_build(case)
    if not model:
        check_empty(mon, secure)
        return
    if len(trie.root()) != 32:
        mon.saw("tiny_roots")
    vs = views.light(trie, storage) if case["mask"] % 4 else views.of_mpt(trie, storage)
    mon.saw("views_used", len(vs))
    for k in keys:
        if k in model:
            prove(mon, trie, k, secure, vs)
        else:
            refuse(mon, trie, k)
    mon.state(trie.root_hash())


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35, big=True)
    c["seed"] = rng.getrandbits(32)
    c["kind"] = rng.choice(("mpt", "mpt", "empt", "sparse"))
    return c


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys, kind = case["secure"], case["keys"], case["kind"]
    storage = stores.some(rng)
    trie = (MPT(storage, secure=secure) if kind == "mpt" else
            EMPT(storage, stores.some(random.Random(case["seed"] + 6)), secure=secure) if kind == "empt" else SparseEMPT(storage, secure=secure))
    model = {}

    def verifiers():
        if kind == "mpt":
            vs = views.of_mpt(trie, storage)
        elif kind == "empt":
            vs = views.of_empt(trie)
        else:
            vs = [("the sparse trie", trie), ("its root-only view", trie.get_root_trie()),
                  ("a decoded sparse view", SparseEMPT.decode_rlp(trie.encode_rlp())),
                  ("a root-only view", RootEMPT(trie.root(), secure=secure))]
        mon.saw("views_used", len(vs))
        return vs

    n = len(case["ops"])
    for i, op in enumerate(case["ops"]):
        T.apply(trie, model, op)
        if not model:
            r = T.attempt(trie.get_proof_of_inclusion, op[1])
            mon.check(T.raised(r), "an emptied trie made an inclusion proof")
            mon.saw("empty_refusals")
            continue
        if len(trie.root()) != 32:
            mon.saw("tiny_roots")
        if rng.random() < 0.3 or i == n - 1:
            vs = verifiers()
            ks = list(model)
            for k in (ks if i == n - 1 else rng.sample(ks, min(3, len(ks)))):
                prove(mon, trie, k, secure, vs)
                # a proof made by another holder of the nodes
                if rng.random() < 0.3:
                    other = vs[rng.randrange(len(vs))][1]
                    if hasattr(other, "get_proof_of_inclusion"):
                        try_other(mon, other, trie, k, secure, vs)
            for k in gen.near_misses(rng, keys, 4) + keys:
                if k not in model:
                    refuse(mon, trie, k)
        mon.state(trie.root_hash(), kind)


def try_other(mon, other, trie, k, secure, vs):
    try:
        p = other.get_proof_of_inclusion(k)
    except KeyError:
        return  # that verifier holds no nodes
    for name, v in vs:
        mon.check(v.verify_proof_of_inclusion(p) is True, "%s does not accept the proof made by an equal trie", name)
        mon.saw("proofs_verified")


def gen_big(rng, size):
    return {"secure": rng.random() < 0.5, "n": rng.choice((100, 300, 700)), "seed": rng.getrandbits(32),
            "klen": rng.choice((1, 2, 3, 20, 32)), "vlen": rng.choice((1, 3, 30, 40, 200))}


def run_big(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    storage = stores.some(rng)
    trie = MPT(storage, secure=secure)
    model = {}
    for i in range(case["n"]):
        k = rng.randbytes(case["klen"] if rng.random() < 0.8 else rng.randrange(0, 5))
        v = rng.randbytes(case["vlen"]) if rng.random() < 0.8 else b"v"
        trie.update(k, v)
        model[k] = v
    vs = views.light(trie, storage)
    ks = list(model)
    rng.shuffle(ks)
    for k in ks[:150]:
        prove(mon, trie, k, secure, vs)
    for k in gen.near_misses(rng, ks, 60):
        if k not in model:
            refuse(mon, trie, k)


def run_long(case, mon):
    storage, secure, kind = stores.some(random.Random(case["seed"] + 5)), case["secure"], case["kind"]
    trie = (MPT(storage, secure=secure) if kind == "mpt" else EMPT(storage, stores.some(random.Random(case["seed"] + 6)), secure=secure) if kind == "empt" else SparseEMPT(storage, secure=secure))
    old = RootEMPT(trie.root(), secure=secure)

    def each(i, op, model, keys):
        if op[0] == "put":
            prove(mon, trie, op[1], secure, [("the trie itself", trie)])
        else:
            refuse(mon, trie, op[1])

    def rare(i, model, keys):
        vs = [("the trie itself", trie), ("a root-only view", RootEMPT(trie.root(), secure=secure))]
        for k in keys:
            if k in model:
                prove(mon, trie, k, secure, vs)
            else:
                refuse(mon, trie, k)

    longlife.live(case, mon, trie, each, rare)


SCENARIOS = [
    words.raw(run_case, others=True),
    scenario("small", T.small_case, run_small, 2600, T.SMALL_CASES, enum=True),
    scenario("history", gen_case, run_case, 600, 25000),
    scenario("deep", gen_case, run_case, 16, 500, sizes=(gen.DEEP,)),
    scenario("big", gen_big, run_big, 16, 400),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
