"""C08: every absent key has an exclusion proof that verifies."""
import random

from vlib import stores, gen, tries as T, ref_trie as R, views, longlife, words
from vlib.core import scenario
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT, SEMPT, REMPT

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: near misses of every visited contents are proved absent and offered to every kind of verifier"
LEVEL_NOTE = ("completeness of exclusion proofs on the executed contents, absent keys and verifiers, classified by where the path "
              "leaves the trie; exhaustive over the subsets of eight small adversarial universes, random structures beyond")
RULE = ("a case is a contents (enumerated or reached by a random history of a plain, extended or sparse trie); absent keys (all "
        "absent keys of the universe, prefixes, extensions, one-nibble variants) are proved absent and the proofs offered to all "
        "verifiers, stored keys must be refused, and old proofs are offered again after the root changed; non-trivial when at "
        "least one proof was verified")
REQUIRED = ["words_tried", "proofs_verified", "refusals_checked", "empty_refusals", "outdated_offered", "leaves_at_leaf", "leaves_at_extension",
            "leaves_at_slot", "leaves_at_branch_value", "operations_of_long_lives"]
ASSUMPTIONS = ["values non-empty in raw tries"]


def where(contents, secure, key):
    """Where the path of an absent key leaves the (reference) trie."""
    path = R.path_of(key, secure)
    paths = [R.path_of(k, secure) for k in contents]
    best, n = None, -1
    for p in paths:
        j = 0
        while j < min(len(p), len(path)) and p[j] == path[j]:
            j += 1
        if j > n:
            best, n = p, j
    same = [p for p in paths if p[:n] == path[:n]]
    if len(same) == 1:
        return "leaves_at_leaf"
    nxt = {p[n] if len(p) > n else None for p in same}
    if len(nxt) > 1:  # a branch sits exactly there
        return "leaves_at_branch_value" if len(path) == n else "leaves_at_slot"
    return "leaves_at_extension"


def prove(mon, trie, key, secure, verifiers, contents):
    mon.saw(where(contents, secure, key))
    p = trie.get_proof_of_exclusion(T.own(key, trie.root_hash()[:4]))
    want = R.keccak256(key) if secure else key
    mon.check(p.target_key == want, "the proof of %s names the key %s", T.hx(key), T.hx(p.target_key))
    mon.check(p.type == b"MPT-POE", "the exclusion proof has type %r", p.type)
    mon.check(p.trie_root in (trie.root(), trie.root_hash()), "the proof of %s names another root", T.hx(key))
    for name, v in verifiers:
        r = T.attempt(v.verify_proof_of_exclusion, p)
        mon.check(r is True, "%s does not accept the exclusion proof of %s (%s): %r", name, T.hx(key), where(contents, secure, key), r)
        mon.saw("proofs_verified")
    mon.mark()
    return p


def refuse(mon, trie, key):
    r = T.attempt(trie.get_proof_of_exclusion, key)
    mon.check(T.raised(r), "an exclusion proof was made for the stored key %s", T.hx(key))
    mon.saw("refusals_checked")


def run_small(case, mon):
    secure, keys, storage, trie, model = T.small_build(case)
    if not model:
        for t in (trie, MPT({}, secure=secure), EMPT(secure=secure), SparseEMPT(secure=secure)):
            for k in keys:
                r = T.attempt(t.get_proof_of_exclusion, k)
                mon.check(T.raised(r), "an empty trie made an exclusion proof")
                mon.saw("empty_refusals")
        return
    vs = views.light(trie, storage) if case["mask"] % 4 else views.of_mpt(trie, storage)
    rng = random.Random(case["mask"])
    for k in keys + gen.near_misses(rng, keys, 6):
        if k in model:
            refuse(mon, trie, k)
        else:
            prove(mon, trie, k, secure, vs, model)
    mon.state(trie.root_hash())


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35, big=True)
    c["seed"] = rng.getrandbits(32)
    c["kind"] = rng.choice(("mpt", "mpt", "empt", "sparse"))
    return c


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys, kind = case["secure"], case["keys"], case["kind"]
    storage = stores.some(rng)
    trie = (MPT(storage, secure=secure) if kind == "mpt" else
            EMPT(storage, stores.some(random.Random(case["seed"] + 6)), secure=secure) if kind == "empt" else
            rng.choice((SparseEMPT, SEMPT))(storage, secure=secure))
    model = {}
    old = []  # (root hash, proof)
    n = len(case["ops"])
    for i, op in enumerate(case["ops"]):
        T.apply(trie, model, op)
        now = trie.root_hash()
        if not model:
            r = T.attempt(trie.get_proof_of_exclusion, op[1])
            mon.check(T.raised(r), "an emptied trie made an exclusion proof")
            mon.saw("empty_refusals")
        elif rng.random() < 0.35 or i == n - 1:
            vs = (views.of_mpt(trie, storage) if kind == "mpt" else views.of_empt(trie) if kind == "empt" else
                  [("the sparse trie", trie), ("its root-only view", trie.get_root_trie()),
                   ("a decoded sparse view", SparseEMPT.decode_rlp(trie.encode_rlp())),
                   ("a root-only view", rng.choice((RootEMPT, REMPT))(trie.root(), secure=secure))])
            for k in gen.near_misses(rng, keys, 6) + keys[:6]:
                if k in model:
                    refuse(mon, trie, k)
                else:
                    old.append((now, prove(mon, trie, k, secure, vs, model)))
        for root, p in rng.sample(old, min(3, len(old))):
            if root != now:
                mon.check(not T.accepted(trie.verify_proof_of_exclusion, p),
                          "an exclusion proof for %s is still accepted after the root changed", T.hx(p.target_key))
                mon.check(not T.accepted(RootEMPT(trie.root(), secure=secure).verify_proof_of_exclusion, p),
                          "an outdated exclusion proof is accepted by a root-only view")
                mon.saw("outdated_offered")
        mon.state(now, kind)


def gen_big(rng, size):
    return {"secure": rng.random() < 0.5, "n": rng.choice((100, 300, 700)), "seed": rng.getrandbits(32),
            "klen": rng.choice((1, 2, 3, 20, 32)), "vlen": rng.choice((1, 3, 30, 40, 200))}


def run_big(case, mon):
    rng = random.Random(case["seed"])
    secure = case["secure"]
    storage = stores.some(rng)
    trie = MPT(storage, secure=secure)
    model = {}
    for i in range(case["n"]):
        k = rng.randbytes(case["klen"] if rng.random() < 0.8 else rng.randrange(0, 5))
        v = rng.randbytes(case["vlen"]) if rng.random() < 0.8 else b"v"
        trie.update(k, v)
        model[k] = v
    vs = views.light(trie, storage)
    ks = list(model)
    for k in gen.near_misses(rng, ks, 150):
        if k not in model:
            prove(mon, trie, k, secure, vs, model)
        else:
            refuse(mon, trie, k)


def run_long(case, mon):
    storage, secure, kind = stores.some(random.Random(case["seed"] + 5)), case["secure"], case["kind"]
    trie = (MPT(storage, secure=secure) if kind == "mpt" else EMPT(storage, stores.some(random.Random(case["seed"] + 6)), secure=secure) if kind == "empt" else SparseEMPT(storage, secure=secure))

    def each(i, op, model, keys):
        if op[0] == "del" and model:
            prove(mon, trie, op[1], secure, [("the trie itself", trie)], model)
        elif op[0] == "put":
            refuse(mon, trie, op[1])

    def rare(i, model, keys):
        vs = [("the trie itself", trie), ("a root-only view", RootEMPT(trie.root(), secure=secure))]
        for k in keys if model else ():
            if k in model:
                refuse(mon, trie, k)
            else:
                prove(mon, trie, k, secure, vs, model)

    longlife.live(case, mon, trie, each, rare)


SCENARIOS = [
    words.raw(run_case, 8, True),
    scenario("small", T.small_case, run_small, 900, T.SMALL_CASES, enum=True),
    scenario("history", gen_case, run_case, 500, 30000),
    scenario("deep", gen_case, run_case, 16, 500, sizes=(gen.DEEP,)),
    scenario("big", gen_big, run_big, 16, 400),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
