"""C09: no exclusion proof is accepted for a key that is stored."""
import itertools
import random

from vlib import stores, gen, tries as T, ref_trie as R, forge, words
from vlib.core import scenario
from vlib.forge import POI, POE, mk
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT, SEMPT, REMPT

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: adversarial proof objects against a dictionary oracle (soundness of exclusion verification)"
LEVEL_NOTE = ("no forged, truncated, spliced, re-targeted or outdated exclusion proof among those constructed was accepted for a stored "
              "key; for small tries all subsets of the path nodes are offered; hash collisions excluded")
RULE = ("a case is a trie and a stream of exclusion proof objects for its stored keys, built from exclusion proofs of near misses, "
        "truncated paths, all nodes, other tries that lack the key, older versions and invented nodes; accepted is a violation when "
        "the dictionary holds the target; non-trivial when the target was stored")
REQUIRED = ["words_tried", "stored_target_offered", "other_kind_offered", "outdated_offered", "empty_offered", "genuine_accepted", "subsets_offered"]
ASSUMPTIONS = ["values non-empty", "keccak256 collision resistant"]


def offer(mon, verifiers, proof, stored_paths, what):
    path = R.nibbles(proof.target_key)
    stored = path in stored_paths
    if stored:
        mon.saw("stored_target_offered")
        mon.mark()
    ok = False
    for name, v in verifiers:
        acc = T.accepted(v.verify_proof_of_exclusion, proof)
        mon.check(not acc or not (stored or proof.type != POE), "%s accepted an exclusion proof (%s) of %s, which %s", name, what,
                  T.hx(proof.target_key), "is stored" if stored else "is a proof of another kind")
        ok = ok or acc
    if ok:
        mon.saw("genuine_accepted")
    return ok


def target_of(k, secure):
    return R.keccak256(k) if secure else k


def ends(rng, path):
    """Last elements an adversary may put: null leaves for any rest of the path."""
    return [forge.null_leaf(path), forge.null_leaf(()), forge.null_leaf(path[len(path) // 2:]), forge.null_leaf(path[1:]),
            R.rlp_encode([b""] * 16 + [b"null"])]


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.3)
    c["seed"] = rng.getrandbits(32)
    c["view"] = rng.randrange(3)
    if rng.random() < 0.15 and c["ops"]:
        c["ops"] = [("put", o[1], b"null") if o[0] == "put" and rng.random() < 0.5 else o for o in c["ops"]]
    return c


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    storage = stores.some(rng)
    trie = MPT(storage, secure=secure)
    model = {}
    history = []
    for op in case["ops"]:
        T.apply(trie, model, op)
        if model and rng.random() < 0.4:
            for k in rng.sample(keys, min(2, len(keys))):
                if k not in model:
                    history.append(trie.get_proof_of_exclusion(k))
    if not model:
        return
    paths = {R.path_of(k, secure) for k in model}
    vs = [("the trie", trie),
          (("a root-only view", rng.choice((RootEMPT, REMPT))(trie.root(), secure=secure)),
           ("a sparse view", rng.choice((SparseEMPT, SEMPT))(trie_storage=dict(storage), root=trie.root(), secure=secure)),
           ("a trie without nodes", MPT({}, trie.root(), secure=secure)))[case["view"]]]
    stored = list(model)
    root_enc, pool = forge.all_nodes(model, secure)
    everything = [root_enc] + pool
    absent = [k for k in gen.near_misses(rng, keys, 12) + keys if k not in model]
    near_poe = []
    for k in absent[:8]:
        p = trie.get_proof_of_exclusion(k)
        near_poe.append(p)
        mon.check(offer(mon, vs, p, paths, "genuine"), "the genuine exclusion proof of %s is not accepted", T.hx(k))
    for v in (MPT({}, secure=secure), SparseEMPT(secure=secure), EMPT(secure=secure), RootEMPT(MPT({}).root(), secure=secure)):
        for p in near_poe[:2] + history[:2]:
            mon.check(not T.accepted(v.verify_proof_of_exclusion, p), "an empty trie accepted an exclusion proof")
            mon.saw("empty_offered")
    for p in history:
        offer(mon, vs, p, paths, "made at an older version")
        mon.saw("outdated_offered")
        offer(mon, vs, mk(p.target_key, trie.root_hash(), p.proof, POE), paths, "made at an older version, root replaced")
        offer(mon, vs, mk(p.target_key, trie.root_hash(), (root_enc,) + p.proof[1:], POE), paths, "older version behind this root node")
    for k in rng.sample(stored, min(6, len(stored))):
        t = target_of(k, secure)
        tp = R.nibbles(t)
        own = forge.path_nodes(model, secure, tp)
        poi = trie.get_proof_of_inclusion(k)
        # a trie without the key (or with another value) as source of nodes
        m2 = {a: b for a, b in model.items() if a != k}
        theirs = forge.path_nodes(m2, secure, tp)
        t2pool = forge.all_nodes(m2, secure)[1] if m2 else []
        if m2:
            t2 = MPT({}, secure=secure)
            for a, b in m2.items():
                t2.update(a, b)
            q = t2.get_proof_of_exclusion(k)
            offer(mon, vs, q, paths, "of a trie without the key")
            for r in (trie.root(), trie.root_hash()):
                offer(mon, vs, mk(t, r, q.proof, POE), paths, "of a trie without the key, root replaced")
                offer(mon, vs, mk(t, r, (root_enc,) + q.proof, POE), paths, "of a trie without the key behind this root node")
                offer(mon, vs, mk(t, r, (root_enc,) + q.proof[1:], POE), paths, "of a trie without the key with this root node")
                offer(mon, vs, mk(t, r, tuple(own) + q.proof, POE), paths, "of a trie without the key behind this path")
        for end in ends(rng, tp):
            for i in range(len(own) + 1):
                offer(mon, vs, mk(t, trie.root_hash(), own[:i] + [end], POE), paths, "first %d nodes of its path" % i)
                if 0 < i < len(own):
                    offer(mon, vs, mk(t, trie.root_hash(), own[:i] + own[i + 1:] + [end], POE), paths, "without node %d" % i)
            offer(mon, vs, mk(t, trie.root_hash(), everything + [end], POE), paths, "all nodes")
            offer(mon, vs, mk(t, trie.root_hash(), own + theirs + [end], POE), paths, "spliced with a trie without the key")
            offer(mon, vs, mk(t, trie.root_hash(), own[:1] + theirs[1:] + [end], POE), paths, "spliced with a trie without the key")
            for p in near_poe[:4]:
                offer(mon, vs, mk(t, p.trie_root, p.proof[:-1] + (end,), POE), paths, "re-targeted, other end")
        for p in near_poe:
            offer(mon, vs, mk(t, p.trie_root, p.proof, POE), paths, "re-targeted")
        offer(mon, vs, mk(t, trie.root_hash(), poi.proof, POE), paths, "the nodes of its inclusion proof")
        offer(mon, vs, poi, paths, "its inclusion proof")
        offer(mon, vs, mk(t, trie.root_hash(), own + [forge.null_leaf(tp)], b"MT-POI"), paths, "another kind")
        mon.saw("other_kind_offered", 2)
        bases = [own, everything] + [list(p.proof) for p in near_poe[:3]]
        for _ in range(14):
            what, nodes = forge.shape(rng, rng.choice(bases), pool + t2pool, tp, POE)
            if rng.random() < 0.8:
                nodes = nodes + [rng.choice(ends(rng, tp))]
            offer(mon, vs, mk(t, rng.choice((trie.root(), trie.root_hash())), nodes, POE), paths, what)
        offer(mon, vs, mk(t, trie.root_hash(), (), POE), paths, "without nodes")
    if near_poe:  # absent targets under another kind
        offer(mon, vs, mk(near_poe[0].target_key, near_poe[0].trie_root, near_poe[0].proof, POI), paths, "of the other kind")
    mon.state(trie.root_hash(), case["view"])


def run_small(case, mon):
    """Every stored key: root node plus every subset of the other path nodes."""
    secure, keys, storage, trie, model = T.small_build(case)
    if not model:
        return
    paths = {R.path_of(k, secure) for k in model}
    vs = [("a root-only view", RootEMPT(trie.root(), secure=secure))]
    for k in model:
        t = target_of(k, secure)
        tp = R.nibbles(t)
        own = forge.path_nodes(model, secure, tp)
        rest = own[1:6]
        for n in range(len(rest) + 1):
            for sub in itertools.combinations(rest, n):
                offer(mon, vs, mk(t, trie.root_hash(), own[:1] + list(sub) + [forge.null_leaf(tp)], POE), paths, "subset of its path")
                mon.saw("subsets_offered")
        offer(mon, vs, mk(t, trie.root_hash(), own + [forge.null_leaf(())], POE), paths, "its path")
        m2 = {a: b for a, b in model.items() if a != k}
        if m2:
            theirs = forge.path_nodes(m2, secure, tp)
            for nodes in (theirs, own[:1] + theirs[1:], own + theirs):
                offer(mon, vs, mk(t, trie.root_hash(), nodes + [forge.null_leaf(tp)], POE), paths, "of a trie without the key")
    for k in keys:
        if k not in model:
            p = trie.get_proof_of_exclusion(k)
            mon.check(offer(mon, vs, p, paths, "genuine"), "the genuine exclusion proof of %s is not accepted", T.hx(k))
            for s in model:
                offer(mon, vs, mk(target_of(s, secure), p.trie_root, p.proof, POE), paths, "re-targeted")
    mon.state(trie.root_hash())


SCENARIOS = [
    words.raw(lambda c, mon: run_case({**c, "view": c["seed"] % 3}, mon), 1),
    scenario("forge", gen_case, run_case, 350, 12000),
    scenario("deep", gen_case, run_case, 8, 300, sizes=(gen.DEEP,)),
    scenario("small", T.small_case, run_small, 1600, T.SMALL_CASES, enum=True),
]
