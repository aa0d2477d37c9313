"""C07: no inclusion proof is accepted for a key that is not stored."""
import random

from vlib import stores, gen, tries as T, ref_trie as R, views, forge, words
from vlib.core import scenario
from vlib.forge import POI, POE, mk
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT, SEMPT, REMPT

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: adversarial proof objects against a dictionary oracle (soundness of inclusion verification)"
LEVEL_NOTE = ("no forged, spliced, re-targeted or outdated inclusion proof among those constructed was accepted for an absent key or a "
              "foreign root; the adversary knows all nodes of several tries and may invent nodes; hash collisions excluded")
RULE = ("a case is a trie and a stream of proof objects built from genuine proofs, all nodes, other tries, older versions and invented "
        "nodes, offered to the trie and data-less verifiers; accepted is a violation unless the dictionary holds the target and "
        "the proof names the verifier's root; non-trivial when the target was absent or the root foreign")
REQUIRED = ["words_tried", "absent_target_offered", "foreign_root_offered", "other_kind_offered", "outdated_offered", "empty_offered",
            "genuine_accepted"]
ASSUMPTIONS = ["values non-empty", "keccak256 collision resistant"]


def offer(mon, verifiers, proof, stored_paths, roots, what):
    """Acceptance is only legal for a stored target under this very root."""
    path = R.nibbles(proof.target_key)
    legal = path in stored_paths and proof.trie_root in roots and proof.type == POI
    if path not in stored_paths:
        mon.saw("absent_target_offered")
        mon.mark()
    if proof.trie_root not in roots:
        mon.saw("foreign_root_offered")
        mon.mark()
    ok = False
    for name, v in verifiers:
        acc = T.accepted(v.verify_proof_of_inclusion, proof)
        mon.check(legal or not acc, "%s accepted an inclusion proof (%s) of %s, which is %s", name, what, T.hx(proof.target_key),
                  "stored, but the proof is for another root or of another kind" if path in stored_paths else "not stored")
        ok = ok or acc
    if ok:
        mon.saw("genuine_accepted")
    return ok


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.3)
    c["seed"] = rng.getrandbits(32)
    c["view"] = rng.randrange(3)
    return c


def target_of(k, secure):
    return R.keccak256(k) if secure else k


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    storage = stores.some(rng)
    trie = MPT(storage, secure=secure)
    model = {}
    history = []  # older genuine proofs
    for op in case["ops"]:
        T.apply(trie, model, op)
        if model and rng.random() < 0.3:
            k = rng.choice(list(model))
            history.append(trie.get_proof_of_inclusion(k))
    if not model:
        history and check_empty(mon, secure, history)
        return
    attack(mon, rng, case, trie, storage, model, keys, secure, history)


def check_empty(mon, secure, proofs):
    for v in (MPT({}, secure=secure), SparseEMPT(secure=secure), RootEMPT(MPT({}).root(), secure=secure), EMPT(secure=secure)):
        for p in proofs[:4]:
            mon.check(not T.accepted(v.verify_proof_of_inclusion, p), "an empty trie accepted an inclusion proof")
            mon.saw("empty_offered")


def attack(mon, rng, case, trie, storage, model, keys, secure, history, rounds=None):
    paths = {R.path_of(k, secure) for k in model}
    roots = (trie.root(), trie.root_hash())
    vs = [("the trie", trie),
          (("a root-only view", rng.choice((RootEMPT, REMPT))(trie.root(), secure=secure)),
           ("a sparse view", rng.choice((SparseEMPT, SEMPT))(trie_storage=dict(storage), root=trie.root(), secure=secure)),
           ("a trie without nodes", MPT({}, trie.root(), secure=secure)))[case["view"]]]
    stored = list(model)
    absent = [k for k in keys + gen.near_misses(rng, keys, 10) if k not in model]
    genuine = {k: trie.get_proof_of_inclusion(k) for k in rng.sample(stored, min(6, len(stored)))}
    root_enc, pool = forge.all_nodes(model, secure)
    everything = [root_enc] + pool
    # foreign tries: with an absent key, without a stored one, with another value
    foreign = []
    fm = dict(model)
    if absent:
        a = rng.choice(absent)
        fm[a] = b"smuggled in"
        foreign.append((fm, a))
    gm = dict(model)
    s = rng.choice(stored)
    gm[s] = gm[s] + b"!"
    foreign.append((gm, s))
    hm = {k: v for k, v in model.items() if k != s}
    if hm:
        foreign.append((hm, rng.choice(list(hm))))
    foreign_pool = []
    for m, k in foreign:
        fs = {}
        ft = MPT(fs, secure=secure)
        for kk, v in m.items():
            ft.update(kk, v)
        fp = ft.get_proof_of_inclusion(k)
        foreign_pool += list(fp.proof)
        offer(mon, vs, fp, paths, roots, "of another trie")
        for r in roots:
            offer(mon, vs, mk(fp.target_key, r, fp.proof, POI), paths, roots, "of another trie under this root")
            offer(mon, vs, mk(fp.target_key, r, [root_enc] + list(fp.proof), POI), paths, roots, "of another trie behind this root node")
            offer(mon, vs, mk(fp.target_key, r, [root_enc] + list(fp.proof)[1:], POI), paths, roots, "of another trie with this root node")
            offer(mon, vs, mk(fp.target_key, r, everything + list(fp.proof), POI), paths, roots, "of another trie after all nodes")
            offer(mon, vs, mk(fp.target_key, r, [root_enc] + list(fp.proof) + pool, POI), paths, roots, "of another trie before all nodes")
            if k not in model:
                pn = forge.path_nodes(model, secure, R.nibbles(fp.target_key))
                tail = list(fp.proof)[len(pn):]
                offer(mon, vs, mk(fp.target_key, r, pn + tail, POI), paths, roots, "own path, foreign end")
        # and the foreign proof with this trie's root in the claim only
        for v in (RootEMPT(ft.root(), secure=secure), ft):
            p = mk(fp.target_key, trie.root_hash(), fp.proof, POI)
            if trie.root_hash() != ft.root_hash():
                mon.check(not T.accepted(v.verify_proof_of_inclusion, p), "a proof claiming another root was accepted")
                mon.saw("foreign_root_offered")
    for p in history:
        if offer(mon, vs, p, paths, roots, "made at an older version") is False:
            mon.saw("outdated_offered")
        offer(mon, vs, mk(p.target_key, trie.root(), p.proof, POI), paths, roots, "made at an older version, root replaced")
        offer(mon, vs, mk(p.target_key, trie.root(), [root_enc] + list(p.proof), POI), paths, roots, "made at an older version, root node added")
    if history:
        check_empty(mon, secure, history)
    check_empty(mon, secure, list(genuine.values()))
    # honest ones are the base everything else is derived from
    for k, p in genuine.items():
        mon.check(offer(mon, vs, p, paths, roots, "genuine"), "the genuine proof of %s is not accepted", T.hx(k))
        for other in (b"", R.EMPTY_ROOT, rng.randbytes(32), trie.root_hash()[:31], trie.root_hash() + b"\0",
                      forge.flip_bit(rng, trie.root_hash())):
            offer(mon, vs, mk(p.target_key, other, p.proof, POI), paths, roots, "claiming another root")
        q = mk(p.target_key, p.trie_root, p.proof, POE)
        offer(mon, vs, q, paths, roots, "of the other kind")
        mt = mk(p.target_key, p.trie_root, p.proof, b"MT-POI")
        offer(mon, vs, mt, paths, roots, "of the other kind")
        mon.saw("other_kind_offered", 2)
    # re-targeted, rearranged, forged
    targets = [target_of(k, secure) for k in absent]
    targets += [x for x in ([k for k in stored] if secure else [R.keccak256(k) for k in stored]) if R.nibbles(x) not in paths]
    targets += [t[:-1] for t in list(map(lambda k: target_of(k, secure), stored))[:3] if t]
    targets += [t + b"\x00" for t in list(map(lambda k: target_of(k, secure), stored))[:3]]
    rng.shuffle(targets)
    gl = list(genuine.values())
    for t in targets[:14]:
        tp = R.nibbles(t)
        near = forge.path_nodes(model, secure, tp)
        bases = [near, everything, list(rng.choice(gl).proof)]
        for b in bases:
            offer(mon, vs, mk(t, trie.root(), b, POI), paths, roots, "re-targeted")
        for _ in range(6):
            what, nodes = forge.shape(rng, rng.choice(bases), pool + foreign_pool, tp, POI)
            offer(mon, vs, mk(t, rng.choice(roots), nodes, POI), paths, roots, "re-targeted, " + what)
        offer(mon, vs, mk(t, trie.root(), near + [forge.forged_leaf(rng, tp)], POI), paths, roots, "with an invented leaf")
        offer(mon, vs, mk(t, trie.root(), near + [forge.null_leaf(tp)], POI), paths, roots, "with a null leaf")
        forged = [forge.forged_node(rng, x, tp) for x in near]
        offer(mon, vs, mk(t, trie.root(), near + forged, POI), paths, roots, "with invented nodes")
        offer(mon, vs, mk(t, R.keccak256(forged[0]), forged + near, POI), paths, roots, "with an invented root")
        offer(mon, vs, mk(t, trie.root(), forged + near, POI), paths, roots, "with an invented root node first")
        px = T.attempt(trie.get_proof_of_exclusion, rng.choice(absent)) if absent else None
        if px is not None and not T.raised(px):
            offer(mon, vs, px, paths, roots, "an exclusion proof")
            offer(mon, vs, mk(t, trie.root(), px.proof, POI), paths, roots, "the nodes of an exclusion proof")
            offer(mon, vs, mk(t, trie.root(), px.proof[:-1], POI), paths, roots, "the nodes of an exclusion proof without its end")
            mon.saw("other_kind_offered")
    for p in gl:
        for _ in range(4):
            what, nodes = forge.shape(rng, p.proof, pool + foreign_pool, R.nibbles(p.target_key), POI)
            offer(mon, vs, mk(p.target_key, rng.choice(roots + (rng.randbytes(32),)), nodes, POI), paths, roots, what)
    offer(mon, vs, mk(targets[0] if targets else b"", trie.root(), (), POI), paths, roots, "without nodes")
    mon.state(trie.root_hash(), case["view"])


def run_small(case, mon):
    """All absent keys of enumerated contents against every genuine proof."""
    secure, keys, storage, trie, model = T.small_build(case)
    if not model:
        return
    paths = {R.path_of(k, secure) for k in model}
    roots = (trie.root(), trie.root_hash())
    vs = [("the trie", trie), ("a root-only view", RootEMPT(trie.root(), secure=secure))]
    rng = random.Random(case["mask"])
    proofs = [trie.get_proof_of_inclusion(k) for k in model]
    root_enc, pool = forge.all_nodes(model, secure)
    for p in proofs[:1]:
        mon.check(offer(mon, vs, p, paths, roots, "genuine"), "the genuine proof is not accepted")
    absent = [k for k in keys if k not in model]
    for k in absent + gen.near_misses(rng, absent or keys, 2):
        t = target_of(k, secure)
        for p in proofs:
            offer(mon, vs, mk(t, trie.root(), p.proof, POI), paths, roots, "re-targeted")
        offer(mon, vs, mk(t, trie.root(), [root_enc] + pool, POI), paths, roots, "all nodes")
        offer(mon, vs, mk(t, trie.root(), forge.path_nodes(model, secure, R.nibbles(t)), POI), paths, roots, "the nodes on its path")
    # the full trie of the universe as the adversary's trie
    full = {k: T.small_value(case["pattern"], i) for i, k in enumerate(keys)}
    froot, fpool = forge.all_nodes(full, secure)
    for k in absent:
        t = target_of(k, secure)
        own = forge.path_nodes(model, secure, R.nibbles(t))
        theirs = forge.path_nodes(full, secure, R.nibbles(t))
        for nodes in (theirs, own + theirs, own[:1] + theirs[1:], own + theirs[len(own):], [root_enc] + pool + [froot] + fpool):
            for r in roots:
                offer(mon, vs, mk(t, r, nodes, POI), paths, roots, "spliced from two tries")
    if len(model) < len(keys):
        other = MPT({}, secure=secure)
        for k, v in full.items():
            other.update(k, v)
        for k in keys[::2]:
            offer(mon, vs, other.get_proof_of_inclusion(k), paths, roots, "of another trie")
    mon.state(trie.root_hash())


SCENARIOS = [
    words.raw(lambda c, mon: run_case({**c, "view": c["seed"] % 3}, mon), 1),
    scenario("forge", gen_case, run_case, 420, 15000),
    scenario("deep", gen_case, run_case, 12, 300, sizes=(gen.DEEP,)),
    scenario("small", T.small_case, run_small, 900, T.SMALL_CASES, enum=True),
]
