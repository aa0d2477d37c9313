"""C04: node storage is written content-addressed and append-only."""
import random

from vlib import gen, tries as T, ref_trie as R, longlife
from vlib.core import scenario, Violation
from vlib.stores import Watching, WatchingDict
from pymt.mpt import MPT

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: instrumented get/set-only storage, invariant checked on every write and a reachability walk"
LEVEL_NOTE = ("an online monitor inside the caller's storage checks every single write; reachability is walked with an "
              "independent RLP decoder after every operation and, for small tries, at every write")
RULE = ("a case is a history of puts, deletes, failing deletes, reads, proofs and verifications on a storage that offers only item "
        "get and item set, or on a dict that is compared with its earlier entries after every operation; every write is checked (32-byte key = keccak256 of the value, value a well-formed node, no entry "
        "overwritten with something else) and everything below the current root is loaded after each operation; non-trivial when "
        "at least one node was written")
REQUIRED = ["writes_observed", "reads_observed", "reachability_walks", "walks_during_writes", "dict_storages", "getset_storages", "operations_of_long_lives"]
ASSUMPTIONS = ["values non-empty"]


def well_formed(mon, enc):
    try:
        node = R.rlp_decode(enc)
    except Exception as e:
        raise Violation("stored bytes are not RLP: %r (%s)" % (bytes(enc)[:80], e))
    ok = isinstance(node, list) and len(node) in (2, 17)
    mon.check(ok, "stored bytes are not a node: %r", node)
    if len(node) == 2:
        try:
            R.hp_decode(node[0])
        except Exception:
            raise Violation("stored node has a malformed path: %r" % (node,))
    mon.check(R.rlp_encode(node) == bytes(enc), "stored node is not canonically encoded")


def reachable(mon, trie, storage, model, secure):
    """Everything below the current root is present and is the contents."""
    d = storage._d
    try:
        got = dict(R.walk(trie.root(), d.__getitem__))
    except KeyError as e:
        raise Violation("a node below the current root is missing: %s" % e)
    except R.BadRlp as e:
        raise Violation("a node below the current root is malformed: %s" % e)
    mon.saw("reachability_walks")
    if model is not None:
        want = {R.path_of(k, secure): v for k, v in model.items()}
        mon.check(got == want, "the stored nodes below the root hold %d entries, expected %d (or other values)", len(got), len(want))


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.35, big=True)
    c["seed"] = rng.getrandbits(32)
    c["dict"] = rng.random() < 0.4
    return c


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    box = {"trie": None, "budget": 60}

    def on_get(st, k):
        mon.saw("reads_observed")

    def on_set(st, k, v):
        mon.saw("writes_observed")
        mon.check(isinstance(k, (bytes, bytearray)) and len(k) == 32, "written under the key %r", k)
        mon.check(isinstance(v, (bytes, bytearray)), "stored a %s instead of encoded bytes", type(v).__name__)
        mon.check(R.keccak256(v) == bytes(k), "entry %s is not the hash of the bytes stored there", bytes(k).hex())
        well_formed(mon, v)
        if k in st._d:
            mon.saw("rewrites_observed")
            mon.check(st._d[k] == v, "entry %s was overwritten with something else", bytes(k).hex())
        mon.mark()
        if box["trie"] is not None and box["budget"] > 0:
            box["budget"] -= 1
            reachable(mon, box["trie"], st, None, secure)
            mon.saw("walks_during_writes")

    storage = (WatchingDict if case.get("dict") else Watching)(on_get, on_set)
    mon.saw("dict_storages" if case.get("dict") else "getset_storages")
    trie = MPT(storage, secure=secure)
    box["trie"] = trie
    model = {}
    proofs = []
    snapshot = dict(storage._d)
    for i, op in enumerate(case["ops"]):
        T.apply(trie, model, op, syntax=bool(i & 1))
        for k in snapshot:
            if storage._d.get(k) != snapshot[k]:
                raise Violation("entry %s was removed or changed" % k.hex())
        snapshot = dict(storage._d)
        reachable(mon, trie, storage, model, secure)
        mon.state(trie.root_hash(), len(snapshot))
        k = rng.choice(keys)
        r = rng.randrange(6)
        if r == 0:
            T.attempt(trie.get, k)
            trie.contains(k)
        elif r == 1 and model:
            p = T.attempt(trie.get_proof_of_inclusion, k)
            if not T.raised(p):
                proofs.append(p)
                mon.check(trie.verify_proof_of_inclusion(p), "inclusion proof not verified on a get/set storage")
        elif r == 2 and model:
            p = T.attempt(trie.get_proof_of_exclusion, k)
            if not T.raised(p):
                proofs.append(p)
                mon.check(trie.verify_proof_of_exclusion(p), "exclusion proof not verified on a get/set storage")
        elif r == 3 and proofs:
            p = rng.choice(proofs)
            T.attempt(trie.verify_proof_of_inclusion, p)
            T.attempt(trie.verify_proof_of_exclusion, p)
        elif r == 4:
            for k in gen.near_misses(rng, keys, 2):
                if k not in model:
                    T.attempt(trie.delete, k)
    reachable(mon, trie, storage, model, secure)
    for k in keys:
        T.check_key(mon, trie, model, k, secure, 7)
    # a working proof for every key over a storage with item get/set only
    if model:
        for k in keys[:8]:
            if k in model:
                p = trie.get_proof_of_inclusion(k)
                mon.check(trie.verify_proof_of_inclusion(p), "inclusion proof not verified on a get/set storage")
            else:
                p = trie.get_proof_of_exclusion(k)
                mon.check(trie.verify_proof_of_exclusion(p), "exclusion proof not verified on a get/set storage")
    for k in list(model):
        trie.delete(k)
        del model[k]
        if len(model) % 4 == 0:
            reachable(mon, trie, storage, model, secure)
    for k in snapshot:
        if storage._d.get(k) != snapshot[k]:
            raise Violation("entry %s was removed or changed by deletes" % k.hex())
    # sharing with other versions: everything that was ever written is still the node of its hash
    for k, v in storage._d.items():
        mon.check(R.keccak256(v) == k, "a stored entry changed in place")


def run_small(case, mon):
    """Every single operation from every enumerated contents."""
    secure, keys, storage, trie, model = T.small_build(case)
    root = trie.root()
    for i, k in enumerate(keys):
        for kind in (0, 1, 2):
            if kind == 2 and k not in model:
                continue
            before = dict(storage)

            def on_set(st, kk, v):
                mon.saw("writes_observed")
                mon.check(R.keccak256(v) == bytes(kk), "entry %s is not the hash of the bytes stored there", bytes(kk).hex())
                well_formed(mon, v)
                mon.check(kk not in st._d or st._d[kk] == v, "entry overwritten")
                mon.mark()

            st = (Watching, WatchingDict)[(i + kind + case["mask"]) % 2](None, on_set, before)
            t = MPT(st, root, secure=secure)
            m = dict(model)
            T.apply(t, m, ("del", k) if kind == 2 else ("put", k, b"\x05" if kind == 0 else b"a new value that is longer than 32 bytes!"))
            for kk in before:
                mon.check(st._d.get(kk) == before[kk], "entry removed or changed")
            reachable(mon, t, st, m, secure)
            mon.state(t.root_hash())


def run_long(case, mon):
    """Nothing written is ever lost, however many writes follow."""
    seen = {}

    def on_set(st, k, v):
        mon.saw("writes_observed")
        mon.check(isinstance(k, bytes) and R.keccak256(v) == k, "entry %r is not the hash of the bytes stored there", k)
        seen[k] = bytes(v)

    storage = (WatchingDict if case["seed"] % 2 else Watching)(lambda st, k: None, on_set)
    trie, secure = MPT(storage, secure=case["secure"]), case["secure"]

    def each(i, op, model, keys):
        T.check_key(mon, trie, model, op[1], secure)

    def rare(i, model, keys):
        d = storage._d
        mon.check(len(d) == len(seen) and all(d.get(k) == v for k, v in seen.items()), "of %d entries written %d are left, or some are changed, after %d operations", len(seen), len(d), i + 1)
        reachable(mon, trie, storage, model, secure)

    longlife.live(case, mon, trie, each, rare)


SCENARIOS = [
    scenario("history", gen_case, run_case, 900, 50000),
    scenario("deep", gen_case, run_case, 12, 400, sizes=(gen.DEEP,)),
    scenario("small", T.small_case, run_small, 800, T.SMALL_CASES, enum=True),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
