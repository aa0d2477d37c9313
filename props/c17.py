"""C17: Merkle proofs that do not chain to the current root are rejected."""
import random

from vlib import gen, tries as T, ref_merkle as M, words
from vlib.core import scenario
from props.c15 import leaf_value, new
from pymt.proof import Proof

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: altered, foreign and outdated proofs are presented, every acceptance is judged by independent hashing"
LEVEL_NOTE = ("no presented proof was accepted unless its siblings hash to the claimed and current root; the second-preimage weakness of "
              "the undifferentiated hash tree (interior values accepted as leaves) is a known finding")
RULE = ("a case is a tree (any hash type, mode, size) and proofs altered in target, sibling, side, order, length or claimed root, from "
        "other trees, or from earlier states of the same tree, shown to MerkleTree and MerkleTools verifiers; non-trivial when an "
        "altered proof was judged")
REQUIRED = ["words_tried", "altered_rejected", "foreign_rejected", "outdated_rejected", "alter_target", "alter_sibling", "alter_side", "alter_order",
            "alter_drop", "alter_add", "alter_root", "alter_empty", "alter_malformed", "genuine_accepted", "tools_rejected",
            "other_hash_type", "other_mode", "empty_tree_rejected", "second_preimage_tried", "alter_wrongkind"]
ASSUMPTIONS = ["the hash functions are collision resistant on the generated inputs (MD5 included)"]


def build(cls, leaves, secure, h, made=True):
    t = new(cls, secure, h)
    for v in leaves:
        t.add_leaf(v)
    if made:
        t.make_tree()
    return t


def unhex(b):
    return bytes.fromhex(b.decode() if isinstance(b, bytes) else b)


def chains(proof, secure, h):
    """The digest the proof's siblings lead to, None when it is no chain."""
    try:
        sibs = []
        for s, d in proof.proof:
            s = s.decode()
            if s not in ("left", "right"):
                return None
            sibs.append((s, unhex(d)))
        return M.fold(M.leaf(proof.target_key, secure, h), sibs, h)
    except Exception:
        return None


def judge(mon, t, proof, leaves, secure, h, what):
    """leaves: what the verifying tree holds now."""
    ok = T.accepted(t.verify_proof_of_inclusion, proof)
    if not ok:
        mon.saw("altered_rejected")
        return False
    root = M.root(leaves, secure, h) if leaves else None
    c = chains(proof, secure, h)
    mon.check(root is not None, "%s: accepted by a tree without leaves", what)
    mon.check(proof.trie_root.lower().strip() == root.hex().encode(), "%s: accepted although it claims another root than the tree's", what)
    mon.check(c == root, "%s: accepted although its siblings do not lead to the root", what)
    if proof.target_key not in leaves:
        mon.known_finding("second-preimage", "an interior node value is accepted as a leaf")
    return True


def flip(rng, b):
    x = bytearray(b or b"\x00")
    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
    return bytes(x)


def alter(rng, mon, p, others, leaves):
    """A changed copy of a genuine proof; never built from interior nodes."""
    target, root, sibs, typ = p.target_key, p.trie_root, list(p.proof), p.type
    for _ in range(rng.choice((1, 1, 1, 2))):
        how = rng.choice(("target", "target", "sibling", "sibling", "side", "order", "drop", "add", "root", "empty", "malformed", "wrongkind"))
        if how == "target":
            r = rng.randrange(6)
            target = (target + rng.choice((b"\x00", b" ", b"x")) if r == 0 else target[:-1] if r == 1 and target else
                      flip(rng, target) if r == 2 and target else rng.choice(leaves) if r == 3 else rng.choice(others).target_key if r == 4 else gen.value(rng))
        elif how == "sibling" and sibs:
            i = rng.randrange(len(sibs))
            s, d = sibs[i]
            raw = unhex(d)
            r = rng.randrange(7)
            raw = (flip(rng, raw) if r < 2 and raw else raw[:-1] if r == 2 else raw + b"\x00" if r == 3 else rng.randbytes(len(raw)) if r == 4 else
                   unhex(rng.choice(sibs)[1]) if r == 5 else b"")
            sibs[i] = (s, raw.hex().encode())
        elif how == "side" and sibs:
            for i in ([rng.randrange(len(sibs))] if rng.random() < 0.8 else range(len(sibs))):
                sibs[i] = (b"left" if sibs[i][0] == b"right" else b"right", sibs[i][1])
        elif how == "order" and len(sibs) > 1:
            i, j = rng.sample(range(len(sibs)), 2)
            sibs[i], sibs[j] = sibs[j], sibs[i]
            if rng.random() < 0.3:
                sibs.reverse()
        elif how == "drop" and sibs:
            del sibs[rng.choice((0, -1, rng.randrange(len(sibs))))]
        elif how == "add":
            e = rng.choice(sibs) if sibs and rng.random() < 0.5 else (rng.choice((b"left", b"right")), rng.randbytes(len(root) // 2).hex().encode())
            sibs.insert(rng.choice((0, len(sibs), rng.randrange(len(sibs) + 1))), e)
        elif how == "root":
            o = rng.choice(others)
            r = rng.randrange(5)
            root = (o.trie_root if r == 0 else flip(rng, unhex(p.trie_root)).hex().encode() if r == 1 else b"" if r == 2 else root[:-2] if r == 3 else
                    M.h("sha256", target).hex().encode())
        elif how == "empty":
            sibs = []
        elif how == "malformed":
            e = rng.choice([(b"up", root), (b"", root), (b"left", b"zz"), (b"left", b"abc"), (b"left",), (), b"left", (b"\xff", root), (b"right", b"\xff"), ("left", "00"), None])
            if sibs and rng.random() < 0.6:
                sibs[rng.randrange(len(sibs))] = e
            else:
                sibs.insert(rng.randrange(len(sibs) + 1), e)
        elif how == "wrongkind":
            root, typ = rng.choice(((root, b"MT-POI"), (b"not hex", typ), (unhex(p.trie_root), typ), (p.trie_root, b"MPT-POE")))
            sibs = sibs if rng.random() < 0.5 else sibs[:-1]
        else:
            continue
        mon.saw("alter_" + how)
        if how == "malformed":
            break
    return Proof(target, root, tuple(sibs), typ)


def gen_case(rng, size):
    n = {1: rng.randrange(1, 9), 2: rng.randrange(2, 20), 3: rng.randrange(9, 70)}[size]
    pool = [gen.value(rng), gen.shaped(rng)]
    secure, h = rng.random() < 0.6, rng.choice(M.HASHES)
    vals = M.nested(rng, n, secure, h) if rng.random() < 0.15 else []
    for _ in range(n - len(vals)):
        v = leaf_value(rng, pool)
        vals.append(v if len(v) < 16 or rng.random() < 0.7 else v[:15])
    return {"leaves": vals, "secure": secure, "hash": h, "seed": rng.getrandbits(32), "n": rng.randrange(20, 60)}


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, h = case["secure"], case["hash"]
    leaves = list(case["leaves"])
    t = build(0, leaves, secure, h)
    other_leaves = [b"other %d" % i for i in range(rng.randrange(1, 9))] + leaves[:1]
    o = build(0, other_leaves, secure, h)
    own = [t.get_proof_of_inclusion(v) for v in (leaves if len(leaves) < 6 else rng.sample(leaves, 6))]
    foreign = [o.get_proof_of_inclusion(v) for v in other_leaves]
    mon.mark()
    for p in own:
        mon.check(judge(mon, t, p, leaves, secure, h, "a genuine proof"), "a genuine proof is refused")
        mon.saw("genuine_accepted")
    for p in foreign:
        judge(mon, t, p, leaves, secure, h, "a proof of another tree")
        q = Proof(p.target_key, own[0].trie_root, p.proof, p.type)
        judge(mon, t, q, leaves, secure, h, "a proof of another tree with this root")
        q = Proof(p.target_key, p.trie_root, own[0].proof, p.type)
        judge(mon, t, q, leaves, secure, h, "a proof with the siblings of another")
        mon.saw("foreign_rejected")
    h2 = rng.choice([x for x in M.HASHES if x != h])
    for p in own[:2]:
        judge(mon, build(0, leaves, secure, h2), p, leaves, secure, h2, "a proof of a tree with another hash type")
        mon.saw("other_hash_type")
        judge(mon, build(0, leaves, not secure, h), p, leaves, not secure, h, "a proof of a tree of the other mode")
        mon.saw("other_mode")
        mon.check(not T.accepted(new(0, secure, h).verify_proof_of_inclusion, p), "an empty tree accepted a proof")
        e = build(0, [], secure, h)
        mon.check(not T.accepted(e.verify_proof_of_inclusion, p), "an empty built tree accepted a proof")
        mon.saw("empty_tree_rejected")
    mon.check(not T.accepted(t.verify_proof_of_inclusion, own[0].proof), "something that is no Proof was accepted")
    for _ in range(case["n"]):
        p = alter(rng, mon, rng.choice(own), own + foreign, leaves)
        judge(mon, t, p, leaves, secure, h, "an altered proof")
        mon.state(p.target_key, p.trie_root, repr(p.proof))
    # outdated: the same tree after it changed
    old_root = M.root(leaves, secure, h)
    for step in range(3):
        t.add_leaf(b"appended %d" % step)
        leaves.append(b"appended %d" % step)
        if rng.random() < 0.5:
            t.make_tree()
        for p in own:
            judge(mon, t, p, leaves, secure, h, "an outdated proof")
            q = Proof(p.target_key, M.root(leaves, secure, h).hex().encode(), p.proof, p.type)
            judge(mon, t, q, leaves, secure, h, "an outdated proof with the current root")
            mon.saw("outdated_rejected")
        t.make_tree()
        now = t.get_proof_of_inclusion(leaves[0])
        mon.check(judge(mon, t, now, leaves, secure, h, "a new proof"), "a genuine proof is refused after the tree changed")
        judge(mon, t, Proof(leaves[0], old_root.hex().encode(), now.proof, b"MT-POI"), leaves, secure, h, "a new proof for the old root")
    t.reset_tree()
    for p in own + [now]:
        mon.check(not T.accepted(t.verify_proof_of_inclusion, p), "a reset tree accepted a proof")
        mon.saw("outdated_rejected")
    rest = case["leaves"][::-1] + [b"z"]
    for v in rest:
        t.add_leaf(v)
    for p in own:
        judge(mon, t, p, rest, secure, h, "a proof from before a reset")


def run_tools(case, mon):
    """MerkleTools: accepted exactly for chains to the given root."""
    rng = random.Random(case["seed"])
    secure, h, leaves = case["secure"], case["hash"], case["leaves"]
    t = build(1, leaves, secure, h)
    root = M.root(leaves, secure, h)
    mon.mark()
    for _ in range(case["n"]):
        v = rng.choice(leaves)
        proof = t.get_proof_of_inclusion(v)
        target, claimed = M.leaf(v, secure, h), root
        sibs = [list(x.items())[0] for x in proof]
        r = rng.randrange(9)
        if r == 0 and target:
            target = flip(rng, target)
        elif r == 1:
            target = M.leaf(rng.choice(leaves + [b"absent"]), secure, h)
        elif r == 2 and sibs:
            i = rng.randrange(len(sibs))
            raw = bytes.fromhex(sibs[i][1])
            sibs[i] = (sibs[i][0], (flip(rng, raw) if raw and rng.random() < 0.7 else raw + b"\x01").hex())
        elif r == 3 and sibs:
            i = rng.randrange(len(sibs))
            sibs[i] = ("left" if sibs[i][0] == "right" else "right", sibs[i][1])
        elif r == 4 and sibs:
            del sibs[rng.randrange(len(sibs))]
        elif r == 5:
            sibs.insert(rng.randrange(len(sibs) + 1), (rng.choice(("left", "right")), rng.randbytes(len(root)).hex()))
        elif r == 6:
            claimed = rng.choice((flip(rng, root) if root else b"x", root + b"\x00", root[:-1], b""))
        elif r == 7 and len(sibs) > 1:
            sibs.reverse()
        elif r == 8:
            e = rng.choice([{"up": "00"}, {}, {"left": "zz"}, {"right": "z"}, {"left": None}, None, "left"])
            ds = [{s: d} for s, d in sibs]
            ds.insert(rng.randrange(len(ds) + 1), e)
            try:
                ok = bool(t.verify_proof_of_inclusion(ds, target, claimed))
            except Exception:
                ok = False
            mon.check(not ok, "a malformed proof %r was accepted", ds)
            mon.saw("tools_rejected")
            continue
        try:
            ok = bool(t.verify_proof_of_inclusion([{s: d} for s, d in sibs], target, claimed))
        except Exception:
            ok = False
        want = M.fold(target, [(s, bytes.fromhex(d)) for s, d in sibs], h) == claimed
        mon.check(ok is want, "a proof that does%s lead to the given root was %s", "" if want else " not", "accepted" if ok else "refused")
        mon.saw("genuine_accepted" if want else "tools_rejected")
        mon.state(target, claimed, sibs)


def run_preimage(case, mon):
    """The tree does not tell leaves from interior nodes (known finding):
    values made of interior nodes; anything else accepted is a violation."""
    secure, h, leaves = case["secure"], case["hash"], [b"leaf %d" % i + v[:8] for i, v in enumerate(case["leaves"])]
    while len(leaves) < 4:
        leaves.append(b"more %d" % len(leaves))
    t = build(0, leaves, secure, h)
    p = t.get_proof_of_inclusion(leaves[0])
    root = p.trie_root
    lv = M.levels(leaves, secure, h)
    mon.mark()
    for depth in range(1, len(lv)):
        sibs = p.proof[depth:]
        if secure:
            target = lv[depth - 1][0] + lv[depth - 1][1]
        else:
            target = lv[depth][0]
        judge(mon, t, Proof(target, root, sibs, b"MT-POI"), leaves, secure, h, "an interior node as a leaf")
        mon.saw("second_preimage_tried")
        # near misses of it must fail
        judge(mon, t, Proof(target + b"\x00", root, sibs, b"MT-POI"), leaves, secure, h, "an altered interior node as a leaf")
        judge(mon, t, Proof(target, root, sibs[1:], b"MT-POI"), leaves, secure, h, "an interior node as a leaf with a short proof") if sibs else None
    mon.state(root)


def words_cases(w, i):
    h = M.HASHES[i % len(M.HASHES)]
    for leaves in ([w], [w, b"other", w], [b"a", w, b"b", w + b"x", w[:-1], b"c"]):
        yield {"leaves": leaves, "secure": bool(i & 2), "hash": h, "seed": i, "n": 20}


SCENARIOS = [
    words.each(run_case, words_cases),
    scenario("altered", gen_case, run_case, 8000, 250000),
    scenario("tools", gen_case, run_tools, 8000, 250000),
    scenario("second_preimage", gen_case, run_preimage, 1500, 20000),
]
