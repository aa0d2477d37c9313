"""Adversarial proof objects for Patricia tries.

Everything an adversary could put together who knows all nodes of the trie, of
other tries and of older versions, and who can make up nodes."""
from . import ref_trie as R

from pymt.proof import Proof

POI, POE = b"MPT-POI", b"MPT-POE"


def mk(target, root, nodes, typ):
    return Proof(target_key=bytes(target), root_hash=bytes(root), proof=tuple(nodes), proof_type=typ)


def all_nodes(contents, secure):
    """(root encoding, other encodings incl. embedded ones) of the canonical trie."""
    nodes = {}
    root = R.build({R.path_of(k, secure): v for k, v in contents.items()}, nodes)
    if root is None:
        return None, []
    out = [e for e in nodes.values() if e != root]
    # embedded nodes, on their own
    todo = [R.rlp_decode(root)] + [R.rlp_decode(e) for e in out]
    emb = []
    while todo:
        n = todo.pop()
        kids = n[:16] if len(n) == 17 else [n[1]]
        for k in kids:
            if isinstance(k, list):
                emb.append(R.rlp_encode(k))
                todo.append(k)
    return root, out + emb


def path_nodes(contents, secure, path):
    """Encodings of the nodes from the root along a nibble path (hashed and
    embedded), as far as the trie goes."""
    nodes = {}
    root = R.build({R.path_of(k, secure): v for k, v in contents.items()}, nodes)
    out = []
    if root is None:
        return out
    cur = R.rlp_decode(root)
    path = tuple(path)
    while True:
        out.append(R.rlp_encode(cur))
        if len(cur) == 17:
            if not path:
                return out
            nxt, path = cur[path[0]], path[1:]
        else:
            p, leaf = R.hp_decode(cur[0])
            if leaf or path[: len(p)] != p:
                return out
            nxt, path = cur[1], path[len(p):]
        if nxt == b"":
            return out
        cur = nxt if isinstance(nxt, list) else R.rlp_decode(nodes[nxt])


def forged_leaf(rng, path):
    i = rng.randrange(len(path) + 1)
    return R.rlp_encode([R.hp_encode(path[i:], True), rng.choice((b"null", b"x", b"forged" * 8, b"1"))])


def null_leaf(path):
    return R.rlp_encode([R.hp_encode(path, True), b"null"])


def forged_node(rng, enc, path):
    """A node of the trie with something changed in it."""
    n = R.rlp_decode(enc)
    if len(n) == 17:
        i = rng.randrange(17)
        if i == 16:
            n[16] = rng.choice((b"", b"forged"))
        elif n[i] == b"":
            leaf = R.rlp_encode([R.hp_encode(path[-1:], True), b"forged" * 8])
            n[i] = rng.choice((R.keccak256(leaf), [R.hp_encode(path[-2:], True), b"f"]))
        else:
            n[i] = rng.choice((b"", [R.hp_encode(path[:3], True), b"f"]))
    else:
        p, leaf = R.hp_decode(n[0])
        r = rng.randrange(4)
        if r == 0:
            n[0] = R.hp_encode(path[len(path) - len(p):] if len(p) <= len(path) else p, leaf)
        elif r == 1:
            n[0] = R.hp_encode(p, not leaf)
        elif r == 2:
            n[0] = R.hp_encode(p[:-1] if len(p) > 1 else p + (1,), leaf)
        elif isinstance(n[1], bytes):
            n[1] = n[1] + b"!" if leaf else R.keccak256(n[1])
    return R.rlp_encode(n)


def flip_bit(rng, enc):
    b = bytearray(enc)
    i = rng.randrange(len(b) * 8)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def shape(rng, nodes, pool, path, typ):
    """Rearrange a list of nodes in some way; returns (what, nodes)."""
    nodes = list(nodes)
    r = rng.randrange(13)
    if r == 0 or len(nodes) < 2:
        return "as is", nodes
    if r == 1:
        i = rng.randrange(len(nodes))
        del nodes[i]
        return "without node %d" % i, nodes
    if r == 2:
        i = rng.randrange(1, len(nodes))
        return "first %d nodes" % i, nodes[:i]
    if r == 3:
        i = rng.randrange(len(nodes))
        return "node %d twice" % i, nodes[:i] + [nodes[i]] + nodes[i:]
    if r == 4:
        head = nodes[:1]
        rest = nodes[1:]
        rng.shuffle(rest)
        return "shuffled", head + rest
    if r == 5:
        i = rng.randrange(len(nodes))
        nodes[i] = flip_bit(rng, nodes[i])
        return "bit flipped in node %d" % i, nodes
    if r == 6 and pool:
        return "with all nodes", nodes + [p for p in pool if p not in nodes]
    if r == 7 and pool:
        nodes.insert(rng.randrange(1, len(nodes) + 1), rng.choice(pool))
        return "foreign node inserted", nodes
    if r == 8 and pool:
        i = rng.randrange(len(nodes))
        nodes[i] = rng.choice(pool)
        return "node %d replaced" % i, nodes
    if r == 9:
        i = rng.randrange(len(nodes))
        nodes[i] = forged_node(rng, nodes[i], path)
        return "node %d forged" % i, nodes
    if r == 10:
        nodes.insert(rng.randrange(1, len(nodes) + 1), forged_leaf(rng, path))
        return "forged leaf inserted", nodes
    if r == 11:
        return "root node only", nodes[:1]
    return "forged leaf at the end", nodes[:-1] + [forged_leaf(rng, path)]
