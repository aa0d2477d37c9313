"""C24: trie nodes encode losslessly and are referenced by the 32-byte rule."""
from vlib import gen, ref_trie as R, tries as T, words
from vlib.core import scenario
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node, Leaf, Extension, Branch

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: nodes are built, encoded, decoded and referenced by the real code and by an independent RLP and hex-prefix implementation"
LEVEL_NOTE = "in the executed runs every node encoded to the independent encoding, decoded to an equal node of the same kind and was referenced by the 32-byte rule"
RULE = "a case is one node, one node at a chosen encoded size, or one nest of nodes down to eight levels; non-trivial always"
REQUIRED = ["words_tried", "leaf", "extension", "branch", "ref_inline", "ref_hash", "size_31", "size_32", "size_33", "child_embedded", "child_hashed", "nested_embedded",
            "empty_path", "branch_value", "branch_no_value", "bytearray_data", "empty_leaf_data", "without_data", "encoded_without_data"]
ASSUMPTIONS = ["children are references to nodes: 32-byte hashes or encodings of fewer than 32 bytes"]


def pbytes(n, front):
    full = [9] * front + list(n)
    if len(full) % 2:
        full = [3] + full
        front += 1
    return NibblePath(bytes(full[i] * 16 + full[i + 1] for i in range(0, len(full), 2)), front)


def nib_list(p):
    return tuple(p.at(i) for i in range(len(p)))


def raw_child(ref):
    """A reference as an RLP item: an embedded node is a list."""
    return R.rlp_decode(ref) if 0 < len(ref) < 32 else ref


def want_enc(node):
    k = node[0]
    if k == "leaf":
        return R.rlp_encode([R.hp_encode(node[1], True), bytes(node[2])])
    if k == "ext":
        return R.rlp_encode([R.hp_encode(node[1], False), raw_child(node[2])])
    return R.rlp_encode([raw_child(c) for c in node[1]] + [bytes(node[2] or b"")])


def make(node, front=0):
    k = node[0]
    if k == "leaf":
        return Leaf(pbytes(node[1], front), node[2])
    if k == "ext":
        return Extension(pbytes(node[1], front), node[2])
    if node[2] is None and front % 2:
        return Branch(list(node[1]))
    return Branch(list(node[1]), node[2])


def same(mon, got, node, what):
    k = node[0]
    kind = {"leaf": Leaf, "ext": Extension, "branch": Branch}[k]
    mon.check(type(got) is kind, "%s: a %s came back as a %s", what, k, type(got).__name__)
    if k == "branch":
        mon.check(len(got.branches) == 16 and [bytes(b) for b in got.branches] == [bytes(b) for b in node[1]], "%s: the children differ", what)
        mon.check(bytes(got.data or b"") == bytes(node[2] or b""), "%s: the value is %s instead of %s", what, T.hx(got.data), T.hx(node[2]))
        return
    mon.check(len(got.path) == len(node[1]) and nib_list(got.path) == tuple(node[1]), "%s: the path is %r instead of %r", what, nib_list(got.path), node[1])
    mon.check(got.path == pbytes(node[1], 0), "%s: the path is not equal", what)
    if k == "leaf":
        mon.check(bytes(got.data) == bytes(node[2]), "%s: the data is %s instead of %s", what, T.hx(got.data), T.hx(node[2]))
    else:
        mon.check(bytes(got.next_ref) == bytes(node[2]), "%s: the child is %s instead of %s", what, T.hx(got.next_ref), T.hx(node[2]))


def check_without_data(mon, got, node):
    """Everything but the data is the node's; the data is a marker."""
    k = node[0]
    if k == "ext":
        same(mon, got, node, "an extension decoded without data")
        return
    if k == "leaf":
        same(mon, got, (k, node[1], b"1"), "a leaf decoded without data")
    else:
        if not node[2]:  # a branch without a value: marker or nothing
            mon.check(bytes(got.data or b"") in (b"", b"1"), "a branch without value decoded without data has the value %s", T.hx(got.data))
            node = (k, node[1], got.data)
        else:
            node = (k, node[1], b"1")
        same(mon, got, node, "a branch decoded without data")
    mon.saw("without_data")


def check_node(mon, node, front=0):
    """node as literals; returns its reference."""
    want = want_enc(node)
    n = make(node, front)
    enc = n.encode()
    mon.check(isinstance(enc, bytes) and enc == want, "a %s node encodes to %s instead of %s", node[0], T.hx(enc), T.hx(want))
    same(mon, n, node, "after encoding")
    mon.check(n.encode() == want, "the second encoding differs")
    short = n.encode(include_data=False)
    mon.check(short == R.rlp_encode(R.rlp_decode(want)[:-1]), "encoded without data a %s node gives %s", node[0], T.hx(short))
    mon.check(n.encode(include_data=True) == want, "encoded with the data asked for it differs")
    mon.saw("encoded_without_data")
    for data in (enc, bytearray(enc)):
        d = Node.decode(data)
        same(mon, d, node, "decoded")
        mon.check(d.encode() == want, "the decoded node encodes differently")
        same(mon, d, node, "decoded and encoded")
        check_without_data(mon, Node.decode(data, include_data=False), node)
        same(mon, Node.decode(data, include_data=True), node, "decoded with the data asked for")
    ref = R.keccak256(want) if len(want) >= 32 else want
    for m in (n, d):
        got = Node.into_reference(m)
        mon.check(bytes(got) == ref, "the reference of a node of %d bytes is %s instead of %s", len(want), T.hx(got), T.hx(ref))
    same(mon, n, node, "after referencing")
    mon.check(n.encode() == want, "the encoding after referencing differs")
    mon.saw({"leaf": "leaf", "ext": "extension", "branch": "branch"}[node[0]])
    mon.saw("ref_inline" if len(want) < 32 else "ref_hash")
    if 30 <= len(want) <= 34:
        mon.saw("size_%d" % len(want))
    if node[0] == "leaf" and not node[1]:
        mon.saw("empty_path")
    if node[0] == "leaf" and not node[2]:
        mon.saw("empty_leaf_data")
    if node[0] == "branch":
        mon.saw("branch_value" if node[2] else "branch_no_value")
    if isinstance(node[-1], bytearray):
        mon.saw("bytearray_data")
    mon.state(want)
    return ref


def rpath(rng, least=0):
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 8, 15, 30, 31, 32, 63, 64, 65, 66, 130))
    return tuple(rng.choice((0, 15)) if rng.random() < 0.2 else rng.randrange(16) for _ in range(max(n, least)))


def rdata(rng, empty=True):
    d = gen.value(rng, big=rng.random() < 0.02, empty=empty)
    return bytearray(d) if rng.random() < 0.1 else d


def rref(rng):
    """A reference to some node."""
    if rng.random() < 0.5:
        return rng.choice((R.EMPTY_ROOT, b"\x00" * 32, b"\x80" * 32, b"\xc0" * 32)) if rng.random() < 0.15 else gen.rbytes(rng, 32)
    r = rng.random()
    if r < 0.7:
        n = ("leaf", tuple(rng.randrange(16) for _ in range(rng.randrange(9))), gen.rbytes(rng, rng.choice((1, 1, 2, 5, 20, 24))))
    elif r < 0.9:
        kids = [b""] * 16
        for _ in range(rng.randrange(3)):
            kids[rng.randrange(16)] = want_enc(("leaf", (), bytes([rng.randrange(256)])))
        n = ("branch", kids, rng.choice((None, b"v", b"\x80")))
    else:
        n = ("ext", (rng.randrange(16),), want_enc(("branch", [b""] * 16, b"x")))
    e = want_enc(n)
    return e if len(e) < 32 else R.keccak256(e)


def gen_single(rng, size):
    r = rng.random()
    if r < 0.4:
        node = ("leaf", rpath(rng), rdata(rng))
    elif r < 0.6:
        node = ("ext", rpath(rng, 1), rref(rng))
    else:
        p = rng.choice((0.0, 0.1, 0.3, 0.9, 1.0))
        node = ("branch", [rref(rng) if rng.random() < p else b"" for _ in range(16)], rng.choice((None, b"", 1)))
        if node[2] == 1:
            node = node[:2] + (rdata(rng),)
    return {"node": node, "front": rng.randrange(4)}


def run_single(case, mon):
    mon.mark()
    check_node(mon, tuple(case["node"]), case["front"])


# ---------------------------------------------- every size around the boundary
SIZES = 3 * 12 * 17 * 4


def gen_size(i):
    i = i * 1789 % SIZES
    kind, r = divmod(i, 12 * 17 * 4)
    target, r = divmod(r, 17 * 4)
    plen, fill = divmod(r, 4)
    return {"kind": kind, "size": 26 + target, "plen": plen, "fill": (0, 1, 0x80, 0xFF)[fill]}


def run_size(case, mon):
    """A node of the wanted encoded size, when there is one of this shape."""
    path = tuple((case["plen"] + i) % 16 for i in range(case["plen"]))
    mon.mark()
    for n in range(0, 40):
        data = bytes([case["fill"]]) * n
        if case["kind"] == 0:
            node = ("leaf", path, data)
        elif case["kind"] == 1:
            kids = [b""] * 16
            if case["plen"] < 16:
                kids[case["plen"]] = want_enc(("leaf", (), b"v"))
            node = ("branch", kids, data)
        else:
            leaf = want_enc(("leaf", (5,), data))
            if len(leaf) >= 32 or not path:
                break
            node = ("ext", path, leaf)
        if abs(len(want_enc(node)) - case["size"]) <= 1:
            check_node(mon, node, n % 3)


# ----------------------------------------------------------------------- nests
def gen_nest(rng, size):
    ops = []
    for _ in range(rng.randrange(2, 9)):
        ops.append((rng.choice(("ext", "branch", "branch")), tuple(rng.randrange(16) for _ in range(rng.choice((1, 1, 2, 3, 20)))),
                    rng.choice((None, None, b"v", gen.value(rng))), rng.randrange(16), rng.choice((0, 0, 1, 3))))
    return {"leaf": (tuple(rng.randrange(16) for _ in range(rng.choice((0, 0, 1, 2, 3, 40)))), gen.rbytes(rng, rng.choice((1, 1, 2, 3, 10, 30, 60)))), "ops": ops}


def run_nest(case, mon):
    """Build up from a leaf, then come down again through the references."""
    mon.mark()
    node = ("leaf", tuple(case["leaf"][0]), case["leaf"][1])
    ref = check_node(mon, node)
    levels = [node]
    by_hash = {R.keccak256(want_enc(node)): want_enc(node)}
    slots = []
    for kind, path, value, slot, others in case["ops"]:
        if kind == "ext":
            node = ("ext", tuple(path), ref)
        else:
            kids = [b""] * 16
            for i in range(others):
                kids[(slot + 1 + 3 * i) % 16] = want_enc(("leaf", (i,), b"o"))
            kids[slot] = ref
            node = ("branch", kids, value)
        ref = check_node(mon, node, slot % 3)
        slots.append(slot)
        levels.append(node)
        by_hash[R.keccak256(want_enc(node))] = want_enc(node)
    embedded = 0
    for i in range(len(levels) - 1, -1, -1):
        enc = ref if len(ref) < 32 else by_hash[bytes(ref)]
        got = Node.decode(enc)
        same(mon, got, levels[i], "level %d reached from the top" % i)
        mon.check(got.encode() == want_enc(levels[i]), "level %d encodes differently", i)
        if i:
            child = got.next_ref if levels[i][0] == "ext" else got.branches[slots[i - 1]]
            want = want_enc(levels[i - 1])
            want = want if len(want) < 32 else R.keccak256(want)
            mon.check(bytes(child) == want, "the child of level %d is %s instead of %s", i, T.hx(child), T.hx(want))
            ref = bytes(child)
            if len(ref) < 32:
                embedded += 1
                mon.saw("child_embedded")
                if embedded > 1:
                    mon.saw("nested_embedded")
            else:
                embedded = 0
                mon.saw("child_hashed")


# ------------------------------------------------------------- changed in place
def gen_changed(rng, size):
    """A node and the changes made to it (the trie itself changes its nodes so)."""
    kind = rng.choice(("leaf", "leaf", "ext", "branch"))
    n = rng.choice((1, 2, 3, 5, 9, 40))

    def body(same):
        return gen.rbytes(rng, n) if same else rdata(rng)
    if kind == "leaf":
        node = ("leaf", rpath(rng), body(True))
    elif kind == "ext":
        node = ("ext", rpath(rng, 1), rref(rng))
    else:
        node = ("branch", [rref(rng) if rng.random() < 0.3 else b"" for _ in range(16)], body(True))
    ops = []
    for _ in range(rng.randrange(1, 7)):
        what = rng.choice(("data", "data", "cut", "path") if kind == "leaf" else ("ref", "cut", "path") if kind == "ext" else ("data", "slot", "slot"))
        if what == "data":
            ops.append((what, 0, body(rng.random() < 0.6)))
        elif what == "cut":
            ops.append((what, rng.choice((1, 2, 3)), None))
        elif what == "path":
            ops.append((what, 0, rpath(rng, 1)))
        else:
            ops.append((what, rng.randrange(16), rref(rng) if rng.random() < 0.8 or what == "ref" else b""))
    return {"node": node, "front": rng.randrange(4), "ops": ops, "decoded": rng.random() < 0.4}


def run_changed(case, mon):
    node = tuple(case["node"])
    node = node[:1] + (list(node[1]),) + node[2:]
    n = make(node, case["front"])
    if case["decoded"]:
        n = Node.decode(n.encode())
    mon.mark()
    for what, i, v in [("", 0, None)] + [tuple(o) for o in case["ops"]]:
        try:
            if what == "data":
                n.data = v
            elif what == "ref":
                n.next_ref = v
            elif what == "path":
                n.path = pbytes(v, i % 3)
            elif what == "slot":
                n.branches[i] = v
            elif what == "cut":
                if len(node[1]) - i < (node[0] == "ext"):
                    continue
                n.path.consume(i)
        except (AttributeError, TypeError):
            return  # nodes that cannot be changed
        if what in ("data", "ref"):
            node = node[:2] + (v,)
        elif what == "path":
            node = (node[0], list(v), node[2])
        elif what == "cut":
            node = (node[0], node[1][i:], node[2])
        elif what == "slot":
            node[1][i] = v
        want = want_enc(node)
        ref = R.keccak256(want) if len(want) >= 32 else want
        # in either order, and the order changes
        for _ in range(2):
            mon.check(bytes(Node.into_reference(n)) == ref, "after %r a %s node is referenced by %s", what, node[0], T.hx(Node.into_reference(n)))
            got = n.encode()
            mon.check(got == want, "after %r a %s node encodes to %s instead of %s", what, node[0], T.hx(got), T.hx(want))
        mon.check(n.encode(include_data=False) == R.rlp_encode(R.rlp_decode(want)[:-1]), "after %r the encoding without data is wrong", what)
        same(mon, n, node, "after a change")
        mon.saw("changed_in_place")


def words_cases(w, i):
    ref = R.keccak256(w)
    kids = [b""] * 16
    kids[i % 16] = ref
    for node in (("leaf", (), w), ("leaf", (i % 16,), w), ("leaf", (1, 2, i % 16), w), ("leaf", (0,) * 40, w), ("ext", tuple(R.nibbles(w)), ref), ("leaf", tuple(R.nibbles(w)), b"v"),
                 ("branch", [b""] * 16, w), ("branch", kids, w), ("branch", [ref] * 16, w)):
        yield {"node": node, "front": i % 4}


SCENARIOS = [
    words.each(run_single, words_cases),
    scenario("sizes", gen_size, run_size, SIZES, SIZES, enum=True),
    scenario("single", gen_single, run_single, 12000, 250000),
    scenario("nested", gen_nest, run_nest, 4000, 80000),
    scenario("changed", gen_changed, run_changed, 3000, 60000),
]
