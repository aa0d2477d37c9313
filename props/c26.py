"""C26: data references encode losslessly and bind key and data."""
from vlib import gen, mined, ref_trie as R, tries as T, empts as E, words
from vlib.core import scenario
from pymt.empt import EMPT, DataReference

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: references are encoded, altered, decoded and compared by the real code and judged with an independent RLP and keccak"
LEVEL_NOTE = "in the executed runs references decoded to equal ones, were equal exactly when key and data were, and no altered encoding gave a reference contradicting its hash"
RULE = "a case is one reference with all single-byte changes of its encoding, one pair of references, or one hand-built encoding; non-trivial always"
REQUIRED = ["words_tried", "roundtrips", "hashes", "byte_changes", "truncations", "forged_flag", "forged_hash", "forged_key", "forged_data", "pairs_equal", "pairs_different",
            "resplit_pairs", "other_shapes", "trie_references", "refused", "leading_zero_hash"]
ASSUMPTIONS = ["keccak256 does not collide"]


def khash(k, d):
    return int.from_bytes(R.keccak256(k + d), "big")


def int_bytes(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


# keys with a keccak256 that starts with zero bytes (with empty data)
ZERO_HASH = [(b"", b"verif-%d" % i) for i in range(3000) if R.keccak256(b"verif-%d" % i)[0] == 0]


def gen_one(rng, size):
    k = rng.choice((b"", b"\x00", b"key", gen.rbytes(rng, 32))) if rng.random() < 0.5 else gen.value(rng, empty=True)
    d = gen.value(rng, empty=True)
    if rng.random() < 0.2:
        k = gen.shaped(rng)
    if rng.random() < 0.2:
        d = gen.shaped(rng)
    if rng.random() < 0.05:
        k, d = rng.choice(ZERO_HASH)
        i = rng.randrange(len(d) + 1)
        k, d = d[:i], d[i:]
    return {"key": k[:300], "data": d[:300], "bits": rng.randrange(8), "seed": rng.getrandbits(30)}


def good(mon, r, k, d, what):
    mon.check(type(r) is DataReference, "%s: a %s", what, type(r).__name__)
    mon.check(r.key == k and r.data == d, "%s: (%s, %s) instead of (%s, %s)", what, T.hx(r.key), T.hx(r.data), T.hx(k), T.hx(d))
    mon.check(r.hash == khash(k, d), "%s: the hash is not that of key and data", what)
    mon.check(hash(r) == hash(DataReference(k, d)), "%s: hash() differs from that of an equal reference", what)
    mon.saw("hashes")


def judge(mon, b, what):
    """Decoding bytes that need not be a reference."""
    r = T.attempt(DataReference.decode, b)
    try:
        parts = R.rlp_decode(b)
        ok = (isinstance(parts, list) and len(parts) == 4 and all(isinstance(x, bytes) for x in parts) and parts[0] == b"FF"
              and parts[3] == int_bytes(khash(parts[1], parts[2])) and R.rlp_encode(parts) == b)
    except Exception:
        ok = False
    if not ok:
        mon.check(T.raised(r), "%s decodes to %r although it is not an intact reference: %s", what, r, b.hex()[:400])
        mon.saw("refused")
    else:
        mon.check(not T.raised(r), "%s is an intact reference and does not decode: %r", what, r)
        good(mon, r, parts[1], parts[2], what)
    return r


def run_one(case, mon):
    import random
    rng = random.Random(case["seed"])
    k, d = case["key"], case["data"]
    mon.mark()
    ref = DataReference(k, d)
    good(mon, ref, k, d, "a new reference")
    enc = ref.encode()
    mon.check(enc == E.ref_encoding(k, d), "the encoding is %s", T.hx(enc))
    if R.keccak256(k + d)[0] == 0:
        mon.saw("leading_zero_hash")
    got = DataReference.decode(enc)
    good(mon, got, k, d, "the decoded reference")
    mon.check(got == ref and ref == got and not (got != ref), "the decoded reference is not equal")
    mon.check(got.encode() == enc and ref.encode() == enc, "the encodings differ")
    mon.saw("roundtrips")
    # every byte changed, in one bit or to a chosen value
    for i in range(len(enc)):
        b = bytearray(enc)
        b[i] ^= 1 << (case["bits"] + i) % 8
        judge(mon, bytes(b), "byte %d changed" % i)
        b[i] = rng.choice((0, 0x80, 0xFF, 0x46, rng.randrange(256)))
        if bytes(b) != enc:
            judge(mon, bytes(b), "byte %d replaced" % i)
        mon.saw("byte_changes")
    for i in sorted({0, 1, len(enc) - 1, len(enc) // 2, rng.randrange(len(enc))}):
        judge(mon, enc[:i], "the first %d bytes" % i)
        judge(mon, enc[i + 1:] if i else enc + b"\x00", "bytes missing or added")
        mon.saw("truncations")
    # hand-built encodings
    h = int_bytes(khash(k, d))
    for flag in (b"", b"F", b"FF ", b"ff", b"FE", b"FFF", b"\xff", b"00"):
        judge(mon, R.rlp_encode([flag, k, d, h]), "flag %r" % flag)
        mon.saw("forged_flag")
    for other in (b"", b"\x01", h[:-1], h + b"\x00", h[::-1], int_bytes(khash(d, k)), int_bytes(khash(k, d) ^ 1), int_bytes(khash(k, d) ^ 1 << 255),
                  int_bytes(khash(k, b"")), int_bytes(khash(b"", d)), int_bytes(khash(k + b"\x00", d)), int_bytes(khash(k, d) + 2 ** 256), b"\x00" + h):
        judge(mon, R.rlp_encode([b"FF", k, d, other]), "another hash")
        mon.saw("forged_hash")
    for ok in (k + b"\x00", b"\x00" + k, k[:-1], k[1:], k.swapcase(), d, b""):
        judge(mon, R.rlp_encode([b"FF", ok, d, h]), "another key")
        mon.saw("forged_key")
    for od in (d + b"\x00", b"\x00" + d, d[:-1], d[1:], d.swapcase(), k, b""):
        judge(mon, R.rlp_encode([b"FF", k, od, h]), "other data")
        mon.saw("forged_data")
    for shape in ([], [b"FF"], [b"FF", k, d], [b"FF", k, d, h, b""], [b"FF", k, [d], h], [b"FF", [k, d], h], [[b"FF", k, d, h]], [k, d, h], [b"FF", d, k, h], b"FF", b"", k + d):
        judge(mon, R.rlp_encode(shape), "another shape")
        mon.saw("other_shapes")
    for i in range(1, min(4, len(k + d))):  # another split of the same bytes is another, intact reference
        j = rng.randrange(len(k + d) + 1)
        kk, dd = (k + d)[:j], (k + d)[j:]
        judge(mon, R.rlp_encode([b"FF", kk, dd, h]), "another split")
        o = DataReference(kk, dd)
        mon.check((o == ref) is ((kk, dd) == (k, d)) and (o != ref) is ((kk, dd) != (k, d)), "equality with another split of the same bytes")
        mon.saw("resplit_pairs")
    mon.check(not (ref == enc) and ref != enc and ref != None and not (ref == k), "a reference equals something else")  # noqa: E711
    mon.check(ref.encode() == enc and ref.key == k and ref.data == d, "the reference changed")
    mon.state(k, d)


def gen_pair(rng, size):
    k, d = gen.value(rng, empty=True)[:100], gen.value(rng, empty=True)[:100]
    r = rng.randrange(7)
    if r == 0:
        k2, d2 = k, d
    elif r == 1:
        k2, d2 = k, gen.value(rng, empty=True)[:100]
    elif r == 2:
        k2, d2 = gen.value(rng, empty=True)[:100], d
    elif r == 3:
        k2, d2 = d, k
    elif r == 4:
        i = rng.randrange(len(k + d) + 1)
        k2, d2 = (k + d)[:i], (k + d)[i:]
    elif r == 5:
        k2, d2 = k[:-1], k[-1:] + d
    else:
        k2, d2 = k + b"\x00", d
    return {"a": (k, d), "b": (k2, d2)}


def run_pair(case, mon):
    a, b = case["a"], case["b"]
    mon.mark()
    x, y = DataReference(*a), DataReference(*b)
    y2 = DataReference.decode(y.encode())
    same = tuple(a) == tuple(b)
    for p, q in ((x, y), (y, x), (x, y2), (y2, x)):
        mon.check((p == q) is same and (p != q) is (not same), "%r and %r compare %s", a, b, "unequal" if same else "equal")
        if same:
            mon.check(hash(p) == hash(q), "equal references have different hashes")
    mon.check((x.encode() == y.encode()) is same, "the encodings compare wrongly")
    mon.check((x.hash == y.hash) is (a[0] + a[1] == b[0] + b[1]), "the hashes compare wrongly")
    mon.check((x in [y]) is same and (x in {y2}) is same, "membership in a list or set")
    mon.saw("pairs_equal" if same else "pairs_different")
    mon.state(a, b)


def gen_trie(rng, size):
    return gen.history(rng, size, secure=rng.random() < 0.3, empty=True)


def run_trie(case, mon):
    """The references extended tries hand out and keep."""
    t = EMPT({}, {}, secure=case["secure"])
    model = {}
    mon.mark()
    for op in case["ops"]:
        if op[0] == "put":
            t.update(op[1], op[2])
            model[op[1]] = op[2]
        elif op[1] in model:
            t.delete(op[1])
            del model[op[1]]
        if op[1] in model:
            r = t.get_reference(op[1])
            good(mon, r, op[1], model[op[1]], "the reference in the trie")
            mon.check(r == DataReference(op[1], model[op[1]]) and r.encode() == E.ref_encoding(op[1], model[op[1]]), "the reference in the trie differs")
            mon.saw("trie_references")
    for k, v in model.items():
        good(mon, t.get_reference(k), k, v, "the reference in the trie")
    mon.state(sorted(model.items()))


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Keys and data of one length."""
    import random
    rng = random.Random(case["i"])
    n = case["n"]
    mon.mark()
    for k, d in ((rng.randbytes(n), b"data"), (b"key", rng.randbytes(n)), (b"", b"\x00" * n), (rng.randbytes(n // 2), rng.randbytes(n - n // 2))):
        ref = DataReference(k, d)
        good(mon, ref, k, d, "a reference of %d bytes" % n)
        enc = ref.encode()
        mon.check(enc == E.ref_encoding(k, d), "the encoding of a reference of %d bytes", n)
        got = DataReference.decode(enc)
        good(mon, got, k, d, "a decoded reference of %d bytes" % n)
        mon.check(got == ref, "a decoded reference of %d bytes is not equal", n)
        mon.saw("roundtrips")
        for i in {len(enc) - 1, len(enc) - 40, len(enc) // 2, rng.randrange(len(enc))}:
            if 0 <= i < len(enc):
                b = bytearray(enc)
                b[i] ^= 1 << rng.randrange(8)
                judge(mon, bytes(b), "byte %d of %d changed" % (i, len(enc)))
                mon.saw("byte_changes")
        if n:
            for j in (0, n // 2, n - 1):
                b = bytearray(k + d)
                b[j] ^= 1
                o = DataReference(bytes(b[: len(k)]), bytes(b[len(k):]))
                mon.check(not (o == ref) and o != ref, "references that differ in byte %d of %d compare equal", j, n)
                mon.saw("pairs_different")
    mon.state(n)


def words_cases(w, i):
    for k, d in (((w, b"data"), (b"key", w), (w, w), (w, b""), (b"", w), (w, w + w))[i % 6], ((w, b"data"), (b"key", w), (w, w), (w, b""), (b"", w), (w, w + w))[(i + 3) % 6]):
        yield {"key": k, "data": d, "bits": i % 8, "seed": i}


SCENARIOS = [
    words.each(run_one, words_cases),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
    scenario("altered", gen_one, run_one, 900, 20000),
    scenario("pairs", gen_pair, run_pair, 12000, 200000),
    scenario("tries", gen_trie, run_trie, 300, 6000),
]
