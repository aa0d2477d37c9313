"""C18: proof objects survive encoding and compare by content."""
import datetime
import os
import json
import random
import time

from vlib import gen, mined, tries as T, ref_trie as R, ref_merkle as M, words
from vlib.core import scenario
from pymt.mt import MerkleTree
from pymt.mpt import MPT
from pymt.empt import EMPT
from pymt.proof import Proof

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip monitor over both codecs and an equality matrix over proofs differing in one field"
LEVEL_NOTE = ("every executed encoding decoded to the same fields or was refused, and equality, hashes and views agreed with the fields")
RULE = ("generated proofs of Merkle trees, flat proofs with text and binary content of all RLP length classes, MPT proofs (must be "
        "refused), and groups of proofs that differ in exactly one field; non-trivial when a proof with at least "
        "one element was encoded or compared")
REQUIRED = ["words_tried", "rlp_round_trips", "json_round_trips", "json_refused", "mpt_refused", "verified_after_decoding", "pairs_equal",
            "pairs_different", "views_compared", "flat_proofs", "generated_proofs", "bad_constructor_refused",
            "empty_proofs", "times_checked", "differ_timestamp", "differ_type", "differ_target", "differ_root", "differ_proof"]
ASSUMPTIONS = []

TEXTS = ["", "a", "leaf", "é", "пример", "\U0001f600", "\u2028", "\x00", "\x7f", "\"quoted\"", "back\\slash", "line\nbreak", "{\"a\": 1}", "a" * 55, "a" * 56,
         "x" * 300, "\ufeff", "e\u0301", "left", "right", "null", "MPT", "MT-POI", "'", "\r\n", "\t", "</script>", "%s{}", "0" * 64]


def text(rng):
    return (rng.choice(TEXTS) + (rng.choice(TEXTS) if rng.random() < 0.3 else "")).encode()


def blob(rng):
    return text(rng) if rng.random() < 0.5 else gen.value(rng, rng.random() < 0.02, True)


def fields(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)


def is_text(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def all_text(p):
    return all(is_text(x) for x in (p.type, p.timestamp, p.target_key, p.trie_root)) and all(
        is_text(e) if isinstance(e, bytes) else all(is_text(x) for x in e) for e in p.proof)


def check_views(mon, p, f):
    mon.check(fields(p) == f, "the accessors report %r, created with %r", fields(p), f)
    d = dict(p.items())
    want = {"proof_type": f[0], "timestamp": f[1], "target_key": f[2], "root_hash": f[3], "proof": f[4]}
    mon.check(d == want, "items() report %r", d)
    mon.check(dict(p.__dict__()) == want, "the dictionary view is %r", p.__dict__())
    a, b = list(p), list(p)
    mon.check(a == b == list(p.items()), "iterating twice gives %r and %r", a, b)
    # what the views hand out belongs to the caller
    for view in (p.__dict__(), p.items()):
        if isinstance(view, dict):
            view["target_key"] = b"written by the caller"
            view.pop("timestamp", None)
    a.clear()
    mon.check(dict(p.items()) == want and dict(p.__dict__()) == want and dict(list(p)) == want, "written to, a dictionary view changed what the proof reports: %r", dict(p.items()))
    n = sum(1 for _ in p for _ in p)
    mon.check(n == 25, "iterating inside an iteration gives %d pairs instead of 25", n)
    mon.saw("views_compared")


def same(mon, p, q, what):
    mon.check(isinstance(q, Proof), "%s gave a %s", what, type(q).__name__)
    for name, a, b in zip(("type", "timestamp", "target", "root", "proof"), fields(p), fields(q)):
        mon.check(type(a) is type(b) and a == b, "%s changed the %s from %r to %r", what, name, a, b)
    mon.check(p == q and q == p and not (p != q), "%s gave a proof that compares unequal", what)
    mon.check(hash(p) == hash(q), "%s gave a proof with another hash", what)


def round_trips(mon, p):
    """Both codecs; returns the decoded proofs."""
    f = fields(p)
    out = []
    e = p.encode_rlp()
    mon.check(isinstance(e, bytes), "the RLP encoding is a %s", type(e).__name__)
    q = Proof.decode_rlp(e)
    same(mon, p, q, "RLP")
    mon.check(q.encode_rlp() == e, "encoding the decoded proof gives other bytes")
    mon.saw("rlp_round_trips")
    out.append(q)
    j = T.attempt(p.encode_json)
    if all_text(p):
        mon.check(not T.raised(j), "JSON refuses a proof of text: %r", j)
        mon.check(isinstance(j, str) and isinstance(json.loads(j), dict), "the JSON encoding is %r", j)
        q = Proof.decode_json(j)
        same(mon, p, q, "JSON")
        # as another program may have written it
        same(mon, p, Proof.decode_json(json.dumps(json.loads(j), indent=1, sort_keys=True, ensure_ascii=False)), "reformatted JSON")
        mon.saw("json_round_trips")
        out.append(q)
    elif T.raised(j):
        mon.saw("json_refused")
    else:
        same(mon, p, Proof.decode_json(j), "JSON of binary content")
    mon.check(fields(p) == f, "encoding changed the proof")
    for q in list(out):  # across codecs and again
        same(mon, p, Proof.decode_rlp(q.encode_rlp()), "encoding twice")
    return out


def gen_tree(rng, size):
    n = {1: rng.randrange(1, 6), 2: rng.randrange(1, 20), 3: rng.randrange(5, 40)}[size]
    return {"leaves": [blob(rng) for _ in range(n)], "secure": rng.random() < 0.6, "hash": rng.choice(M.HASHES), "seed": rng.getrandbits(32)}


def run_tree(case, mon):
    rng = random.Random(case["seed"])
    t = MerkleTree(case["secure"], case["hash"])
    t.put_list(case["leaves"])
    t.make_tree()
    made = []
    for v in rng.sample(case["leaves"], min(5, len(case["leaves"]))):
        p = t.get_proof_of_inclusion(v)
        mon.saw("generated_proofs")
        if p.proof:
            mon.mark()
        else:
            mon.saw("empty_proofs")
        check_views(mon, p, fields(p))
        for q in round_trips(mon, p):
            check_views(mon, q, fields(p))
            mon.check(t.verify_proof_of_inclusion(q) is True, "a proof does not verify after encoding and decoding")
            mon.saw("verified_after_decoding")
        made.append(p)
        mon.state(p.target_key, p.trie_root)
    for p in made:
        for q in made:
            mon.check((p == q) is (fields(p) == fields(q)), "equality of two generated proofs is wrong")


def gen_flat(rng, size):
    k = rng.randrange(4)
    if k == 0:
        elems = tuple(text(rng) for _ in range(rng.choice((0, 1, 2, 5, 20))))
    elif k == 1:
        elems = tuple(blob(rng) for _ in range(rng.choice((0, 1, 2, 5))))
    elif k == 2:
        elems = tuple((rng.choice((b"left", b"right")), rng.randbytes(32).hex().encode()) for _ in range(rng.randrange(0, 9)))
        if rng.random() < 0.3:  # steps of other lengths and with nothing in them, among plain elements
            elems += tuple(tuple(rng.choice((b"", b"left", text(rng), blob(rng))) for _ in range(rng.choice((0, 1, 2, 2, 2, 3, 5)))) if rng.random() < 0.7 else text(rng)
                           for _ in range(rng.randrange(1, 5)))
            elems = tuple(rng.sample(elems, len(elems)))
    else:
        elems = (rng.randbytes(rng.choice((54, 55, 56, 57, 255, 256, 1000))),)
    target, root = (text(rng), text(rng)) if rng.random() < 0.6 else (blob(rng), blob(rng))
    return {"target": target, "root": root, "proof": elems, "seed": rng.getrandbits(32)}


def wrap(f):
    """A proof with the given fields, time included."""
    return Proof.decode_rlp(R.rlp_encode([f[0], f[1], f[2], f[3], [e if isinstance(e, bytes) else list(e) for e in f[4]]]))


def run_flat(case, mon):
    rng = random.Random(case["seed"])
    p = Proof(case["target"], case["root"], case["proof"], b"MT-POI")
    f = (b"MT-POI", p.timestamp, case["target"], case["root"], case["proof"])
    mon.saw("flat_proofs")
    mon.mark() if case["proof"] else mon.saw("empty_proofs")
    mon.check(isinstance(p.timestamp, bytes), "the timestamp is %r", p.timestamp)
    check_views(mon, p, f)
    for q in round_trips(mon, p):
        check_views(mon, q, f)
    p2 = Proof(target_key=case["target"], root_hash=case["root"], proof=case["proof"], proof_type=b"MT-POI")
    mon.check((p == p2) is (p.timestamp == p2.timestamp), "equality ignores or invents a difference in time")
    check_views(mon, p, f)
    mon.state(fields(p)[2:])


def gen_eq(rng, size):
    base = [b"MT-POI", b"2024-01-01 00:00:00.000000", blob(rng), blob(rng),
            tuple(blob(rng) if rng.random() < 0.5 else (blob(rng), blob(rng)) for _ in range(rng.randrange(0, 4)))]
    group = [tuple(base)]
    for _ in range(rng.randrange(4, 12)):
        g = list(rng.choice(group))
        i = rng.randrange(1, 5)
        if i == 1:
            g[1] = rng.choice((b"2024-01-01 00:00:00.000001", b"2024-01-01 00:00:00", b"", b"2024-01-01 00:00:00.00000", b"2024-01-01 00:00:00.000001+05:00", b"2024-01-01T00:00:00Z", blob(rng)))
        elif i in (2, 3):
            v = g[i]
            g[i] = rng.choice((v + b"\x00", v[:-1], v + b"'", v[::-1], blob(rng), b"b'x'", g[5 - i], v.upper(), v.swapcase()))
            if rng.random() < 0.15:
                g[2], g[3] = g[3], g[2]
        else:
            e = list(g[4])
            r = rng.randrange(9)
            if r == 0:
                e.append(blob(rng))
            elif r == 1 and e:
                e.pop(rng.randrange(len(e)))
            elif r == 2:
                e.reverse()
            elif r == 3 and e:
                j = rng.randrange(len(e))
                e[j] = (e[j],) if isinstance(e[j], bytes) else (b"".join(e[j]) if rng.random() < 0.5 else e[j][::-1])
            elif r == 4 and e:
                j = rng.randrange(len(e))
                e[j] = e[j] + b"\x00" if isinstance(e[j], bytes) else e[j] + (b"",)
            elif r == 5:
                e.append(b"")
            elif r == 6 and len(e) > 1 and isinstance(e[0], bytes) and isinstance(e[1], bytes):
                e[:2] = [e[0] + e[1]]
            elif r == 7:
                e.append(())
            elif r == 8 and e:
                j = rng.randrange(len(e))
                e.insert(j, e[j])
            g[4] = tuple(e)
        group.append(tuple(g))
    return {"group": group, "seed": rng.getrandbits(32)}


def run_eq(case, mon):
    names = ("type", "timestamp", "target", "root", "proof")
    proofs = [(f, wrap(f)) for f in case["group"]] + [(f, wrap(f)) for f in case["group"][:3]]
    mon.mark()
    for f, p in proofs:
        check_views(mon, p, f)
        mon.check(p != fields(p) and not (p == None) and p != b"x" and not (p == dict(p.items())), "a proof equals something that is no proof")  # noqa: E711
    for f, p in proofs[:4]:
        for q in round_trips(mon, p):
            mon.check(fields(q) == f, "a proof with the time stamp %r decodes with %r", f[1], q.timestamp)
    for i, (f, p) in enumerate(proofs):
        for g, q in proofs[i:]:
            eq = f == g
            mon.check((p == q) is eq and (q == p) is eq and (p != q) is (not eq), "two proofs with %s fields compare %s: %r, %r",
                      "equal" if eq else "different", "unequal" if eq else "equal", f, g)
            if eq:
                mon.check(hash(p) == hash(q), "equal proofs have different hashes")
                mon.saw("pairs_equal")
            else:
                mon.saw("pairs_different")
                d = [n for n, a, b in zip(names, f, g) if a != b]
                if len(d) == 1:
                    mon.saw("differ_" + d[0])
    mon.check(len({p for _, p in proofs}) == len(set(case["group"])), "a set of proofs has the wrong size")
    mon.state(case["group"])


def gen_mpt(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.4, dels=0.0)
    c["seed"] = rng.getrandbits(32)
    return c


def run_mpt(case, mon):
    """Proofs of Patricia tries: no codec, but views and comparison."""
    rng = random.Random(case["seed"])
    t = MPT({}, secure=case["secure"]) if rng.random() < 0.6 else EMPT(secure=case["secure"])
    model = {}
    for op in case["ops"]:
        T.apply(t, model, op)
    model[b"sure"] = b"stored"
    t.update(b"sure", b"stored")
    made = []
    for k in rng.sample(case["keys"], min(4, len(case["keys"]))):
        p = t.get_proof_of_inclusion(k) if k in model else t.get_proof_of_exclusion(k)
        f = fields(p)
        mon.check(f[0] == (b"MPT-POI" if k in model else b"MPT-POE"), "the proof has type %r", f[0])
        check_views(mon, p, f)
        for enc, dec in ((p.encode_rlp, Proof.decode_rlp), (p.encode_json, Proof.decode_json)):
            e = T.attempt(enc)
            if T.raised(e):
                mon.saw("mpt_refused")
            else:  # if an encoding is offered it must be faithful
                q = T.attempt(dec, e)
                mon.check(not T.raised(q), "an encoded proof cannot be decoded: %r", q)
                same(mon, p, q, "the codec")
        mon.check(fields(p) == f, "a refused encoding changed the proof")
        mon.mark()
        made.append(p)
        other = Proof(p.target_key, p.trie_root, p.proof, b"MPT-POE" if k in model else b"MPT-POI")
        mon.check(not (other == p), "proofs of different kinds compare equal")
        mon.saw("differ_type")
        mon.state(f[2], f[3])
    for p in made:
        for q in made:
            mon.check((p == q) is (fields(p) == fields(q)), "equality of two generated proofs is wrong")
    for bad in ((None, b"r", (), b"MT-POI"), ("k", b"r", (), b"MT-POI"), (b"k", "r", (), b"MT-POI"), (b"k", None, (), b"MT-POI"), (b"k", b"r", [], b"MT-POI"),
                (b"k", b"r", b"p", b"MT-POI"), (b"k", b"r", (), "MT-POI"), (b"k", b"r", (), b"POI"), (b"k", b"r", (), b""), (b"k", b"r", (), b"mt-poi"), (b"k", b"r", (), None)):
        mon.check(T.raised(T.attempt(Proof, *bad)), "Proof%r was created", bad)
        mon.saw("bad_constructor_refused")
    for bad in (None, 5, [], {}):
        mon.check(T.raised(T.attempt(Proof.decode_rlp, bad)) and T.raised(T.attempt(Proof.decode_json, bad)), "%r was decoded to a proof", bad)


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Every field in turn is of one length, in bytes and in text."""
    rng = random.Random(case["i"])
    n = case["n"]
    for v in (rng.randbytes(n), b"text " * (n // 5) + b"x" * (n % 5)):
        f = [b"MT-POI", b"2024-01-01 00:00:00 +0000", b"target", b"root", (b"a", (b"left", b"b"))]
        which = rng.sample(range(5), 2) if n < 1000 else [rng.randrange(5)]
        for i in which:
            g = list(f)
            if i == 4:
                g[4] = (v, (b"right", v))
            elif i == 0:  # as many steps
                g[4] = tuple((b"left" if j % 3 else b"right", b"%d" % j) for j in range(min(n, 300)))
            else:
                g[i] = v
            p = wrap(g)
            mon.mark()
            check_views(mon, p, tuple(g))
            for q in round_trips(mon, p):
                check_views(mon, q, tuple(g))
            w = bytearray(v)
            if w and i in (2, 3):
                w[rng.randrange(len(w))] ^= 1
                g[i] = bytes(w)
                q = wrap(g)
                mon.check(not (p == q) and p != q, "proofs that differ in one bit of %d bytes compare equal", n)
                mon.saw("pairs_different")
    mon.state(n)


def gen_made(rng, size):
    return {"seed": rng.getrandbits(48), "n": size * 3, "zone": rng.choice(("UTC0", "UTC-9", "UTC+5", "UTC-5:45", "CET-1CEST"))}


def run_made(case, mon):
    """However a proof comes about, its time stamp is the time it was made,
    wherever on earth that is."""
    old = os.environ.get("TZ")
    os.environ["TZ"] = case.get("zone", "UTC0")
    time.tzset()
    try:
        made(case, mon)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def made(case, mon):
    rng = random.Random(case["seed"])
    t, e, m = MPT({}), EMPT({}, {}), MerkleTree()
    for i in range(6):
        for x in (t, e):
            x.update(b"key%d" % i, b"value %d" % i * 5)
        m.put(b"key%d" % i)
    m.make_tree()
    slack = datetime.timedelta(milliseconds=50)
    ways = [lambda k: t.get_proof_of_inclusion(k), lambda k: t.get_proof_of_exclusion(k + b"x"), lambda k: e.get_proof_of_inclusion(k),
            lambda k: e.get_sparse_trie().get_proof_of_exclusion(k + b"x"), lambda k: m.get_proof_of_inclusion(k),
            lambda k: Proof(k, b"root", (b"node",), rng.choice(Proof.accepted_types)), lambda k: Proof(target_key=k, root_hash=b"root", proof=(), proof_type=b"MT-POI")]
    done = []
    for i in range(case["n"]):
        k = b"key%d" % rng.randrange(6)
        before = datetime.datetime.now()
        p = rng.choice(ways)(k)
        after = datetime.datetime.now()
        try:
            when = datetime.datetime.fromisoformat(p.timestamp.decode())
        except ValueError:
            mon.check(False, "the time stamp %r is no time", p.timestamp)
        if when.tzinfo is not None:
            when = when.astimezone().replace(tzinfo=None)
        if before <= after:
            mon.check(before - slack <= when <= after + slack, "a proof made at %s is stamped %s", before, when)
            mon.saw("times_checked")
        done.append((p, p.timestamp))
        time.sleep(0.06)
    for p, stamp in done:
        mon.check(p.timestamp == stamp, "the time stamp of a proof changed from %r to %r", stamp, p.timestamp)
    mon.mark()


def words_cases(w, i):
    for t, r, p in ((w, b"root", ()), (b"key", w, (b"node",)), (b"key", b"root", (w,)), (w, w, (w, b"x", w)), (b"key", b"root", ((b"left", w), (b"right", b"x"))), (w, b"", (b"",))):
        yield {"target": t, "root": r, "proof": p, "seed": i}


SCENARIOS = [
    words.each(run_flat, words_cases),
    scenario("generated", gen_tree, run_tree, 1500, 60000),
    scenario("flat", gen_flat, run_flat, 3000, 120000),
    scenario("equality", gen_eq, run_eq, 1500, 60000),
    scenario("patricia", gen_mpt, run_mpt, 400, 15000),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
    scenario("made", gen_made, run_made, 40, 1000),
]
