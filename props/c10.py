"""C10: saving and loading a trie preserves it completely."""
import random

from vlib import stores, gen, tries as T, ref_trie as R, empts as E, longlife, words
from vlib.core import scenario
from vlib.stores import Mapping
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT, SEMPT, REMPT

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential monitor of original and decoded trie under the same further operations"
LEVEL_NOTE = ("every encode/decode in the executed histories gives a trie that answers and evolves like the original and like the "
              "dictionary and reference root, and neither influences the other")
RULE = ("a case is a history with encodings at random points (and on empty, emptied and one-entry tries); the decoded trie is read "
        "completely, proved and verified both ways, and then both run further, first the same, then different operations; "
        "non-trivial when the encoded trie was not empty")
REQUIRED = ["words_tried", "decoded", "decoded_empty", "decoded_emptied", "decoded_one_entry", "continued", "views_decoded", "cross_proofs", "operations_of_long_lives"]
ASSUMPTIONS = ["values non-empty in raw tries", "the storage offers values() (a mapping)"]


def gen_case(rng, size):
    c = gen.history(rng, size, secure=rng.random() < 0.4, big=True, dels=rng.choice((0.1, 0.4, 0.6)))
    c["seed"] = rng.getrandbits(32)
    c["kind"] = rng.choice(("mpt", "mpt", "mpt", "sparse", "empt"))
    c["store"] = rng.randrange(2)
    return c


def twin_check(mon, a, b, model, keys, secure, rng, kind):
    """b was decoded from a; model: raw contents or encoded data."""
    mon.check(a.root_hash() == b.root_hash(), "the decoded trie has root %s instead of %s", b.root_hash().hex(), a.root_hash().hex())
    mon.check(a.root() == b.root(), "the decoded trie has another root node")
    if kind == "mpt":
        mon.check(b.secure is secure, "the decoded trie has secure=%r", b.secure)
        T.check_root(mon, b, model, secure, "root of the decoded trie")
        for k in keys + list(model):
            T.check_key(mon, b, model, k, secure, rng.randrange(8))
        mon.check(a == b and b == a, "the decoded trie compares unequal")
    else:
        E.check_root(mon, b, model, secure, "root of the decoded view")
        for k in keys + list(model):
            mon.check(b.contains(k) is (k in model), "the decoded view answers contains(%s) wrongly", T.hx(k))
            E.check_ref(mon, b, model, k)
    if not model:
        return
    probe = rng.sample(keys, min(4, len(keys))) + rng.sample(list(model), min(2, len(model)))
    for k in probe:
        for x, y in ((a, b), (b, a)):
            if k in model:
                p = x.get_proof_of_inclusion(k)
                mon.check(y.verify_proof_of_inclusion(p) is True, "inclusion proof of %s not accepted across encoding", T.hx(k))
            else:
                p = x.get_proof_of_exclusion(k)
                mon.check(y.verify_proof_of_exclusion(p) is True, "exclusion proof of %s not accepted across encoding", T.hx(k))
            mon.saw("cross_proofs")


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys, kind = case["secure"], case["keys"], case["kind"]
    storage = {} if case["store"] == 0 else stores.some(rng, 1.0)
    trie = (MPT(storage, secure=secure) if kind == "mpt" else
            rng.choice((SparseEMPT, SEMPT))(storage, secure=secure) if kind == "sparse" else EMPT(storage, {}, secure=secure))
    codec = {"mpt": (lambda t: t.encode(), MPT.decode), "sparse": (lambda t: t.encode_rlp(), lambda e: rng.choice((SparseEMPT, SEMPT)).decode_rlp(e))}
    model = {}
    n = len(case["ops"])
    had = False
    for i, op in enumerate(case["ops"] + [None]):
        if op is not None:
            T.apply(trie, model, op)
        had = had or bool(model)
        if not (rng.random() < 0.25 or i >= n - 1 or len(model) <= 1):
            continue
        src, k2 = trie, kind
        if kind == "empt":  # its views are what can be encoded
            src, k2 = trie.get_sparse_trie(), "sparse"
        before = src.root_hash()
        enc = codec[k2][0](src)
        mon.check(isinstance(enc, bytes), "the encoding is a %s", type(enc).__name__)
        dec = codec[k2][1](enc)
        mon.saw("decoded")
        mon.saw("decoded_one_entry" if len(model) == 1 else "decoded_emptied" if had and not model else
                "decoded_empty" if not model else "decoded_more")
        if model:
            mon.mark()
        mon.check(src.root_hash() == before, "encoding changed the root")
        twin_check(mon, src, dec, model, keys, secure, rng, k2)
        enc2 = codec[k2][0](dec)
        mon.check(codec[k2][1](enc2).root_hash() == before, "encoding the decoded trie loses the root")
        # root-only view
        r = rng.choice((RootEMPT, REMPT))(trie.root(), secure=secure)
        r2 = rng.choice((RootEMPT, REMPT)).decode_rlp(r.encode_rlp())
        mon.check(r2.root_hash() == before and r2.secure is secure, "the decoded root-only view has another root or mode")
        mon.saw("views_decoded")
        if model:
            k = rng.choice(list(model))
            mon.check(r2.verify_proof_of_inclusion(src.get_proof_of_inclusion(k)) is True, "the decoded root-only view refuses a proof")
        # the same further operations, then different ones
        m2 = dict(model)
        chk = (lambda t, m, msg: T.check_root(mon, t, m, secure, msg)) if k2 == "mpt" else (lambda t, m, msg: E.check_root(mon, t, m, secure, msg))
        again, aside = codec[k2][1](enc), codec[k2][1](enc)
        first = codec[k2][0](aside)
        more = [rng.choice(case["ops"]) for _ in range(3)] + [("del", k) for k in list(m2)[:2]] + [("put", rng.choice(keys), b"later" * 9)]
        for o in more:
            mm = dict(m2)
            T.apply(dec, m2, o)
            T.apply(again, mm, o)
            chk(dec, m2, "root of the decoded trie after further operations")
            chk(again, mm, "root of another decoded trie after the same operations")
        if k2 == "mpt":
            for k in keys:
                T.check_key(mon, dec, m2, k, secure)
        mon.saw("continued")
        # independence in both directions
        chk(src, model, "root of the original after changing the decoded trie")
        for k in rng.sample(keys, min(4, len(keys))):
            if k2 == "mpt":
                T.check_key(mon, src, model, k, secure)
            else:
                E.check_ref(mon, src, model, k)
        mon.check(codec[k2][0](aside) == first, "operations on one decoded trie change the encoding of another")
        late = codec[k2][1](enc)
        mon.check(codec[k2][0](late) == first, "a trie decoded later from the same bytes encodes differently")
        chk(late, model, "root of a trie decoded later from the same bytes")
        m3 = dict(model)
        for o in case["ops"][i + 1: i + 4]:
            T.apply(late, m3, o)
        chk(late, m3, "root of a trie decoded later and continued")
        mon.state(before, k2)
    # changing the original does not reach a trie decoded before
    enc = trie.encode() if kind == "mpt" else (trie if kind == "sparse" else trie.get_sparse_trie()).encode_rlp()
    dec = MPT.decode(enc) if kind == "mpt" else SparseEMPT.decode_rlp(enc)
    m = dict(model)
    for k in list(model):
        T.apply(trie, model, ("del", k))
    trie.update(b"other", b"other")
    if kind == "mpt":
        T.check_contents(mon, dec, m, keys, secure)
    else:
        for k in keys:
            E.check_ref(mon, dec, m, k)


def run_small(case, mon):
    secure, keys, storage, trie, model = T.small_build(case)
    dec = MPT.decode(trie.encode())
    rng = random.Random(case["mask"])
    mon.saw("decoded")
    mon.saw("decoded_one_entry" if len(model) == 1 else "decoded_empty" if not model else "decoded_more")
    if model:
        mon.mark()
    twin_check(mon, trie, dec, model, keys, secure, rng, "mpt")
    for k in keys:
        t = MPT.decode(trie.encode())
        m = dict(model)
        T.apply(t, m, ("put", k, b"a new value that is longer than 32 bytes!"))
        T.check_root(mon, t, m, secure, "root of the decoded trie after an update")
        T.apply(t, m, ("del", k))
        T.check_root(mon, t, m, secure, "root of the decoded trie after a delete")
        if not m:
            t2 = MPT.decode(t.encode())
            mon.saw("decoded_emptied")
            T.check_root(mon, t2, m, secure, "root of a decoded emptied trie")
            T.apply(t2, m, ("put", k, b"x"))
            T.check_root(mon, t2, m, secure, "root of a decoded emptied trie, filled again")
        mon.state(t.root_hash())
    T.check_root(mon, trie, model, secure, "root of the original")


def run_long(case, mon):
    """A trie with a long past is saved and loaded."""
    rng = random.Random(case["seed"] + 1)
    secure, kind = case["secure"], "mpt" if case["kind"] == "mpt" else "sparse"
    trie = (MPT if kind == "mpt" else SparseEMPT)({}, secure=secure)
    last = {}

    def rare(i, model, keys):
        if rng.random() < 0.4 or i == case["n"]:
            enc = trie.encode() if kind == "mpt" else trie.encode_rlp()
            dec = MPT.decode(enc) if kind == "mpt" else SparseEMPT.decode_rlp(enc)
            twin_check(mon, trie, dec, model, keys, secure, rng, kind)
            mon.saw("decoded")
            if last:
                # and one loaded long before is what it was
                chk = T.check_root if kind == "mpt" else E.check_root
                chk(mon, last["trie"], last["model"], secure, "root of a trie loaded long before")
            last.update(trie=dec, model=dict(model))

    longlife.live(case, mon, trie, None, rare)


SCENARIOS = [
    words.raw(run_case, 5, True),
    scenario("history", gen_case, run_case, 350, 15000),
    scenario("deep", gen_case, run_case, 12, 400, sizes=(gen.DEEP,)),
    scenario("small", T.small_case, run_small, 700, T.SMALL_CASES, enum=True),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
