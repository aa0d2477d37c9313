"""C12: the extended trie never returns altered data as valid."""
import random

from vlib import gen, mined, tries as T, ref_trie as R, empts as E, words
from vlib.core import scenario
from vlib.objs import Item, enc, make
from vlib.stores import FalseMapping, Mapping
from pymt.empt import EMPT

ID = "C12"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: the storages are tampered with and every read is judged by the last write"
LEVEL_NOTE = ("for the executed histories and tampering sequences no read returned anything but the last written value; tampering with "
              "one of the two storages at a time (consistent forgery of both is outside what the design can detect)")
RULE = ("a case is a history on an extended trie followed by rounds of tampering with the data or the node storage (replace, swap, roll "
        "back, truncate, extend, bit flip, remove, add, mutate a stored object, replay a reference) and reads of all keys; returned "
        "values are compared by their encoded bytes with the last written; data of every size that implementations or this code "
        "distinguish is also altered at each end, inside and in length; non-trivial when at least one tampered key was read")
REQUIRED = ["words_tried", "tampered_reads_raised", "untouched_reads", "tamper_replace", "tamper_swap", "tamper_rollback", "tamper_truncate",
            "tamper_flip", "tamper_remove", "tamper_add", "tamper_mutate", "tamper_object", "node_tampering", "sizes_altered"]
ASSUMPTIONS = ["one storage is altered at a time", "values are compared by their encoded bytes"]


def gen_case(rng, size):
    secure = rng.random() < 0.35
    keys = gen.universe(rng, min(size, 2), secure)
    ops = []
    pool = gen.values_pool(rng, size, True, True, keys)
    for _ in range(rng.randrange(3, 24)):
        k = rng.choice(keys)
        if rng.random() < 0.15:
            ops.append(("del", k))
        else:
            ops.append(("put", k, gen.value(rng, False, True, keys) if rng.random() < 0.5 else rng.choice(pool), rng.choice((0, 0, 1, 2, 3))))
    return {"secure": secure, "keys": keys, "ops": ops, "seed": rng.getrandbits(32), "rounds": rng.randrange(3, 10),
            "stores": rng.randrange(2)}


def alter(rng, b):
    r = rng.randrange(8)
    if r == 0 and b:
        return b[:-1]
    if r == 1:
        return b + rng.choice((b"\x00", b" ", b"x"))
    if r == 2 and b:
        i = rng.randrange(len(b) * 8)
        x = bytearray(b)
        x[i // 8] ^= 1 << (i % 8)
        return bytes(x)
    if r == 3:
        return b""
    if r == 4 and len(b) > 1:
        return b[1:] + b[:1]
    if r == 5:
        return b.upper() if b.upper() != b else b.lower()
    if r == 6:
        return b[::-1]
    return gen.value(rng)


def read_all(mon, t, model, keys, touched, extra=()):
    for k in keys:
        for how in (t.get, t.__getitem__):
            g = T.attempt(how, k)
            if T.raised(g):
                mon.check(k not in model or k in touched, "reading the untouched key %s raised %r", T.hx(k), g)
                if k in model:
                    mon.saw("tampered_reads_raised")
                    mon.mark()
            else:
                mon.check(k in model, "reading the absent key %s gave %s", T.hx(k), T.hx(enc(g)))
                mon.check(enc(g) == model[k], "reading %s gave %s, last written was %s", T.hx(k), T.hx(enc(g)), T.hx(model[k]))
                mon.saw("untouched_reads" if k not in touched else "tampered_reads_right")
    # the mapping's other ways of reading
    try:
        items = list(t.items())
    except Exception:
        mon.check(bool(touched) or bool(extra), "items() raised although nothing was touched")
    else:
        for k, v in items:
            mon.check(k in model and enc(v) == model[k], "items() gave an altered value for %s", T.hx(k))
    for k in list(touched)[:2]:
        try:
            v = t.setdefault(k, b"default") if k in model and t.contains(k) and k in list(t) else None
        except Exception:
            continue
        if v is not None:
            mon.check(enc(v) == model[k], "setdefault(%s) returned an altered value", T.hx(k))


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    nodes = {} if case["stores"] else Mapping()
    data = {} if case["stores"] else rng.choice((Mapping, FalseMapping))()
    t = EMPT(nodes, data, secure=secure)
    model, older = {}, {}
    objs = {}
    for op in case["ops"]:
        k = op[1]
        if op[0] == "put":
            v = make(op[3], op[2])
            t.update(k, v)
            objs[k] = v if isinstance(v, Item) else None
            if k in model:
                older.setdefault(k, []).append(model[k])
            model[k] = bytes(op[2])
        elif k in model:
            t.delete(k)
            older.setdefault(k, []).append(model.pop(k))
            objs.pop(k, None)
    read_all(mon, t, model, keys, set())
    if not model:
        return
    stored = list(model)
    for _ in range(case["rounds"]):
        saved_data = {k: data[k] for k in data.keys()}
        saved_body = {k: o.body for k, o in objs.items() if o is not None}
        saved_nodes = {k: nodes[k] for k in nodes.keys()}
        touched = set()
        if rng.random() < 0.78:
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                k = rng.choice(stored)
                how = rng.choice(("replace", "swap", "rollback", "truncate", "flip", "remove", "add", "mutate", "object", "other", "bytearray"))
                if k not in data or k in touched:
                    continue
                cur = enc(data[k])
                if how == "replace":
                    data[k] = gen.value(rng, False, True)
                elif how == "swap":
                    o = rng.choice(stored)
                    if o in data and o not in touched:
                        data[k], data[o] = data[o], data[k]
                        touched.add(o)
                elif how == "rollback":
                    if not older.get(k):
                        continue
                    data[k] = rng.choice(older[k])
                elif how == "truncate":
                    data[k] = cur[: rng.randrange(len(cur) + 1)] if rng.random() < 0.5 else cur[:-1]
                elif how == "flip":
                    data[k] = alter(rng, cur)
                elif how == "remove":
                    del data[k]
                elif how == "add":
                    absent = [x for x in keys + gen.near_misses(rng, keys, 4) if x not in model]
                    if absent:
                        data[rng.choice(absent)] = rng.choice((cur, gen.value(rng)))
                    mon.saw("tamper_add")
                    continue
                elif how == "mutate":
                    o = objs.get(k)
                    if o is None:
                        continue
                    o.body = alter(rng, o.body)
                elif how == "object":
                    data[k] = Item(alter(rng, cur) if rng.random() < 0.8 else cur)
                elif how == "bytearray":
                    data[k] = bytearray(alter(rng, cur))
                else:
                    data[k] = rng.choice((None, 5, "text", [cur], memoryview(cur), cur.hex().encode(), cur + cur, k + cur))
                touched.add(k)
                mon.saw("tamper_" + how)
            extra = [k for k in data.keys() if k not in model]
        else:
            extra = []
            ks = list(nodes.keys())
            for _ in range(rng.choice((1, 1, 2, 4))):
                if not ks:
                    break
                a = rng.choice(ks)
                r = rng.randrange(6)
                if r == 0:
                    b = rng.choice(ks)
                    if b in nodes:
                        nodes[a] = nodes[b]
                elif r == 1 and a in nodes:
                    del nodes[a]
                elif r == 2 and a in nodes:
                    nodes[a] = alter(rng, nodes[a])
                elif r == 3:
                    k = rng.choice(stored)
                    leaf = R.rlp_encode([R.hp_encode(R.path_of(k, secure), True), E.ref_encoding(k, gen.value(rng))])
                    nodes[a] = leaf
                elif r == 4 and a in nodes:
                    b = rng.choice(ks)
                    if b in nodes:
                        nodes[a], nodes[b] = nodes[b], nodes[a]
                else:
                    nodes[a] = b""
                mon.saw("node_tampering")
            touched = set(stored)  # any key may have become unreadable, none may read wrong
        read_all(mon, t, model, keys + extra, touched, extra)
        mon.state(t.root_hash(), sorted(touched))
        # put everything back: reads work again
        for k in list(data.keys()):
            if k not in saved_data:
                del data[k]
        for k, v in saved_data.items():
            data[k] = v
        for k, b in saved_body.items():
            objs[k].body = b
        for k in list(nodes.keys()):
            if k not in saved_nodes:
                del nodes[k]
        for k, v in saved_nodes.items():
            nodes[k] = v
        for k in list(t.keys()):
            mon.check(k in model, "a key appeared: %s", T.hx(k))
        for k in stored:
            mon.check(enc(t[k]) == model[k], "reading %s is wrong after the tampering was undone", T.hx(k))
    # writing through the interface heals the key
    k = rng.choice(stored)
    data[k] = b"tampered with"
    t.update(k, b"written again")
    mon.check(t[k] == b"written again", "a key written again does not read back")
    # values written before must not come back through another key or time
    for o in stored:
        if o != k:
            data[o] = b"written again"
            g = T.attempt(t.get, o)
            mon.check(T.raised(g) or enc(g) == model[o], "another key's value is accepted for %s", T.hx(o))
            mon.saw("tamper_replay")


def gen_sizes(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_sizes(case, mon):
    """Data of one size, altered at its ends, in the middle and in its length."""
    n, i = case["n"], case["i"]
    body = (bytes((j * 7 + i) & 255 for j in range(256)) * (n // 256 + 1))[:n]
    data = {} if i % 2 else Mapping()
    t = EMPT({}, data, secure=bool(i % 3 == 0))
    other = EMPT({}, {}, secure=t.secure)
    for k in (b"k", b"key", b"other"):
        t[k] = b"small" if k == b"other" else make(i % 4, body)
    where = sorted({p for p in (0, 1, 15, 16, 31, 32, 63, 64, 127, 255, 256, 1023, 1024, n // 2, n - 33, n - 2, n - 1) if 0 <= p < n})
    rng = random.Random(i)
    where += [rng.randrange(n) for _ in range(6) if n]
    altered = [body + b"\x00", body + b"x", b"\x00" + body, body + body[:1] * 32]
    for p in where:
        altered.append(body[:p] + bytes([body[p] ^ (1 << p % 8)]) + body[p + 1:])
    if n:
        altered += [body[:-1], body[1:], body[: n // 2], b""]
    for j, a in enumerate(altered):
        if a == body:
            continue
        data[b"key"] = make((i + j) % 4, a)
        g = T.attempt(t.get if j % 2 else t.__getitem__, b"key")
        mon.check(T.raised(g), "data of %d bytes altered to %d bytes was returned as valid", n, len(a))
        mon.saw("sizes_altered")
        if j == 0:
            other[b"key"] = make(0, a)
            mon.check(enc(other[b"key"]) == a, "a value of %d bytes reads back differently", len(a))
    data[b"key"] = make(i % 4, body)
    mon.check(enc(t[b"key"]) == body, "restored data of %d bytes cannot be read", n)
    mon.mark()
    mon.state(t.root_hash())


def words_cases(w, i):
    all_of = words.contents(w)
    for j in (i % len(all_of), 10):
        ops = [(o[0], o[1]) if o[0] == "del" else ("put", o[1], o[2], (i + n) % 4) for n, o in enumerate(all_of[j])]
        yield {"secure": i % 3 == 0, "keys": list(dict.fromkeys(o[1] for o in ops)) + [w + b"#"], "ops": ops, "seed": i, "rounds": 4, "stores": i % 2}


SCENARIOS = [
    words.each(run_case, words_cases),
    scenario("sizes", gen_sizes, run_sizes, len(mined.BIG_SIZES), enum=True),
    scenario("tamper", gen_case, run_case, 2200, 80000),
]
