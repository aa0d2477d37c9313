"""C11: the extended trie is a mapping whose trie and data agree."""
import random

from vlib import gen, tries as T, ref_trie as R, empts as E, longlife, words
from vlib.core import scenario
from vlib.objs import Item, enc, make
from vlib.stores import FalseMapping, Mapping, some
from pymt.empt import EMPT

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: model-based history checker (dict) plus reference-root monitor on every state"
LEVEL_NOTE = ("every mapping answer of the executed histories equals a dictionary's, and after every operation the root equals the "
              "independently computed Patricia root of one reference per entry")
RULE = ("a case is a history of update, [], del, pop, popitem, clear, setdefault with byte, bytearray and self-encoding values (also one object changed in place and put again) over "
        "structured keys, on dict or user-written storages, plain and secure; after each operation root, length and touched keys, at "
        "the end everything is compared with a dictionary; non-trivial when at least two entries were stored")
REQUIRED = ["words_tried", "roots_compared", "mappings_compared", "references_checked", "absent_reads", "present_reads", "op_pop", "op_popitem",
            "op_clear", "op_setdefault", "op_put", "op_del", "objects_stored", "bytearrays_stored", "empty_values_stored", "objects_put_again", "operations_of_long_lives"]
ASSUMPTIONS = ["the storages are mappings as the class documents"]

DEFAULT = "default"
KINDS = ("put", "put", "put", "put", "set", "del", "delitem", "pop", "popd", "setd", "delabs", "badput", "popabs", "reput")


def gen_case(rng, size):
    secure = rng.random() < 0.35
    keys = gen.universe(rng, size, secure)
    n = {1: rng.randrange(2, 14), 2: rng.randrange(6, 30), 3: rng.randrange(20, 70)}[size]
    pool = gen.values_pool(rng, size, True, True, keys)
    ops = []
    for _ in range(n):
        r = rng.random()
        kind = "popitem" if r < 0.05 else "clear" if r < 0.06 else rng.choice(KINDS)
        v = gen.value(rng, False, True, keys) if rng.random() < 0.4 else rng.choice(pool)
        ops.append((kind, rng.choice(keys), v, rng.choice((0, 0, 1, 2, 3))))
    return {"secure": secure, "keys": keys, "ops": ops, "stores": rng.randrange(4), "seed": rng.getrandbits(32)}


def run_case(case, mon):
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    s = case["stores"]
    nodes = {} if s & 1 else rng.choice((Mapping, FalseMapping))()
    data = {} if s & 2 else rng.choice((Mapping, FalseMapping))()
    if rng.random() < 0.2:
        nodes, data = some(rng, 0.8), some(rng, 0.8)
    given = s != 3 or rng.random() < 0.5
    t = EMPT(nodes, data, secure=secure) if given else EMPT(secure=secure)
    model = {}
    kept = {}
    mon.check(t.secure is secure, "secure is reported as %r", t.secure)
    E.check_root(mon, t, model, secure)
    for kind, k, body, vk in case["ops"]:
        v = make(vk, body)
        root = t.root_hash()
        unchanged = False
        touched = [k]
        if kind in ("put", "set"):
            (t.update if kind == "put" else t.__setitem__)(k, v)
            model[k] = bytes(body)
            mon.saw("op_put")
            mon.saw(("bytes_stored", "bytearrays_stored", "objects_stored")[min(vk, 2)])
            if not body:
                mon.saw("empty_values_stored")
        elif kind in ("del", "delitem", "delabs"):
            kk = k if kind != "delabs" else gen.near_misses(rng, [k], 1)[0]
            touched.append(kk)
            res = T.attempt(t.delete if kind != "delitem" else t.__delitem__, kk)
            mon.saw("op_del")
            if kk in model:
                mon.check(not T.raised(res), "deleting the stored key %s raised %r", T.hx(kk), res)
                del model[kk]
            else:
                mon.check(T.raised(res), "deleting the absent key %s did not raise", T.hx(kk))
                unchanged = True
        elif kind in ("pop", "popabs"):
            res = T.attempt(t.pop, k)
            mon.saw("op_pop")
            if k in model:
                mon.check(not T.raised(res) and enc(res) == model[k], "pop(%s) gave %r", T.hx(k), res)
                del model[k]
            else:
                mon.check(T.raised(res), "pop(%s) of an absent key gave %r", T.hx(k), res)
                unchanged = True
        elif kind == "popd":
            res = t.pop(k, DEFAULT)
            mon.saw("op_pop")
            if k in model:
                mon.check(res is not DEFAULT and enc(res) == model[k], "pop(%s, default) gave %r", T.hx(k), res)
                del model[k]
            else:
                mon.check(res is DEFAULT, "pop(%s, default) of an absent key gave %r", T.hx(k), res)
                unchanged = True
        elif kind == "popitem":
            res = T.attempt(t.popitem)
            mon.saw("op_popitem")
            if model:
                mon.check(not T.raised(res), "popitem raised %r", res)
                kk, vv = res
                mon.check(kk in model and enc(vv) == model[kk], "popitem gave %r", (kk, vv))
                del model[kk]
                touched.append(kk)
            else:
                mon.check(T.raised(res), "popitem of an empty mapping gave %r", res)
        elif kind == "clear":
            t.clear()
            model.clear()
            mon.saw("op_clear")
        elif kind == "setd":
            res = t.setdefault(k, v)
            mon.saw("op_setdefault")
            if k in model:
                mon.check(enc(res) == model[k], "setdefault(%s) of a stored key gave %r", T.hx(k), res)
                unchanged = True
            else:
                mon.check(enc(res) == bytes(body), "setdefault(%s) gave %r", T.hx(k), res)
                model[k] = bytes(body)
        elif kind == "reput":
            # an object changed in place and put again, perhaps under two keys
            o = kept.setdefault(k, make(2, body))
            o.body = bytes(body)
            t.update(k, o)
            model[k] = bytes(body)
            mon.saw("objects_put_again")
        elif kind == "badput":
            for bad_key, bad_val in ((k, 12), (k, None), ("str", b"x"), (None, b"x"), (k, "text")):
                res = T.attempt(t.update, bad_key, bad_val)
                mon.check(T.raised(res), "update(%r, %r) was accepted", bad_key, bad_val)
            unchanged = True
        if unchanged:
            mon.check(t.root_hash() == root, "%s changed the root although it changes nothing", kind)
        E.check_root(mon, t, model, secure, "root after %s" % kind)
        mon.check(len(t) == len(model), "len is %d after %s, stored are %d", len(t), kind, len(model))
        for kk in touched + gen.near_misses(rng, [k], 1) + [rng.choice(keys)]:
            E.check_key(mon, t, model, kk)
            E.check_ref(mon, t, model, kk)
        if rng.random() < 0.1:
            E.check_mapping(mon, t, model, keys, True)
        if len(model) > 1:
            mon.mark()
        mon.state(t.root_hash())
    E.check_mapping(mon, t, model, keys, True)
    for k in keys:
        E.check_ref(mon, t, model, k)
    mon.check(bool(t) is bool(model), "truth value is wrong")
    plain = {k: t[k] for k in t}
    mon.check(t == plain and not (t != plain), "the mapping does not equal a dict with its items")
    if plain:
        k = rng.choice(list(plain))
        smaller = {a: b for a, b in plain.items() if a != k}
        mon.check(t != smaller and not (t == smaller), "the mapping equals a dict with fewer items")
    # the data really is what a dict storage holds
    mon.check(not given or {k: enc(data[k]) for k in data} == model, "the data storage differs from the entries")
    while len(t):
        k, v = t.popitem()
        mon.check(enc(v) == model.pop(k), "popitem gave another value")
        mon.saw("op_popitem")
    E.check_root(mon, t, {}, secure, "root after popping everything")
    t.update(b"again", b"value")
    E.check_root(mon, t, {b"again": b"value"}, secure, "root after refilling")
    t.clear()
    mon.saw("op_clear")
    E.check_root(mon, t, {}, secure, "root after clear")
    E.check_mapping(mon, t, {}, keys[:2])


def run_small(case, mon):
    """Enumerated contents x put, overwrite, delete, pop, setdefault."""
    secure, keys = T.UNIVERSES[case["universe"]]
    idx = [i for i in range(len(keys)) if case["mask"] >> i & 1]
    base = {keys[i]: T.small_value(case["pattern"], i) for i in idx}
    for j, k in enumerate(keys):
        t = EMPT({}, {}, secure=secure)
        model = {}
        for a, b in base.items():
            t[a] = b
            model[a] = b
        E.check_root(mon, t, model, secure)
        how = (j + case["mask"]) % 4
        if how == 0:
            t.update(k, b"other")
            model[k] = b"other"
        elif how == 1 and k in model:
            mon.check(enc(t.pop(k)) == model.pop(k), "pop gave another value")
            mon.saw("op_pop")
        elif how == 2 and k in model:
            del t[k]
            del model[k]
            mon.saw("op_del")
        else:
            t.setdefault(k, b"")
            model.setdefault(k, b"")
            mon.saw("op_setdefault")
        E.check_root(mon, t, model, secure)
        E.check_mapping(mon, t, model, keys if j == case["mask"] % 8 else [k], True)
        mon.state(t.root_hash())
    if len(base) > 1:
        mon.mark()


def run_long(case, mon):
    t, secure = EMPT({}, {}, secure=case["secure"]) if case["seed"] % 2 else EMPT(secure=case["secure"]), case["secure"]

    def each(i, op, model, keys):
        E.check_key(mon, t, model, op[1])
        mon.check(len(t) == len(model), "len is %d after %d operations, stored are %d", len(t), i + 1, len(model))

    def rare(i, model, keys):
        E.check_mapping(mon, t, model, keys)
        E.check_root(mon, t, model, secure, "root after %d operations on one trie" % (i + 1))
        for k in keys:
            E.check_ref(mon, t, model, k)

    longlife.live(case, mon, t, each, rare)


SCENARIOS = [
    words.extended(run_case),
    scenario("history", gen_case, run_case, 700, 30000),
    scenario("small", T.small_case, run_small, 700, T.SMALL_CASES, enum=True),
    scenario("long", longlife.gen_long, run_long, 24, 600),
]
