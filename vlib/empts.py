"""Observers shared by the extended-trie properties."""
from . import ref_trie as R, tries as T
from .objs import enc


def ref_encoding(key, data):
    """Independent encoding of a data reference."""
    h = int.from_bytes(R.keccak256(key + data), "big")
    return R.rlp_encode([b"FF", key, data, h.to_bytes((h.bit_length() + 7) // 8, "big")])


def want_root(model, secure):
    """Patricia root of one reference per key; model: key -> encoded value."""
    return R.root_hash({k: ref_encoding(k, v) for k, v in model.items()}, secure)


def check_ref(mon, t, model, key):
    r = T.attempt(t.get_reference, key)
    if key in model:
        mon.check(not T.raised(r), "no reference to the stored key %s: %r", T.hx(key), r)
        mon.check(r.key == key and bytes(r.data) == model[key], "the reference of %s is to (%s, %s)", T.hx(key), T.hx(r.key), T.hx(r.data))
        mon.check(r.hash == int.from_bytes(R.keccak256(key + model[key]), "big"), "the reference of %s has another hash", T.hx(key))
        mon.saw("references_checked")
    else:
        mon.check(T.raised(r), "a reference to the absent key %s was given", T.hx(key))


def check_root(mon, t, model, secure, msg="root hash of the extended trie"):
    mon.saw("roots_compared")
    want = want_root(model, secure)
    got = t.root_hash()
    mon.check(got == want, "%s is %s, the references of the %d entries commit to %s", msg, T.hx(got), len(model), T.hx(want))


def check_key(mon, t, model, key):
    """model: key -> encoded value."""
    c = t.contains(key)
    mon.check(c is (key in model), "contains(%s) answered %r", T.hx(key), c)
    mon.check((key in t) is (key in model), "`in` for %s is wrong", T.hx(key))
    g = T.attempt(t.__getitem__, key)
    if key in model:
        mon.saw("present_reads")
        mon.check(not T.raised(g), "reading the stored key %s raised %r", T.hx(key), g)
        mon.check(enc(g) == model[key], "reading %s gave %s, last written %s", T.hx(key), T.hx(enc(g)), T.hx(model[key]))
        g = t.get(key)
        mon.check(enc(g) == model[key], "get(%s) gave another value", T.hx(key))
    else:
        mon.saw("absent_reads")
        mon.check(T.raised(g), "reading the absent key %s gave %r", T.hx(key), g)
        g = T.attempt(t.get, key)
        mon.check(T.raised(g), "get(%s) of an absent key gave %r", T.hx(key), g)


def check_mapping(mon, t, model, keys, order=False):
    mon.check(len(t) == len(model), "len is %d, stored are %d", len(t), len(model))
    it = list(t)
    mon.check(len(it) == len(model) and set(it) == set(model), "iteration gives %d keys, stored are %d", len(it), len(model))
    if order:
        mon.check(it == list(model), "iteration is not in the order of insertion")
    ks = list(t.keys())
    mon.check(sorted(ks) == sorted(model), "keys() is wrong")
    items = list(t.items())
    mon.check(len(items) == len(model) and {k: enc(v) for k, v in items} == model, "items() is wrong")
    vals = sorted(enc(v) for v in t.values())
    mon.check(vals == sorted(model.values()), "values() is wrong")
    for k in keys:
        check_key(mon, t, model, k)
    mon.saw("mappings_compared")
