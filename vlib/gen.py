"""Hostile workload generators: keys, values and histories as plain literals."""
from . import mined
from . import ref_trie as R
from .secure_keys import GROUPS

SMALL_ALPHABETS = [
    bytes([0x00, 0x01, 0x10, 0x11]),
    bytes([0x00, 0xFF, 0x0F, 0xF0]),
    bytes([0x12, 0x13, 0x22, 0x23]),
    b"ab\x00",
    bytes([0x00]),
    bytes(range(0, 256, 17)),
]


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 64 else rng.randbytes(n)


def pick_len(rng, big=False):
    r = rng.random()
    if r < 0.45:
        return rng.choice((1, 1, 2, 3, 4, 5, 8))
    if r < 0.75:
        return rng.choice((20, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 40, 54, 55, 56, 57, 64))
    if r < 0.88:
        return rng.randrange(1, 70)
    if r < 0.97 or not big:
        n = rng.choice(mined.SMALL_LENGTHS) if mined.SMALL_LENGTHS else 32
        return n or 1
    return rng.choice((127, 128, 255, 256, 257, 1000, 65535, 65536, 70000))


SPECIAL_VALUES = [
    b"\x00", b"\x01", b"\x7f", b"\x80", b"\xff", b"1", b"0", b"null", b"None", b"FF", b" ", b"\xc0", b"\x80\x80",
    b"\xc2\x20\x80", b"\xc1\x80", b"\xc0" * 3, R.EMPTY_ROOT, b"\x00" * 32, b"\xff" * 32,
]


def node_like(rng):
    """A value that looks like an encoded node."""
    k = rng.randrange(4)
    path = tuple(rng.randrange(16) for _ in range(rng.randrange(5)))
    if k == 0:
        return R.rlp_encode([R.hp_encode(path, True), rbytes(rng, rng.randrange(1, 5))])
    if k == 1:
        return R.rlp_encode([R.hp_encode(path or (1,), False), rbytes(rng, 32)])
    if k == 2:
        return R.rlp_encode([b""] * 16 + [rbytes(rng, rng.randrange(0, 4))])
    return R.rlp_encode([rbytes(rng, rng.choice((0, 1, 32))) for _ in range(17)])


def shaped(rng):
    """Bytes of a kind that code may take for something else than plain bytes:
    text of all sorts, blanks at the ends, repetitions, mirrored, ordered."""
    b = rbytes(rng, rng.randrange(1, 20))
    h = b.hex().encode()
    k = rng.randrange(17)
    if k == 0:
        return h
    if k == 16:
        return rng.choice(MARKERS)
    if k == 1:
        return rng.choice((h.upper(), b"0x" + h, h[:-1], h + b"\n", (h * 32)[:64], (h * 32)[:40]))
    if k == 2:
        return rng.choice((b" ", b"\n", b"\t", b"\r\n", b"\0")) + b
    if k == 3:
        return b + rng.choice((b" ", b"\n", b"\t", b"\r\n", b"\0", b"\0\0", b"=", b"=="))
    if k == 4:
        return bytes(rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in b)
    if k == 5:
        return bytes(rng.choice(b"0123456789") for _ in b)
    if k == 6:
        return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz ") for _ in b)
    if k == 7:
        return b + b[::-1] if rng.random() < 0.5 else b + b[:-1][::-1]
    if k == 8:
        return b[:1] * rng.choice((2, 3, 8, 31, 32, 33, 40))
    if k == 9:
        return b[:2] * rng.choice((1, 2, 4, 16, 17))
    if k == 10:
        return bytes(sorted(b, reverse=rng.random() < 0.5))
    if k == 11:
        return bytes(17 * rng.randrange(16) for _ in b)
    if k == 12:
        return rng.choice(('"%s"', "{'k': %s}", '{"k": "%s"}', "[%s]", "b'%s'", "%s,", "\xe9%s", "\u20ac%s", "-%s", "+%s", "%s.5", "1e%s", "%s/", "../%s", "$%s", "%%%s")).__mod__(rng.randrange(100)).encode()
    if k == 13:
        return bytes(x | 0x80 for x in b)
    if k == 14:
        return rng.choice((b"left", b"right", b"True", b"False", b"nan", b"inf", b"MT-POI", b"MPT-POI", b"MPT-POE", b"...", b"Ellipsis", b"None", b"0x", b"0b1", b"None\n", b"\xef\xbb\xbfbom", b"\xff\xfe", b"\xed\xa0\x80"))
    return R.keccak256(b) if rng.random() < 0.5 else R.keccak256(b).hex().encode()


MARKERS = [b"null", b"1", b"0", b"FF", b"left", b"right", b"None", b"True", b"...", b"Ellipsis", b"MT-POI", b"MPT-POI",
           b"MPT-POE", b"\x80", b"\xc0", b" ", b"ff", b"update", b"root", b"key", b"data"]


def related(rng, keys):
    """A value that stands in a relation to the keys: one of them, a piece of
    one, one doubled, mirrored, hashed, spelled out."""
    k = rng.choice(keys)
    r = rng.randrange(9)
    if r in (0, 1):
        return k or b"\0"
    if r == 2:
        return k[: rng.randrange(len(k) + 1)] or b"\0"
    if r == 3:
        return k[rng.randrange(len(k) + 1):] or b"\0"
    if r == 4:
        return k + (rng.choice(keys) if rng.random() < 0.5 else k) or b"\0"
    if r == 5:
        return R.keccak256(k)
    if r == 6:
        return k.hex().encode() or b"0"
    if r == 7:
        return k[::-1] or b"\0"
    return R.rlp_encode(k)


def value(rng, big=False, empty=False, keys=None):
    r = rng.random()
    if keys and rng.random() < 0.06:
        return related(rng, keys)
    if empty and r < 0.08:
        return b""
    if r < 0.14:
        return rng.choice(SPECIAL_VALUES) if rng.random() < 0.5 else shaped(rng)
    if r < 0.19:
        return node_like(rng)
    if r < 0.24 and mined.BYTES:
        v = rng.choice(mined.BYTES)
        return v if rng.random() < 0.6 else (v + rbytes(rng, rng.randrange(3)) if rng.random() < 0.5 else rbytes(rng, 1) + v)
    n = max(1, pick_len(rng, big))
    if r > 0.985:  # some size out of the whole range
        n = max(1, rng.choice(mined.SIZES))
    k = rng.randrange(5)
    if k == 0:
        return bytes([rng.choice((0, 1, 0x41, 0x7F, 0x80, 0xFF))]) * n
    if k == 1:
        return (b"%d-" % rng.randrange(1000) * (n // 2 + 1))[:n]
    return rbytes(rng, n)


def flip_nibble(key, i, rng):
    b = bytearray(key)
    d = rng.randrange(1, 16)
    b[i // 2] ^= d << 4 if i % 2 == 0 else d
    return bytes(b)


def universe(rng, size, secure=False):
    """A set of keys that share structure; histories draw from it."""
    n = {1: rng.randrange(2, 7), 2: rng.randrange(4, 16), 3: rng.randrange(12, 48)}.get(size, size)
    out = []
    add = out.append
    if secure and rng.random() < 0.6:
        # keys whose keccak hashes share leading nibbles: deep secure tries
        for _ in range(rng.randrange(1, 4)):
            g = rng.choice(GROUPS)
            for k in rng.sample(g, min(len(g), rng.randrange(2, 6))):
                add(k.to_bytes(3, "big"))
    if rng.random() < 0.12:
        out.extend(rng.sample(MARKERS, rng.randrange(1, 4)))
    families = rng.sample(range(10), rng.randrange(1, 4))
    guard = 0
    while len(set(out)) < n and guard < 20 * n:
        guard += 1
        f = rng.choice(families)
        if f == 0:  # tiny alphabet, tiny lengths: everything is a prefix of everything
            a = SMALL_ALPHABETS[rng.randrange(len(SMALL_ALPHABETS))]
            add(bytes(rng.choice(a) for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))))
        elif f == 1:  # chain of prefixes
            k = rng.choice(out) if out and rng.random() < 0.8 else rbytes(rng, rng.randrange(0, 3))
            if len(k) < 40:
                add(k + rbytes(rng, rng.choice((1, 1, 2, 5))))
            if k and rng.random() < 0.4:
                add(k[: rng.randrange(len(k))])
        elif f == 2:  # one nibble away from an existing key
            if out and out[-1]:
                k = rng.choice([x for x in out if x] or [b"\x00"])
                add(flip_nibble(k, rng.randrange(2 * len(k)), rng))
            else:
                add(rbytes(rng, rng.choice((1, 2, 4, 20, 32))))
        elif f == 3:  # hash sized keys with a common prefix
            if out and rng.random() < 0.2:  # the hash of a key, and its hash
                add(R.keccak256(rng.choice(out)))
            base = out[-1] if out and len(out[-1]) == 32 else rbytes(rng, 32)
            i = rng.randrange(64)
            b = bytearray(rbytes(rng, 32))
            b[: i // 2] = base[: i // 2]
            if i % 2:
                b[i // 2] = (base[i // 2] & 0xF0) | (b[i // 2] & 0x0F)
            add(bytes(b))
        elif f == 4:
            add(rbytes(rng, rng.randrange(1, 5)))
        elif f == 5:  # dense single bytes: full branches
            add(bytes([rng.randrange(256)]))
        elif f == 6:  # long
            base = rng.choice(out) if out and rng.random() < 0.5 else b""
            if rng.random() < 0.04:  # very long
                add((base + rbytes(rng, rng.choice((127, 128, 250, 256, 700, 3000))))[:3000])
            else:
                add((base + rbytes(rng, rng.choice((33, 40, 55, 64, 100))))[:120])
        elif f == 9:
            add(shaped(rng))
            if rng.random() < 0.2:
                add(bytes.fromhex(out[-1].decode()) if len(out[-1]) % 2 == 0 and all(c in b"0123456789abcdef" for c in out[-1]) else out[-1].hex().encode() if len(out[-1]) < 40 else out[-1].strip())
        elif f == 7 and mined.BYTES:
            k = rng.choice(mined.BYTES)
            add(k if rng.random() < 0.5 else k + rbytes(rng, 1))
        else:  # same length, same tail: identical leaves below different branches
            t = rng.choice((b"\x00\x00", b"\x11\x11", b"tail"))
            add(bytes([rng.randrange(256)]) + t)
    seen = []
    for k in out:
        if k not in seen:
            seen.append(k)
    rng.shuffle(seen)
    return seen[: max(n, 2)]


def near_misses(rng, keys, n):
    """Keys next to the given ones: prefixes, extensions, one nibble off."""
    out = []
    keys = list(keys)
    for _ in range(n):
        k = rng.choice(keys) if keys else b""
        r = rng.randrange(7)
        if rng.random() < 0.05:
            out.append(rng.choice(MARKERS))
        elif r == 6:  # what a secure trie stores k under
            out.append(R.keccak256(k))
        elif r == 0 and k:
            out.append(k[:-1])
        elif r == 1:
            out.append(k + rng.choice((b"\x00", b"\xff", bytes([rng.randrange(256)]))))
        elif r == 2 and k:
            out.append(flip_nibble(k, rng.randrange(2 * len(k)), rng))
        elif r == 3 and k:
            out.append(k[: rng.randrange(len(k))])
        elif r == 4 and k:
            out.append(flip_nibble(k, 2 * len(k) - 1, rng))
        else:
            out.append(rng.choice((b"", b"\x00", rbytes(rng, 2), k + rbytes(rng, 3))))
    return out


def values_pool(rng, size, big=False, empty=False, keys=None):
    k = rng.choice((1, 2, 3, 6))
    pool = [value(rng, big and i == 0, empty) for i in range(k)]
    mode = rng.random()
    if keys and rng.random() < 0.1:  # values made from the keys
        return [related(rng, keys) for _ in range(k + 1)]
    if mode > 0.94:
        pool = rng.sample(MARKERS, k)
    elif mode < 0.2:  # tiny values: embedded nodes
        pool = [bytes([rng.randrange(1, 256)]) for _ in range(k)]
    elif mode < 0.3:  # exactly around the 32-byte rule
        pool = [rbytes(rng, rng.randrange(22, 34)) for _ in range(k)]
    return pool


DEEP = 9


def deep_history(rng, empty=False):
    """Contents more than 64 nodes deep: long keys that are prefixes of each
    other, with keys leaving the chain at its far end."""
    base = rng.choice((b"k" * 400, bytes(range(256)) * 2, rbytes(rng, 400)))
    shape = rng.randrange(3)
    if shape == 0:
        lens = list(range(1, rng.choice((34, 38, 50))))
    elif shape == 1:
        first = rng.choice((0, 30, 60, 200))
        lens = list(range(first, first + rng.choice((34, 45))))
    else:
        lens = sorted(rng.sample(range(1, 300), 36))
    keys = [base[:n] for n in lens]
    last = keys[-1]
    side = [last[:-1] + b"\x00", last + b"\x01\x02", flip_nibble(last, 2 * len(last) - 1, rng),
            flip_nibble(last, 2 * len(last) - 6, rng), flip_nibble(keys[len(keys) // 2], 1, rng)]
    pool = values_pool(rng, 2, False, empty)
    order = list(keys)
    if rng.random() < 0.5:
        rng.shuffle(order)
    ops = [("put", k, rng.choice(pool)) for k in order]
    for k in side:
        if rng.random() < 0.6:
            ops.append(("put", k, rng.choice(pool)))
    for k in rng.sample(keys, rng.randrange(0, 4)):
        ops.append(("del", k))
    seen = []
    for k in keys + side:
        if k not in seen:
            seen.append(k)
    return {"secure": False, "keys": seen, "ops": ops}


def fan_history(rng, empty=False):
    """A full branch (at times two levels of them) with the same below every slot."""
    base, tail = rbytes(rng, rng.randrange(3)), rbytes(rng, rng.randrange(4))
    two = rng.random() < 0.15
    low = rng.randrange(16)
    if two:
        keys = [base + bytes([i]) + tail for i in range(256)]
    elif rng.random() < 0.5:
        keys = [base + bytes([16 * i + low]) + tail for i in range(16)]
    else:  # below an extension of odd length
        keys = [base + bytes([16 * low + i]) + tail for i in range(16)]
    v = value(rng, False, empty)
    others = [v, v, value(rng, False, empty), rng.choice(MARKERS)] if rng.random() < 0.5 else [v]
    ops = [("put", k, rng.choice(others)) for k in rng.sample(keys, len(keys))]
    if rng.random() < 0.6:
        extra = rng.choice((base, base + keys[0][len(base):len(base) + 1], keys[0] + b"\0"))
        if extra not in keys:
            keys = keys + [extra]
            ops.insert(rng.randrange(len(ops) + 1), ("put", extra, v))
    k = rng.choice(keys)
    if rng.random() < 0.7:
        ops += [("del", k)] + [("put", k, v)] * rng.randrange(2)
    if rng.random() < 0.3:
        for k in [x for x in keys if x in {o[1] for o in ops}][: rng.randrange(1, len(keys))]:
            if [o[0] for o in ops if o[1] == k][-1] == "put":
                ops.append(("del", k))
    return {"secure": False, "keys": keys, "ops": ops}


def history(rng, size, secure=False, big=False, empty=False, length=None, dels=None):
    """dict(secure, keys, ops) with ops ('put', key, value) and ('del', key)."""
    if size == DEEP:
        return deep_history(rng, empty)
    if rng.random() < 0.025 and not secure and length is None:
        return fan_history(rng, empty)
    keys = universe(rng, size, secure)
    pool = values_pool(rng, size, big, empty, keys)
    n = length or {1: rng.randrange(2, 14), 2: rng.randrange(6, 40), 3: rng.randrange(20, 110)}.get(size, size)
    pdel = dels if dels is not None else rng.choice((0.0, 0.2, 0.35, 0.5))
    ops = []
    live = []
    fresh = rng.random() < 0.5
    drain_from = n - len(keys) if rng.random() < 0.15 else None
    for i in range(n):
        if drain_from is not None and i >= drain_from and live:
            k = rng.choice(live)
            live.remove(k)
            ops.append(("del", k))
        elif live and rng.random() < pdel:
            k = rng.choice(live)
            live.remove(k)
            ops.append(("del", k))
        else:
            k = rng.choice(keys)
            v = value(rng, big and rng.random() < 0.1, empty, keys) if fresh and rng.random() < 0.6 else rng.choice(pool)
            ops.append(("put", k, v))
            if k not in live:
                live.append(k)
    return {"secure": secure, "keys": keys, "ops": ops}
