"""Observers shared by the trie properties (public API only)."""
import zlib
from . import ref_trie as R
from .core import Violation

from pymt.mpt import MPT
from pymt.proof import Proof


class _Raised:
    """Marks that a call raised; keeps the exception."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "<raised %s: %s>" % (type(self.exc).__name__, str(self.exc)[:120])


after = []   # called after every attempt (see watch.py)


def attempt(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except Exception as e:
        return _Raised(e)
    finally:
        for f in after:
            f()


def raised(x):
    return isinstance(x, _Raised)


def hx(b):
    return b.hex() if isinstance(b, (bytes, bytearray)) and len(b) <= 40 else repr(b)[:100]


def check_key(mon, trie, model, key, secure, how=0):
    """One key through the reading interface against the model."""
    want = model.get(key)
    got = attempt(trie.get, key)
    if want is None:
        mon.saw("absent_reads")
        mon.check(raised(got), "get(%s) of an absent key gave %s", hx(key), hx(got))
        if how & 1:
            it = attempt(trie.__getitem__, key)
            mon.check(raised(it), "[%s] of an absent key gave %s", hx(key), hx(it))
    else:
        mon.saw("present_reads")
        mon.check(not raised(got) and isinstance(got, (bytes, bytearray)) and bytes(got) == want,
                  "get(%s) gave %s, last written was %s", hx(key), hx(got), hx(want))
        if how & 1:
            mon.check(trie[key] == want, "[%s] differs from get", hx(key))
    c = trie.contains(key)
    mon.check(c is (want is not None), "contains(%s) answered %r, stored: %s", hx(key), c, want is not None)
    if how & 2:
        mon.check((key in trie) is (want is not None), "`in` for %s is wrong, stored: %s", hx(key), want is not None)
    if how & 4:
        hk = R.keccak256(key) if secure else key
        c = trie.contains(hk, hash_key=False)
        mon.check(c is (want is not None), "contains(hashed %s, hash_key=False) answered %r", hx(key), c)


def check_contents(mon, trie, model, extra, secure):
    for k in model:
        check_key(mon, trie, model, k, secure, 7)
    for k in extra:
        if k not in model:
            check_key(mon, trie, model, k, secure, 7)


class OwnBytes(bytes):
    """Bytes of a class of the caller's, bytes all the same."""


def own(b, salt=b""):
    """b, now and then as an object of another class."""
    return OwnBytes(b) if zlib.crc32(b + salt) % 16 == 3 else b


def apply(trie, model, op, syntax=False):
    """Apply a valid operation to the trie and the model."""
    if op[0] == "put":
        if syntax:
            trie[op[1]] = op[2]
        else:
            trie.update(op[1], op[2])
        model[op[1]] = op[2]
    elif op[0] == "del":
        if op[1] in model:
            if syntax:
                del trie[op[1]]
            else:
                trie.delete(op[1])
            del model[op[1]]


def apply_ref(model, op):
    if op[0] == "put":
        model[op[1]] = op[2]
    elif op[0] == "del":
        model.pop(op[1], None)


def check_root(mon, trie, model, secure, msg="root hash"):
    mon.saw("roots_compared")
    want = R.root_hash(model, secure)
    got = trie.root_hash()
    mon.check(got == want, "%s is %s, the contents (%d entries) commit to %s", msg, hx(got), len(model), hx(want))


def accepted(fn, proof):
    """True when a verifier answers true (anything truthy); False when it
    answers false or raises."""
    try:
        return bool(fn(proof))
    except Exception:
        return False


def model_of(ops):
    m = {}
    for op in ops:
        apply_ref(m, op)
    return m


# ------------------------------------------------ exhaustive small universes
_L = bytes(range(1, 33))


def _var(i, d):
    b = bytearray(_L)
    b[i // 2] ^= d << 4 if i % 2 == 0 else d
    return bytes(b)


UNIVERSES = [
    (False, [b"", b"\x00", b"\x01", b"\x10", b"\x00\x00", b"\x00\x01", b"\x01\x00", b"\x10\x00"]),
    (False, [b"\x12\x34", b"\x12\x35", b"\x12\x24", b"\x13\x34", b"\x22\x34", b"\x12", b"\x12\x34\x56", b"\x12\x34\x56\x78"]),
    (False, [_L, _var(0, 1), _var(1, 1), _var(2, 3), _var(31, 1), _var(62, 5), _var(63, 1), _L[:16]]),
    (False, [b"\x00", b"\x01", b"\x0f", b"\x10", b"\xf0", b"\xff", b"\x11", b"\x1f"]),
    (False, [b"", b"a", b"ab", b"abc", b"abcd", b"abcde", b"abd", b"b"]),
    (True, [b"", b"\x00\x00\x00", b"\x00\x17\x44", b"\x00\x5c\xe0", b"\x01\x94\xab", b"a", b"b", b"\x00\xe3\xc4"]),
    (True, [x.to_bytes(3, "big") for x in (2517, 104873, 407, 5169, 135248, 3570, 31036, 95)]),
    (False, [b"\x11\x11\x11", b"\x11\x11\x12", b"\x11\x11\x21", b"\x11\x12\x11", b"\x12\x11\x11", b"\x11\x21\x11",
             b"\x21\x11\x11", b"\x11\x11\x11\x11"]),
]
PATTERNS = 4


def small_value(pattern, i):
    """Value of the i-th key of a universe."""
    if pattern == 0:
        return bytes([0x61 + i])
    if pattern == 1:
        return (b"long value %d " % i) * 4
    if pattern == 2:
        return b"same" if i % 3 else b"the same long value in many places ......"
    return (b"%d" % i) * (24 + i) if i % 2 else bytes([i + 1])


SMALL_CASES = len(UNIVERSES) * 256 * PATTERNS


def small_case(i):
    """The i-th of all (universe, value pattern, subset of the keys); the first
    few of this order are already spread over all universes and patterns."""
    i = i * 3251 % SMALL_CASES
    u, rest = divmod(i, 256 * PATTERNS)
    p, mask = divmod(rest, 256)
    return {"universe": u, "pattern": p, "mask": mask}


def small_build(case, order=0):
    secure, keys = UNIVERSES[case["universe"]]
    idx = [i for i in range(len(keys)) if case["mask"] >> i & 1]
    if order == 1:
        idx.reverse()
    storage = {}
    trie = MPT(storage, secure=secure)
    model = {}
    for i in idx:
        v = small_value(case["pattern"], i)
        trie.update(keys[i], v)
        model[keys[i]] = v
    return secure, keys, storage, trie, model
