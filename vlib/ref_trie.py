"""Independent model of the Merkle-Patricia trie (Yellow Paper, appendices B-D).

Written from the specification, shares no code with the package under test and
does not use the rlp library.  Keccak is a plain Python permutation, compared
with pycryptodome's in selftest.py; for speed the models use pycryptodome's
implementation of the same function.
"""
from Crypto.Hash import keccak as _keccak


def keccak256(data):
    return _keccak.new(digest_bits=256, data=bytes(data)).digest()


# ---- keccak-f[1600] in plain Python (reference for the hash helpers) -------
_M = (1 << 64) - 1


def _lfsr_constants():
    out, r = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c ^= 1 << ((1 << j) - 1)
            r <<= 1
            if r & 0x100:
                r ^= 0x171
        out.append(c)
    return out


_RC = _lfsr_constants()


def _rol(v, n):
    n %= 64
    return ((v << n) | (v >> (64 - n))) & _M if n else v


def slow_keccak256(data):
    rate = 136
    pad = rate - len(data) % rate
    msg = bytes(data) + (b"\x81" if pad == 1 else b"\x01" + b"\x00" * (pad - 2) + b"\x80")
    s = [[0] * 5 for _ in range(5)]
    for off in range(0, len(msg), rate):
        for i in range(rate // 8):
            s[i % 5][i // 5] ^= int.from_bytes(msg[off + 8 * i: off + 8 * i + 8], "little")
        for rnd in range(24):
            c = [s[x][0] ^ s[x][1] ^ s[x][2] ^ s[x][3] ^ s[x][4] for x in range(5)]
            d = [c[(x - 1) % 5] ^ _rol(c[(x + 1) % 5], 1) for x in range(5)]
            for x in range(5):
                for y in range(5):
                    s[x][y] ^= d[x]
            x, y = 1, 0
            cur = s[x][y]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, s[x][y] = s[x][y], _rol(cur, (t + 1) * (t + 2) // 2)
            for y in range(5):
                row = [s[x][y] for x in range(5)]
                for x in range(5):
                    s[x][y] = row[x] ^ (~row[(x + 1) % 5] & _M & row[(x + 2) % 5])
            s[0][0] ^= _RC[rnd]
    return b"".join(s[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


# ---- RLP --------------------------------------------------------------------
def _len_prefix(n, base):
    if n < 56:
        return bytes([base + n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([base + 55 + len(b)]) + b


def rlp_str(b):
    if len(b) == 1 and b[0] < 0x80:
        return bytes(b)
    return _len_prefix(len(b), 0x80) + bytes(b)


def rlp_list_raw(items):
    """A list whose items are already encoded."""
    body = b"".join(items)
    return _len_prefix(len(body), 0xC0) + body


def rlp_encode(x):
    if isinstance(x, (bytes, bytearray)):
        return rlp_str(x)
    return rlp_list_raw([rlp_encode(i) for i in x])


class BadRlp(Exception):
    pass


def _item(b, i):
    if i >= len(b):
        raise BadRlp("short")
    p = b[i]
    if p < 0x80:
        return False, i, i + 1
    if p < 0xB8:
        n, j, lst = p - 0x80, i + 1, False
        if n == 1 and j < len(b) and b[j] < 0x80:
            raise BadRlp("non canonical")
    elif p < 0xC0:
        k = p - 0xB7
        n, j, lst = int.from_bytes(b[i + 1:i + 1 + k], "big"), i + 1 + k, False
        if n < 56 or b[i + 1] == 0:
            raise BadRlp("non canonical")
    elif p < 0xF8:
        n, j, lst = p - 0xC0, i + 1, True
    else:
        k = p - 0xF7
        n, j, lst = int.from_bytes(b[i + 1:i + 1 + k], "big"), i + 1 + k, True
        if n < 56 or b[i + 1] == 0:
            raise BadRlp("non canonical")
    if j + n > len(b):
        raise BadRlp("short")
    return lst, j, j + n


def rlp_decode(b):
    """bytes -> nested lists of bytes; strict."""
    b = bytes(b)

    def dec(i):
        lst, s, e = _item(b, i)
        if not lst:
            return b[s:e], e
        out = []
        while s < e:
            x, s = dec(s)
            out.append(x)
        if s != e:
            raise BadRlp("overrun")
        return out, e

    x, e = dec(0)
    if e != len(b):
        raise BadRlp("trailing bytes")
    return x


# ---- hex prefix ---------------------------------------------------------------
def nibbles(key):
    out = []
    for x in key:
        out.append(x >> 4)
        out.append(x & 15)
    return tuple(out)


def hp_encode(nib, leaf):
    flag = 2 if leaf else 0
    if len(nib) % 2:
        n = (flag + 1,) + tuple(nib)
    else:
        n = (flag, 0) + tuple(nib)
    return bytes(n[i] * 16 + n[i + 1] for i in range(0, len(n), 2))


def hp_decode(b):
    n = nibbles(b)
    if not n or n[0] > 3:
        raise BadRlp("hex prefix")
    if n[0] & 1:
        return n[1:], bool(n[0] & 2)
    if n[1] != 0:
        raise BadRlp("hex prefix")
    return n[2:], bool(n[0] & 2)


# ---- trie ----------------------------------------------------------------------
EMPTY_ROOT = keccak256(b"\x80")


def build(items, nodes=None):
    """items: dict nibble tuple -> value.  Returns the encoding of the root node
    (None when empty) and fills nodes: hash -> encoding of every hashed node."""
    if not items:
        return None
    pairs = sorted(items.items())
    return _build(pairs, 0, nodes)


def _ref(enc, nodes):
    if len(enc) < 32:
        return enc  # embedded: already an RLP item
    h = keccak256(enc)
    if nodes is not None:
        nodes[h] = enc
    return rlp_str(h)


def _build(pairs, depth, nodes):
    if len(pairs) == 1:
        k, v = pairs[0]
        return rlp_list_raw([rlp_str(hp_encode(k[depth:], True)), rlp_str(v)])
    a, b = pairs[0][0], pairs[-1][0]  # sorted: the common prefix of all
    m = min(len(a), len(b))
    d = depth
    while d < m and a[d] == b[d]:
        d += 1
    if d > depth:
        child = _build(pairs, d, nodes)
        return rlp_list_raw([rlp_str(hp_encode(a[depth:d], False)), _ref(child, nodes)])
    value = b""
    slots = [[] for _ in range(16)]
    for p in pairs:
        if len(p[0]) == depth:
            value = p[1]
        else:
            slots[p[0][depth]].append(p)
    out = []
    for s in slots:
        out.append(_ref(_build(s, depth + 1, nodes), nodes) if s else b"\x80")
    out.append(rlp_str(value))
    return rlp_list_raw(out)


def path_of(key, secure):
    return nibbles(keccak256(key) if secure else key)


def root_hash(contents, secure=False, nodes=None):
    """Yellow Paper root of a dict key -> value."""
    enc = build({path_of(k, secure): v for k, v in contents.items()}, nodes)
    if enc is None:
        return EMPTY_ROOT
    h = keccak256(enc)
    if nodes is not None:
        nodes[h] = enc
    return h


def walk(root, load, limit=200000):
    """Yield (nibble path, value) of everything reachable from root.

    root: a 32-byte hash or an encoded node; load(hash) -> encoded node.
    Nodes are decoded strictly; anything malformed raises BadRlp."""
    if not root or root == EMPTY_ROOT:
        return
    todo = [((), root)]
    while todo:
        limit -= 1
        if limit < 0:
            raise BadRlp("too many nodes")
        path, ref = todo.pop()
        if isinstance(ref, list):
            node = ref
        elif len(ref) == 32:
            enc = load(bytes(ref))
            node = rlp_decode(enc)
        else:
            node = rlp_decode(ref)
        if not isinstance(node, list):
            raise BadRlp("not a node")
        if len(node) == 17:
            if node[16]:
                yield path, node[16]
            n = 0
            for i in range(16):
                c = node[i]
                if c != b"":
                    n += 1
                    todo.append((path + (i,), c))
            if n + (1 if node[16] else 0) < 2:
                raise BadRlp("useless branch")
        elif len(node) == 2:
            p, leaf = hp_decode(node[0])
            if leaf:
                yield path + p, node[1]
            else:
                if not p:
                    raise BadRlp("empty extension")
                todo.append((path + p, node[1]))
        else:
            raise BadRlp("node of %d items" % len(node))
