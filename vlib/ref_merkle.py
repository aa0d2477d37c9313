"""Independent model of the Merkle tree: pairwise hashing, odd node promoted."""
import hashlib

HASHES = ["sha256", "md5", "sha224", "sha384", "sha512",
          "sha3_256", "sha3_224", "sha3_384", "sha3_512"]


def h(name, data):
    return hashlib.new(name, bytes(data)).digest()


def leaf(value, secure, name):
    return h(name, value) if secure else bytes(value)


def levels(values, secure, name):
    """[leaves, ..., [root]]"""
    lv = [[leaf(v, secure, name) for v in values]]
    while len(lv[-1]) > 1:
        cur = lv[-1]
        nxt = [h(name, cur[i] + cur[i + 1]) for i in range(0, len(cur) - 1, 2)]
        if len(cur) % 2:
            nxt.append(cur[-1])
        lv.append(nxt)
    return lv


def root(values, secure, name):
    return levels(values, secure, name)[-1][0]


def siblings(values, index, secure, name):
    """[(side, digest)] from the leaf upwards."""
    out = []
    for cur in levels(values, secure, name)[:-1]:
        if index % 2:
            out.append(("left", cur[index - 1]))
        elif index + 1 < len(cur):
            out.append(("right", cur[index + 1]))
        index //= 2
    return out


def fold(target, sibs, name):
    cur = bytes(target)
    for side, d in sibs:
        cur = h(name, d + cur) if side == "left" else h(name, cur + d)
    return cur


def nested(rng, n, secure, name):
    """Values among which are many equal ones and many that stand for inner
    nodes of the tree over those before them."""
    out = [rng.choice((b"a", b"", b"leaf", b"\x00" * 32))]
    while len(out) < n:
        r = rng.random()
        if r < 0.3:
            v = rng.choice((b"a", b"b", b"c%d" % len(out)))
        elif r < 0.55:
            v = out[-1]
        elif r < 0.65:
            v = rng.choice(out)
        else:
            lv = levels(out[rng.choice((0, 0, -2, -4)):], secure, name)
            i = rng.randrange(len(lv))
            row = lv[i] if i < 2 or rng.random() < 0.5 else lv[1]
            if secure:  # the value whose digest is the node
                v = b"".join(row[:2])
            else:
                v = rng.choice(row)
        out += [v] * rng.choice((1, 1, 2))
    return out[:n]
