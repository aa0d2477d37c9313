"""Key pairs for the workloads, made once per process (fresh randomness)."""
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair

_pools = {}
_big = []


def make(cls, bits=1024, nickname=None):
    p = cls(nickname, _generate_keys=False)
    p.generate_keypair(bits)
    return p


def pool(cls, n=3):
    have = _pools.setdefault(cls, [])
    while len(have) < n:
        have.append(make(cls, 1024, "%s %d" % (cls.__name__, len(have))))
    return have[:n]


def big():
    if not _big:
        _big.append(make(RsaKeyPair, 1536, "big"))
    return _big[0]
