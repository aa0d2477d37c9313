"""The reference models against published vectors (setup_cmd)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import ref_trie as R, ref_merkle as M  # noqa: E402

assert R.slow_keccak256(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
for n in [0, 1, 31, 32, 33, 55, 56, 134, 135, 136, 137, 271, 272, 273, 1000]:
    d = bytes((i * 7 + n) % 256 for i in range(n))
    assert R.slow_keccak256(d) == R.keccak256(d), n
assert R.EMPTY_ROOT.hex() == "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"
assert R.rlp_encode(b"dog") == b"\x83dog"
assert R.rlp_encode([b"cat", b"dog"]) == b"\xc8\x83cat\x83dog"
assert R.rlp_encode([[], [[]], [[], [[]]]]) == bytes.fromhex("c7c0c1c0c3c0c1c0")
lorem = b"Lorem ipsum dolor sit amet, consectetur adipisicing elit"
assert R.rlp_encode(lorem) == b"\xb8\x38" + lorem
for x in [b"", b"\0", b"\x7f", b"\x80", lorem, b"x" * 1024, [b"a", [b"", lorem * 30]]]:
    assert R.rlp_decode(R.rlp_encode(x)) == x
assert R.hp_encode((1, 2, 3, 4, 5), False).hex() == "112345"
assert R.hp_encode((0, 1, 2, 3, 4, 5), False).hex() == "00012345"
assert R.hp_encode((0, 15, 1, 12, 11, 8), True).hex() == "200f1cb8"
assert R.hp_encode((15, 1, 12, 11, 8), True).hex() == "3f1cb8"
# ethereum/tests TrieTests/trieanyorder.json
T = [
    ({b"do": b"verb", b"horse": b"stallion", b"doge": b"coin", b"dog": b"puppy"}, False,
     "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84"),
    ({b"A": b"a" * 50}, False, "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab"),
    ({b"doe": b"reindeer", b"dog": b"puppy", b"dogglesworth": b"cat"}, False,
     "8aad789dff2f538bca5d8ea56e8abe10f4c7ba3a5dea95fea4cd6e7c3a1168d3"),
    ({b"foo": b"bar", b"food": b"bass"}, False, "17beaa1648bafa633cda809c90c04af50fc8aed3cb40d16efbddee6fdf63c4c3"),
    ({b"be": b"e", b"dog": b"puppy", b"bed": b"d"}, False,
     "3f67c7a47520f79faa29255d2d3c084a7a6df0453116ed7232ff10277a8be68b"),
    ({b"test": b"test", b"te": b"testy"}, False, "8452568af70d8d140f58d941338542f645fcca50094b20f3c3d8c3df49337928"),
    ({b"doe": b"reindeer", b"dog": b"puppy", b"dogglesworth": b"cat"}, True,
     "d4cd937e4a4368d7931a9cf51686b7e10abb3dce38a39000fd7902a092b64585"),
]
for contents, secure, want in T:
    nodes = {}
    assert R.root_hash(contents, secure, nodes).hex() == want, contents
    got = dict(R.walk(bytes.fromhex(want), nodes.__getitem__))
    assert got == {R.path_of(k, secure): v for k, v in contents.items()}
for n in range(1, 20):
    vals = [b"%d" % i for i in range(n)]
    r = M.root(vals, True, "sha256")
    for i in range(n):
        assert M.fold(M.leaf(vals[i], True, "sha256"), M.siblings(vals, i, True, "sha256"), "sha256") == r
print("reference models agree with the published vectors")
