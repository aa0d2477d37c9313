"""Groups of 3-byte numbers whose keccak256 hashes share a long nibble prefix."""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.ref_trie import keccak256
h = {i: keccak256(i.to_bytes(3, "big")).hex() for i in range(200000)}
groups = []
for plen, want, size in ((3, 3, 8), (4, 6, 6), (5, 8, 4), (6, 8, 3), (7, 8, 2), (8, 6, 2)):
    d = collections.defaultdict(list)
    for i, x in h.items():
        d[x[:plen]].append(i)
    c = [sorted(v)[:size] for v in d.values() if len(v) >= size]
    c.sort()
    groups += c[:want]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "secure_keys.py")
with open(out, "w") as f:
    f.write('"""Generated by tools/gen_secure_keys.py: numbers (as 3 big-endian bytes) whose\nkeccak256 hashes share their first 3 to 8 nibbles."""\nGROUPS = [\n')
    for g in groups:
        f.write("    %r,\n" % (g,))
    f.write("]\n")
