"""Constants that occur in the code under test, used to bias the generators
(a dictionary as fuzzers use it): sizes, counts and byte strings the code
itself distinguishes are interesting inputs."""
import ast
import os

from . import boot


def _fold(n):
    if isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1 << 40:
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        op = type(n.op)
        if op is ast.Mult:
            return a * b
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op in (ast.LShift, ast.Pow) and 0 <= b < 40:
            return a << b if op is ast.LShift else a ** b
        if op is ast.FloorDiv and b:
            return a // b
    raise ValueError


def _mine():
    ints, big, blobs, strs = set(), set(), set(), set()
    for base, dirs, files in os.walk(boot.PKG):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(base, f), encoding="utf-8").read())
            except Exception:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body:
                    d = n.body[0]
                    if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                        docs.add(id(d.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp):  # 64 * 1024, 1 << 16, 2 ** 10
                    try:
                        v = _fold(n)
                    except (ValueError, ArithmeticError):
                        continue
                elif not isinstance(n, ast.Constant) or id(n) in docs:
                    continue
                else:
                    v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 0 <= v <= 70000:
                    ints.add(v)
                elif isinstance(v, int) and 70000 < v <= 1 << 21:
                    big.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 64:
                    blobs.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
    return sorted(ints), sorted(big), sorted(blobs), sorted(strs)


INTS, BIG, BLOBS, STRS = _mine()
# lengths worth trying because of them
LENGTHS = sorted({n for c in INTS for n in (c - 1, c, c + 1) if 0 <= n <= 70000})
# sizes at which implementations change their ways, and those of this code
SIZES = sorted(set(LENGTHS) | set(range(70)) | {n for p in range(7, 17) for n in ((1 << p) - 1, 1 << p, (1 << p) + 1)})
BIG_SIZES = SIZES + sorted({n for c in BIG for n in (c - 1, c, c + 1)} | {1 << 17, (1 << 20) + 1})
SMALL_LENGTHS = [n for n in LENGTHS if n <= 300]
BYTES = BLOBS + [s.encode() for s in STRS if s.isascii() and not any(c in s for c in " {}%")]
