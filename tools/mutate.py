"""Systematic small changes to the package, to find what no check notices.

  mutate.py list OUT.json [file ...]     make mutants, keep those that pass the tests
  mutate.py check IN.json OUT.json       run the checks on them until one notices

A survivor of both is either a change that keeps the behaviour or a gap.
Works on scratch copies under /tmp/w/mut only.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/w/mut"
JOBS = int(os.environ.get("MUT_JOBS", "6"))
FILES = ["mpt.py", "empt.py", "merkletools.py", "mt.py", "proof.py", "keypairs.py", "utils/node.py", "utils/nibble_path.py", "utils/hash.py",
         "utils/utils.py", "utils/encryption.py", "utils/exceptions.py"]
FILES = [f for f in FILES if os.path.exists("/repo/src/pymt/" + f)]
BASE = ["C01", "C02", "C25", "C33", "C34"]
CHECKS = {
    "mpt.py": ["C01", "C02", "C06", "C08", "C07", "C09", "C10", "C05", "C33", "C04", "C03", "C34", "C25", "C32", "C30", "C29", "C28", "C31", "C14", "C13", "C35", "C36", "C37", "C38"],
    "empt.py": ["C11", "C13", "C12", "C26", "C30", "C14", "C33", "C34", "C28", "C05", "C25", "C10", "C32", "C06", "C08", "C29", "C31", "C07", "C09", "C35", "C36", "C37", "C38"],
    "merkletools.py": ["C15", "C16", "C17", "C14", "C32", "C25", "C30", "C34", "C29", "C31", "C35", "C36", "C37", "C38"],
    "mt.py": ["C15", "C16", "C17", "C14", "C30", "C25", "C32", "C34", "C29", "C31", "C35", "C36", "C37", "C38"],
    "proof.py": ["C18", "C32", "C14", "C17", "C06", "C08", "C29", "C25", "C30", "C31", "C35", "C36", "C37", "C38"],
    "keypairs.py": ["C19", "C20", "C21", "C32", "C14", "C30", "C29", "C34", "C35", "C36", "C37", "C38"],
    "utils/node.py": ["C24", "C01", "C02", "C06", "C10", "C29", "C25", "C14", "C31", "C33", "C07", "C09", "C35", "C36", "C37", "C38"],
    "utils/nibble_path.py": ["C23", "C01", "C02", "C24", "C32", "C06", "C29", "C14", "C31", "C35", "C36", "C37", "C38"],
    "utils/hash.py": ["C27", "C02", "C26", "C01", "C29", "C35", "C36", "C37", "C38"],
    "utils/utils.py": ["C27", "C22", "C29", "C18", "C32", "C35", "C36", "C37", "C38"],
    "utils/encryption.py": ["C22", "C27", "C29", "C35", "C36", "C37", "C38"],
    "utils/exceptions.py": ["C01", "C27", "C35", "C36", "C37", "C38"],
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "//", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<",
       ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "&"}


def mutants(text):
    """(line, what, new text)"""
    tree = ast.parse(text)
    lines = text.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def off(line, col):
        return start[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    out = []

    def emit(n, what, new):
        out.append((n.lineno, what, put(n, new)))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):  # messages
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)):
            for a in ([n.returns] if isinstance(n, ast.FunctionDef) else [n.annotation]):
                if a is not None:
                    for m in ast.walk(a):
                        skip.add(id(m))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip or id(n) in docs:
            if isinstance(n, ast.Raise):
                emit(n, "raise removed", "pass")
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            emit(n, "comparison", "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                emit(n, "comparison is ==", "%s == %s" % (seg(n.left), seg(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            emit(n, "and/or", "(" + op.join("(%s)" % seg(v) for v in n.values) + ")")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                emit(n, "operand %d dropped" % i, "(" + o.join("(%s)" % seg(v) for v in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, "not removed", "(%s)" % seg(n.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                emit(n, "constant", repr(not v))
            elif isinstance(v, int):
                emit(n, "constant", repr(v + 1))
                if v:
                    emit(n, "constant", repr(v - 1))
            elif isinstance(v, bytes):
                emit(n, "constant", repr(v + b"\x00"))
                if v:
                    emit(n, "constant", 'b""')
            elif isinstance(v, str) and len(v) < 40 and not isinstance(getattr(n, "parent", None), ast.JoinedStr):
                emit(n, "constant", repr(v + "x"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            emit(n, "operator", "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            emit(n.test, "condition True", "True")
            emit(n.test, "condition False", "False")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            emit(n, "statement removed", "pass")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            emit(n, "returns None", "return None")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                a = seg(n)
                emit(n, "slice from the start", (":" + a.split(":", 1)[1]) if ":" in a else a)
            if n.upper is not None:
                a = seg(n)
                emit(n, "slice to the end", a.rsplit(":", 1)[0] + ":" if a.count(":") == 1 else a)
        elif isinstance(n, ast.Call) and n.args and len(n.args) == 2 and not n.keywords:
            emit(n, "arguments swapped", "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("bytes", "list", "dict", "tuple", "bytearray", "sorted", "bool") and len(n.args) == 1:
            emit(n, "copy removed", "(%s)" % seg(n.args[0]))
    seen = set()
    for line, what, new in out:
        if new == text or new in seen:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        yield line, what, new


def diff(old, new):
    import difflib
    return "\n".join(l for l in difflib.unified_diff(old.split("\n"), new.split("\n"), lineterm="", n=0) if not l.startswith(("---", "+++")))


def copies(n, name="copy"):
    q = queue.Queue()
    for i in range(n):
        d = os.path.join(W, name + str(i))
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        q.put(d)
    return q


def tests_for(f):
    t = "src/pymt/tests"
    return t


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    mode = sys.argv[1]
    if mode == "list":
        files = sys.argv[3:] or FILES
        todo = []
        for f in files:
            raw = open("/repo/src/pymt/" + f, "rb").read()
            crlf = b"\r\n" in raw
            text = raw.decode().replace("\r\n", "\n")
            for line, what, new in mutants(text):
                todo.append((f, line, what, text, new, crlf))
        print(len(todo), "mutants", flush=True)
        q = copies(JOBS)
        keep = []

        def one(m):
            f, line, what, text, new, crlf = m
            d = q.get()
            path = d + "/src/pymt/" + f
            try:
                open(path, "wb").write((new.replace("\n", "\r\n") if crlf else new).encode())
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d + "/src")
                k = [] if f in ("keypairs.py", "utils/utils.py", "utils/encryption.py") else ["-k", "not keypair and not encr"]
                rc, log = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "src/pymt/tests"] + k, d, env, 200)
                return rc == 0
            finally:
                open(path, "wb").write((text.replace("\n", "\r\n") if crlf else text).encode())
                q.put(d)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for m, ok in zip(todo, ex.map(one, todo)):
                if ok:
                    keep.append({"file": m[0], "line": m[1], "what": m[2], "diff": diff(m[3], m[4]), "new": m[4], "crlf": m[5]})
                    json.dump(keep, open(sys.argv[2], "w"))
        print(len(keep), "survive the tests")
    else:
        todo = json.load(open(sys.argv[2]))
        q = copies(int(os.environ.get("MUT_JOBS", "3")), "check%d-" % os.getpid())
        out = []

        def one(m):
            d = q.get()
            path = d + "/src/pymt/" + m["file"]
            old = open(path, "rb").read()
            try:
                new = m["new"]
                open(path, "wb").write((new.replace("\n", "\r\n") if m["crlf"] else new).encode())
                odd = []
                for c, scale in [(c, s) for s in os.environ.get("MUT_SCALES", "0.1 1").split() for c in CHECKS[m["file"]]]:
                    ev = d + ".ev"
                    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=ev, PYTHONDONTWRITEBYTECODE="1")
                    rc, log = run([PY, os.path.join(VERIF, "run.py"), c, "--scale", scale], VERIF, env, 600)
                    if rc == 1:
                        return c, odd
                    if rc != 0:
                        odd.append((c, rc, log[-300:]))
                return None, odd
            finally:
                open(path, "wb").write(old)
                q.put(d)

        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
            for m, (c, odd) in zip(todo, ex.map(one, todo)):
                out.append(dict({k: m[k] for k in ("file", "line", "what", "diff")}, caught=c, odd=odd))
                json.dump(out, open(sys.argv[3], "w"), indent=1)
                if c is None:
                    print("UNNOTICED %s:%d %s %s\n%s" % (m["file"], m["line"], m["what"], odd or "", m["diff"]), flush=True)
        print(sum(1 for o in out if o["caught"]), "of", len(out), "noticed")


main()
