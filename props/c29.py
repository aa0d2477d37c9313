"""C29: outcomes do not depend on the process, its environment or its past."""
import os
import pickle
import random
import re
import subprocess
import sys
import tempfile
import threading

from vlib import boot, core, keys as K, mined, transcript as X
from vlib.core import scenario
from pymt.keypairs import RsaKeyPair
from pymt.utils.utils import Utils

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: transcripts of one workload recorded in differently configured processes and compared line by line"
LEVEL_NOTE = ("for the executed workloads every root, stored node, proof, encoding, verdict and refusal was the same in fresh processes under "
              "other hash seeds, optimisation levels, locales, time zones and directories, and in a process that had done other work before")
RULE = ("a case is a few workload seeds and two environments; the transcript of each seed in this (used) process is compared with those of fresh "
        "processes; non-trivial when both processes ran and a seed gave more than fifty lines")
REQUIRED = ["processes", "lines_compared", "optimised_processes", "hash_seeds", "used_process_compared", "threads_compared", "written_elsewhere",
            "refusals_compared", "zones", "locales", "variables"]
ASSUMPTIONS = ["the same interpreter and library versions"]

ENVS = [
    {"flags": ["-O"]}, {"flags": ["-OO"]}, {"flags": ["-O"], "env": {"PYTHONHASHSEED": "7"}},
    {"env": {"PYTHONHASHSEED": "0"}}, {"env": {"PYTHONHASHSEED": "1"}}, {"env": {"PYTHONHASHSEED": "4242"}}, {"env": {"PYTHONHASHSEED": "random"}},
    {"env": {"TZ": "Asia/Kolkata"}}, {"env": {"TZ": "America/St_Johns", "PYTHONHASHSEED": "3"}}, {"env": {"TZ": "UTC"}},
    {"env": {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}}, {"env": {"LC_ALL": "C.UTF-8"}}, {"env": {"PYTHONUTF8": "1"}},
    {"cwd": "/"}, {"flags": ["-X", "dev"]}, {"flags": ["-B", "-s"]}, {"env": {"PYTHONIOENCODING": "ascii"}},
    {"flags": ["-OO"], "env": {"PYTHONHASHSEED": "99", "TZ": "Pacific/Auckland", "LC_ALL": "C"}, "cwd": "/"},
]


# variables the code might look at: names that occur in it
NAMES = sorted(n for n in mined.STRS if re.fullmatch("[A-Z][A-Z0-9_]{3,}", n) and not n.startswith(("PYTHON", "LD_", "VERIF")) and n not in ("PATH", "HOME", "TMPDIR"))
for value in ("1", "0", "md5", ""):
    ENVS.append({"env": dict({n: value for n in NAMES}, PYTHONHASHSEED="5", DEBUG=value, PYMT_DEBUG=value)})


def gen_case(rng, size):
    return {"seeds": [rng.getrandbits(48) for _ in range(size * 2)], "envs": [rng.randrange(len(ENVS) - 4)] + [rng.choice([rng.randrange(len(ENVS) - 4), rng.randrange(len(ENVS) - 4, len(ENVS))])], "crypto": rng.random() < 0.7,
            "seed": rng.getrandbits(32)}


def written(rng):
    """What this process makes for the others to read."""
    a, b = K.pool(RsaKeyPair, 2)
    a.nickname = rng.choice(("plain", "zo\u00eb", "\u5bc6\u94a5 \U0001f511", "\udcff"))
    pw = rng.choice(("password", "p\u00e4ss \u00f8rd", "x" * 70, "tab\tand space "))
    data = rng.choice((b"", b"data", bytes(range(256)) * 3))
    fd, path = tempfile.mkstemp(dir=boot._cache)
    os.close(fd)
    a.to_key_file(path, pw)
    with open(path, "rb") as f:
        file = f.read()
    os.unlink(path)
    return {"file": file, "nick": a.nickname, "a": a.to_key_string(pw), "b": b.to_key_string(pw), "pw": pw, "apub": a.public_key, "data": data, "sig": a.sign(data),
            "enc": a.encrypt(data, b.public_key), "pw2": pw + "\u5bc6", "pwenc": Utils.encrypt(data, pw + "\u5bc6")}


def elsewhere(env, req):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_REPO", "TMPDIR", "LD_LIBRARY_PATH")}
    e.update(env.get("env", {}))
    script = os.path.join(core.VERIF, "vlib", "transcript.py")
    p = subprocess.run([sys.executable] + env.get("flags", []) + [script], input=pickle.dumps(req), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=e, cwd=env.get("cwd") or boot._cache, timeout=80)
    if p.returncode:
        raise RuntimeError("the workload process failed: " + p.stderr.decode("utf-8", "replace")[-600:])
    return pickle.loads(p.stdout)


def compare(mon, a, b, what):
    mon.saw("lines_compared", min(len(a), len(b)))
    for x, y in zip(a, b):
        if x.endswith("'raised'"):
            mon.saw("refusals_compared")
        mon.check(x == y, "%s: here %.300s, there %.300s", what, x, y)
    mon.check(len(a) == len(b), "%s: %d lines here, %d there", what, len(a), len(b))


def run_case(case, mon):
    rng = random.Random(case["seed"])
    made = written(rng) if case["crypto"] else None
    req = {"seeds": case["seeds"], "parts": X.PARTS, "made": made}
    here = [X.transcript(s, X.PARTS, made) for s in case["seeds"]]
    for i in case["envs"]:
        env = ENVS[i]
        res = elsewhere(env, req)
        mon.saw("processes")
        if res["flags"][0]:
            mon.saw("optimised_processes")
        e = env.get("env", {})
        mon.saw("hash_seeds", "PYTHONHASHSEED" in e)
        mon.saw("zones", "TZ" in e)
        mon.saw("locales", "LC_ALL" in e)
        mon.saw("variables", "PYMT_DEBUG" in e)
        for s, a, b in zip(case["seeds"], here, res["lines"]):
            compare(mon, a, b, "the same work (seed %d) in a process with %r" % (s, env))
            mon.state(a, i)
            if len(a) > 50:
                mon.mark()
        if made:
            mon.saw("written_elsewhere")
    # and again here, in another order, after everything else this process did
    for s, a in reversed(list(zip(case["seeds"], here))):
        compare(mon, a, X.transcript(s, X.PARTS, made), "the same work (seed %d) a second time in one process" % s)
        mon.saw("used_process_compared")
    out = []
    s = case["seeds"][0]
    th = threading.Thread(target=lambda: out.append(X.transcript(s, X.PARTS, made)))
    th.start()
    th.join()
    if not out:
        mon.check(False, "the work (seed %d) cannot be done in a second thread", s)
    compare(mon, here[0], out[0], "the same work (seed %d) in a second thread" % s)
    mon.saw("threads_compared")


SCENARIOS = [scenario("environments", gen_case, run_case, 32, 1500)]
