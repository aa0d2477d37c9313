"""Try planted bugs: python tools/plant.py SPECS.py [id ...] [--checks C01,C02|all]

SPECS.py defines BUGS, a list of dicts:
  id, prop, file (below src/pymt), subs [(old, new), ...], needs, breaks, demo
For each: a scratch copy of /repo is patched, the tests are run there, the demo
is run on both trees and the check of the property is run against the copy.
With PLANT_PROBE=1 bugs that change no line of the original repository are tried too, but not kept.
A bug that builds, passes the tests and whose demo tells the trees apart is
written to /verif/seeded/<id>/ whether or not a check catches it.
"""
import json
import os
import shutil
import subprocess
import sys
import runpy
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/w/plant"
PRE = (
    "import os, sys\n"
    "sys.dont_write_bytecode = True\n"
    'sys.path.insert(0, os.path.join(os.getcwd(), "src"))\n'
)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e)


def base_lines(file):
    base = subprocess.run(["git", "-C", "/repo", "show", "df17a50:src/pymt/" + file],
                          stdout=subprocess.PIPE, check=True).stdout
    return set(base.replace(b"\r", b"").split(b"\n"))


def one(bug, checks):
    bid = bug["id"]
    copy = os.path.join(W, bid)
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for item in bug.get("subs"):
            file, old, new = item if len(item) == 3 else (bug["file"],) + tuple(item)
            path = os.path.join(copy, "src/pymt", file)
            text = open(path, "rb").read()
            crlf = b"\r\n" in text
            o, n = old.encode(), new.encode()
            if crlf:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            if text.count(o) != 1:
                return bid, "BAD: %d matches of %r" % (text.count(o), old[:60])
            open(path, "wb").write(text.replace(o, n))
        rc, diff = 0, subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE).stdout
        removed = [l[1:].replace(b"\r", b"") for l in diff.split(b"\n")
                   if l.startswith(b"-") and not l.startswith(b"---")]
        orig = base_lines(bug["file"])
        counts = any(r.strip() and r in orig for r in removed)
        if not counts and not os.environ.get("PLANT_PROBE"):
            return bid, "BAD: changes no original line"
        d = os.path.join(W, bid + ".seed")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + bug["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": bug["prop"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = []
        rc, log = sh(["bash", d + "/demo.sh"], "/repo", timeout=300)
        if rc != 0:
            return bid, "BAD: demo fails on the clean tree\n" + log[-1500:]
        rc, log = sh(["bash", d + "/demo.sh"], copy, timeout=300)
        if rc == 0:
            return bid, "BAD: demo passes with the patch"
        out.append("demo: " + (log.strip().split("\n") or [""])[-1][:100])
        if not bug.get("skip_tests"):
            rc, log = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                          "src/pymt/tests"], copy,
                         dict(ENV, PYTHONHASHSEED="0", PYTHONPATH=copy + "/src"))
            if rc != 0:
                return bid, "BAD: tests fail\n" + "\n".join(log.strip().split("\n")[-8:])
        sdir = os.path.join(VERIF, "seeded", bid)
        if counts:
            shutil.rmtree(sdir, ignore_errors=True)
            shutil.copytree(d, sdir)
        else:
            out.append("(probe only, changes no original line)")
        names = [bug["prop"]] if not checks else (
            ["C%02d" % i for i in range(1, 39)] if checks == ["all"] else checks)
        caught = []
        for name in names:
            rc, log = sh([PY, os.path.join(VERIF, "run.py"), name], VERIF,
                         dict(ENV, VERIF_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                              VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/w/ev-" + bid))
            line = [l for l in log.split("\n") if l.startswith("VIOLATION")]
            detail = [l for l in log.split("\n") if l.strip()][-1:]
            if rc == 1 and line:
                caught.append(name)
            elif rc != 0:
                out.append("%s exit %d: %s" % (name, rc, detail))
        out.append("caught by " + (" ".join(caught) or "NONE of " + " ".join(names)))
        return bid, ("OK  " if bug["prop"] in caught else "MISS") + " " + "; ".join(out)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/w/ev-" + bid, ignore_errors=True)


def main():
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    bugs = runpy.run_path(args[0])["BUGS"]
    if len(args) > 1:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for bid, res in ex.map(lambda b: one(b, checks), bugs):
            print("%-28s %s" % (bid, res), flush=True)


main()
