"""Workload runner and verdicts.

A property module (props/cXX.py) offers scenarios.  A scenario makes cases
(plain Python literals, so that a failing one can be written down and replayed)
and runs a case against the real code while its monitors watch:

    Scenario(name, gen, run, quick, thorough)
      gen(rng, size)  -> case          random workload, or gen(i) when
                                       enum=True: the i-th case of a finite list
      run(case, mon)  -> None          raises Violation when an oracle refutes
                                       the property

Everything an oracle compared is counted in mon (mon.saw), distinct observed
states are collected as fingerprints (mon.state), and a check whose deciding
monitor was never reached is inconclusive, never "held".
"""
import argparse
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CASE_SECONDS = 90


class Violation(BaseException):
    """An oracle refuted the property on this execution (a BaseException: code
    under test that swallows Exception must not swallow a verdict)."""


class CaseTimeout(BaseException):
    pass


Scenario = collections.namedtuple("Scenario", "name gen run quick thorough enum sizes")


def scenario(name, gen, run, quick, thorough=None, enum=False, sizes=(1, 1, 1, 2, 2, 3)):
    return Scenario(name, gen, run, quick, thorough or quick * 20, enum, sizes)


def fp(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"|")
    return h.digest()


class Monitor:
    """What the oracles of one process observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.states = set()
        self.nontrivial = set()
        self.known = {}
        self._case_nt = False

    def saw(self, what, n=1):
        self.counts[what] += n

    def state(self, *parts):
        self.states.add(fp(*parts))

    def mark(self):
        """The case running now is non-trivial (see the property's rule)."""
        self._case_nt = True

    def check(self, cond, msg, *args):
        self.counts["oracle_comparisons"] += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def known_finding(self, tag, text):
        self.known.setdefault(tag, text)


# ---------------------------------------------------------------- coverage
class LineCoverage:
    """Which lines of the package the executions really reached."""

    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        m = getattr(sys, "monitoring", None)
        if m is None:
            return
        try:
            m.use_tool_id(m.COVERAGE_ID, "verif")
        except ValueError:
            return
        root = boot.PKG + os.sep
        lines = self.lines

        def on_line(code, line):
            if code.co_filename.startswith(root):
                lines.add((code.co_filename[len(root):], line))
            return m.DISABLE

        m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)
        self.on = True


def executable_lines():
    out = {}
    for base, dirs, files in os.walk(boot.PKG):
        for f in files:
            if not f.endswith(".py"):
                continue
            path = os.path.join(base, f)
            rel = os.path.relpath(path, boot.PKG)
            try:
                code = compile(open(path, encoding="utf-8").read(), path, "exec")
            except Exception:
                continue
            found = set()
            todo = [code]
            while todo:
                c = todo.pop()
                for k in c.co_consts:
                    if hasattr(k, "co_lines"):
                        todo.append(k)
                        if k.co_flags & 1:  # bodies of functions only
                            first = k.co_firstlineno
                            found |= {l for _, _, l in k.co_lines() if l and l != first}
            out[rel] = found
    return out


# ------------------------------------------------------------------ running
def _alarm(signum, frame):
    raise CaseTimeout()


def _case_rng(seed, prop, scen, i):
    return random.Random("%s:%s:%s:%d" % (seed, prop, scen, i))


def make_case(sc, seed, prop, i):
    if sc.enum:
        return sc.gen(i)
    rng = _case_rng(seed, prop, sc.name, i)
    size = sc.sizes[i % len(sc.sizes)]
    return sc.gen(rng, size)


def run_case(sc, case, mon, seconds=CASE_SECONDS):
    """Run one case; return None or the text of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        sc.run(case, mon)
        return None
    except Violation as e:
        return "%s\n%s" % (e, _where(e))
    except CaseTimeout:
        return "TIMEOUT: no answer within %d s" % seconds
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an API call on valid input raised, or answered nonsense
        return "unexpected %s: %s\n%s" % (
            type(e).__name__, str(e)[:300],
            "".join(traceback.format_exception(e)[-14:])[-3500:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))


_worker = {}


def _init_worker(modname, seed):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    cov = LineCoverage()
    cov.start()
    _worker["cov"] = cov
    _worker["seed"] = seed
    _worker["mod"] = importlib.import_module(modname)
    _worker["scen"] = {s.name: s for s in _worker["mod"].SCENARIOS}


def _run_chunk(scen_name, start, stop, deadline):
    mod = _worker["mod"]
    sc = _worker["scen"][scen_name]
    mon = Monitor()
    done = 0
    samples = []
    bad = None
    for i in range(start, stop):
        if time.time() > deadline:
            break
        try:
            case = make_case(sc, _worker["seed"], mod.ID, i)
        except Exception:
            return {"harness_error": "generating %s #%d\n%s" % (scen_name, i, traceback.format_exc())}
        mon._case_nt = False
        err = run_case(sc, case, mon)
        done += 1
        if mon._case_nt:
            mon.nontrivial.add(fp(scen_name, repr(case)))
        if err is not None:
            bad = (i, err)
            break
        if i == start and start == 0:
            samples.append((i, case))
    return {
        "scenario": scen_name, "done": done, "bad": bad,
        "counts": dict(mon.counts), "states": mon.states, "nontrivial": mon.nontrivial,
        "known": mon.known, "lines": set(_worker["cov"].lines), "samples": samples,
        "planned": stop - start, "rest": (start + done, stop),
    }


def _isolated(modname, scen_name, case, seconds, q):
    try:
        _init_worker(modname, 0)
        sc = _worker["scen"][scen_name]
        q.put(run_case(sc, case, Monitor(), seconds))
    except BaseException as e:
        q.put("unexpected %s in an isolated run: %s" % (type(e).__name__, e))


def run_isolated(modname, scen_name, case, seconds):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_isolated, args=(modname, scen_name, case, seconds, q))
    p.start()
    try:
        res = q.get(timeout=seconds + 30)
    except Exception:
        res = "TIMEOUT: the process gave no answer"
    p.join(2)
    if p.is_alive():
        p.kill()
    return res


def shrink(modname, scen_name, case, err, budget=25.0):
    """Delta-debug the list of operations of a failing case."""
    if not (isinstance(case, dict) and isinstance(case.get("ops"), (list, tuple))) or len(case["ops"]) < 2:
        return case, err
    if err.startswith("TIMEOUT"):
        return case, err
    t0 = time.time()
    mod = importlib.import_module(modname)
    sc = {s.name: s for s in mod.SCENARIOS}[scen_name]

    def fails(ops):
        c = dict(case)
        c["ops"] = ops
        try:
            return run_case(sc, c, Monitor(), 20)
        except BaseException:
            return None

    ops = list(case["ops"])
    if fails(ops) is None:  # state of the process mattered; keep it as it is
        return case, err
    n = 2
    while len(ops) >= 2 and time.time() - t0 < budget:
        size = max(1, len(ops) // n)
        for s in range(0, len(ops), size):
            if time.time() - t0 > budget:
                break
            cand = ops[:s] + ops[s + size:]
            e = fails(cand) if cand else None
            if e is not None and not e.startswith("TIMEOUT"):
                ops, err, n = cand, e, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    out = dict(case)
    out["ops"] = ops
    return out, err


def _short(x, limit=600):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


def load_replay(path):
    with open(path, encoding="utf-8") as f:
        text = "".join(l for l in f if not l.startswith("#"))
    return eval(text, {"__builtins__": {}, "bytearray": bytearray, "nan": float("nan"), "inf": float("inf")})


def known_listed():
    """(property, tag) of the findings recorded as open in known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("open: "):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                out[(f["property"], f["mechanism"])] = line
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--scenario", help="only this scenario (debugging)")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop.upper()
    modname = "props." + prop.lower()
    mod = importlib.import_module(modname)

    if args.replay:
        rec = load_replay(args.replay)
        res = run_isolated(modname, rec["scenario"], rec["case"], 300)
        if res is None:
            print("replay of %s: the property held" % args.replay)
            return 0
        print(res)
        print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return 1

    t0 = time.time()
    cap = {"quick": 200.0, "thorough": 780.0}[args.tier]
    deadline = t0 + cap
    scens = [s for s in mod.SCENARIOS if not args.scenario or s.name == args.scenario]
    tasks = []
    for s in scens:
        n = s.quick if args.tier == "quick" else s.thorough
        if not s.enum:
            n = max(1, int(n * args.scale))
        chunk = max(1, min(400, n // (JOBS * 6) or 1))
        for a in range(0, n, chunk):
            tasks.append((a / n, s.name, a, min(n, a + chunk)))
    tasks.sort()  # all scenarios advance together

    counts = collections.Counter()
    states, nontrivial, lines = set(), set(), set()
    done = collections.Counter()
    planned = collections.Counter()
    samples, known = [], {}
    violation = harness = None
    ctx = multiprocessing.get_context("fork")
    ex = cf.ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=_init_worker, initargs=(modname, seed))
    try:
        pending = set()
        it = iter(tasks)
        exhausted = False
        while True:
            while not exhausted and len(pending) < JOBS * 3:
                try:
                    _, name, a, b = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pending.add(ex.submit(_run_chunk, name, a, b, deadline))
            if not pending:
                break
            fin, pending = cf.wait(pending, timeout=30, return_when=cf.FIRST_COMPLETED)
            if not fin and time.time() > deadline + CASE_SECONDS + 40:
                harness = "a worker process does not answer"
                break
            for f in fin:
                r = f.result()
                if "harness_error" in r:
                    harness = r["harness_error"]
                    break
                counts.update(r["counts"])
                states |= r["states"]
                nontrivial |= r["nontrivial"]
                lines |= r["lines"]
                done[r["scenario"]] += r["done"]
                planned[r["scenario"]] += r["planned"]
                for tag, text in r["known"].items():
                    known.setdefault(tag, text)
                for i, c in r["samples"]:
                    samples.append({"scenario": r["scenario"], "index": i, "case": _short(c)})
                if r["bad"] is not None and violation is None:
                    i, err = r["bad"]
                    if err.startswith("TIMEOUT"):  # a loaded machine, or a call that does not end?
                        sc = {s.name: s for s in scens}[r["scenario"]]
                        err = run_isolated(modname, r["scenario"], make_case(sc, seed, mod.ID, i), 240)
                    if err is not None:
                        violation = (r["scenario"], i, err)
                    else:
                        print("note: case %d of %s gave no answer in %d s, but held on a second run" % (i, r["scenario"], CASE_SECONDS))
                        planned[r["scenario"]] -= r["rest"][1] - r["rest"][0]
                        if time.time() - t0 > max(560, cap):
                            harness = "slow cases"
                        elif r["rest"][0] < r["rest"][1]:
                            pending.add(ex.submit(_run_chunk, r["scenario"], r["rest"][0], r["rest"][1], deadline))
            if violation or harness:
                break
    except cf.process.BrokenProcessPool as e:
        harness = "a worker process died: %s" % e
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            if p.is_alive():
                p.kill()

    rep = None
    if violation:
        scen_name, i, err = violation
        sc = {s.name: s for s in scens}[scen_name]
        case = make_case(sc, seed, mod.ID, i)
        case, err = shrink(modname, scen_name, case, err)
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        rep = os.path.join(os.environ.get("VERIF_EVIDENCE") or "evidence", "replay", "%s-%s-%d.txt" % (prop, scen_name, i))
        with open(os.path.join(VERIF, rep), "w", encoding="utf-8") as f:
            f.write("# %s\n" % err.replace("\n", "\n# "))
            f.write(repr({"property": prop, "scenario": scen_name, "index": i, "seed": seed, "case": case}))
            f.write("\n")

    listed = known_listed()
    unlisted_known = [t for t in known if (prop, t) not in listed]
    nviol = (1 if violation else 0) + len(unlisted_known)

    exe = executable_lines()
    total = sum(len(v) for v in exe.values())
    reached = {}
    for f, v in exe.items():
        n = len({l for ff, l in lines if ff == f} & v)
        if n:
            reached[f] = "%d/%d" % (n, len(v))
    coverage = {
        "evaluations": sum(done.values()),
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE,
        "samples": samples or [{"none": "no case finished"}],
        "cases_per_scenario": dict(done),
        "stopped_early_by_time_cap": {k: "%d of %d" % (done[k], planned[k]) for k in planned if done[k] < planned[k]},
        "observed": dict(sorted(counts.items())),
        "distinct_states_observed": len(states),
        "package_lines_reached": reached,
        "package_lines_total": total,
    }
    ev = {
        "property": prop, "tier": args.tier, "seed": seed, "level": mod.LEVEL,
        "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))

    for tag in sorted(known):
        if tag not in unlisted_known:
            print("KNOWN-FINDING: property=%s mechanism=%s %s" % (prop, tag, known[tag]))
    if violation:
        print("scenario %s case #%d (seed %d):" % (violation[0], violation[1], seed))
        print(err)
        print("case: %s" % _short(case, 2000))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if unlisted_known:
        for t in unlisted_known:
            print("%s: %s" % (t, known[t]))
        print("VIOLATION property=%s replay=%s" % (prop, "mechanism:" + unlisted_known[0]))
        return 1
    if harness:
        print("ERROR of the check: %s" % harness)
        return 3
    missing = [r for r in mod.REQUIRED if not counts.get(r)]
    if missing and not args.scenario:
        print("INCONCLUSIVE: the monitors never observed: %s" % ", ".join(missing))
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %d oracle comparisons, %d distinct states, %.1f s"
          % (prop, sum(done.values()), len(nontrivial), counts["oracle_comparisons"], len(states), time.time() - t0))
    return 0
