"""C28: a crash at any storage access loses at most the operation in flight."""
import os
import pickle
import random
import signal
import sys
import tempfile

from vlib import boot, gen, tries as T, ref_trie as R, empts as E
from vlib.core import scenario
from vlib.journal import DictJ, Journal, MappingJ, GetSetJ, replay
from vlib.objs import enc, make
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT

ID = "C28"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with crash injection: the storages as of every single change are reopened and checked; killed processes likewise"
LEVEL_NOTE = ("for the executed operations every prefix of the changes made to the storages (all of them for short operations, a sample for "
              "long ones) was reopened at the last noted root and compared with the contents before the operation, and the operation repeated")
RULE = ("a case is a history on journalling storages; for every operation the storages as they were after each of its changes are rebuilt and "
        "reopened with the root noted before it; crash points inside an operation (not only between two) make a case non-trivial")
REQUIRED = ["crash_points", "crash_inside_operation", "old_contents_read", "operations_repeated", "older_roots_read", "extended_crash_points",
            "rebuild_crash_points", "in_flight_keys_read", "processes_killed", "recovered_by_rebuild", "other_operation_after_crash", "data_reformed"]
ASSUMPTIONS = ["one item set or delete of a storage is atomic and durable in order", "the owner notes root() after each operation that returned"]

WAYS = ("mpt", "mptgs", "sparse", "empt", "empt")


def make_trie(way, journal, secure, own=False):
    Map = DictJ if own else MappingJ
    if way == "mpt":
        return MPT(Map(journal, "n"), secure=secure)
    if way == "mptgs":
        return MPT(GetSetJ(journal, "n"), secure=secure)
    if way == "sparse":
        return SparseEMPT(Map(journal, "n"), secure=secure)
    return EMPT(Map(journal, "n"), Map(journal, "d"), secure=secure)


def reopen(way, snap, root, secure):
    if way in ("mpt", "mptgs"):
        return MPT(snap["n"], root, secure=secure)
    if way == "sparse":
        return SparseEMPT(snap["n"], root, secure=secure)
    return EMPT(snap["n"], snap["d"], root=root, secure=secure)


def want_root(way, model, secure):
    return R.root_hash(model, secure) if way in ("mpt", "mptgs") else E.want_root(model, secure)


def check_key(mon, way, t, model, k, secure, in_flight, data=True):
    """data False: only what the trie itself holds (an older root)."""
    want = model.get(k)
    if way in ("mpt", "mptgs"):
        T.check_key(mon, t, model, k, secure)
        return
    mon.check(t.contains(k) is (want is not None), "contains(%s) is wrong after a crash", T.hx(k))
    E.check_ref(mon, t, model, k)
    if way == "sparse" or not data:
        return
    g = T.attempt(t.get, k)
    if k in in_flight:
        mon.saw("in_flight_keys_read")
        mon.check(T.raised(g) or (want is not None and enc(g) == want),
                  "%s, being written when the crash came, reads as %s, before that it was %s", T.hx(k), T.hx(enc(g)) if not T.raised(g) else g, T.hx(want))
    elif want is None:
        mon.check(T.raised(g), "the absent key %s reads as %r after a crash", T.hx(k), g)
    else:
        mon.check(not T.raised(g) and enc(g) == want, "%s, which was not being written, reads as %r after a crash", T.hx(k), g)


def do(t, op):
    if op[0] == "put":
        t.update(op[1], make(op[3], op[2]) if len(op) > 3 else op[2])
    else:
        t.delete(op[1])


def check_point(mon, rng, way, secure, snap, noted, model, op, after, keys, past, inside):
    """The storages `snap` found after a crash, the root `noted` last, its
    contents, the operation in flight, the contents it was to give."""
    mon.saw("crash_points")
    if way == "empt":
        mon.saw("extended_crash_points")
    if inside:
        mon.saw("crash_inside_operation")
        mon.mark()

    def copy():
        return {n: dict(s) for n, s in snap.items()}

    flight = {op[1]}
    t = reopen(way, copy(), noted, secure)
    want = want_root(way, model, secure)
    mon.check(t.root_hash() == want, "the noted root is not that of the contents before the crash")
    probe = [op[1]] + rng.sample(keys, min(4, len(keys)))
    for k in probe:
        check_key(mon, way, t, model, k, secure, flight)
        mon.saw("old_contents_read")
    # an older root on the same storages
    if past:
        root, m = rng.choice(past)
        o = reopen(way, copy(), root, secure)
        for k in rng.sample(keys, min(3, len(keys))):
            check_key(mon, way, o, m, k, secure, flight, data=False)
        mon.saw("older_roots_read")
    # the operation repeated
    if op[0] == "del" and way == "empt" and op[1] not in snap["d"]:
        # the data is gone already: putting the entry back and deleting it again is the owner's way
        t.update(op[1], model[op[1]])
    r = T.attempt(do, t, op)
    mon.check(not T.raised(r), "repeating %s(%s) after the crash raised %r", op[0], T.hx(op[1]), r)
    mon.check(t.root_hash() == want_root(way, after, secure), "repeating %s(%s) after the crash gives another root than it would have", op[0], T.hx(op[1]))
    for k in probe[:3]:
        check_key(mon, way, t, after, k, secure, ())
    mon.saw("operations_repeated")
    # something else done instead; the data of the key in flight is then whatever the crash left
    t = reopen(way, copy(), noted, secure)
    k = rng.choice([x for x in keys if x != op[1]] or [op[1]])
    m = dict(model)
    v = gen.value(rng)
    t.update(k, v)
    m[k] = v
    mon.check(t.root_hash() == want_root(way, m, secure), "an update of another key after the crash gives a wrong root")
    check_key(mon, way, t, m, k, secure, ())
    if k != op[1]:
        check_key(mon, way, t, m, op[1], secure, flight)
    mon.saw("other_operation_after_crash")
    # an extended trie can always be made whole from its data
    if way == "empt" and inside:
        t = reopen(way, copy(), noted, secure)
        t.build_trie()
        got = t.root_hash()
        mon.check(got in (want, want_root(way, after, secure)), "rebuilding after the crash gives neither the contents before nor those after the operation")
        m = model if got == want else after
        for k in probe:
            check_key(mon, way, t, m, k, secure, ())
        mon.check(len(t) == len(m), "a rebuilt mapping has %d entries instead of %d", len(t), len(m))
        mon.saw("recovered_by_rebuild")


def gen_case(rng, size):
    secure = rng.random() < 0.35
    way = rng.choice(WAYS)
    h = gen.history(rng, min(size, 2) if size != gen.DEEP else size, secure=secure, empty=way in ("sparse", "empt"))
    ops = h["ops"]
    if rng.random() < 0.6:
        ops = [("put", o[1], o[2] * (1 + 32 // max(1, len(o[2])))) if o[0] == "put" else o for o in ops]
    if way in ("sparse", "empt"):
        ops = [o + (rng.choice((0, 0, 1, 2, 3)),) if o[0] == "put" else o for o in ops]
    if way not in ("sparse", "empt"):
        ops = [o for o in ops if o[0] != "put" or o[2]]
    return {"secure": secure, "keys": h["keys"], "ops": ops, "way": way, "seed": rng.getrandbits(32)}


def run_case(case, mon):
    rng = random.Random(case["seed"])
    way, secure, keys = case["way"], case["secure"], case["keys"]
    j = Journal()
    t = make_trie(way, j, secure, case["seed"] % 3 == 0)
    model = {}
    past = []
    for op in case["ops"]:
        if op[0] == "del" and op[1] not in model:
            continue
        before = dict(model)
        noted, start = t.root(), len(j)
        do(t, op)
        T.apply_ref(model, op)
        n = len(j) - start
        points = list(range(0, n + 1))
        if len(points) > 6:
            points = sorted({0, n} | set(rng.sample(points, 4)))
        if len(case["ops"]) > 20:
            points = rng.sample(points, min(len(points), 2))
        for p in points:
            snap = replay(j.events, ("n", "d"), start + p)
            check_point(mon, rng, way, secure, snap, noted, before, op, model, keys, past, 0 < p < n or (p == n and n))
        past.append((t.root(), dict(model)))
        mon.state(t.root_hash(), n)


def gen_rebuild(rng, size):
    secure = rng.random() < 0.35
    h = gen.history(rng, min(size, 2), secure=secure, empty=True, dels=0.15)
    ops = [o + (rng.choice((0, 0, 1, 2, 3)),) if o[0] == "put" else o for o in h["ops"][:14]]
    return {"secure": secure, "keys": h["keys"], "ops": ops, "seed": rng.getrandbits(32)}


def run_rebuild(case, mon):
    """A crash while an extended trie rebuilds its nodes."""
    rng = random.Random(case["seed"])
    secure, keys = case["secure"], case["keys"]
    j = Journal()
    Map = DictJ if case["seed"] % 3 == 0 else MappingJ
    data = Map(j, "d")
    t = EMPT(Map(j, "n"), data, secure=secure)
    model = {}
    for op in case["ops"]:
        if op[0] == "del" and op[1] not in model:
            continue
        do(t, op)
        T.apply_ref(model, op)
    for k in model:  # the same data in another form, put there by its owner
        if rng.random() < 0.25:
            data[k] = bytearray(model[k])
            mon.saw("data_reformed")
    noted, start = t.root(), len(j)
    t.build_trie()
    want = E.want_root(model, secure)
    mon.check(t.root_hash() == want, "a rebuilt trie has another root")
    n = len(j) - start
    points = list(range(0, n + 1))
    if len(points) > 12:
        points = rng.sample(points, 12)
    for p in points:
        mon.saw("crash_points")
        mon.saw("rebuild_crash_points")
        mon.saw("extended_crash_points")
        snap = replay(j.events, ("n", "d"), start + p)
        mon.check({k: enc(v) for k, v in snap["d"].items()} == model, "the data differs while the trie is rebuilt")
        if 0 < p < n:
            mon.mark()
            mon.saw("crash_inside_operation")
        if snap["n"] and not noted:
            continue
        t2 = EMPT(dict(snap["n"]), dict(snap["d"]), root=noted, secure=secure)
        for k in rng.sample(keys, min(4, len(keys))):
            g = T.attempt(t2.get, k)
            mon.check(T.raised(g) or (k in model and enc(g) == model[k]), "after a crash during the rebuild %s reads as %r", T.hx(k), g)
            c = T.attempt(t2.contains, k)
            mon.check(T.raised(c) or c is (k in model), "after a crash during the rebuild contains(%s) answers %r", T.hx(k), c)
            mon.saw("old_contents_read")
        t2.build_trie()
        mon.check(t2.root_hash() == want, "rebuilding again after the crash gives another root")
        E.check_mapping(mon, t2, model, keys)
        mon.saw("recovered_by_rebuild")
    mon.state(want, n)


def gen_kill(rng, size):
    c = gen_case(rng, min(size, 2))
    c["ops"] = [o for o in c["ops"] if len(o[1]) < 2000][:20]
    c["at"] = rng.random()
    c["lines"] = rng.random() < 0.5
    return c


def child(case, fd):
    """Runs in a process that is killed somewhere along the way."""
    lines = [0]
    budget = case["budget"]

    def note(ev):
        b = pickle.dumps(ev)
        os.write(fd, len(b).to_bytes(4, "big") + b)
        if not case["lines"]:
            lines[0] += 1
            if lines[0] == budget:
                os.kill(os.getpid(), signal.SIGKILL)

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(boot.PKG):
            return None
        if event == "line":
            lines[0] += 1
            if lines[0] == budget:
                os.kill(os.getpid(), signal.SIGKILL)
        return tracer

    j = Journal(note)
    t = make_trie(case["way"], j, case["secure"], len(case["ops"]) % 3 == 0)
    model = {}
    j.add(("root", -1, t.root()))
    if case["lines"]:
        sys.settrace(tracer)
    for i, op in enumerate(case["ops"]):
        if op[0] == "del" and op[1] not in model:
            continue
        do(t, op)
        T.apply_ref(model, op)
        j.add(("root", i, t.root()))
    sys.settrace(None)
    return lines[0]


def spawn(case):
    """Run the child to its death; give what it left on the disk."""
    f = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            n = child(case, f.fileno())
            b = pickle.dumps(("end", n))
            os.write(f.fileno(), len(b).to_bytes(4, "big") + b)
            code = 0
        except BaseException as e:
            b = pickle.dumps(("error", repr(e)))
            os.write(f.fileno(), len(b).to_bytes(4, "big") + b)
        finally:
            os._exit(code)
    status = os.waitpid(pid, 0)[1]
    f.seek(0)
    raw = f.read()
    f.close()
    events, i = [], 0
    while i + 4 <= len(raw):
        n = int.from_bytes(raw[i:i + 4], "big")
        events.append(pickle.loads(raw[i + 4:i + 4 + n]))
        i += 4 + n
    return status, events


def run_kill(case, mon):
    rng = random.Random(case["seed"])
    way, secure, keys = case["way"], case["secure"], case["keys"]
    status, events = spawn(dict(case, budget=-1))
    mon.check(not any(e[0] == "error" for e in events), "the undisturbed run raised %r", events[-1])
    total = events[-1][1]
    if not total:
        return
    budget = 1 + int(case["at"] * total) % total
    status, events = spawn(dict(case, budget=budget))
    mon.check(os.WIFSIGNALED(status) or events[-1][0] != "error", "the run to be killed raised %r", events[-1])
    if not os.WIFSIGNALED(status):
        return
    mon.saw("processes_killed")
    models, model = {-1: {}}, {}
    for i, op in enumerate(case["ops"]):
        T.apply_ref(model, op)
        models[i] = dict(model)
    noted = [e for e in events if e[0] == "root"]
    if not noted:
        return
    done, root = noted[-1][1], noted[-1][2]
    nxt = done + 1
    while nxt < len(case["ops"]) and case["ops"][nxt][0] == "del" and case["ops"][nxt][1] not in models[done]:
        nxt += 1
    if nxt >= len(case["ops"]):
        return
    tail = len(events) - 1 - max(i for i, e in enumerate(events) if e[0] == "root")
    snap = replay(events, ("n", "d"))
    past = [(e[2], models[e[1]]) for e in noted[:-1]]
    check_point(mon, rng, way, secure, snap, root, models[done], case["ops"][nxt], models[nxt], keys, past, tail > 0)
    mon.mark()
    mon.state(root, budget)


def run_small(case, mon):
    """Every crash point of every single update and delete over small universes."""
    secure, keys, storage, trie, model = T.small_build(case)
    root = trie.root()
    rng = random.Random(case["mask"])
    for i, k in enumerate(keys):
        for op in (("put", k, T.small_value(case["pattern"] ^ 1, i) + b"+"), ("del", k)):
            if op[0] == "del" and k not in model:
                continue
            j = Journal()
            s = GetSetJ(j, "n")
            s._d.update(storage)
            t = MPT(s, root, secure=secure)
            after = dict(model)
            do(t, op)
            T.apply_ref(after, op)
            n = len(j)
            for p in range(n + 1):
                snap = dict(storage)
                snap.update(replay(j.events, ("n",), p)["n"])
                check_point(mon, rng, "mpt", secure, {"n": snap}, root, model, op, after, keys, (), p > 0)
            mon.state(root, i, op[0])


SCENARIOS = [
    scenario("histories", gen_case, run_case, 300, 12000),
    scenario("deep", gen_case, run_case, 6, 200, sizes=(gen.DEEP,)),
    scenario("rebuild", gen_rebuild, run_rebuild, 150, 5000),
    scenario("killed", gen_kill, run_kill, 120, 3000),
    scenario("small", T.small_case, run_small, 150, T.SMALL_CASES, enum=True),
]
