"""Seeded interleaving of threads at the lines (or byte code instructions) of
the package: one thread runs at a time and hands over where the seed says."""
import random
import sys
import threading

from . import boot
from .core import fp

# CPython reports instructions only from the first settrace() after some frame asked for them
sys._getframe().f_trace_opcodes = True


class Sched:
    def __init__(self, seed, rate, opcodes=False):
        self.rng = random.Random(seed)
        self.rate = rate
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.alive = []
        self.current = None
        self.progress = 0
        self.steps = 0
        self.switches = 0
        self.trail = []
        self.stalls = 0

    def _wait(self, me):
        # hold cond; returns when it is this thread's turn, or when the one
        # whose turn it is does not move (it may wait for a lock this one has)
        seen = self.progress
        while self.current != me:
            if not self.cond.wait(0.5):
                if self.progress == seen:
                    self.stalls += 1
                    self.current = me
                    self.cond.notify_all()
                seen = self.progress

    def point(self, me, frame):
        self.steps += 1
        self.progress += 1
        if self.current != me:
            with self.cond:
                self._wait(me)
        if self.rng.random() >= self.rate:
            return
        others = [t for t in self.alive if t != me]
        if not others:
            return
        with self.cond:
            self.current = self.rng.choice(others)
            self.switches += 1
            if len(self.trail) < 4000:
                self.trail.append((me, frame.f_lineno, self.current))
            self.cond.notify_all()
            self._wait(me)

    def _tracer(self, me):
        pkg = boot.PKG

        def local(frame, event, arg):
            if event == "line" and not self.opcodes or event == "opcode":
                self.point(me, frame)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(pkg):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        return tracer

    def run(self, fns):
        """Results of the functions, each run in a thread of its own."""
        out = [None] * len(fns)

        def body(i):
            with self.cond:
                self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                out[i] = ("ok", fns[i]())
            except BaseException as e:
                out[i] = ("raised", e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(i)
                    self.progress += 1
                    if self.current == i:
                        self.current = self.rng.choice(self.alive) if self.alive else None
                    self.cond.notify_all()

        self.alive = list(range(len(fns)))
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        for t in threads:
            t.start()
        with self.cond:
            self.current = self.rng.choice(self.alive)
            self.cond.notify_all()
        for t in threads:
            t.join()
        return out

    def fingerprint(self):
        return fp(*self.trail)


def _traced(fn, seen, opcodes):
    pkg = boot.PKG

    def local(frame, event, arg):
        if event == "opcode" if opcodes else event == "line":
            if seen(frame):
                sys.settrace(None)  # nothing more to see
                return None
        return local

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(pkg):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(old)


def record(fn, opcodes=False):
    """The places (code object, line or instruction) `fn` passes in the package, in order."""
    trail = []

    def seen(frame):
        trail.append((frame.f_code, frame.f_lasti if opcodes else frame.f_lineno))

    _traced(fn, seen, opcodes)
    return trail


def run_at(fn, step, other, opcodes=False):
    """Runs `fn` and, at its step-th place, `other` from start to end in a
    thread of its own. Results of both (None for `other` if never reached)
    and whether `other` ran in between (it may have had to wait for a lock)."""
    state = {"n": 0, "thread": None, "out": None, "between": False}

    def body():
        try:
            state["out"] = ("ok", other())
        except BaseException as e:
            state["out"] = ("raised", e)

    def seen(frame):
        n, state["n"] = state["n"], state["n"] + 1
        if n == step:
            th = state["thread"] = threading.Thread(target=body, daemon=True)
            th.start()
            th.join(0.5)
            state["between"] = not th.is_alive()
        return n >= step

    try:
        mine = ("ok", _traced(fn, seen, opcodes))
    except Exception as e:
        mine = ("raised", e)
    if state["thread"] is not None:
        state["thread"].join(30)
    return mine, state["out"], state["between"]


def raise_at(fn, step, exc, opcodes=False):
    """Runs `fn` and raises `exc` at its step-th place (from there on once).
    Returns (("ok", result) or ("raised", exception), whether it was raised)."""
    state = {"n": 0, "fired": False}

    def seen(frame):
        n, state["n"] = state["n"], state["n"] + 1
        if n == step:
            state["fired"] = True
            raise exc
        return n > step

    try:
        return ("ok", _traced(fn, seen, opcodes)), state["fired"]
    except BaseException as e:
        return ("raised", e), state["fired"]


def with_depth(fn, extra):
    """Runs `fn` with room for `extra` more frames on the stack."""
    depth = 0
    f = sys._getframe()
    while f is not None:
        depth += 1
        f = f.f_back
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth + extra + 1)
        try:
            return "ok", fn()
        except RecursionError as e:
            return "raised", e
        except Exception as e:
            return "raised", e
    finally:
        sys.setrecursionlimit(old)
