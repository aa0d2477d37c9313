"""What the package does to the process and the machine around it: the
interpreter's audit events below the package's frames, everything written to the
standard streams, and the process-wide settings before and after."""
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import warnings

from vlib import boot, tries as T

PKG = os.path.realpath(boot.PKG) + os.sep
_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
READABLE = tuple({os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, sys.exec_prefix, boot.REPO, os.path.dirname(os.__file__), "/usr/lib", "/usr/share",
                                                        "/opt/venv", boot._cache, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
                  if os.path.realpath(p) != "/"})
DEVICES = ("/dev/urandom", "/dev/random", "/dev/null", "/etc/localtime", "/etc/timezone")
# events that act on something outside the process, or on the process as a whole
ACTS = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.chdir", "os.fchdir", "os.fork",
        "os.forkpty", "os.exec", "os.posix_spawn", "os.spawn", "os.system", "os.putenv", "os.unsetenv", "os.kill", "os.killpg", "os.setxattr", "os.removexattr",
        "os.startfile", "shutil.", "tempfile.", "socket.", "subprocess.", "signal.", "syslog.", "sqlite3.", "urllib.", "http.", "ftplib.", "smtplib.", "poplib.",
        "imaplib.", "telnetlib.", "webbrowser.", "_thread.start_", "_posixsubprocess", "sys.settrace", "sys.setprofile", "sys.addaudithook", "sys.unraisablehook",
        "sys.excepthook", "fcntl.flock", "fcntl.lockf", "resource.setrlimit", "resource.prlimit", "pty.", "pdb.", "cpython.run_", "builtins.input")


class _Now:
    on = False
    dirs = ()
    events = []
    seen = 0
    marker = None


_now = _Now()


def _below():
    """A frame of the package is on the stack, and it is not importing anything."""
    f = sys._getframe(2)
    inside = False
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith("<frozen importlib") or name.startswith("<frozen zipimport"):
            return False
        if name.startswith(PKG):
            inside = True
        f = f.f_back
    return inside


def _hook(event, args):
    if not _now.on:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if not _below():
            return
        _now.seen += 1
        try:
            p = os.path.abspath(os.fsdecode(path))
        except Exception:
            p = repr(path)
        if p in DEVICES:
            return
        if any(p.startswith(d + os.sep) for d in _now.dirs):
            return
        if not (flags or 0) & _W and os.path.realpath(p).startswith(READABLE):
            return
        _now.events.append("opens the file %s (mode %s, flags %s)" % (p, mode, flags))
    elif event == "pickle.find_class":
        if _now.marker and _below():
            _now.events.append("unpickles %s.%s out of data" % (args[0], args[1]))
    elif event in ("compile", "exec"):
        if _now.marker:
            src = args[0]
            if isinstance(src, types.CodeType):
                src = repr((src.co_consts, src.co_names))
            elif src is not None and not isinstance(src, (str, bytes)):
                src = ""
            if src and _now.marker in (src if isinstance(src, str) else src.decode("latin-1")) and _below():
                _now.events.append("runs text out of data")
    elif event.startswith(ACTS):
        if _below():
            _now.seen += 1
            # within the directory a key file is saved to, only what is there afterwards counts
            if args and _now.dirs and (event.startswith(("os.", "tempfile.", "shutil.", "fcntl."))):
                paths = [a for a in args if isinstance(a, (str, bytes))]
                if paths and all(any((os.path.abspath(os.fsdecode(a)) + os.sep).startswith(d + os.sep) for d in _now.dirs) for a in paths):
                    return
                if event in ("os.chmod", "os.truncate", "os.utime", "os.chown", "fcntl.flock", "fcntl.lockf") and args and isinstance(args[0], int):
                    return
            _now.events.append("does %s%.200r" % (event, args))


_installed = []


def _callables():
    out = {}
    for name, m in list(sys.modules.items()):
        if m is None or name.split(".")[0] in ("pymt", "props", "vlib", "__main__", "_pytest", "typing"):
            continue
        d = getattr(m, "__dict__", None)
        if not isinstance(d, dict):
            continue
        for k, v in list(d.items()):
            if isinstance(k, str) and not k.startswith("_") and isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)):
                out[name, k] = v
    return out


LIMITS = sorted(n for n in dir(resource) if n.startswith("RLIMIT_"))
LIBRARIES = ("json", "rlp", "Crypto", "datetime", "hashlib", "uuid", "collections", "random", "abc", "enum", "io", "os", "threading", "logging", "pickle")


_KINDS = (types.FunctionType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, staticmethod, classmethod, property)


def _methods():
    """The methods of the libraries' classes."""
    out = {}
    for name, m in list(sys.modules.items()):
        if m is None or name.split(".")[0] not in LIBRARIES:
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and not v.__flags__ & 1 << 8:
                for a, b in list(v.__dict__.items()):
                    if isinstance(b, _KINDS):
                        out[v.__module__, v.__qualname__, a] = b
    return out


_others = [0]
_register = atexit.register


def register(*a, **k):
    """Exit handlers of the workload itself and of libraries do not count."""
    n = atexit._ncallbacks()
    r = _register(*a, **k)
    if not sys._getframe(1).f_code.co_filename.startswith(PKG):
        _others[0] += atexit._ncallbacks() - n
    return r


def settings():
    umask = os.umask(0o22)
    os.umask(umask)
    ctx = decimal.getcontext()
    return {
        "the environment": dict(os.environ), "the working directory": os.getcwd(), "the umask": umask, "the random generator": random.getstate(),
        "the recursion limit": sys.getrecursionlimit(), "the integer text limit": sys.get_int_max_str_digits(), "the switch interval": sys.getswitchinterval(),
        "the signal handlers": tuple(signal.getsignal(s) for s in sorted(signal.valid_signals()) if s not in (signal.SIGKILL, signal.SIGSTOP)),
        "the warning filters": tuple(map(str, warnings.filters)), "the locale": locale.setlocale(locale.LC_ALL), "the time zone": (time.tzname, time.timezone),
        "the search path": tuple(sys.path), "the hooks": (sys.excepthook, sys.displayhook, sys.breakpointhook, threading.excepthook, sys.unraisablehook, sys.gettrace(), sys.getprofile()),
        "the standard streams": (sys.stdin, sys.stdout, sys.stderr), "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "the loggers": (logging.getLogger().level, tuple(map(id, logging.getLogger().handlers)), logging.root.manager.disable),
        "decimal arithmetic": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax), "byte code writing": (sys.dont_write_bytecode, sys.pycache_prefix),
        "the threads": tuple(sorted(t.name for t in threading.enumerate())), "the thread count": len(os.listdir("/proc/self/task")),
        "the import hooks": (len(sys.meta_path), len(sys.path_hooks)), "the temporary directory": tempfile.tempdir, "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "the exit handlers": atexit._ncallbacks() - _others[0], "the builtins": tuple(sorted(vars(builtins))), "pickling": len(copyreg.dispatch_table),
        "the resource limits": tuple(resource.getrlimit(getattr(resource, n)) for n in LIMITS), "the default network timeout": socket.getdefaulttimeout(),
        "the timers": tuple(signal.getitimer(x)[1] for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)), "the signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        "diagnostics": (faulthandler.is_enabled(), tracemalloc.is_tracing()), "coroutine hooks": tuple(sys.get_asyncgen_hooks()),
        "hash and text encodings": (sys.getdefaultencoding(), sys.getfilesystemencoding()),
    }


def quick():
    """The settings that are cheap to read (between two calls)."""
    return (gc.isenabled(), sys.getrecursionlimit(), len(os.environ), sys.getswitchinterval(), sys.get_int_max_str_digits(), decimal.getcontext().prec, sys.stdout, sys.stderr,
            len(warnings.filters), os.getcwd(), threading.active_count(), logging.root.level, logging.root.manager.disable, signal.getsignal(signal.SIGINT))


QUICK = ("garbage collection", "the recursion limit", "the environment", "the switch interval", "the integer text limit", "decimal arithmetic", "standard output", "standard error",
         "the warning filters", "the working directory", "the threads", "the log level", "logging", "the interrupt handler")


def descriptors():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


class Watch:
    """Around a piece of work; `found` then lists what it did besides.

    dirs: directories in which the work may read and write (what is left in them
    is for the caller to judge). marker: a text that must never be run.
    """

    def __init__(self, dirs=(), marker=None):
        self.dirs = tuple(os.path.abspath(d) for d in dirs)
        self.marker = marker
        self.found = []
        self.items = 0

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            atexit.register = register
            _installed.append(1)
        sys.stdout.flush()
        sys.stderr.flush()
        self.modules = set(sys.modules)
        self.before = settings()
        self.names = _callables()
        self.methods = _methods()
        self.fds = descriptors()
        self.saved = [os.dup(1), os.dup(2)]
        self.sink = os.memfd_create("streams")
        os.dup2(self.sink, 1)
        os.dup2(self.sink, 2)
        # Python's own streams may have been replaced: whatever they are, they get their own sink
        self.texts = (sys.stdout, sys.stderr)
        self.out = io.TextIOWrapper(os.fdopen(os.dup(self.sink), "wb", 0), encoding="utf-8", errors="backslashreplace", write_through=True)
        sys.stdout = sys.stderr = self.out
        self.handler = Handler()
        logging.getLogger().addHandler(self.handler)
        self.warned = warnings.catch_warnings(record=True)
        self.warnings = self.warned.__enter__()
        warnings.simplefilter("always")
        self.inner = (tuple(map(str, warnings.filters)), sys.stdout, sys.stderr)
        self.quick = quick()
        T.after.append(self.between)
        _now.events, _now.dirs, _now.marker = [], self.dirs, self.marker
        _now.seen = 0
        _now.on = True
        return self

    def between(self):
        q = quick()
        self.items += 1
        if q != self.quick and len(self.found) < 20:
            self.found += ["changes %s" % n for n, a, b in zip(QUICK, q, self.quick) if a != b]

    def __exit__(self, *exc):
        T.after.remove(self.between)
        _now.on = False
        self.seen = _now.seen
        self.found += _now.events
        inner = (tuple(map(str, warnings.filters)), sys.stdout, sys.stderr)
        if inner[0] != self.inner[0]:
            self.found.append("changes the warning filters")
        if inner[1:] != self.inner[1:]:
            self.found.append("replaces a standard stream")
        self.warned.__exit__(None, None, None)
        for w in self.warnings:
            if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning)):
                self.found.append("warns: %s: %.120s (%s)" % (w.category.__name__, w.message, w.filename))
        logging.getLogger().removeHandler(self.handler)
        for m in self.handler.got:
            self.found.append("logs %.120r" % m)
        self.out.flush()
        sys.stdout, sys.stderr = self.texts
        n = os.lseek(self.sink, 0, os.SEEK_END)
        if n:
            os.lseek(self.sink, 0, os.SEEK_SET)
            self.text = os.read(self.sink, 2000)
            self.found.append("writes %d bytes to the standard streams: %.160r" % (n, self.text))
        self.out.close()
        for fd, s in zip((1, 2), self.saved):
            os.dup2(s, fd)
            os.close(s)
        os.close(self.sink)
        after = settings()
        loaded = set(sys.modules) - self.modules
        for k, v in self.before.items():
            self.items += 1
            # what a module does that was loaded just now cannot be told apart
            if loaded and k in ("the builtins", "pickling"):
                continue
            if after[k] != v:
                a, b = repr(v), repr(after[k])
                self.found.append("changes %s: %.150s became %.150s" % (k, a, b) if len(a) < 400 else "changes %s" % k)
        names = _callables()
        for k, v in self.names.items():
            self.items += 1
            if names.get(k, v) is not v:
                self.found.append("replaces %s.%s" % k)
        methods = _methods()
        for k, v in self.methods.items():
            if methods.get(k, v) is not v:
                self.found.append("replaces %s.%s.%s" % k)
        self.items += len(methods)
        fds = descriptors()
        if fds != self.fds:
            gc.collect()
            fds = descriptors()
        if fds != self.fds:
            self.found.append("leaves files open: %r" % ({k: v for k, v in fds.items() if self.fds.get(k) != v} or {k: v for k, v in self.fds.items() if k not in fds}))
        return False
