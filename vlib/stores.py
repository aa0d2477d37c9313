"""Caller-supplied storages that watch, restrict or fail what the trie does."""
import collections
import pickle
import sqlite3

import rlp


class GetSet:
    """The least the documentation asks for: item get and item set."""

    __slots__ = ("_d",)

    def __init__(self, init=None):
        self._d = dict(init or {})

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v


class StorageDown(Exception):
    pass


class Unreadable(rlp.DecodingError):
    def __init__(self, message):
        super().__init__(message, b"")


FAULTS = [StorageDown, OSError, KeyError, ValueError, TypeError, IndexError, RuntimeError, TimeoutError, ConnectionResetError, FileNotFoundError,
          PermissionError, AttributeError, AssertionError, NotImplementedError, ArithmeticError, EOFError, MemoryError, UnicodeError, LookupError,
          BufferError, ReferenceError, RecursionError, SystemError, UserWarning, Unreadable, sqlite3.OperationalError, pickle.PickleError]


class Faulty:
    """Item get/set storage that raises at chosen accesses."""

    def __init__(self, init=None):
        self._d = dict(init or {})
        self.n = 0
        self.fail_at = None  # set of access numbers (since reset) that raise
        self.fail_from = None
        self.exc = None
        self.fired = 0
        self.log = []
        self.writes = 0  # sets and deletions ever made

    def reset(self, fail_at=None, exc=None, fail_from=None):
        self.n = 0
        self.fail_at = fail_at
        self.fail_from = fail_from
        self.exc = exc
        self.fired = 0
        self.log = []

    def _access(self, what, k):
        i = self.n
        self.n += 1
        self.log.append((what, k))
        if (self.fail_at is not None and i in self.fail_at) or (self.fail_from is not None and i >= self.fail_from):
            self.fired += 1
            raise self.exc

    def __getitem__(self, k):
        self._access("get", k)
        return self._d[k]

    def __setitem__(self, k, v):
        self._access("set", k)
        self.writes += 1
        self._d[k] = v


class FaultyMapping(Faulty):
    """The same with the rest of the mapping interface (for extended tries)."""

    def __delitem__(self, k):
        self._access("del", k)
        self.writes += 1
        del self._d[k]

    def __contains__(self, k):
        self._access("contains", k)
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(list(self._d))

    def keys(self):
        return list(self._d)

    def values(self):
        return list(self._d.values())

    def items(self):
        return list(self._d.items())


class Watching:
    """Item get/set storage that reports every access to a callback."""

    def __init__(self, on_get=None, on_set=None, init=None):
        self._d = dict(init or {})
        self._on_get = on_get
        self._on_set = on_set

    def __getitem__(self, k):
        if self._on_get:
            self._on_get(self, k)
        return self._d[k]

    def __setitem__(self, k, v):
        if self._on_set:
            self._on_set(self, k, v)
        self._d[k] = v


class WatchingDict(dict):
    """A dict that reports item get and set to a callback; whatever else a trie
    does to it (pop, del, clear, update) shows in its entries."""

    def __init__(self, on_get=None, on_set=None, init=None):
        dict.__init__(self, init or {})
        self._on_get = on_get
        self._on_set = on_set

    @property
    def _d(self):
        return dict(self)

    def __getitem__(self, k):
        if self._on_get:
            self._on_get(self, k)
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        if self._on_set:
            self._on_set(self, k, v)
        dict.__setitem__(self, k, v)


class Mapping:
    """A user-written mapping (not a dict subclass)."""

    def __init__(self, init=None):
        self._d = dict(init or {})

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()


class FalseMapping(Mapping):
    """One that counts as false."""

    def __bool__(self):
        return False


class FalseGetSet(GetSet):
    __slots__ = ()

    def __bool__(self):
        return False


STORES = {"dict": dict, "getset": GetSet, "mapping": Mapping, "false": FalseGetSet}


class Counted(dict):
    """A dict that counts what is done to it."""

    writes = 0

    def __setitem__(self, k, v):
        self.writes += 1
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self.writes += 1
        super().__delitem__(k)

    def pop(self, *a):
        self.writes += 1
        return super().pop(*a)

    def update(self, *a, **kw):
        self.writes += 1
        super().update(*a, **kw)

    def clear(self):
        self.writes += 1
        super().clear()


class OwnDict(dict):
    """A dict of the caller's own class."""


def some(rng, chance=0.3):
    """A mapping of some class to store nodes or data in."""
    if rng.random() >= chance:
        return {}
    return rng.choice((OwnDict, Mapping, FalseMapping, collections.UserDict, collections.OrderedDict))()


def raw(store):
    """The entries of a store."""
    return store if isinstance(store, dict) else store._d
