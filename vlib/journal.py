"""Storages that write every change to a common journal, so that what had
reached the storages at any moment can be rebuilt."""
from collections.abc import MutableMapping

from .objs import Item


class Journal:
    """What reached the storages, in order; `at` says after which change the
    owner noted which root."""

    def __init__(self, sink=None):
        self.events = []
        self.sink = sink

    def add(self, ev):
        self.events.append(ev)
        if self.sink is not None:
            self.sink(ev)

    def __len__(self):
        return len(self.events)


def _frozen(v):
    if isinstance(v, (bytes, type(None))):
        return v
    if isinstance(v, bytearray):
        return bytearray(v)
    if isinstance(v, Item):
        return Item(bytes(v.body))
    return v


def replay(events, names, upto=None):
    """The entries of the named storages after the first `upto` changes."""
    out = {n: {} for n in names}
    for ev in events[:len(events) if upto is None else upto]:
        if ev[0] == "set":
            out[ev[1]][ev[2]] = _frozen(ev[3])
        elif ev[0] == "del":
            out[ev[1]].pop(ev[2], None)
    return out


class GetSetJ:
    """Item get and set only (all a plain trie asks for)."""

    def __init__(self, journal, name):
        self._j, self._name, self._d = journal, name, {}

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._j.add(("set", self._name, bytes(k), _frozen(v)))
        self._d[k] = v


class MappingJ(MutableMapping):
    """A whole mapping; every change goes through item set and item delete."""

    def __init__(self, journal, name):
        self._j, self._name, self._d = journal, name, {}

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._j.add(("set", self._name, bytes(k), _frozen(v)))
        self._d[k] = v

    def __delitem__(self, k):
        if k not in self._d:
            raise KeyError(k)
        self._j.add(("del", self._name, bytes(k)))
        del self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class DictJ(dict):
    """A dict of the caller's own class that journals its changes."""

    def __init__(self, journal, name):
        dict.__init__(self)
        self._j, self._name = journal, name

    def __setitem__(self, k, v):
        self._j.add(("set", self._name, bytes(k), _frozen(v)))
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self._j.add(("del", self._name, bytes(k)))
        dict.__delitem__(self, k)

    @property
    def _d(self):
        return dict(self)

    # all other changes are made of these two
    pop = MutableMapping.pop
    popitem = MutableMapping.popitem
    clear = MutableMapping.clear
    update = MutableMapping.update
    setdefault = MutableMapping.setdefault

    def __ior__(self, other):
        self.update(other)
        return self
