"""Counts the work of a call: lines of Python executed, jumps taken (rounds of
loops written on one line) and functions entered or resumed, in whatever module."""
import sys

_m = sys.monitoring
_TOOL = 4
_count = [0, 0]


class TooMuch(BaseException):
    """The call was stopped because it went over its budget."""


_EVENTS = _m.events.LINE | _m.events.JUMP | _m.events.PY_START | _m.events.PY_RESUME


def _line(code, *where):
    _count[0] += 1
    if _count[0] > _count[1]:
        _m.set_events(_TOOL, 0)
        raise TooMuch()


_ready = []


def steps(fn, budget=50_000_000):
    """(steps executed, result or None, exception or None)."""
    if not _ready:
        _m.use_tool_id(_TOOL, "verif-effort")
        for e in (_m.events.LINE, _m.events.JUMP, _m.events.PY_START, _m.events.PY_RESUME):
            _m.register_callback(_TOOL, e, _line)
        _ready.append(1)
    res = exc = None
    _count[0], _count[1] = 0, budget
    _m.set_events(_TOOL, _EVENTS)
    try:
        res = fn()
    except Exception as e:
        exc = e
    finally:
        _m.set_events(_TOOL, 0)
    return _count[0], res, exc
