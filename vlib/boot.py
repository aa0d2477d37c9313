"""Make the code under test importable: always /repo's current working tree.

No byte code is read from or written to /repo (a stale .pyc must not hide a
change, and /repo has to stay as it is).
"""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "pymt")

sys.dont_write_bytecode = True
_cache = tempfile.mkdtemp(prefix="verif-pyc-")
_owner = os.getpid()
sys.pycache_prefix = _cache


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_cache, ignore_errors=True)


atexit.register(_cleanup)
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)

import pymt  # noqa: E402

assert os.path.realpath(pymt.__file__).startswith(os.path.realpath(PKG)), pymt.__file__
