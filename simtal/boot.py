"""Process set-up: which zope.tal is tested, and which process seams are simulated.

Must be imported before anything imports zope.tal.
"""
import builtins
import os
import sys

REPO = os.environ.get("SIMTAL_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "zope", "tal") + os.sep

sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)

from . import simlock  # noqa: E402  (installs simulated locks)

# The package opens files through ``open`` and URLs through
# ``urllib.request.urlopen``; both are looked up when modules are imported.
# ``os.stat`` serves those who look before they open.
import io  # noqa: E402
import urllib.request  # noqa: E402

real_open = builtins.open
_sim_fs = []          # innermost simulated file system, if any


def _open(file, *args, **kw):
    if _sim_fs:
        return _sim_fs[-1].open(file, *args, **kw)
    return real_open(file, *args, **kw)


def _urlopen(url, *args, **kw):
    if _sim_fs:
        return _sim_fs[-1].urlopen(url, *args, **kw)
    raise OSError("no network in the simulation")


real_stat = os.stat
real_access = os.access


def _stat(path, *args, **kw):
    if _sim_fs and not isinstance(path, int):
        found = _sim_fs[-1].stat(path)
        if found is not None:
            return found
    return real_stat(path, *args, **kw)


def _access(path, mode, *args, **kw):
    if _sim_fs and not isinstance(path, int):
        try:
            if _sim_fs[-1].stat(path) is not None:
                return not mode & os.W_OK
        except OSError:
            return False
    return real_access(path, mode, *args, **kw)


builtins.open = _open
io.open = _open
os.stat = _stat
os.access = _access
urllib.request.urlopen = _urlopen


class simulated_fs:
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        _sim_fs.append(self.fs)
        return self.fs

    def __exit__(self, *exc):
        _sim_fs.pop()


def load():
    """Import every module of the package, from the tree under test."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import zope
    p = os.path.join(SRC, "zope")
    zope.__path__ = [p] + [q for q in zope.__path__ if q != p]
    import zope.tal
    if not os.path.abspath(zope.tal.__file__).startswith(PKG):
        raise RuntimeError("zope.tal comes from %s" % zope.tal.__file__)
    import importlib
    names = sorted(n[:-3] for n in os.listdir(PKG)
                   if n.endswith(".py") and n not in ("__init__.py", "runtest.py"))
    order = os.environ.get("SIMTAL_ORDER")
    if order:
        import random
        random.Random(order).shuffle(names)
    for n in names:
        try:
            importlib.import_module("zope.tal." + n)
        except ImportError:
            pass                  # timer.py is a script for Python 2
    import xml.parsers.expat  # noqa: F401
    return zope.tal


# modules the package imports lazily: import now, so that module import is not
# part of any simulated schedule
import encodings.idna  # noqa: E402,F401
import html.entities  # noqa: E402,F401
import html.parser  # noqa: E402,F401
import linecache  # noqa: E402,F401
import pprint  # noqa: E402,F401
import traceback  # noqa: E402,F401
import warnings  # noqa: E402,F401
import xml.parsers.expat  # noqa: E402,F401
