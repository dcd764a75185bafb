"""Environment of a harness run: the modules under test, scratch directory, stubs."""

import importlib
import logging
import math
import os
import pkgutil
import shutil
import sys
import tempfile

import numpy as np

REPO = os.environ.get("SYMX_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_BASE = None
_MODS = None


def base_dir():
    """Process-wide scratch directory below /tmp, removed at exit."""
    global _BASE
    if _BASE is None or _BASE[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="pymars-symx-", dir=os.environ.get("SYMX_SCRATCH", "/tmp"))
        with open(os.path.join(d, "pid"), "w") as f:
            f.write(str(os.getpid()))
        _BASE = (os.getpid(), d)
    return _BASE[1]


def remove_base():
    global _BASE
    if _BASE and _BASE[0] == os.getpid():
        os.chdir("/tmp")
        shutil.rmtree(_BASE[1], ignore_errors=True)
        _BASE = None


def modules():
    """Import every pymars module from the repository's working tree."""
    global _MODS
    if _MODS is None:
        os.chdir(base_dir())  # pymars writes info.log on import
        sys.dont_write_bytecode = True
        if SRC in sys.path:
            sys.path.remove(SRC)
        sys.path.insert(0, SRC)
        pkg = importlib.import_module("pymars")
        if not os.path.abspath(pkg.__file__).startswith(os.path.abspath(SRC) + os.sep):
            raise RuntimeError("pymars imported from %s, not %s" % (pkg.__file__, SRC))
        logging.disable(logging.CRITICAL)
        mods = {}
        for m in pkgutil.iter_modules(pkg.__path__):
            if m.name == "__main__":
                continue
            mods[m.name] = importlib.import_module("pymars." + m.name)
        _MODS = mods
    return _MODS


def mod(name):
    return modules()[name]


def _set(c, obj, name, value):
    missing = object()
    old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name, missing)
    setattr(obj, name, value)

    def undo():
        if old is missing:
            delattr(obj, name)
        else:
            setattr(obj, name, old)

    c.on_exit(undo)


setattr_for = _set


def patch_everywhere(c, old, new):
    """Replace every module global of pymars that *is* ``old``."""
    n = 0
    for m in modules().values():
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if v is old:
                _set(c, m, k, new)
                n += 1
            elif isinstance(v, dict) and any(x is old for x in v.values()):
                # a dispatch table
                _set(c, m, k, type(v)((a, new if x is old else x) for a, x in v.items()))
                n += 1
            elif type(v) in (list, tuple) and any(x is old for x in v):
                _set(c, m, k, type(v)([new if x is old else x for x in v]))
                n += 1
    return n


class ModuleProxy:
    def __init__(self, real, overrides):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = overrides

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)


def patch_module_attrs(c, real, overrides):
    """Replace attributes of an imported module as seen from pymars: both
    ``mod.attr`` and ``from mod import attr`` uses."""
    for k, v in overrides.items():
        if hasattr(real, k):
            patch_everywhere(c, getattr(real, k), v)
    proxies = c.__dict__.setdefault("module_proxies", {})
    if id(real) in proxies:
        proxies[id(real)]._over.update(overrides)
    else:
        proxies[id(real)] = ModuleProxy(real, dict(overrides))
        patch_everywhere(c, real, proxies[id(real)])


_COUNT = [0]


def scratch(c):
    """Fresh working directory for this path."""
    _COUNT[0] += 1
    d = os.path.join(base_dir(), "p%d" % _COUNT[0])
    os.mkdir(d)
    os.chdir(d)
    old = tempfile.tempdir
    tempfile.tempdir = d

    def undo():
        tempfile.tempdir = old
        os.chdir(base_dir())
        shutil.rmtree(d, ignore_errors=True)

    c.on_exit(undo)
    return d


def install(c, files=None):
    """Import the code under test; in symbolic mode swap numpy/math globals."""
    modules()
    if c.concrete:
        return
    from . import nparr

    c.npfiles = {} if files is None else files
    proxy = nparr.NPProxy(c.npfiles)
    c.npproxy = proxy
    patch_everywhere(c, np, proxy)
    patch_everywhere(c, math, nparr.MathProxy())
    for name in ("zeros", "array", "where", "abs", "max", "maximum", "sum", "concatenate",
                 "atleast_1d", "isclose", "allclose", "argmin", "savetxt", "genfromtxt",
                 "dot", "outer", "full", "empty", "ones", "vstack", "column_stack"):
        if hasattr(np, name):
            patch_everywhere(c, getattr(np, name), getattr(proxy, name))
    import networkx
    import networkx.convert_matrix as cm

    orig = cm.from_numpy_array

    def from_numpy_array(A, *args, **kwargs):
        if getattr(A, "dtype", None) == object:
            from . import core

            create = kwargs.get("create_using", args[1] if len(args) > 1 else None)
            G = networkx.empty_graph(0, create)
            n = A.shape[0]
            G.add_nodes_from(range(n))
            P = nparr.plain(A)
            for i in range(n):
                for j in range(n):
                    x = P[i, j]
                    if core.is_sym(x):
                        if bool(x != 0):
                            G.add_edge(i, j, weight=x)
                    elif x != 0:
                        G.add_edge(i, j, weight=x)
            return G
        return orig(A, *args, **kwargs)

    _set(c, cm, "from_numpy_array", from_numpy_array)
    _set(c, networkx, "from_numpy_array", from_numpy_array)


def arr(c, nested):
    """Array of (possibly symbolic) values: SymArr or ordinary float array."""
    if c.concrete:
        return np.array(nested, dtype=float)
    from . import nparr

    return nparr.symarr(nested)
