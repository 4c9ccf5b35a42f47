"""
Fault injection for the file operations of the code under test.

`install()` must run before pyconform is imported: it replaces netCDF4.Dataset by a subclass whose operations
(open, header, read, write, close) and os.rename / os.mkdir / os.replace are numbered; an armed fault makes the
k-th operation fail, either before or after taking effect.
"""
import builtins
import os

import netCDF4

REAL = netCDF4.Dataset
HOOK = [None]     # called as HOOK[0](name, args) at every operation while set
STATE = {"n": 0, "at": None, "after": False, "log": [], "on": False, "die": False}


class Injected(OSError):
    pass


def op(name, fn, *a, **k):
    if HOOK[0] is not None:
        HOOK[0](name, a)
    if not STATE["on"]:
        return fn(*a, **k)
    STATE["n"] += 1
    me = STATE["n"]
    STATE["log"].append(name)
    if STATE["at"] == me and STATE["die"] and not STATE["after"]:
        os._exit(77)
    if STATE["at"] == me and not STATE["after"]:
        raise Injected(28, "injected failure of %s" % name)
    r = fn(*a, **k)
    if STATE["at"] == me and STATE["after"] and STATE["die"]:
        os._exit(77)
    if STATE["at"] == me and STATE["after"]:
        raise Injected(28, "injected failure after %s" % name)
    return r


class Var(object):
    def __init__(self, v):
        object.__setattr__(self, "_v", v)

    def __getattr__(self, n):
        a = getattr(self._v, n)
        if n == "setncattr":
            return lambda *x, **k: op("var attribute", a, *x, **k)
        return a

    def __setattr__(self, n, x):
        setattr(self._v, n, x)

    def __len__(self):
        return len(self._v)

    def __array__(self, *a, **k):
        return self._v[...].__array__(*a, **k)

    def __getitem__(self, i):
        return op("read", self._v.__getitem__, i)

    def __setitem__(self, i, x):
        return op("write", self._v.__setitem__, i, x)


class Vars(dict):
    """the variables of a file: reading them hands out wrapped ones, storing goes to the real ones"""

    def __init__(self, real):
        dict.__init__(self, {k: Var(v) for k, v in real.items()})
        self._real = real

    def __setitem__(self, k, v):
        self._real[k] = v._v if isinstance(v, Var) else v
        dict.__setitem__(self, k, v if isinstance(v, Var) else Var(v))


class FaultyDataset(REAL):
    def __init__(self, path, mode="r", *a, **k):
        self_mode = mode
        op("open " + ("r" if self_mode == "r" else "w"), REAL.__init__, self, path, mode, *a, **k)

    def __getattribute__(self, n):
        a = REAL.__getattribute__(self, n)
        if n == "variables" and (STATE["on"] or HOOK[0]):
            return Vars(a)
        if n in ("setncatts", "setncattr", "createDimension", "sync") and (STATE["on"] or HOOK[0]):
            return lambda *x, **k: op(n, a, *x, **k)
        if n == "createVariable" and (STATE["on"] or HOOK[0]):
            def create(*x, **k):
                r = op(n, a, *x, **k)
                return r if isinstance(r, Var) else Var(r)
            return create
        if n == "close" and (STATE["on"] or HOOK[0]):
            return lambda *x, **k: op(n, a, *x, **k)
        return a


def install():
    import sys
    assert not any(m.startswith("pyconform.flownodes") for m in sys.modules)
    netCDF4.Dataset = FaultyDataset
    for name in ("rename", "replace", "mkdir", "stat", "open"):
        real = getattr(os, name)
        if name in ("stat", "open"):     # scheduling points, but not fault points
            wrap = (lambda nm, fn: lambda *a, **k: (HOOK[0] and HOOK[0](nm, a), fn(*a, **k))[1])
        else:
            wrap = (lambda nm, fn: lambda *a, **k: op(nm, fn, *a, **k))
        setattr(os, name, wrap(name, real))


def arm(at=None, after=False, die=False):
    STATE.update(n=0, at=at, after=after, log=[], on=True, die=die)


def disarm():
    STATE["on"] = False
    return STATE["n"], list(STATE["log"])
