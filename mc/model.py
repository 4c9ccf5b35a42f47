"""
Reference model of a labelled physical array: a finite map from named coordinates to numbers (or None =
missing), with a unit and a sign convention.  Deliberately boring: explicit loops, no numpy broadcasting.
"""
from itertools import product
from math import isclose, isnan

import numpy


class ModelError(Exception):
    """The operation is not defined (dimension, unit or type mismatch)."""


class Unspecified(Exception):
    """UDUNITS also converts between reciprocal units (m and 1/m); nothing is claimed about that."""


# ------------------------------------------------------------------------------------------ units
BASE = ("m", "s", "kg", "K")


class U(object):
    """unit = (scale, offset, exponents): value_in_base = scale * value + offset"""

    def __init__(self, scale=1.0, offset=0.0, **exps):
        self.scale, self.offset = float(scale), float(offset)
        self.exps = {b: float(e) for b, e in exps.items() if e}

    def same_kind(self, o):
        return self.exps == o.exps

    def convert(self, v, to):
        if not self.same_kind(to):
            raise ModelError("units")
        return None if v is None else (self.scale * v + self.offset - to.offset) / to.scale

    def mul(self, o, sign=1):
        if self.offset or o.offset:
            raise ModelError("offset unit in product")
        e = {b: self.exps.get(b, 0) + sign * o.exps.get(b, 0) for b in BASE}
        return U(self.scale * o.scale ** sign, 0.0, **e)

    def power(self, n):
        if self.offset:
            raise ModelError("offset unit in power")
        return U(self.scale ** n, 0.0, **{b: e * n for b, e in self.exps.items()})

    def base_string(self):
        s = " ".join("%s%d" % (b, self.exps[b]) for b in BASE if self.exps.get(b))
        return s or "1"

    def __eq__(self, o):
        return self.exps == o.exps and isclose(self.scale, o.scale, rel_tol=1e-9) and isclose(self.offset, o.offset, rel_tol=1e-9, abs_tol=1e-12)


UNITS = {
    "1": U(), "%": U(0.01), "m": U(m=1), "km": U(1000, m=1), "cm": U(0.01, m=1), "s": U(s=1), "h": U(3600, s=1),
    "day": U(86400, s=1), "kg": U(kg=1), "g": U(1e-3, kg=1), "K": U(K=1), "degC": U(1, 273.15, K=1),
    "Pa": U(kg=1, m=-1, s=-2), "hPa": U(100, kg=1, m=-1, s=-2), "kg m-2 s-1": U(kg=1, m=-2, s=-1),
    "mm day-1": U(1e-3 / 86400, m=1, s=-1), "m s-1": U(m=1, s=-1), "m2": U(m=2),
}


def unit_matches(cfunit, u):
    """Does the cf_units object denote the model unit?"""
    from cf_units import Unit

    base = Unit(u.base_string())
    try:
        if not cfunit.is_convertible(base):
            return False
        z, o = float(cfunit.convert(0.0, base)), float(cfunit.convert(1.0, base))
    except Exception:
        return False
    return isclose(z, u.offset, rel_tol=1e-9, abs_tol=1e-9) and isclose(o, u.scale + u.offset, rel_tol=1e-9, abs_tol=1e-15)


# ------------------------------------------------------------------------------------------ arrays
class Arr(object):
    def __init__(self, dims, sizes, vals, unit, positive=None):
        self.dims = tuple(dims)
        self.sizes = {d: sizes[d] for d in self.dims}
        self.vals = vals  # {tuple(index in dims order): float | None}
        self.unit = unit
        self.positive = positive

    @staticmethod
    def make(dims, sizes, values, unit, positive=None, masked=()):
        """values: flat iterable in C order"""
        vals, it = {}, iter(values)
        for k, ix in enumerate(product(*[range(sizes[d]) for d in dims])):
            v = float(next(it))
            vals[ix] = None if k in masked else v
        return Arr(dims, sizes, vals, unit, positive)

    def at(self, coord):
        return self.vals[tuple(coord[d] for d in self.dims)]

    def copy(self, **kw):
        a = Arr(self.dims, self.sizes, dict(self.vals), self.unit, self.positive)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def map(self, f, **kw):
        return self.copy(vals={k: (None if v is None else f(v)) for k, v in self.vals.items()}, **kw)

    def convert(self, unit):
        if not self.unit.same_kind(unit):
            if self.unit.exps and {b: -e for b, e in self.unit.exps.items()} == unit.exps:
                raise Unspecified()
            raise ModelError("units")
        return self.copy(vals={k: self.unit.convert(v, unit) for k, v in self.vals.items()}, unit=unit)

    def flip(self):
        if self.positive is None:
            return self
        return self.map(lambda v: -v, positive="up" if self.positive == "down" else "down")

    def toward(self, direction):
        if self.positive is None:
            return self.copy(positive=direction)
        return self if self.positive == direction else self.flip()

    def transpose(self, dims):
        if sorted(map(str, dims)) != sorted(map(str, self.dims)):
            raise ModelError("transpose")
        perm = [self.dims.index(d) for d in dims]
        return Arr(dims, self.sizes, {tuple(k[p] for p in perm): v for k, v in self.vals.items()}, self.unit, self.positive)

    def rename(self, m):
        dims = tuple(m.get(d, d) for d in self.dims)
        return Arr(dims, {m.get(d, d): s for d, s in self.sizes.items()}, dict(self.vals), self.unit, self.positive)

    def take(self, **idx):
        """index by dimension name with ints or slices"""
        sel, dims = [], []
        for d in self.dims:
            i = idx.get(d, slice(None))
            if isinstance(i, slice):
                sel.append(list(range(self.sizes[d]))[i])
                dims.append(d)
            else:
                sel.append([range(self.sizes[d])[i]])
        out = {}
        for pos in product(*[range(len(s)) for s in sel]):
            old = tuple(s[p] for s, p in zip(sel, pos))
            new = tuple(p for p, d in zip(pos, self.dims) if d in dims)
            out[new] = self.vals[old]
        sizes = {d: len(s) for d, s in zip(self.dims, sel)}
        return Arr(dims, sizes, out, self.unit, self.positive)

    def reduce(self, dims, how):
        keep = tuple(d for d in self.dims if d not in dims)
        groups = {}
        for k, v in self.vals.items():
            kk = tuple(i for i, d in zip(k, self.dims) if d in keep)
            groups.setdefault(kk, [])
            if v is not None:
                groups[kk].append(v)
        for kk in product(*[range(self.sizes[d]) for d in keep]):
            groups.setdefault(kk, [])
        f = {"mean": lambda g: sum(g) / len(g), "sum": sum, "min": min, "max": max}[how]
        out = {k: (f(g) if g else None) for k, g in groups.items()}
        return Arr(keep, self.sizes, out, self.unit, self.positive)


def zipwith(a, b, f):
    """combine by dimension name; result dims = a's, then b's new ones in b's order"""
    for d in a.dims:
        if d in b.dims and a.sizes[d] != b.sizes[d]:
            raise ModelError("sizes of %s" % d)
    dims = a.dims + tuple(d for d in b.dims if d not in a.dims)
    sizes = dict(b.sizes)
    sizes.update(a.sizes)
    vals = {}
    for ix in product(*[range(sizes[d]) for d in dims]):
        c = dict(zip(dims, ix))
        x, y = a.at(c), b.at(c)
        vals[ix] = None if x is None or y is None else f(x, y)
    return Arr(dims, sizes, vals, None, None)


def _match(a, b):
    if a.positive and b.positive and a.positive != b.positive:
        b = b.flip()
    return b, (a.positive or b.positive)


def _div(x, y):
    return None if y == 0 else x / y


def _floordiv(x, y):
    return None if y == 0 else float(x // y)


def binop(op, a, b):
    if op in ("+", "-"):
        b = b.convert(a.unit)
        b, pos = _match(a, b)
        r = zipwith(a, b, (lambda x, y: x + y) if op == "+" else (lambda x, y: x - y))
        r.unit, r.positive = a.unit, pos
        return r
    if op in ("*", "/", "//"):
        b, pos = _match(a, b)
        r = zipwith(a, b, {"*": lambda x, y: x * y, "/": _div, "//": _floordiv}[op])
        r.unit, r.positive = a.unit.mul(b.unit, 1 if op == "*" else -1), pos
        return r
    if op == "**":
        if b.dims or b.positive:
            raise ModelError("exponent")
        n = b.convert(UNITS["1"]).at({})
        r = a.map(lambda v: v ** n)
        r.unit = a.unit.power(n)
        r.positive = None if n % 2 == 0 else a.positive
        return r
    raise ValueError(op)


# ------------------------------------------------------------------------------------------ comparison
def to_phys(a, unitstr, name="v", dtype=float):
    """Build a real PhysArray holding the model array (unit given by name)."""
    from pyconform.physarray import PhysArray

    shape = tuple(a.sizes[d] for d in a.dims)
    data = numpy.zeros(shape, dtype=dtype)
    mask = numpy.zeros(shape, dtype=bool)
    for k, v in a.vals.items():
        data[k] = -77 if v is None else v
        mask[k] = v is None
    arr = numpy.ma.array(data, mask=mask) if mask.any() else data
    return PhysArray(arr, name=name, units=unitstr, dimensions=a.dims, positive=a.positive)


def observe(p):
    """(dims, shape, values with None for missing) of a real array"""
    m = numpy.ma.asarray(p)
    data = numpy.ma.getdata(m)
    mask = numpy.ma.getmaskarray(m)
    vals = {}
    for ix in numpy.ndindex(*data.shape):
        v = data[ix]
        vals[ix] = None if mask[ix] else (v.item() if hasattr(v, "item") else v)
    return vals, data.shape


def close(x, y, rtol=1e-9):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, complex) or isinstance(y, complex):
        return abs(x - y) <= rtol * max(abs(x), abs(y), 1e-12)
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    return isclose(x, y, rel_tol=rtol, abs_tol=1e-12)


def differs(p, a, rtol=1e-9, units=True, positive=True, dims=True):
    """None if the real array denotes the model array, else a description of the difference"""
    if dims and tuple(p.dimensions) != tuple(a.dims):
        return "dimensions %r instead of %r" % (tuple(p.dimensions), tuple(a.dims))
    vals, shape = observe(p)
    want = tuple(a.sizes[d] for d in a.dims)
    if shape != want:
        return "shape %r instead of %r" % (shape, want)
    for k in sorted(a.vals):
        if not close(vals[k], a.vals[k], rtol):
            return "value at %r is %r instead of %r" % (dict(zip(a.dims, k)), vals[k], a.vals[k])
    if units and not unit_matches(p.units, a.unit):
        return "units %s instead of scale=%g offset=%g %s" % (p.units, a.unit.scale, a.unit.offset, a.unit.base_string())
    if positive and p.positive != a.positive:
        return "positive %r instead of %r" % (p.positive, a.positive)
    return None


def snapshot(p):
    """everything an observer can see of a real array"""
    vals, shape = observe(p)
    return (tuple(sorted(vals.items())), shape, str(p.dtype), str(p.units), tuple(p.dimensions), p.positive, p.name)
