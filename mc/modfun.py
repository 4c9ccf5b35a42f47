"""Calling the functions of pyconform.modules: on arrays in memory, and as definitions of whole conversions.

In the models here an array is a numpy array of doubles with NaN where a value is missing.
"""
import os
from collections import OrderedDict

import numpy

from mc import e2e


class A(object):
    """an argument: values (NaN: missing), dimensions, units; raw is what lies below the mask"""

    def __init__(self, dims, values, units="1", dtype="f8", raw=1e36, calendar=None, positive=None):
        self.dims, self.units, self.dtype, self.raw, self.calendar, self.positive = tuple(dims), units, dtype, raw, calendar, positive
        self.v = numpy.array(values, dtype="f8")

    def masked(self):
        nan = numpy.isnan(self.v)
        return numpy.ma.array(numpy.where(nan, self.raw, self.v).astype(self.dtype), mask=nan if nan.any() else numpy.ma.nomask)

    def node(self, name):
        from cf_units import Unit
        from pyconform.flownodes import DataNode
        from pyconform.physarray import PhysArray
        return DataNode(PhysArray(self.masked(), name=name, units=Unit(self.units, calendar=self.calendar), dimensions=self.dims, positive=self.positive))

    def var(self):
        attrs = {"units": self.units}
        if self.calendar:
            attrs["calendar"] = self.calendar
        nan = numpy.isnan(self.v).any()
        fill = numpy.dtype(self.dtype).type(self.raw) if nan else None
        return e2e.Var(self.dims, numpy.ma.array(self.masked()), attrs, dtype=self.dtype, fill=fill)


def load(*names):
    import importlib
    return [importlib.import_module("pyconform.modules." + n) for n in names]


def call(key, *args, **kw):
    """the node of a function of constants, nodes and arguments"""
    from pyconform.flownodes import EvalNode
    from pyconform.functions import find_function
    args = [a.node("a%d" % i) if isinstance(a, A) else a for i, a in enumerate(args)]
    kw = dict((k, a.node(k) if isinstance(a, A) else a) for k, a in kw.items())
    with e2e.quiet(), numpy.errstate(all="ignore"):
        return EvalNode(key, find_function(key), *args, **kw)


def values(p):
    """values of a result, NaN where missing"""
    m = numpy.ma.asarray(p)
    return numpy.where(numpy.ma.getmaskarray(m), numpy.nan, numpy.ma.getdata(m).astype("f8"))


def differ(got, want, rtol=1e-9):
    if got.shape != want.shape:
        return "shape %r instead of %r" % (got.shape, want.shape)
    scale = numpy.nanmax(numpy.abs(want)) if want.size and not numpy.isnan(want).all() else 1.0
    bad = (numpy.isnan(got) != numpy.isnan(want)) | (numpy.abs(got - want) > rtol * max(scale, 1e-300))
    if bad.any():
        k = tuple(int(i[0]) for i in numpy.nonzero(bad))
        return "value at %r is %s instead of %s" % (k, "missing" if numpy.isnan(got[k]) else repr(float(got[k])), "missing" if numpy.isnan(want[k]) else repr(float(want[k])))
    return None


def unit(text, calendar=None):
    from cf_units import Unit
    return Unit(text, calendar=calendar)


def examine(key, args, want, dims, units=None, kw=None, rtol=1e-9, probe=True, calendar=None, index=None):
    """None, or what is wrong with the result of a function of arguments (want None: to be refused)"""
    with e2e.quiet(), numpy.errstate(all="ignore"):
        try:
            node = call(key, *args, **(kw or {}))
            got = node[{} if index is None else index]
        except Exception as err:
            return None if want is None else "refused: %r" % err
        if want is None:
            return "accepted"
        try:
            info = node[None]
        except Exception as err:
            return "probe refused: %r" % err
    if tuple(got.dimensions) != tuple(dims):
        return "dimensions %r instead of %r" % (got.dimensions, dims)
    bad = differ(values(got), want, rtol)
    if bad:
        return bad
    if units is not None and got.units != unit(units, calendar):
        return "units %r instead of %r" % (got.units, units)
    if probe and (tuple(info.dimensions) != tuple(dims) or (units is not None and info.units != unit(units, calendar))):
        return "probe says %r %r" % (info.dimensions, info.units)
    return None


def convert(d, inputs, sizes, definition, dims, units=None, coords=(), chunks=None, unlimited=("time",), calendar=None, dtype="double", fill=None):
    """values, of the variable written by a conversion of one variable, or the refusal"""
    path, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
    for p in (path, out):
        if os.path.exists(p):
            os.unlink(p)
    spec = OrderedDict()
    for c, (src, cu, cal) in dict(coords).items():
        attrs = {"units": cu} if cu else {}
        if cal:
            attrs["calendar"] = cal
        spec[c] = e2e.outvar([c], src, attrs=attrs)
    attrs = {}
    if units:
        attrs["units"] = units
    if calendar:
        attrs["calendar"] = calendar
    if fill is not None:
        attrs["_FillValue"] = fill
    spec["v"] = e2e.outvar(dims, definition, dtype, attrs, out)
    with e2e.quiet(), numpy.errstate(all="ignore"):
        e2e.write_file(path, OrderedDict((k, a.var()) for k, a in inputs.items()), sizes, unlimited=unlimited)
        try:
            e2e.run([path], spec, chunks=OrderedDict(chunks or {}))
        except Exception as err:
            return "refused: %s" % repr(err)[:300]
    if not os.path.exists(out):
        return "refused: nothing written"
    rec = e2e.read_file(out)["vars"]["v"]
    if rec["dims"] != tuple(dims):
        return "refused: dimensions %r" % (rec["dims"],)
    return values(rec["values"])
