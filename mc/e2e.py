"""
End-to-end harness: write input netCDF files, run the real pipeline (InputDatasetDesc, OutputDatasetDesc,
DataFlow.execute), read the output files back with plain netCDF4.
"""
import contextlib
import io
import os
import warnings
from collections import OrderedDict

import numpy
from netCDF4 import Dataset


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        yield rec


class Var(object):
    """An input (or expected) variable: dims, values (nested list / array, None or masked = missing), attributes"""

    def __init__(self, dims, values, attrs=None, dtype="f8", fill=None):
        self.dims = tuple(dims)
        self.values = values
        self.attrs = dict(attrs or {})
        self.dtype = dtype
        self.fill = fill


def write_file(path, variables, sizes, unlimited=(), attrs=None, fmt="NETCDF4_CLASSIC", extra_dims=()):
    """variables: {name: Var}"""
    with Dataset(path, "w", format=fmt) as nc:
        for k, v in (attrs or {}).items():
            nc.setncattr(k, v)
        made = set()
        for name, v in variables.items():
            for d in v.dims:
                if d not in made:
                    made.add(d)
                    nc.createDimension(d, None if d in unlimited else sizes[d])
        for d in extra_dims:
            if d not in made:
                nc.createDimension(d, None if d in unlimited else sizes[d])
        for name, v in variables.items():
            fill = v.fill
            var = nc.createVariable(name, v.dtype, v.dims, fill_value=fill)
            for k, a in v.attrs.items():
                var.setncattr(k, a)
            if v.dtype == "S1":
                var[:] = numpy.asarray(v.values)
            else:
                var[...] = numpy.ma.asarray(v.values)
    return path


def arr_values(a):
    """values of a model array as a masked numpy array"""
    shape = tuple(a.sizes[d] for d in a.dims)
    data = numpy.zeros(shape)
    mask = numpy.zeros(shape, dtype=bool)
    for k, v in a.vals.items():
        if v is None:
            mask[k] = True
        else:
            data[k] = v
    return numpy.ma.array(data, mask=mask)


def flow(infiles, dsdict):
    """build the data flow; returns (DataFlow, warnings)"""
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    with quiet() as rec:
        df = DataFlow(InputDatasetDesc(filenames=list(infiles)), OutputDatasetDesc(dsdict=dsdict))
    return df, [w for w in rec]


def run(infiles, dsdict, **kw):
    """build and execute; returns list of warnings"""
    kw.setdefault("serial", True)
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    with quiet() as rec:
        df = DataFlow(InputDatasetDesc(filenames=list(infiles)), OutputDatasetDesc(dsdict=dsdict))
        df.execute(**kw)
    return list(rec)


def outvar(dims, definition, datatype="double", attrs=None, filename=None, **fileopts):
    d = OrderedDict()
    d["datatype"] = datatype
    d["dimensions"] = list(dims)
    d["definition"] = definition
    d["attributes"] = OrderedDict(attrs or {})
    if filename is not None:
        f = OrderedDict(filename=filename)
        f.update(fileopts)
        d["file"] = f
    return d


def read_file(path):
    """observe a netCDF file with plain netCDF4: dims, variables, attributes (values: masked arrays, raw too)"""
    with Dataset(path) as nc:
        nc.set_auto_scale(False)
        out = {"format": nc.file_format, "dims": {}, "vars": OrderedDict(), "attrs": OrderedDict()}
        for d, o in nc.dimensions.items():
            out["dims"][d] = (len(o), o.isunlimited())
        for a in nc.ncattrs():
            out["attrs"][a] = _plain(nc.getncattr(a))
        for n, v in nc.variables.items():
            v.set_auto_mask(False)
            raw = v[...]
            attrs = OrderedDict((a, _plain(v.getncattr(a))) for a in v.ncattrs())
            filt = v.filters() or {}
            out["vars"][n] = {"dims": tuple(v.dimensions), "dtype": v.dtype if v.dtype is str else v.dtype.str,
                              "attrs": attrs, "raw": raw, "zlib": bool(filt.get("zlib")),
                              "complevel": filt.get("complevel", 0)}
            fv = attrs.get("_FillValue")
            if fv is None and v.dtype is not str and v.dtype.kind in "fiu" and v.dtype.itemsize > 1:
                from netCDF4 import default_fillvals
                fv = default_fillvals[v.dtype.str[1:]]
            if v.dtype is not str and v.dtype.kind in "fiu" and fv is not None:
                out["vars"][n]["values"] = numpy.ma.masked_where(raw == numpy.asarray(fv).astype(v.dtype), raw)
            else:
                out["vars"][n]["values"] = numpy.ma.asarray(raw)
        return out


def _plain(a):
    return a.tolist() if isinstance(a, (numpy.ndarray, numpy.generic)) else a


def compare(found, m, rtol=1e-9, dims=True):
    """None if the variable record read from a file holds the model array's values, else a description"""
    from mc.model import close, observe

    if dims and found["dims"] != tuple(m.dims):
        return "dimensions %r instead of %r" % (found["dims"], tuple(m.dims))
    vals, shape = observe(found["values"])
    want = tuple(m.sizes[d] for d in m.dims)
    if shape != want:
        return "shape %r instead of %r" % (shape, want)
    for k in sorted(m.vals):
        if not close(vals[k], m.vals[k], rtol):
            return "value at %r is %r instead of %r" % (dict(zip(m.dims, k)), vals[k], m.vals[k])
    return None


def clean(d):
    for root, _, files in os.walk(d, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        if root != d:
            os.rmdir(root)
