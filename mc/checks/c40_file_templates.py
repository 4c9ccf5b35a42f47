"""C40: files made after a template have its dimensions, attributes and metadata, and every step written to them is read back."""
import hashlib
import os
import shutil
from collections import OrderedDict
from itertools import combinations, permutations, product

import numpy
from netCDF4 import Dataset, default_fillvals

from mc import par
from mc.e2e import quiet

PID = "C40"
LEVEL = "exploration"
RULE = ("templates (formats, with or without history, records, packed and filled variables) x output formats and compression levels x ordered selections of metadata variables x "
        "template variables under their own or another name: dimensions, attributes, types, layout, values and compression compared; then every sequence of up to three (thorough: four) writes "
        "(variable x default or given step x shapes of values) and readings of steps, against a model of the contents; sequences of up to three files of one port, and two open at once in every order of their operations; variables created from type, dimensions "
        "and attributes; names of files found by directory, name or pattern; template unaltered; non-trivial = metadata or writes")

NLAT, NLON = 2, 3
FORMATS = OrderedDict([("netcdf", ("NETCDF3_CLASSIC", 0)), ("netcdfLarge", ("NETCDF3_64BIT_OFFSET", 0)), ("netcdf4", ("NETCDF4_CLASSIC", 0)), ("netcdf4c", ("NETCDF4_CLASSIC", 1)),
                       ("netcdf4c1", ("NETCDF4_CLASSIC", 1)), ("netcdf4c5", ("NETCDF4_CLASSIC", 5)), ("netcdf4c9", ("NETCDF4_CLASSIC", 9)), ("unknown", ("NETCDF4_CLASSIC", 0))])
V = OrderedDict([
    ("time", ("f8", ("time",), {"units": "days since 2000-01-01", "calendar": "noleap", "bounds": "tb"})),
    ("tb", ("f8", ("time", "two"), {})),
    ("lat", ("f4", ("lat",), {"units": "degrees_north", "axis": "Y", "limits": numpy.array([-90., 90.])})),
    ("lon", ("f8", ("lon",), {"units": "degrees_east", "name": "longitude"})),
    ("area", ("f8", ("lat", "lon"), {"_FillValue": -1e30, "units": "m2", "count": numpy.int32(3)})),
    ("p0", ("f8", (), {"units": "Pa"})),
    ("n0", ("i4", (), {})),
    ("mask", ("i2", ("lat", "lon"), {"_FillValue": numpy.int16(-7), "flag": "land"})),
    ("code", ("i1", ("lon",), {"long_name": "codes"})),
    ("pack", ("i2", ("lat",), {"scale_factor": 0.5, "add_offset": 10., "_FillValue": numpy.int16(-99), "units": "K"})),
    ("cov", ("f8", ("lon", "lon"), {"long_name": "covariance"})),
    ("label", ("S1", ("lat", "len"), {"long_name": "labels"})),
    ("T", ("f4", ("time", "lat", "lon"), {"_FillValue": numpy.float32(1e20), "missing_value": numpy.float32(1e20), "units": "K", "long_name": "temperature"})),
    ("D", ("f8", ("time", "lat"), {"units": "1"})),
    ("N", ("i4", ("time", "lat"), {"units": "count"})),
    ("M", ("f8", ("time",), {"_FillValue": -5.})),
    ("P", ("i2", ("time", "lat"), {"scale_factor": 0.25, "add_offset": 2., "_FillValue": numpy.int16(-99)})),
])
DIMS = OrderedDict([("lat", NLAT), ("time", None), ("lon", NLON), ("two", 2), ("len", 4), ("spare", 5)])
SERIES = ["T", "D", "N", "M", "P"]
GLOBAL = [OrderedDict([("title", "a title"), ("number", numpy.int32(4)), ("range", numpy.array([1.5, 2.5])), ("history", "made here")]), OrderedDict([("title", "a title")])]


def raw(name, nt):
    """values of the template, as stored"""
    t, dd, att = V[name]
    shape = [nt if d == "time" else DIMS[d] for d in dd]
    n = int(numpy.prod(shape)) if shape else 1
    if t == "S1":
        return numpy.array(list("abcdefghijklmnopqrstuvwxyz"[:n]), "S1").reshape(shape)
    a = (numpy.arange(n) * 3 + len(name) + sum(map(ord, name)) % 7 + (.25 if t in ("f8", "f4") else 0)).astype(t).reshape(shape)
    if t == "f8":
        a = (a * 1.0000000001).astype(t)
    if "_FillValue" in att and n > 1:
        a.flat[n // 2] = att["_FillValue"]
    return a


class Template(object):
    def __init__(self, d, fmt, glob, nt, limited=False):
        self.glob, self.nt = GLOBAL[glob], nt
        self.path = os.path.join(d, "t_%s_%d_%d_%d.nc" % (fmt, glob, nt, limited))
        with Dataset(self.path, "w", format=fmt) as nc:
            for k, v in self.glob.items():
                nc.setncattr(k, v)
            for k, n in DIMS.items():
                nc.createDimension(k, (nt if limited else None) if n is None else n)
            for k, (t, dd, att) in V.items():
                att = dict(att)
                v = nc.createVariable(k, t, dd, fill_value=att.pop("_FillValue", None))
                v.set_auto_maskandscale(False)
                for a, x in att.items():
                    v.setncattr(a, x)
                v[...] = raw(k, nt)
        self.hash = self.digest()

    def digest(self):
        with open(self.path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()


def port():
    from pyconform import climIO
    with quiet():
        return climIO.init_climIO(override="netCDF4")


def same(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    return a.dtype.kind == b.dtype.kind and a.shape == b.shape and a.tolist() == b.tolist()


def attributes(nc, v):
    return {k: v.getncattr(k) for k in v.ncattrs()}


def diff_attrs(got, want, who):
    if set(got) != set(want):
        return "%s: attributes %r instead of %r" % (who, sorted(got), sorted(want))
    for k in want:
        if not same(got[k], want[k]):
            return "%s: attribute %s is %r instead of %r" % (who, k, got[k], want[k])
    return None


def fill(name):
    t, dd, att = V[name]
    return att.get("_FillValue", default_fillvals[t])


def compare(path, fmt, tpl, variables, contents, history):
    """variables: {name in the file: name in the template}, contents: {name: raw values}"""
    kind, level = FORMATS[fmt]
    with Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        if nc.data_model != kind:
            return "format %s instead of %s" % (nc.data_model, kind)
        want = dict(tpl.glob)
        want["history"] = "Standardized\n" + want["history"] if "history" in want else history
        bad = diff_attrs(attributes(nc, nc), want, "file")
        if bad:
            return bad
        dims = {k: (None if d.isunlimited() else len(d)) for k, d in nc.dimensions.items()}
        if dims != dict(DIMS):
            return "dimensions %r instead of %r" % (dims, dict(DIMS))
        if set(nc.variables) != set(variables):
            return "variables %r instead of %r" % (sorted(nc.variables), sorted(variables))
        for k, o in variables.items():
            t, dd, att = V[o]
            v = nc.variables[k]
            if v.dtype != numpy.dtype(t) or v.dimensions != dd:
                return "%s: %s%r instead of %s%r" % (k, v.dtype, v.dimensions, t, dd)
            bad = diff_attrs(attributes(nc, v), att, k)
            if bad:
                return bad
            if kind.startswith("NETCDF4") and dd:
                f = v.filters()
                if (f["complevel"] if f["zlib"] else 0) != level:
                    return "%s: compression %r instead of %r" % (k, f, level)
            if k in contents and not same(v[...], contents[k]):
                return "%s: values %r instead of %r" % (k, v[...].tolist(), contents[k].tolist())
    return None


def padded(a, name, nt):
    """raw values, up to nt steps"""
    t, dd, att = V[name]
    if "time" not in dd or len(a) >= nt:
        return a
    return numpy.concatenate([a, numpy.full((nt - len(a),) + a.shape[1:], fill(name), t)])


def define(d, io, tpl, fmt, metas, var, name, history=None):
    """Make a file, return its path and what is expected in it"""
    path = os.path.join(d, "out.nc")
    if os.path.exists(path):
        os.remove(path)
    with quiet():
        nc = io.create_file(path, fmt, history) if history is not None else io.create_file(path, fmt)
        all_vars, nc_ = io.define_file(nc, name, list(metas), tpl.path, var)
    return path, nc_, all_vars


def job_define(item):
    d, tfmt, glob, nt, limited, fmt, depth = item
    d = os.path.join(d, "d%d" % os.getpid())
    os.makedirs(d)
    n, nt_, fails = 0, 0, []
    try:
        tpl = Template(d, tfmt, glob, nt, limited)
        names = [v for v in V]
        sets = [()] + [(v,) for v in names] + [c for c in permutations(["time", "lat", "area", "p0"], 2)] + [tuple(v for v in names if v not in SERIES), tuple(reversed([v for v in names if v not in SERIES]))]
        if depth:
            sets += [c for c in combinations(names, 2) if c not in sets] + [c for c in permutations(["time", "tb", "pack", "label"], 3)]
        for metas, var, other in product(sets, SERIES + ["area", "p0"], (False, True)):
            if var in metas:
                continue
            if not depth and other and len(metas) == 1:
                continue
            name = "new" if other else var
            key = "define %s template %s%s, %s records: %s of %s as %s, metadata %r" % (fmt, tfmt, " with history" if not glob else "", nt if not limited else "%d fixed" % nt, fmt, var, name, metas)
            history = None if len(metas) % 2 else "some history"
            n += 1
            nt_ += len(metas) > 0
            try:
                io = port()
                path, nc, all_vars = define(d, io, tpl, fmt, metas, var, name, history)
                if set(all_vars) != set(metas) | {name}:
                    bad = "variables returned: %r" % sorted(all_vars)
                else:
                    io.close_file(nc)
                    variables = {m: m for m in metas}
                    variables[name] = var
                    contents = {m: raw(m, nt) for m in metas}
                    t, dd, att = V[var]
                    records = nt if any("time" in V[m][1] for m in metas) else 0
                    shape = [records if x == "time" else DIMS[x] for x in dd]
                    contents[name] = numpy.full(shape, fill(var), t)
                    bad = compare(path, fmt, tpl, variables, contents, history if history is not None else "clim-convert" + path)
            except Exception as err:
                bad = "failed: %r" % err
            if bad:
                fails.append((key, bad))
                if len(fails) > 20:
                    break
        if tpl.digest() != tpl.hash:
            fails.append(("template %s" % tfmt, "was altered"))
    finally:
        shutil.rmtree(d)
    return n, nt_, fails


def value(var, k, shape):
    """values number k for a step of the variable: (what is given, what is stored)"""
    t, dd, att = V[var]
    s = [DIMS[x] for x in dd[1:]]
    n = int(numpy.prod(s)) if s else 1
    stored = (numpy.arange(n) * 2 + 10 * k + 1).astype(t)
    if t == "f8":
        stored = stored + 1. / 3
    if t == "f4":
        stored = (stored + 1. / 3).astype("f4")
    stored = stored.reshape(s)
    given = stored
    if "scale_factor" in att:
        given = stored * att["scale_factor"] + att["add_offset"]
    if k == 1 and "_FillValue" in att and n > 1:
        given = numpy.ma.array(given, mask=numpy.arange(n).reshape(s) == 1)
        stored = stored.copy()
        stored.flat[1] = att["_FillValue"]
    if shape == "record":
        given = given.reshape([1] + s)
    elif not s:
        given = given[()] if not numpy.ma.isMaskedArray(given) else given
        given = numpy.asarray(given)
    return given, stored


def steps(name, var):
    """operations: variable, index (None for the default), shape of the values"""
    for index in (None, 0, 1, 2):
        for shape in ("step", "record"):
            yield name, var, index, shape


def job_write(item):
    d, tfmt, fmt, var, metas, depth, first = item
    d = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(d)
    n, nt_, fails, states = 0, 0, [], set()
    try:
        tpl = Template(d, tfmt, 0, 2)
        ops = list(steps(var, var)) + [o for m in metas if m == "time" for o in steps(m, m) if o[2] in (None, 1, 2)]
        for k in range(0, depth + 1):
            for seq in product(ops, repeat=k):
                if (seq[0] if seq else ops[0]) != ops[first % len(ops)] or (first >= len(ops)):
                    continue
                n += 1
                nt_ += k > 0
                key = "write %s %s, metadata %r: %s" % (fmt, var, metas, ", ".join("%s%s%s" % (o[0], "" if o[2] is None else "[%d]" % o[2], " as record" if o[3] == "record" else "") for o in seq))
                try:
                    io = port()
                    path, nc, all_vars = define(d, io, tpl, fmt, metas, var, var, "h")
                    contents = {m: raw(m, tpl.nt) for m in metas}
                    contents[var] = numpy.zeros([0 if x == "time" else DIMS[x] for x in V[var][1]], V[var][0])
                    bad = None
                    for j, (name, o, index, shape) in enumerate(seq):
                        given, stored = value(o, j, shape)
                        before = given.copy()
                        with quiet():
                            if index is None:
                                io.write_var(all_vars, given, name)
                            else:
                                io.write_var(all_vars, given, name, index=index)
                        if not same(numpy.ma.getdata(given), numpy.ma.getdata(before)) or not same(numpy.ma.getmaskarray(given), numpy.ma.getmaskarray(before)):
                            bad = "the values given were altered"
                        i = index or 0
                        records = max([i + 1] + [len(contents[m]) for m in contents if "time" in V[m][1]])
                        contents[name] = padded(contents[name], o, i + 1)
                        contents[name][i] = stored
                    io.close_file(nc)
                    records = max([0] + [len(contents[m]) for m in contents if "time" in V[m][1]])
                    contents = {m: padded(contents[m], m, records) for m in contents}
                    states.add(hashlib.sha1(repr(sorted((m, contents[m].tolist()) for m in contents)).encode()).hexdigest())
                    bad = bad or compare(path, fmt, tpl, {m: m for m in contents}, contents, "h") or read(io, path, contents)
                except Exception as err:
                    bad = "failed: %r" % err
                if bad:
                    fails.append((key, bad))
                    if len(fails) > 20:
                        return n, nt_, fails, len(states)
        if tpl.digest() != tpl.hash:
            fails.append(("template %s" % tfmt, "was altered"))
    finally:
        shutil.rmtree(d)
    return n, nt_, fails, len(states)


def physical(name, a):
    t, dd, att = V[name]
    m = a == att["_FillValue"] if "_FillValue" in att else numpy.zeros(a.shape, bool)
    m = m | (a == default_fillvals[t]) if t in default_fillvals and "_FillValue" not in att and t != "S1" and t != "i1" else m
    x = a * att["scale_factor"] + att["add_offset"] if "scale_factor" in att else a
    return x, m


def read(io, path, contents):
    f = io.open_file(path)
    try:
        for name, a in contents.items():
            x, m = physical(name, a)
            for index, all_values in [(None, True)] + [(i, False) for i in range(len(a) if a.shape else 0)]:
                got = io.read_slice(f, name, index if index is not None else 0, all_values=all_values)
                want, mask = (x, m) if all_values else (x[index], m[index])
                if numpy.shape(got) != numpy.shape(want):
                    return "%s read at %r: shape %r" % (name, index, numpy.shape(got))
                if numpy.ma.getmaskarray(got).tolist() != numpy.asarray(mask).tolist():
                    return "%s read at %r: missing %r instead of %r" % (name, index, numpy.ma.getmaskarray(got).tolist(), numpy.asarray(mask).tolist())
                ok = numpy.where(mask, True, numpy.ma.getdata(got) == want)
                if not numpy.all(ok):
                    return "%s read at %r: %r instead of %r" % (name, index, got, want)
            t, dd, att = V[name]
            code, dims, attribs = io.get_var_info(f, name)
            if numpy.dtype(code) != numpy.dtype(t) or list(dims) != list(dd):
                return "%s described as %r%r" % (name, code, dims)
            bad = diff_attrs(dict(attribs), att, "%s described" % name)
            if bad:
                return bad
    finally:
        io.close_file(f)
    return None


CODES = {"d": "f8", "f": "f4", "i": "i4", "h": "i2", "b": "i1", "S1": "S1"}


def job_create(item):
    """sequences of files of one port, with variables created from scratch"""
    d, formats = item
    d = os.path.join(d, "c%d" % os.getpid())
    os.makedirs(d)
    n, fails = 0, []
    try:
        key = "files %r of one port" % (formats,)
        io = port()
        for k, fmt in enumerate(formats):
            path = os.path.join(d, "f%d.nc" % k)
            n += 1
            bad = None
            try:
                with quiet():
                    nc = io.create_file(path, fmt, "hist %d" % k)
                nc.createDimension("x", 3)
                nc.createDimension("y", 2)
                want = {}
                for c, dd, a in product(CODES, [("x",), ("y", "x"), ()], [{}, {"units": "m", "long_name": "a name"}, {"_FillValue": 9, "valid": 2}, {"units": "K", "_FillValue": 5}]):
                    if c == "S1" and "_FillValue" in a:
                        continue
                    name = "v%d" % len(want)
                    a = {x: numpy.dtype(CODES[c]).type(y) if x == "_FillValue" else y for x, y in a.items()}
                    given = dict(a)
                    v = io.create_var(nc, name, c, dd if c != "d" else list(dd), given)
                    if given != a:
                        bad = "attributes given were altered"
                    if v.name != name:
                        bad = "another variable returned: %r" % v.name
                    want[name] = (c, dd, a)
                io.close_file(nc)
                kind, level = FORMATS[fmt]
                with Dataset(path) as nc:
                    if nc.data_model != kind or nc.history != "hist %d" % k:
                        bad = "format %s, history %r" % (nc.data_model, nc.history)
                    for name, (c, dd, a) in want.items():
                        v = nc.variables[name]
                        f = v.filters() or {"zlib": False}
                        if v.dtype != numpy.dtype(CODES[c]) or v.dimensions != dd:
                            bad = "%s%r is %s%r" % (c, dd, v.dtype, v.dimensions)
                        if dd and (f["complevel"] if f["zlib"] else 0) != level:
                            bad = "%s%r of %s: compression %r" % (c, dd, fmt, f)
                        bad = bad or diff_attrs(attributes(nc, v), a, "%s%r" % (c, dd))
            except Exception as err:
                bad = "failed: %r" % err
            if bad:
                fails.append((key, bad))
                break
    finally:
        shutil.rmtree(d)
    return n, n, fails


def merges(a, b):
    if not a or not b:
        yield a + b
        return
    for m in merges(a[1:], b):
        yield a[:1] + m
    for m in merges(a, b[1:]):
        yield b[:1] + m


def job_together(item):
    """two files of one port open at once, in every order of their creation, definition and closing"""
    d, formats = item
    d = os.path.join(d, "t%d" % os.getpid())
    os.makedirs(d)
    n, fails = 0, []
    try:
        for order in merges([(0, o) for o in "cvwx"], [(1, o) for o in "cvwx"]):
            for one in ((False, True) if order.index((0, "x")) < order.index((1, "c")) else (False,)):
                key = "files %r of one port%s: %s" % (formats, " with one name" if one else "", " ".join("%s%d" % (o, k) for k, o in order))
                n += 1
                io, nc, bad = port(), {}, None
                paths = [os.path.join(d, "f%d.nc" % (0 if one else k)) for k in (0, 1)]
                try:
                    for k, o in order:
                        if o == "c":
                            with quiet():
                                nc[k] = io.create_file(paths[k], formats[k], "hist %d" % k)
                            nc[k].createDimension("x", 3 + k)
                        elif o == "x":
                            io.close_file(nc[k])
                            kind, level = FORMATS[formats[k]]
                            with Dataset(paths[k]) as f:
                                if f.data_model != kind or f.history != "hist %d" % k:
                                    bad = "file %d has format %s, history %r" % (k, f.data_model, f.history)
                                for v in "vw":
                                    z = f.variables[v].filters() or {"zlib": False}
                                    if (z["complevel"] if z["zlib"] else 0) != level or f.variables[v].shape != (3 + k,) or f.variables[v].units != v + str(k):
                                        bad = "%s of file %d (%s): compression %r, shape %r, units %s" % (v, k, formats[k], z, f.variables[v].shape, f.variables[v].units)
                        else:
                            io.create_var(nc[k], o, "d", ("x",), {"units": o + str(k)})
                except Exception as err:
                    bad = "failed: %r" % err
                if bad:
                    fails.append((key, bad))
                    if len(fails) > 10:
                        return n, n, fails
    finally:
        shutil.rmtree(d)
    return n, n, fails


P0 = ["$prefix", ".", "$var", ".", "$date_pattern", "_", "$hem", "$suffix"]
PATTERNS = [P0, P0[:-1] + [".nc"], P0[::-1], ["$hem", "$prefix", "_", "$var", "$suffix"], ["$var", "$var", "_", "$hem", "."], ["$prefix", "$hem", "x"]]


def filenames(chk):
    """get_filename: the file in the directory, the file itself, or what the pattern gives; None without a file"""
    from pyconform.climIO import get_filename
    d = chk.scratch()
    k = 0
    for rel, have, var, split, pat in product((False, True), product((False, True), repeat=3), ("T", "UV"), ("nh", ""), PATTERNS):
        k += 1
        old = os.getcwd()
        work = os.path.join(d, "w%d" % k)
        os.makedirs(os.path.join(work, "sub"))
        os.chdir(work)
        try:
            directory = "sub" if rel else os.path.join(work, "sub")
            part = {"$prefix": "case", "$var": var, "$date_pattern": "2000", "$hem": split, "$suffix": ".nc"}
            names = [directory + "/case", "case", directory + "/" + "".join(part.get(p, p) for p in pat)]
            others = [directory + "/" + x for x in ("case.T.2000_nh.nc", "case.UV.2000_.nc", "T.nc") if directory + "/" + x != names[2]]
            for name in [n for h, n in zip(have, names) if h] + others:
                open(name, "w").close()
            info = {"directory": directory, "fn": "case", "pattern": list(pat), "date_stamp": "2000", "suffix": ".nc"}
            want = ([n for h, n in zip(have, names) if h] + [None])[0]
            key = "file name %s, there: %r, %s %r %r" % ("relative" if rel else "absolute", have, var, split, pat)
            try:
                got = get_filename(var, info, split)
                bad = None if got == want else "%r instead of %r" % (got, want)
            except Exception as err:
                bad = "failed: %r" % err
            chk.ran(key, bad)
            if bad:
                chk.fail(key, bad, {})
        finally:
            os.chdir(old)


def explore(chk):
    d = chk.scratch()
    deep = chk.thorough
    items = [(job_define, (d, tfmt, glob, nt, limited, fmt, deep))
             for tfmt, glob, nt, limited, fmt in product(["NETCDF3_CLASSIC", "NETCDF4_CLASSIC", "NETCDF4"], (0, 1), (1, 2), (False, True), FORMATS)
             if deep or (FORMATS[fmt][1] in (0, 1) and (limited == (nt == 1)))]
    depth = 4 if deep else 3
    for fmt in FORMATS if deep else ("netcdf", "netcdf4c1"):
        for var, metas in product(SERIES, ((), ("time",), ("area", "time", "lat"))):
            if depth == 4 and metas == ("area", "time", "lat") and var != "T":
                continue
            nops = 8 + 6 * ("time" in metas)
            for first in range(nops):
                items.append((job_write, (d, "NETCDF4_CLASSIC" if fmt != "netcdf" else "NETCDF3_CLASSIC", fmt, var, metas, depth if (metas != ("area", "time", "lat") or deep) else 2, first)))
    items += [(job_create, (d, c)) for k in (1, 2, 3) for c in product(list(FORMATS) if k < 3 or deep else ["netcdf", "netcdf4", "netcdf4c", "netcdf4c5"], repeat=k)]
    items += [(job_together, (d, c)) for c in product(FORMATS, repeat=2)]
    for (fn, item), (st, res) in zip(items, par.pmap(_run, items)):
        key = "%s %r" % (fn.__name__, item[1:])
        if st == "err":
            chk.fail("crash", res, {"item": key})
            continue
        n, nt, fails = res[:3]
        chk.bulk(n, nt, [{"case": key, "cases": n}])
        if len(res) > 3:
            chk.count("states", res[3])
            chk.count("transitions", n)
        for k, w in fails[:30]:
            chk.fail(k, w, {"case": k})
    filenames(chk)


def _run(x):
    return x[0](x[1])
