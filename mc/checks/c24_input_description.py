"""C24: the description of the input data set is what the headers of its files say, or the files are refused."""
import hashlib
import os
from collections import OrderedDict
from itertools import combinations, permutations, product

import numpy
from netCDF4 import Dataset

from mc import e2e, par

PID = "C24"
LEVEL = "exploration"
RULE = ("files of 5 formats x all selections of up to 3 variables (in every order) out of a menu of types and dimension lists (unlimited, string length, "
        "empty dimensions, unused dimensions) x attribute sets of variables and files (texts, numbers, vectors, empty text); sets of two and three such "
        "files, consistent or not in dimension size, limitedness, variable type or layout, in every order; compared with what was written; "
        "files are not altered; non-trivial = more than one variable or file")

FORMATS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF4_CLASSIC", "NETCDF4"]
NAMES = {"i1": "byte", "u1": "ubyte", "S1": "char", "i2": "short", "u2": "ushort", "i4": "int", "u4": "uint", "i8": "int64", "u8": "uint64",
         "f4": "float", "f8": "double"}
DIMS = {"x": (3, False), "y": (2, False), "t": (2, True), "n": (4, False), "e": (0, True), "unused": (7, False)}
VARS = OrderedDict([("d", ("f8", ("x",))), ("f", ("f4", ("x", "y"))), ("g", ("f4", ("y", "x"))), ("i", ("i4", ())), ("h", ("i2", ("t", "x"))),
                    ("b", ("i1", ("t",))), ("c", ("S1", ("y", "n"))), ("s", ("S1", ("n",))), ("z", ("f8", ("e",))), ("u", ("u1", ("x",))),
                    ("w", ("i2", ("n", "y"))), ("U", ("u2", ("y",))), ("V", ("u4", ("y",))), ("l", ("i8", ("t", "y"))), ("L", ("u8", ()))])
CLASSIC = set("dfgihbcszw")
ATTRS = [{}, {"units": "m", "long_name": "some name"}, {"units": "days since 2000-01-01", "calendar": "noleap", "count": 3, "limits": [1.5, 2.5], "empty": ""},
         {"_FillValue": 9, "positive": "up", "units": ""}]
GLOBAL = [{}, {"title": "t", "n": 4, "v": [1, 2, 3]}]


def types(fmt):
    return [v for v in VARS if v in CLASSIC or fmt in ("NETCDF4", "NETCDF3_64BIT_DATA")]


def write(path, fmt, names, attrs, glob, dims=DIMS, variables=VARS):
    """attrs: {variable: attributes}"""
    with Dataset(path, "w", format=fmt) as nc:
        for k, v in glob.items():
            nc.setncattr(k, v)
        need = [d for n in names for d in variables[n][1]] + ["unused"]
        for d in dims:
            if d in need:
                nc.createDimension(d, None if dims[d][1] else dims[d][0])
        for n in names:
            t, dd = variables[n]
            a = dict(attrs.get(n, {}))
            if t == "S1":
                a.pop("_FillValue", None)
            v = nc.createVariable(n, t, dd, fill_value=a.pop("_FillValue", None))
            for k, val in a.items():
                v.setncattr(k, val)
            if "t" in dd:
                v[:] = numpy.zeros([dims[d][0] for d in dd])


def plain(v):
    return v.tolist() if isinstance(v, (numpy.ndarray, numpy.generic)) else v


def look(ds, files):
    """files: [(path, fmt, names, attrs, glob, dims, variables)]; returns None or what differs"""
    if list(ds.files) != [f[0] for f in files]:
        return "files %r" % list(ds.files)
    for path, fmt, names, attrs, glob, dims, variables in files:
        fd = ds.files[path]
        if fd.name != path or fd.format != {"NETCDF3_64BIT": "NETCDF3_64BIT_OFFSET"}.get(fmt, fmt):
            return "file %r of format %r instead of %r" % (fd.name, fd.format, fmt)
        if {k: plain(v) for k, v in fd.attributes.items()} != glob:
            return "global attributes %r instead of %r" % (dict(fd.attributes), glob)
        if list(fd.variables) != list(names):
            return "variables %r instead of %r" % (list(fd.variables), names)
        used = [d for n in names for d in variables[n][1]]
        letters = {variables[n][1][-1] for n in names if variables[n][0] == "S1" and variables[n][1]}
        if set(fd.dimensions) != set(used):
            return "dimensions %r instead of %r" % (sorted(fd.dimensions), sorted(set(used)))
        for d in used:
            for where, dd in (("file", fd.dimensions[d]), ("data set", ds.dimensions.get(d))):
                if dd is None or (dd.name, dd.size, dd.unlimited) != (d,) + dims[d]:
                    return "dimension %s of the %s is %s" % (d, where, dd)
                if bool(dd.stringlen) != (d in letters):
                    return "dimension %s of the %s is %sthe length of texts" % (d, where, "not " if d in letters else "")
        for n in names:
            for where, vd in (("file", fd.variables[n]), ("data set", ds.variables.get(n))):
                t, dd = variables[n]
                if vd is None or vd.name != n or vd.datatype != NAMES[t] or vd.dtype != numpy.dtype(t):
                    return "variable %s of the %s has type %r instead of %r" % (n, where, getattr(vd, "datatype", None), NAMES[t])
                if tuple(vd.dimensions) != dd:
                    return "variable %s has dimensions %r instead of %r" % (n, tuple(vd.dimensions), dd)
                if vd.definition is not None:
                    return "variable %s has a definition" % n
                want = dict(attrs.get(n, {}))
                if t == "S1":
                    want.pop("_FillValue", None)
                if len(files) == 1 and {k: plain(v) for k, v in vd.attributes.items()} != want:
                    return "attributes of %s are %r instead of %r" % (n, dict(vd.attributes), want)
                if set(vd.files) != {f[0] for f in files if n in f[2]}:
                    return "variable %s is in files %r" % (n, sorted(vd.files))
    allv = {n for f in files for n in f[2]}
    if set(ds.variables) != allv:
        return "variables %r instead of %r" % (sorted(ds.variables), sorted(allv))
    return None


def check_files(files):
    """files written; returns None or a failure"""
    from pyconform.datasets import InputDatasetDesc
    before = [hashlib.sha1(open(f[0], "rb").read()).hexdigest() for f in files]
    with e2e.quiet():
        ds = InputDatasetDesc(filenames=[f[0] for f in files])
    bad = look(ds, files)
    if [hashlib.sha1(open(f[0], "rb").read()).hexdigest() for f in files] != before:
        bad = "the file was altered"
    return bad


def job(item):
    d, fmt, names, thorough = item
    path = os.path.join(d, "w%d.nc" % os.getpid())
    fails, n = [], 0
    menu = range(len(ATTRS))
    for combo in (product(menu, repeat=len(names)) if len(names) < 3 or thorough else [(i, (i + 1) % 4, (i + 2) % 4) for i in menu]):
        for g in GLOBAL:
            n += 1
            attrs = {v: ATTRS[i] for v, i in zip(names, combo)}
            key = "%s %s attributes %s global %d" % (fmt, ",".join(names), combo, GLOBAL.index(g))
            write(path, fmt, names, attrs, g)
            try:
                bad = check_files([(path, fmt, names, attrs, g, DIMS, VARS)])
            except Exception as err:
                bad = "refused: %r" % err
            if bad:
                fails.append((key, bad))
            os.unlink(path)
    return n, n if len(names) > 1 else 0, fails


CHANGES = {"none": ({}, {}), "size x": ({"x": (4, False)}, {}), "size t": ({"t": (3, True)}, {}), "t limited": ({"t": (2, False)}, {}),
           "type d": ({}, {"d": ("f4", ("x",))}), "dims d": ({}, {"d": ("f8", ("y",))}), "order f": ({}, {"f": ("f4", ("y", "x"))}),
           "scalar d": ({}, {"d": ("f8", ())}), "type h": ({}, {"h": ("i4", ("t", "x"))})}


def sets(chk, d):
    """two and three files"""
    contents = [("d",), ("d", "f"), ("f", "h"), ("h",), ("i", "d"), ("g",)]
    for fmt in FORMATS if chk.thorough else FORMATS[:1] + FORMATS[-1:]:
        for a, b in product(contents, repeat=2):
            for change, (dd, vv) in CHANGES.items():
                extra = [None, ("b",)] if not chk.thorough else [None] + contents
                for c in extra:
                    files = []
                    for k, names in enumerate(x for x in (a, b, c) if x):
                        dims = dict(DIMS, **dd) if k == 1 else DIMS
                        variables = dict(VARS, **vv) if k == 1 else VARS
                        path = os.path.join(d, "s%d.nc" % k)
                        write(path, fmt, names, {}, {"k": k}, dims, variables)
                        files.append((path, fmt, names, {}, {"k": k}, dims, variables))
                    # consistent?
                    bad = False
                    seen_d, seen_v = {}, {}
                    for path, _, names, _, _, dims, variables in files:
                        for n in names:
                            bad |= seen_v.setdefault(n, variables[n]) != variables[n]
                            for x in variables[n][1]:
                                bad |= seen_d.setdefault(x, dims[x]) != dims[x]
                    for order in permutations(files):
                        key = "%s files %s" % (fmt, [("changed %s " % change if f[5] is not DIMS or f[6] is not VARS else "") + ",".join(f[2]) for f in order])
                        try:
                            res = check_files(list(order))
                        except (ValueError, TypeError):
                            res = "refused"
                        except Exception as err:
                            res = "failed: %r" % err
                        chk.ran(key, res)
                        if res != ("refused" if bad else None):
                            chk.fail(key, "contradictory files accepted" if bad else res, {"case": key})


def refusals(chk, d):
    from pyconform.datasets import InputDatasetDesc
    good, junk, none = os.path.join(d, "good.nc"), os.path.join(d, "junk.nc"), os.path.join(d, "absent.nc")
    write(good, "NETCDF4", ("d",), {}, {})
    with open(junk, "w") as f:
        f.write("no netCDF")
    for names in ([none], [junk], [good, none], [none, good], [good, junk]):
        try:
            with e2e.quiet():
                InputDatasetDesc(filenames=names)
            res = "accepted"
        except Exception:
            res = "refused"
        chk.ran(("unreadable", [os.path.basename(x) for x in names]), res)
        if res != "refused" or os.path.exists(none):
            chk.fail("unreadable %r" % [os.path.basename(x) for x in names], res, {})
    with e2e.quiet():
        ds = InputDatasetDesc(filenames=[good, good])
    if list(ds.files) != [good] or list(ds.variables) != ["d"]:
        chk.fail("same file twice", "files %r" % list(ds.files), {})
    with e2e.quiet():
        ds = InputDatasetDesc(filenames=[])
    if ds.files or ds.variables or ds.dimensions:
        chk.fail("no files", "not empty", {})


def explore(chk):
    d = chk.scratch()
    items = []
    for fmt in FORMATS:
        vs = types(fmt)
        for k in range(4):
            for names in combinations(vs, k):
                if k == 3 and not chk.thorough and len(set(names) & set("dfghcst")) < 3:
                    continue
                if fmt != "NETCDF4" and "z" in names and set(names) & set("hbl"):
                    continue  # two unlimited dimensions
                for order in (permutations(names) if k < 3 or chk.thorough else [names, names[::-1]]):
                    items.append((d, fmt, order, chk.thorough))
    for item, (st, res) in zip(items, par.pmap(job, items, chunksize=8)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    sets(chk, d)
    refusals(chk, d)
