"""C17: input variables are read exactly: values, missing data, units, conventions, for every selection."""
from itertools import product

import numpy

from mc import par
from mc.e2e import Var, quiet, write_file

PID = "C17"
LEVEL = "exploration"
RULE = ("file formats x variables of every kind (double, single, integers, bytes, packed, missing and fill values, characters, scalar, reference "
        "times, unit attributes absent / unknown / not text, conventions in any case) x selections fixed in the definition x "
        "selections requested later, each an integer, slice, tuple, ellipsis or dictionary by dimension name, compared with "
        "indexing the written values twice; data sets whose first files are gone; non-trivial = a selection is applied")

SIZES = {"x": 3, "y": 2, "t": 4, "str": 3}
FORMATS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC", "NETCDF4"]
S = slice


def arr(n, *shape):
    return (numpy.arange(n) * 1.5 - 2).reshape(shape)


def variables(fmt):
    """name: (Var, physical values as masked array, units, positive, calendar)"""
    v = {}
    plain = arr(6, 3, 2)
    v["dbl"] = (Var(("x", "y"), plain, {"units": "m", "positive": "up"}), numpy.ma.array(plain), "m", "up", None)
    v["sgl"] = (Var(("x", "y"), plain, {"units": "km h-1"}, "f4"), numpy.ma.array(plain), "km h-1", None, None)
    v["int"] = (Var(("y", "x"), plain.T.astype(int), {}, "i4"), numpy.ma.array(plain.T.astype(int)), "1", None, None)
    v["sht"] = (Var(("t",), [5, -6, 7, 8], {"units": "%"}, "i2"), numpy.ma.array([5, -6, 7, 8]), "%", None, None)
    v["byt"] = (Var(("t",), [5, -6, 7, 8], {"units": "K"}, "i1"), numpy.ma.array([5, -6, 7, 8]), "K", None, None)
    miss = numpy.ma.array(plain, mask=[[0, 1], [0, 0], [1, 0]])
    v["mis"] = (Var(("x", "y"), miss, {"units": "m", "positive": "Down"}, fill=-999.0), miss, "m", "down", None)
    v["mis4"] = (Var(("x", "y"), miss, {"units": "m"}, "f4", fill=1e20), miss, "m", None, None)
    v["mval"] = (Var(("x", "y"), miss.filled(-5.0), {"units": "m", "missing_value": -5.0}), miss, "m", None, None)
    v["all"] = (Var(("t",), numpy.ma.masked_all(4), {"units": "m"}, fill=-1.0), numpy.ma.masked_all(4), "m", None, None)
    pk = Var(("t",), [1.0, 1.5, 3.0, 2.5], {"units": "m", "scale_factor": 0.5, "add_offset": 1.0}, "i2")
    v["pck"] = (pk, numpy.ma.array([1.0, 1.5, 3.0, 2.5]), "m", None, None)
    pk = {"scale_factor": 0.25, "add_offset": -2.0, "units": "m"}
    v["pks"] = (Var((), 4.5, dict(pk), "i2"), numpy.ma.array(4.5), "m", None, None)
    v["pkm"] = (Var(("x", "y"), miss, dict(pk, positive="up"), "i2", fill=-999), miss, "m", "up", None)
    v["pko"] = (Var(("t",), [1., 2, 3, 5], {"add_offset": -3.0}, "i1"), numpy.ma.array([1., 2, 3, 5]), "1", None, None)
    v["pkf"] = (Var(("y",), [1., 2.], {"scale_factor": 0.5, "units": "K"}, "f4"), numpy.ma.array([1., 2.]), "K", None, None)
    v["scl"] = (Var((), 4.5, {"units": "Pa"}), numpy.ma.array(4.5), "Pa", None, None)
    v["sci"] = (Var((), 4, {"units": "1"}, "i4"), numpy.ma.array(4), "1", None, None)
    v["bad"] = (Var(("x",), [1., 2, 3], {"units": "furlongs-per-what"}), numpy.ma.array([1., 2, 3]), "1", None, None)
    v["num"] = (Var(("x",), [1., 2, 3], {"units": 10}), numpy.ma.array([1., 2, 3]), "10", None, None)
    v["non"] = (Var(("x",), [1., 2, 3], {"long_name": "x"}), numpy.ma.array([1., 2, 3]), "1", None, None)
    v["tim"] = (Var(("t",), [0., 31, 59, 90.5], {"units": "days since 1850-01-01", "calendar": "noleap"}),
                numpy.ma.array([0., 31, 59, 90.5]), "days since 1850-01-01", None, "noleap")
    v["tid"] = (Var(("t",), [0., 31, 59, 90.5], {"units": "days since 1850-01-01"}),
                numpy.ma.array([0., 31, 59, 90.5]), "days since 1850-01-01", None, "standard")
    v["chr"] = (Var(("x", "str"), [[b"a", b"b", b"c"], [b"d", b"e", b""], [b"f", b"", b""]], {}, "S1"),
                numpy.array([[b"a", b"b", b"c"], [b"d", b"e", b""], [b"f", b"", b""]]), None, None, None)
    return v


ITEMS = [S(None), 0, -1, S(1, None), S(0, 2), S(None, None, -1), S(None, None, 2), S(2, None, -2), S(1, 1)]


def selections(dims, deep):
    yield S(None), {}
    yield Ellipsis, {}
    yield (), {}
    if not dims:
        return
    items = ITEMS if deep or len(dims) == 1 else ITEMS[1:6]
    for i in items:
        yield i, {dims[0]: i}
        for k, d in enumerate(dims):
            yield {d: i}, {d: i}
            yield (S(None),) * k + (i,), {d: i}
        yield (Ellipsis, i), {dims[-1]: i}
        yield {dims[0]: i, "other": S(0, 1)}, {dims[0]: i}
    if len(dims) == 2:
        for i, j in product(items[::2] if not deep else items, items[1::2] if not deep else items):
            yield (i, j), {dims[0]: i, dims[1]: j}
            yield {dims[1]: j, dims[0]: i}, {dims[0]: i, dims[1]: j}


def take(a, dims, byname):
    ix = tuple(byname.get(d, S(None)) for d in dims)
    return a[ix] if ix else a, tuple(d for d, i in zip(dims, ix) if isinstance(i, slice))


def same(got, want, exact):
    if got.shape != want.shape:
        return "shape %r instead of %r" % (got.shape, want.shape)
    gm, wm = numpy.ma.getmaskarray(got), numpy.ma.getmaskarray(want)
    if not (gm == wm).all():
        return "missing data %r instead of %r" % (gm.tolist(), wm.tolist())
    g, w = numpy.ma.getdata(got)[~gm], numpy.ma.getdata(want)[~wm]
    if not numpy.array_equal(g.astype(float), w.astype(float)):
        return "values %r instead of %r" % (g.tolist(), w.tolist())
    return None


def sel_str(x):
    return repr(x).replace("slice", "s").replace("None", "")


def job(item):
    from cf_units import Unit

    from pyconform.datasets import InputDatasetDesc
    from pyconform.flownodes import ReadNode

    path, fmt, name, deep = item
    var, phys, units, pos, cal = variables(fmt)[name]
    chars = var.dtype == "S1"
    fails, n, nt = [], 0, 0
    with quiet():
        ds = InputDatasetDesc(filenames=[path])
        for first, byname1 in selections(var.dims, deep):
            try:
                node = ReadNode(ds.variables[name], index=first)
            except Exception as err:
                fails.append(("%s %s[%s]" % (fmt, name, sel_str(first)), "refused: %r" % err))
                continue
            one, dims1 = take(phys, var.dims, byname1)
            for second, byname2 in selections(dims1, deep):
                if chars and not [d for d in dims1 if isinstance(byname2.get(d, S(None)), slice)]:
                    continue        # a single character is no string; not specified
                n += 1
                nt += bool(byname1 or byname2)
                key = "%s %s[%s][%s]" % (fmt, name, sel_str(first), sel_str(second))
                try:
                    two, dims2 = take(one, dims1, byname2)
                except IndexError:
                    two = None
                try:
                    got = node[second]
                    if two is None:
                        fails.append((key, "gives a result for a selection out of range"))
                        continue
                except IndexError if two is None else ():
                    continue
                except Exception as err:
                    fails.append((key, "failed: %r" % err))
                    continue
                if tuple(got.dimensions) != dims2:
                    fails.append((key, "dimensions %r instead of %r" % (got.dimensions, dims2)))
                if chars:
                    g = numpy.ma.getdata(got)
                    if g.shape != two.shape or g.tolist() != two.tolist():
                        fails.append((key, "characters %r instead of %r" % (g, two)))
                else:
                    d = same(got, numpy.ma.asarray(two), True)
                    if d:
                        fails.append((key, d))
                    u = Unit(units, calendar=cal) if cal else Unit(units)
                    if got.units != u or got.units.calendar != u.calendar:
                        fails.append((key, "units %r instead of %r" % (got.units, u)))
                    if got.positive != pos:
                        fails.append((key, "positive %r instead of %r" % (got.positive, pos)))
                    if got.dtype.kind == "f" and got.dtype.itemsize < 8:
                        fails.append((key, "computing in single precision"))
                    if got.dtype.kind != ("f" if name[:2] in ("pc", "pk") else numpy.dtype(var.dtype).kind):
                        fails.append((key, "type %s" % got.dtype))
                if got.ndim and (not (byname1 or byname2) or (byname2 and not n % 5)):
                    # what was read is the reader's own: changing it does not change what is read next
                    before = (numpy.ma.array(got.view(numpy.ma.MaskedArray), copy=True), got.units, got.positive)
                    if chars:
                        got.view(numpy.ma.MaskedArray)[...] = b"z"
                    elif got.positive is not None:
                        got.flip()
                    else:
                        got.view(numpy.ma.MaskedArray)[...] = 77
                        got.units = "s"
                    again = node[second]
                    d = (again.units, again.positive) != before[1:] and "units %r, positive %r" % (again.units, again.positive)
                    b, a = before[0], again.view(numpy.ma.MaskedArray)
                    if not d and (a.tolist() != b.tolist() if chars else same(a, b, True)):
                        d = "values %r instead of %r" % (a, b)
                    if d:
                        fails.append((key + " after the result was altered", d))
                if len(fails) > 20:
                    return n, nt, fails
            if chars and not dims1:
                continue
            # the probe says what the whole selection has, without its values
            try:
                info = node[None]
                if tuple(info.dimensions) != dims1 or (dims1 and info.size):
                    fails.append(("%s %s[%s][probe]" % (fmt, name, sel_str(first)), "dimensions %r, %d values" % (info.dimensions, info.size)))
            except Exception as err:
                fails.append(("%s %s[%s][probe]" % (fmt, name, sel_str(first)), "failed: %r" % err))
    return n, nt, fails


def warnings_and_files(chk, d):
    """unknown units are reported; a variable is read from whichever of its files exists"""
    import os

    from pyconform.datasets import InputDatasetDesc
    from pyconform.flownodes import ReadNode, UnitsWarning

    p = d + "/w.nc"
    vs = variables("NETCDF4")
    for name in vs:
        write_file(p, {name: vs[name][0]}, SIZES, fmt="NETCDF4")
        with quiet() as rec:
            ReadNode(InputDatasetDesc(filenames=[p]).variables[name])[...]
        warned = any(issubclass(w.category, UnitsWarning) for w in rec)
        chk.ran(("warning", name), warned)
        if warned != (name == "bad"):
            chk.fail("warning " + name, "unit warning: %s" % warned, {"variable": name})
    names = ["a.nc", "b.nc", "c.nc"]
    for present in product((0, 1), repeat=3):
        for n in names:
            write_file(d + "/" + n, {"v": Var(("x",), [1., 2, 3], {"units": "m"})}, SIZES)
        ds = InputDatasetDesc(filenames=[d + "/" + n for n in names])
        for n, keep in zip(names, present):
            if not keep:
                os.unlink(d + "/" + n)
        try:
            got = ReadNode(ds.variables["v"])[...].tolist()
        except (OSError, ValueError, KeyError):
            got = "refused"
        chk.ran(("files", present), got)
        if got != ([1., 2, 3] if any(present) else "refused"):
            chk.fail("files %r" % (present,), "reading gives %r" % (got,), {"present": present})
    # a file that lost the variable in the meantime is refused
    write_file(d + "/a.nc", {"v": Var(("x",), [1., 2, 3], {"units": "m"})}, SIZES)
    ds = InputDatasetDesc(filenames=[d + "/a.nc"])
    write_file(d + "/a.nc", {"w": Var(("x",), [1., 2, 3], {"units": "m"})}, SIZES)
    try:
        ReadNode(ds.variables["v"])
        chk.fail("lost variable", "accepted", {})
    except (OSError, ValueError, KeyError):
        pass
    chk.ran(("lost",), "refused")


def explore(chk):
    d = chk.scratch()
    items = []
    for fmt in FORMATS:
        p = "%s/%s.nc" % (d, fmt)
        vs = variables(fmt)
        write_file(p, {n: v[0] for n, v in vs.items()}, SIZES, fmt=fmt, unlimited=("t",))
        for n in vs:
            if chk.thorough or fmt in ("NETCDF3_CLASSIC", "NETCDF4"):
                items.append((p, fmt, n, chk.thorough and fmt == "NETCDF4"))
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    warnings_and_files(chk, d)
