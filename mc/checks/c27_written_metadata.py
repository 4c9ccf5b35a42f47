"""C27: the header of an output file says what was declared - format, compression, dimensions, types, attributes - and what was inherited."""
import os
import re
import time
from collections import OrderedDict
from datetime import datetime, timedelta
from itertools import combinations, product

import numpy

from mc import e2e, par

PID = "C27"
LEVEL = "exploration"
RULE = ("5 formats x compression levels 0-9 declared x override none or 0-9; all pairs of entries of a menu of variable attributes (texts, empty text, unicode, numbers, "
        "vectors, fill values, limits, special names) for float, integer, character and coordinate variables; units declared, open in every spelling or absent x data units; "
        "reference times with unit, reference and calendar declared or open x data calendars; global attributes; history on and off; executed once and "
        "twice, whole and in chunks; the complete header read back and compared with a model; non-trivial = an attribute is declared")

X, Y = 3, 2
TIMES = {"days since 2001-01-01": "noleap", "hours since 1999-12-30 06:00": "360_day", "days since 2000-02-28": None}


def inputs(path):
    v = OrderedDict()
    v["a"] = e2e.Var(("x", "t"), numpy.arange(6.).reshape(3, 2) + 1, {"units": "m", "long_name": "input name", "comment": "input"})
    v["k"] = e2e.Var(("x",), [4, 5, 6], {"units": "km h-1"}, "i4")
    v["s"] = e2e.Var((), 3., {"units": "degC"})
    v["n"] = e2e.Var(("x",), [1., 2., 3.], {})
    v["c"] = e2e.Var(("x", "l"), numpy.array([list("ab"), list("cd"), list("ef")], dtype="S1"), {}, "S1")
    v["x"] = e2e.Var(("x",), [10., 20., 30.], {"units": "m"})
    for i, (u, cal) in enumerate(TIMES.items()):
        v["t%d" % i] = e2e.Var(("t",), [5., 6.], dict({"units": u}, **({"calendar": cal} if cal else {})))
    e2e.write_file(path, v, {"x": X, "t": 2, "l": 2}, unlimited=("t",))


class Decl(object):
    """a declared output variable: what its header has to be"""

    def __init__(self, dims, text, datatype, attrs, uses, units=None, time=None):
        self.dims, self.text, self.datatype, self.attrs, self.uses, self.units, self.time = dims, text, datatype, attrs, uses, units, time

    def expected(self, cal_ok=True):
        want = OrderedDict((k, v) for k, v in self.attrs.items() if k not in ("direction", "history"))
        if "_FillValue" in want:
            want["_FillValue"] = numpy.dtype({"double": "f8", "float": "f4", "int": "i4", "char": "S1"}[self.datatype]).type(want["_FillValue"]).item()
        if "units" in want:
            u = str(want["units"])
            if self.time:
                parts = [p.strip() for p in u.split("since")] + [""]
                tu, tr = [p.strip() for p in self.time[0].split("since")]
                want["units"] = "%s since %s" % (parts[0] if parts[0] not in OPEN else tu, parts[1] if parts[1] not in OPEN else tr)
                if "calendar" not in want:
                    want["calendar"] = self.time[1] or "standard"
            elif u.strip() in OPEN:
                want["units"] = self.units
        return want


OPEN = ("", "?", "unknown")
TYPES = {"double": "<f8", "float": "<f4", "int": "<i4", "char": "|S1"}


def same_units(a, b):
    from cf_units import Unit
    if a == b:
        return True
    try:
        return numpy.allclose(Unit(a).convert(numpy.array([0., 1., 7.]), Unit(b)), [0., 1., 7.], rtol=1e-9) and ("since" in a) == ("since" in b)
    except Exception:
        return False


def same_time(a, b):
    if " since " not in a or " since " not in b:
        return a == b
    import cftime
    (ua, ra), (ub, rb) = [[p.strip() for p in s.split("since")] for s in (a, b)]
    return same_units(ua, ub) and cftime.num2date(0, "days since " + ra, "proleptic_gregorian") == cftime.num2date(0, "days since " + rb, "proleptic_gregorian")


def header(found, decl, dims, attrs, fmt, level, history, start):
    """compare the header of a file with its declaration: None or a description"""
    if found["format"] != fmt:
        return "format %s instead of %s" % (found["format"], fmt)
    got = dict(found["attrs"])
    date = got.pop("creation_date", None)
    if date is None or not re.match(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$", str(date)):
        return "creation date %r" % (date,)
    when = datetime.strptime(date, "%Y-%m-%dT%H:%M:%SZ")
    if not start - timedelta(seconds=2) <= when <= datetime.utcnow() + timedelta(seconds=2):
        return "creation date %r, now is %s" % (date, datetime.utcnow())
    if got != attrs:
        return "global attributes %r instead of %r" % (got, attrs)
    need = {d for v in decl.values() for d in v.dims}
    if found["dims"] != {d: dims[d] for d in need}:
        return "dimensions %r instead of %r" % (found["dims"], {d: dims[d] for d in need})
    if set(found["vars"]) != set(decl):
        return "variables %r" % sorted(found["vars"])
    for n, v in decl.items():
        r = found["vars"][n]
        if r["dtype"].replace(">", "<") != TYPES[v.datatype]:
            return "%s has type %s instead of %s" % (n, r["dtype"], v.datatype)
        if r["dims"] != tuple(v.dims):
            return "%s has dimensions %r instead of %r" % (n, r["dims"], v.dims)
        if v.dims and fmt.startswith("NETCDF4"):
            if (r["zlib"], r["complevel"] if level else 0) != (level > 0, level):
                return "%s is compressed %r at level %r instead of %r" % (n, r["zlib"], r["complevel"], level)
        got = dict(r["attrs"])
        h = got.pop("history", None)
        if history:
            if "history" in v.attrs:
                if not h or v.attrs["history"] not in h:
                    return "history of %s is %r: %r was declared" % (n, h, v.attrs["history"])
            elif not h or any(u not in h for u in v.uses):
                return "history of %s is %r: it should name %s" % (n, h, v.uses)
            turned = re.search(r"invdims\(.*dims=\[([^\]]*)\]\)$", h)
            turned = [d.strip() for d in turned.group(1).split(",")] if turned else []
            if turned != [d for d in v.dims if d == "X"]:
                return "history of %s is %r: turned round is X" % (n, h)
        elif h is not None:
            return "%s has a history %r although none was asked for" % (n, h)
        want = v.expected()
        if set(got) != set(want):
            return "%s has attributes %r instead of %r" % (n, sorted(got), sorted(want))
        for k, w in want.items():
            g = got[k]
            if isinstance(w, float) and v.datatype == "float" and k == "_FillValue":
                ok = numpy.float32(g) == numpy.float32(w)
            elif k == "units" and v.time:
                ok = same_time(g, w)
            elif k == "units" and str(v.attrs["units"]).strip() in OPEN:
                ok = g == w or same_units(g, w)
            elif k == "calendar" and "calendar" not in v.attrs:
                ok = g == w or {g, w} in ({"standard", "gregorian"}, {"noleap", "365_day"})
            else:
                ok = type(g) is type(w) and g == w
            if not ok:
                return "%s:%s is %r instead of %r" % (n, k, g, w)
    return None


def run(work, decl, fmt=None, deflate=None, override=None, history=False, attrs=None, chunks=(), twice=False):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    inp, out = os.path.join(work, "in.nc"), os.path.join(work, "out.nc")
    if not os.path.exists(inp):
        inputs(inp)
    spec = OrderedDict()
    opts = {}
    if fmt is not None:
        opts["format"] = fmt
    if deflate is not None:
        opts["deflate"] = deflate
    if attrs is not None:
        opts["attributes"] = attrs
    first = True
    for n, v in decl.items():
        kw = dict(filename=out, metavars=[m for m in decl if m != n], **opts) if first else {}
        spec[n] = e2e.outvar(v.dims, v.text, v.datatype, v.attrs, **kw)
        first = False
    start = datetime.utcnow()
    bad = None
    with e2e.quiet():
        df = DataFlow(InputDatasetDesc(filenames=[inp]), OutputDatasetDesc(dsdict=spec))
        level = override if override is not None else deflate if deflate is not None else 2
        for h in ([history, not history, history] if twice else [history]):
            df.execute(serial=True, history=h, deflate=override, chunks=dict(chunks))
            r = e2e.read_file(out)
            os.unlink(out)
            bad = bad or header(r, decl, {"X": (X, False), "T": (2, True), "L": (2, False)}, attrs or {}, fmt or "NETCDF4_CLASSIC", level, h, start)
    return bad


def fixed():
    return OrderedDict([
        ("V", Decl(("T", "X"), "2*a", "double", {"units": "m"}, ["a"])),
        ("X1", Decl(("X",), "x", "double", {"units": "m", "axis": "X", "direction": "decreasing"}, ["x"])),
        ("S", Decl((), "s", "float", {"units": "K"}, ["s"])),
        ("T1", Decl(("T",), "t0", "double", {"units": "days since 2001-01-01", "calendar": "noleap"}, ["t0"], time=("days since 2001-01-01", "noleap")))])


MENU = [("long_name", "a name"), ("empty", ""), ("uni", u"10\u00b0 \u00e9t\u00e9"), ("count", 3), ("ratio", 2.5), ("vector", [1, 2, 3]), ("reals", [0.5, 1.5]),
        ("_FillValue", 99), ("valid_min", -5), ("valid_max", ""), ("missing_value", 99), ("positive", "up"), ("comment", "own comment"),
        ("direction", "increasing"), ("history", "own history"), ("name", "another name"), ("calendar", "none"), ("standard_name", "time"), ("cell_methods", "time: mean"), ("coordinates_", "lat lon")]


def job(item):
    kind, arg, d = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    n, nt, fails = 0, 0, []

    def case(key, decl, **kw):
        nonlocal n, nt
        n += 1
        nt += any(len(v.attrs) > 1 for v in decl.values())
        try:
            bad = run(work, decl, **kw)
        except Exception as err:
            bad = "refused: %r" % err
        if bad:
            fails.append(("%s %s" % (key, kw or ""), bad))
        for f in os.listdir(work):
            if f != "in.nc":
                os.unlink(os.path.join(work, f))

    if kind == "format":
        fmt, deflate = arg
        for over in [None] + list(range(10)):
            for h in (False, True):
                case("format", fixed(), fmt=fmt, deflate=deflate, override=over, history=h)
    elif kind == "global":
        for glob, h, twice, chunks in product([None, {}, {"title": "text"}, {"title": "", "n": 3, "v": [1, 2], "r": 0.5, "u": u"\u00e9"}], (False, True), (False, True),
                                              ({}, {"X": 2}, {"T": 1, "X": 1})):
            case("global", fixed(), attrs=glob, history=h, twice=twice, chunks=chunks)
    elif kind == "attributes":
        which, pair = arg
        for twice in (False, True):
            for h in (False, True):
                decl = fixed()
                a = dict(pair)
                if which == "int":
                    decl["V"] = Decl(("X",), "k", "int", dict({"units": "km h-1"}, **a), ["k"])
                elif which == "float":
                    decl["V"] = Decl(("T", "X"), "a + 0*x", "float", dict({"units": "m"}, **a), ["a"])
                elif which == "char":
                    decl["V"] = Decl(("X", "L"), "c", "char", a, ["c"])
                else:
                    decl["V"] = Decl(("X",), "n", "double", a, ["n"])
                case("attributes of a %s variable" % which, decl, history=h, twice=twice)
                fails[:] = [(k + " " + repr(pair) if not k.endswith(repr(pair)) else k, w) for k, w in fails]
    elif kind == "units":
        src, uu = arg
        text, native = {"a": ("a", "m"), "2": ("2*k", "km h-1"), "n": ("n", "1"), "ac": ("a*k", "m km h-1"), "sq": ("rmunits(a)**2", "1"), "cm": ("chunits(a, units='cm')", "cm")}[src]
        for h in (False, True):
            decl = fixed()
            dims = ("T", "X") if "a" in text else ("X",)
            u = uu if uu != "native" else native
            decl["V"] = Decl(dims, text, "double", {} if u is None else {"units": u}, [], units=native)
            case("units %s declared %r" % (src, u), decl, history=h)
    elif kind == "time":
        i, (tu, tr, cal) = arg
        native = list(TIMES.items())[i]
        decl = fixed()
        u = tu if tr is None else "%s since %s" % (tu, tr)
        a = {"units": u}
        if cal == "same":
            a["calendar"] = native[1] or "standard"
        decl["V"] = Decl(("T",), "t%d" % i, "double", a, ["t%d" % i], time=native)
        case("time %r declared %r" % (native, a), decl)
    return n, nt, fails


def explore(chk):
    os.environ["TZ"] = "XXX-7"  # a clock that does not show universal time
    time.tzset()
    d = chk.scratch()
    items = []
    for fmt in ("NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF4_CLASSIC", "NETCDF4", None):
        for deflate in [None] + (list(range(10)) if fmt in ("NETCDF4", None) or chk.thorough else [0, 3]):
            items.append(("format", (fmt, deflate), d))
    items.append(("global", None, d))
    for which in ("float", "int", "char", "plain"):
        for k in range(3):
            for pair in combinations(MENU, k):
                names = [p[0] for p in pair]
                if which == "char" and set(names) & {"valid_min", "valid_max", "positive", "_FillValue"}:
                    continue
                if "calendar" in names and which in ("float", "int"):
                    continue
                items.append(("attributes", (which, pair), d))
    for src in ("a", "2", "n", "ac", "sq", "cm"):
        for u in (None, "", "?", "unknown", " ? ", "native"):
            items.append(("units", (src, u), d))
    for i in range(3):
        for tu in ("days", "hours", "?", ""):
            for tr in (None, "?", "", "2000-01-01", "unknown", "1999-06-01 12:00"):
                for cal in (None, "same"):
                    if tr is None and tu in ("days", "hours"):
                        continue  # a duration declared for a reference time: judged by C18
                    items.append(("time", (i, (tu, tr, cal)), d))
    for item, (st, res) in zip(items, par.pmap(job, items, chunksize=4)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[:2])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[:2]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
