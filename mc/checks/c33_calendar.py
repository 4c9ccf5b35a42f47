"""C33: climatologies, yearly means, monthly series and cell bounds follow months and years of the whole time axis."""
from itertools import combinations, product

import numpy
from numpy import nan

from mc import modfun, par
from mc.modfun import A

PID = "C33"
LEVEL = "exploration"
RULE = ("bounds: every rising and falling sequence of two to four out of six values x type x location x end cells x interface values (none, as many less or more by one, wrong) x every "
        "part of the result; climatologies and yearly means: lengths of the time axis up to three years x rank x every single and pair of missing values; climatological, yearly and monthly times and bounds; "
        "monthly series of yearly data, first year without data or not; burnt fractions of up to three years; ages of air of every start month; each against a model, with dimensions, "
        "units and probe; whole conversions of each, whole and in chunks of every size of every dimension; non-trivial = a value is computed")

ML = numpy.array([31., 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
SINCE = "days since 0001-01-01 00:00:00"


def months(n, first=0):
    """ends and bounds of n months"""
    lens = numpy.array([ML[(first + i) % 12] for i in range(n)])
    end = numpy.cumsum(lens) + ML[:first].sum()
    return end, numpy.stack([end - lens, end], axis=1)


def numbers(shape, k=0):
    """distinct values without simple relations"""
    n = int(numpy.prod(shape))
    return (numpy.array([(-1.0 if i % 3 == 1 else 1.0) * (((i * 7919 + k * 104729 + 31) % 9973) / 16.0 + 1) for i in range(n)])).reshape(shape)


# -- models ---------------------------------------------------------------------------------------------------------
def bounds(x, location, endpoints, idata=None):
    n = len(x)
    out = numpy.zeros((n, 2))
    if idata is not None:
        if len(idata) == n + 1:
            edges = list(idata)
        elif len(idata) == n - 1:
            lo = {0: x[0], 1: 2 * x[0] - idata[0], 2: 2 * x[0] - x[1]}[location]
            hi = {0: 2 * x[-1] - x[-2], 1: 2 * x[-1] - idata[-1], 2: x[-1]}[location]
            edges = [lo] + list(idata) + [hi]
        else:
            return None
        for i in range(n):
            out[i] = edges[i], edges[i + 1]
        return out
    for i in range(n):
        below = x[i] - x[i - 1] if i else x[1] - x[0]
        above = x[i + 1] - x[i] if i < n - 1 else x[-1] - x[-2]
        if not endpoints:
            below, above = below if i else 0, above if i < n - 1 else 0
        out[i] = x[i] - below * {0: 0, 1: .5, 2: 1}[location], x[i] + above * {0: 1, 1: .5, 2: 0}[location]
    return out


def oclim(x):
    return numpy.stack([sum(x[i] for i in range(m, len(x), 12)) / len(range(m, len(x), 12)) for m in range(12)])


def monthtoyear(x):
    return numpy.stack([sum(x[12 * y + m] * ML[m] for m in range(12)) / 365 for y in range(len(x) // 12)])


def yeartomonth(x, time):
    return numpy.stack([x[i] for i in range(len(x)) if time[i] != 0 for _ in range(12)])


def yeartomonth_time(time):
    out = []
    for t in time:
        if t != 0:
            at = t - 365
            for m in range(12):
                out.append(at + ML[m] / 2)
                at += ML[m]
    return numpy.array(out)


def burnt(x):
    return numpy.stack([x[t] * ML[t % 12] * 86400 * 100 for t in range(len(x))])


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = max(k for k in range(len(xs)) if xs[k] <= x)
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def ageofair(c, date):
    # (a month is dated at the first day of the one after it)
    when = [d // 10000 + (d // 100 % 100 - 1.5) / 12 for d in date]
    out = numpy.zeros(c.shape)
    for t, k, j in product(*map(range, c.shape)):
        out[t, k, j] = when[t] - interp(c[t, k, j], c[:, 0, 0], when)
    return out


# -- the functions on arrays ----------------------------------------------------------------------------------------
def job_bounds(depth):
    fails, n = [], 0
    modfun.load("commonfunctions")
    grid = [-3., 0., 1., 4., 5., 10.]
    for size in (2, 3, 4):
        for x in combinations(grid, size):
            for seq in (x, x[::-1]):
                mids = [(a + b) / 2 + .25 for a, b in zip(seq, seq[1:])]
                for loc, ends, idata, dtype in product((0, 1, 2), (0, 1), (None, mids, [seq[0] - 7] + mids + [seq[-1] + 9], list(seq)), ("f8", "i4")):
                    if dtype == "i4" and idata is not None and len(idata) == size:
                        continue
                    kw = {"location": loc, "endpoints": ends, "bdim": "nb"}
                    if idata is not None:
                        kw["idata"] = A(["e"], idata, "hPa")
                    want = bounds(seq, loc, ends, idata)
                    n += 1
                    bad = modfun.examine("bounds", [A(["x"], seq, "hPa", dtype)], want, ("x", "nb"), "hPa", kw)
                    if bad:
                        fails.append(("bounds %r %s %r idata %r" % (seq, dtype, kw, idata), bad))
                    if want is None or size < 3 and not depth:
                        continue
                    for a, b in combinations(range(size + 1), 2):
                        for index in ({"x": slice(a, b)}, slice(a, b), {"x": slice(a, b), "y": slice(0, 1)}):
                            n += 1
                            bad = modfun.examine("bounds", [A(["x"], seq, "hPa", dtype)], want[a:b], ("x", "nb"), "hPa", kw, index=index)
                            if bad:
                                fails.append(("bounds %r %s %r idata %r part %r" % (seq, dtype, kw, idata, index), bad))
    for label, kw, dims in (("bdim number", {"bdim": 3}, ["x"]), ("location 3", {"location": 3}, ["x"]), ("two dimensions", {}, ["x", "y"])):
        n += 1
        bad = modfun.examine("bounds", [A(dims, numpy.ones((2,) * len(dims)), "m")], None, ("x", "bnds"), "m", kw)
        if bad:
            fails.append(("bounds " + label, bad))
    n += 1
    bad = modfun.examine("bounds", [A(["x"], [1, 3, 7], "m")], bounds([1, 3, 7], 1, 1), ("x", "bnds"), "m")
    if bad:
        fails.append(("bounds as it is", bad))
    return n, fails


def holes(shape, some):
    """nothing missing, every single value missing, and every pair of the values some"""
    cells = list(numpy.ndindex(*shape))
    yield ()
    for c in cells:
        yield (c,)
    for pair in combinations(cells[:some], 2):
        yield pair


def job_means(item):
    lens, rank, depth = item
    fails, n = [], 0
    modfun.load("commonfunctions")
    for length in lens:
        tail = (1, 2) if rank == 3 else (2, 1, 2)
        dims = ("time", "lat", "lon") if rank == 3 else ("time", "lev", "lat", "lon")
        x = numbers((length,) + tail)
        lots = 26 if rank == 3 and length in (24, 36) else 3
        for gone in holes(x.shape, lots if depth else min(lots, 14)):
            if len(gone) == 1 and not depth and gone[0][0] % 5 and length != 24:
                continue
            y = x.copy()
            for g in gone:
                y[g] = nan
            for raw in (1e36, 3.0, 1e20) if len(gone) < 2 else (3.0,):
                a = A(dims, y, "K", raw=raw)
                n += 2
                bad = modfun.examine("oclim", [a], oclim(y), dims, "K")
                if bad:
                    fails.append(("oclim length %d missing %r below %g" % (length, gone, raw), bad))
                bad = modfun.examine("monthtoyear_noleap", [a], monthtoyear(y), dims, "K")
                if bad:
                    fails.append(("monthtoyear_noleap length %d missing %r below %g" % (length, gone, raw), bad))
                if rank == 3 and length <= 13:
                    n += 1
                    bad = modfun.examine("burntFraction", [a], burnt(y), dims, "K")
                    if bad:
                        fails.append(("burntFraction length %d missing %r below %g" % (length, gone, raw), bad))
    return n, fails


def job_times(depth):
    fails, n = [], 0
    modfun.load("commonfunctions")

    def run(label, *args, **kw):
        nonlocal n
        n += 1
        bad = modfun.examine(*args, calendar="noleap", **kw)
        if bad:
            fails.append((label, bad))

    for years in (1, 2, 3, 4):
        for unit_ in (SINCE, "days since 1850-01-01"):
            for shift in (0., 365., 3650.):
                end, bnd = months(12 * years)
                end, bnd = end + shift, bnd + shift
                tb, t = A(["time", "d"], bnd, unit_, calendar="noleap"), A(["time"], end, unit_, calendar="noleap")
                run("oclim_time %d years" % years, "oclim_time", [tb], bnd[:12].mean(axis=1), ("time",), unit_)
                yb = numpy.array([[bnd[12 * y, 0], bnd[12 * y + 11, 1]] for y in range(years)]) - 365
                run("monthtoyear_noleap_time %d years" % years, "monthtoyear_noleap_time", [tb], yb.mean(axis=1), ("time",), unit_)
                cb = numpy.stack([bnd[:12, 0], bnd[-12:, 1]], axis=1)
                for kw in ({}, {"bdim": "nbnd"}, {"bdim": "d2"}):
                    b = kw.get("bdim", "bnds")
                    run("oclim_timebnds %d years %r" % (years, kw), "oclim_timebnds", [t], cb, ("time", b), unit_, kw=kw)
                    run("monthtoyear_noleap_timebnds %d years %r" % (years, kw), "monthtoyear_noleap_timebnds", [tb], yb, ("time", b), unit_, kw=kw)
                for first in (0, 1):
                    ends = 365. * numpy.arange(1 - first, years + 1) + shift * (not first)
                    if len(ends) == 1 and ends[0] == 0:
                        continue
                    ty = A(["time"], ends, unit_, calendar="noleap")
                    run("yeartomonth_time %r" % (ends,), "yeartomonth_time", [ty], yeartomonth_time(ends), ("time",), unit_)
    for lens in product((11, 12, 23), repeat=2):
        n += 1
        end, bnd = months(sum(lens))
        yb = numpy.array([[bnd[12 * y, 0], bnd[12 * y + 11, 1]] for y in range(sum(lens) // 12)]) - 365
        bad = modfun.examine("monthtoyear_noleap_timebnds", [A(["time", "d"], bnd, SINCE, calendar="noleap")], yb, ("time", "bnds"), SINCE, {}, calendar="noleap")
        if bad:
            fails.append(("monthtoyear_noleap_timebnds of %d months" % sum(lens), bad))
    # yearly data as months
    lat, lon, lev = A(["lat"], [-1., 1.]), A(["lon"], [0., 90., 180.]), A(["lev"], [1., 2.])
    for years, first, rank in product((1, 2, 3), (0, 1), (3, 4)):
        t = 365. * numpy.arange(1 - first, years + 1)
        if rank == 3:
            x, dims, key, more = numbers((len(t), 2, 3)), ("time", "lat", "lon"), "yeartomonth_data", [lat, lon]
        else:
            x, dims, key, more = numbers((len(t), 2, 2, 3)), ("time", "lev", "lat", "lon"), "yeartomonth_data3D", [lat, lon, lev]
        for gone in holes(x.shape, 12):
            y = x.copy()
            for g in gone:
                y[g] = nan
            for raw in (1e36, 4.0):
                n += 1
                bad = modfun.examine(key, [A(dims, y, "kg", raw=raw), A(["time"], t, SINCE)] + more, yeartomonth(y, t), dims, "kg")
                if bad:
                    fails.append(("%s times %r missing %r below %g" % (key, t, gone, raw), bad))
    for length in range(1, 38):
        x = numbers((length, 1, 2), length)
        n += 1
        bad = modfun.examine("burntFraction", [A(("time", "lat", "lon"), x, "1")], burnt(x), ("time", "lat", "lon"), "1")
        if bad:
            fails.append(("burntFraction of %d months" % length, bad))
    # ages of air: every start month, up to two years
    for start, length in product(range(12), (3, 13, 25) if depth else (3, 14)):
        date = []
        for m in range(start + 1, start + 1 + length):
            date.append(((1 + m // 12) * 100 + m % 12 + 1) * 100 + 1)
        base = 10. + numpy.cumsum(numpy.abs(numbers((length,))) / 100)
        for late in (0., .3, 2., 1000.):
            c = numpy.stack([numpy.stack([base - late * (k + 2 * j) for j in range(2)], axis=1) for k in range(3)], axis=1)
            args = [A(["time", "lev", "lat"], c, "1"), A(["time"], date, "1", "i4"), A(["time"], numpy.arange(length), SINCE), A(["lat"], [0., 1.]), A(["lev"], [1., 2., 3.])]
            n += 1
            bad = modfun.examine("ageofair", args, ageofair(c, date), ("time", "lev", "lat"), "yr", rtol=1e-8)
            if bad:
                fails.append(("ageofair from month %d, %d months, late %g" % (start + 1, length, late), bad))
    return n, fails


# -- whole conversions ----------------------------------------------------------------------------------------------
def inputs(raw, dtype):
    years, (nlev, nlat, nlon) = 2, (2, 3, 2)
    n = 12 * years
    end, bnd = months(n)
    d3, d4 = numbers((n, nlat, nlon)), numbers((n, nlev, nlat, nlon), 1)
    d3[5, 1, 0] = d3[17, 1, 0] = d3[7, 0, 1] = d4[3, 1, 2, 1] = nan
    c = numpy.cumsum(numpy.abs(numbers((n, nlev, nlat), 5)) + 200, axis=0)
    sizes = {"time": n, "lev": nlev, "lat": nlat, "lon": nlon, "nb": 2, "ilev": nlev + 1, "year": 3}
    y3 = numbers((3, nlat, nlon), 3)
    y3[1, 2, 1] = nan
    ins = {"time": A(["time"], end, SINCE, calendar="noleap"), "tb": A(["time", "nb"], bnd, SINCE, calendar="noleap"), "lat": A(["lat"], [-60., 10., 40.], "degrees_north"), "lon": A(["lon"], [10., 50.], "degrees_east"),
           "lev": A(["lev"], [100., 300.], "hPa"), "ilev": A(["ilev"], [90., 160., 500.], "hPa"), "D3": A(["time", "lat", "lon"], d3, "K", dtype, raw), "D4": A(["time", "lev", "lat", "lon"], d4, "K", dtype, raw),
           "Z": A(["time", "lev", "lat"], c, "1"), "date": A(["time"], [((1 + m // 12) * 100 + m % 12 + 1) * 100 + 1 for m in range(1, n + 1)], "1", "i4")}
    return ins, sizes, (d3, d4, c, end, bnd)


def conversions(raw, dtype):
    ins, sizes, (d3, d4, c, end, bnd) = inputs(raw, dtype)
    T3, T4 = ["time", "lat", "lon"], ["time", "lev", "lat", "lon"]
    yb = numpy.array([[bnd[12 * y, 0], bnd[12 * y + 11, 1]] for y in range(2)]) - 365
    cb = numpy.stack([bnd[:12, 0], bnd[-12:, 1]], axis=1)
    lat, lev = ins["lat"].v, ins["lev"].v
    for text, dims, units, want in [
            ("oclim(D3)", T3, "K", oclim(d3)), ("oclim(2 * D3)", T3, "K", 2 * oclim(d3)), ("3 * oclim(D4)", T4, "K", 3 * oclim(d4)), ("monthtoyear_noleap(D3)", T3, "K", monthtoyear(d3)),
            ("monthtoyear_noleap(2 * D4)", T4, "K", 2 * monthtoyear(d4)), ("oclim_time(tb)", ["time"], SINCE, bnd[:12].mean(axis=1)), ("monthtoyear_noleap_time(tb)", ["time"], SINCE, yb.mean(axis=1)),
            ("oclim_timebnds(time, bdim='nb')", ["time", "nb"], SINCE, cb), ("monthtoyear_noleap_timebnds(tb, bdim='nb')", ["time", "nb"], SINCE, yb), ("burntFraction(D3)", T3, "K", burnt(d3)),
            ("burntFraction(2 * D3)", T3, "K", 2 * burnt(d3)), ("ageofair(Z, date, time, lat, lev)", ["time", "lev", "lat"], "yr", ageofair(c, ins["date"].v.astype(int))),
            ("yeartomonth_data(D3, time, lat, lon)", T3, "K", yeartomonth(d3, end)), ("yeartomonth_data(2 * D3, time, lat, lon)", T3, "K", 2 * yeartomonth(d3, end)),
            ("yeartomonth_data3D(D4, time, lat, lon, lev)", T4, "K", yeartomonth(d4, end)), ("yeartomonth_time(time)", ["time"], SINCE, yeartomonth_time(end)),
            ("bounds(lat, bdim='nb')", ["lat", "nb"], "degrees_north", bounds(lat, 1, 1)), ("bounds(lat, bdim='nb', endpoints=0)", ["lat", "nb"], "degrees_north", bounds(lat, 1, 0)),
            ("bounds(time, bdim='nb', location=2)", ["time", "nb"], SINCE, bounds(end, 2, 1)), ("bounds(time, bdim='nb')", ["time", "nb"], SINCE, bounds(end, 1, 1)),
            ("bounds(lev * 0.5, bdim='nb', idata=ilev * 0.5)", ["lev", "nb"], "hPa", bounds(lev / 2, 1, 1, ins["ilev"].v / 2)), ("bounds(ilev, bdim='nb', idata=lev)", ["ilev", "nb"], "hPa", bounds(ins["ilev"].v, 1, 1, lev))]:
        yield text, dims, units, want, ins, sizes


def job_flow(item):
    d, which, depth = item
    import os
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    modfun.load("commonfunctions")
    fails, n = [], 0
    dtype, raw = which
    for text, dims, units, want, ins, sizes in conversions(raw, dtype):
        cal = "noleap" if units == SINCE else None
        for dim in [None] + [x for x in dims if x != "nb" or text.startswith("bounds")]:
            for size in [0] if dim is None else [1, 2, 5, 12] if dim == "time" else range(1, sizes[dim]):
                n += 1
                got = modfun.convert(d, ins, sizes, text, dims, units, calendar=cal, chunks={dim: size} if dim else None, fill=1e20)
                label = "%s of %s, missing as %g%s" % (text, dtype, raw, ", %s in chunks of %d" % (dim, size) if dim else "")
                if isinstance(got, str):
                    # what needs a whole dimension may refuse to have it cut
                    if dim is None or "sum-like" not in got or text.startswith("bounds") or dim in ("lat", "lon") and "age" not in text or dim == "lev" and "age" not in text:
                        fails.append((label, got))
                    continue
                bad = modfun.differ(got, want, 1e-6 if dtype == "f4" else 1e-9)
                if bad:
                    fails.append((label, bad))
    return n, fails


def dispatch(w):
    return {"bounds": job_bounds, "means": job_means, "times": job_times, "flow": job_flow}[w[0]](w[1])


def explore(chk):
    d = chk.scratch()
    t = chk.thorough
    work = [("flow", (d, w, t)) for w in (("f8", 1e36), ("f4", 1e36), ("f8", -999.0), ("f4", 1e20))]
    work += [("means", ([n], r, t)) for n in (12, 13, 23, 24, 25, 36, 48) for r in (3, 4)]
    work += [("bounds", t), ("times", t)]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %s" % w[0], res, {})
            continue
        n, fails = res
        chk.bulk(n, n, [{"part": w[0], "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
