"""C39: quantities of hybrid levels (density, aerosol mixing ratio, lightning emissions) cell by cell."""
import math
import os
from itertools import product

import numpy
from numpy import nan

from mc import modfun, par
from mc.modfun import A

PID = "C39"
LEVEL = "exploration"
RULE = ("rho, pm25 and emilnox of every shape of up to two times, three levels, three latitudes and three longitudes x the surface pressure in Pa or hPa x every field missing at every point (over three raw "
        "values) x types, against the formulas written cell by cell, with dimensions, probe and arguments left as they are; whole conversions in every order of dimensions, whole and in chunks of every dimension; "
        "non-trivial = every case")
T3, T4 = ("time", "lat", "lon"), ("time", "lev", "lat", "lon")


def numbers(shape, k=0):
    n = int(numpy.prod(shape))
    return (numpy.array([((i * 7919 + k * 104729 + 31) % 997) / 8.0 + 1 for i in range(n)])).reshape(shape)


def fields(nt, nk, nj, ni, way=1):
    """way: -1 with latitudes from north to south and longitudes from east to west"""
    f = {}
    f["P0"] = numpy.array(1e5)
    f["PS"] = 1e5 - 40 * numbers((nt, nj, ni), 1)
    f["T"] = 200 + numbers((nt, nk, nj, ni), 2)
    f["L"] = numbers((nt, nk, nj, ni), 3)
    f["hyam"], f["hybm"] = numbers((nk,), 4) / 200.0, numpy.linspace(0.2, 0.9, nk)
    # the interfaces are listed from the other side than the levels
    f["hyai"], f["hybi"] = numpy.linspace(0.4, 0.02, nk + 1), numpy.linspace(0.6, 0.01, nk + 1) ** 2
    f["lat"], f["lon"] = numpy.linspace(-60.0, 45.0, nj)[::way], (numpy.arange(ni) * 30.0 + 10)[::way]
    f["time"] = numpy.arange(nt) * 30.0 + 15
    return f


def pressure(f, t, k, j, i):
    return f["hyam"][k] * float(f["P0"]) + f["hybm"][k] * f["PS"][t, j, i]


def rho(f, c):
    return pressure(f, *c) / (287.04 * f["T"][c])


def pm25(f, c):
    return f["L"][c] * 287.0 * f["T"][c] / pressure(f, *c)


def emilnox(f, c):
    t, k, j, i = c
    a, b = f["hyai"][::-1], f["hybi"][::-1]
    thick = (a[k] - a[k + 1]) * float(f["P0"]) + (b[k] - b[k + 1]) * f["PS"][t, j, i]
    width = math.radians(f["lon"][1] - f["lon"][0]) * 6.37e6 * math.cos(math.radians(f["lat"][j]))
    height = math.radians(f["lat"][1] - f["lat"][0]) * 6.37e6
    return f["L"][c] * 1e6 / 6.022e23 * thick / 9.81 / rho(f, c) * abs(width * height)


FUNCS = {"rho": (rho, ("P0", "PS", "hyam", "hybm", "T"), None), "pm25": (pm25, ("P0", "PS", "hyam", "hybm", "T", "L"), None),
         "emilnox": (emilnox, ("P0", "PS", "hyai", "hybi", "hyam", "hybm", "T", "L", "lon", "lat", "time"), "mol s-1")}
DIMS = {"P0": (), "PS": T3, "T": T4, "L": T4, "hyam": ("lev",), "hybm": ("lev",), "hyai": ("ilev",), "hybi": ("ilev",), "lat": ("lat",), "lon": ("lon",), "time": ("time",)}
UNITS = {"P0": "Pa", "PS": "Pa", "T": "K", "lat": "degrees_north", "lon": "degrees_east", "time": "days since 0001-01-01"}


def arg(f, name, hecto=False, dtype="f8", raw=1e36):
    v = f[name]
    if name == "PS" and hecto:
        return A(DIMS[name], v / 100.0, "hPa", dtype, raw)
    return A(DIMS[name], v, UNITS.get(name, "1"), dtype if name in ("PS", "T", "L") else "f8", raw)


def want(key, f):
    out = numpy.full(f["T"].shape, nan)
    for c in numpy.ndindex(*out.shape):
        out[c] = FUNCS[key][0](f, c)
    return out


def judge(key, f, **kw):
    from mc import e2e
    func, names, unit = FUNCS[key]
    args = [arg(f, x, **kw) for x in names]
    with e2e.quiet(), numpy.errstate(all="ignore"):
        try:
            node = modfun.call(key, *args)
            got, info = node[{}], node[None]
        except Exception as err:
            return "refused: %r" % err
    if sorted(got.dimensions) != sorted(T4) or sorted(info.dimensions) != sorted(T4):
        return "dimensions %r, in the probe %r" % (got.dimensions, info.dimensions)
    got = got.transpose(*T4)
    bad = modfun.differ(modfun.values(got), want(key, f), 1e-6 if kw.get("dtype") == "f4" else 1e-9)
    if bad:
        return bad
    if got.units != info.units or unit and got.units != modfun.unit(unit):
        return "units %r, in the probe %r" % (got.units, info.units)
    return None


def job_direct(item):
    nt, nk, nj, ni = item
    modfun.load("commonfunctions")
    fails, n = [], 0
    for key in FUNCS:
        if key == "emilnox" and (nj < 2 or ni < 2):
            continue
        f = fields(nt, nk, nj, ni, -1 if (nt + nk) % 2 else 1)
        for hecto, dtype in ((False, "f8"), (False, "f4")) + (((True, "f8"),) if key != "emilnox" else ()):
            n += 1
            bad = judge(key, f, hecto=hecto, dtype=dtype)
            if bad:
                fails.append(("%s of %r%s, %s" % (key, item, " in hPa" if hecto else "", dtype), bad))
        for x in ("PS", "T", "L"):
            if x not in FUNCS[key][1]:
                continue
            for c in numpy.ndindex(*f[x].shape):
                for raw in (1e36, -999.0, 7.0):
                    g = dict(f)
                    g[x] = f[x].copy()
                    g[x][c] = nan
                    n += 1
                    bad = judge(key, g, raw=raw)
                    if bad:
                        fails.append(("%s of %r, %s missing at %r as %g" % (key, item, x, c, raw), bad))
    return n, fails


def job_flow(item):
    d, key, hole, dtype, depth = item
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    modfun.load("commonfunctions")
    fails, n = [], 0
    nt, nk, nj, ni = 3, 3, 2, 3
    f = fields(nt, nk, nj, ni)
    if dtype == "f4":
        for x in ("PS", "T", "L"):
            f[x] = f[x].astype("f4").astype("f8")
    if hole:
        f["T"][1, 1, 1, 0] = nan
        f["PS"][2, 0, 1] = nan
    sizes = {"time": nt, "lev": nk, "ilev": nk + 1, "lat": nj, "lon": ni}
    ins = dict((x, arg(f, x, dtype=dtype)) for x in DIMS)
    ins["lev"] = A(["lev"], numpy.arange(nk) + 1.0)
    coords = {"time": ("time", "days since 0001-01-01", None), "lev": ("lev", "1", None), "lat": ("lat", "degrees_north", None), "lon": ("lon", "degrees_east", None)}
    base = want(key, f)
    call = "%s(%s)" % (key, ", ".join(FUNCS[key][1]))
    for text, factor in ((call, 1), ("3 * " + call, 3)):
        for order in (T4, T4[::-1], ("lev", "lon", "time", "lat")):
            for chunk in [{}] + [{x: s} for x in order for s in range(1, sizes[x])]:
                n += 1
                got = modfun.convert(d, ins, sizes, text, order, FUNCS[key][2], coords, chunks=chunk, fill=1e20)
                label = "%s by %r, %s%s%s" % (text, order, dtype, ", with holes" if hole else "", ", in chunks %r" % chunk if chunk else "")
                if isinstance(got, str):
                    if "sum-like" not in got or key != "emilnox" or set(chunk) <= {"time"}:
                        fails.append((label, got))
                    continue
                bad = modfun.differ(got, factor * numpy.transpose(base, [T4.index(x) for x in order]), 1e-9)
                if bad:
                    fails.append((label, bad))
    return n, fails


def dispatch(w):
    return {"direct": job_direct, "flow": job_flow}[w[0]](w[1])


def explore(chk):
    d, t = chk.scratch(), chk.thorough
    work = [("flow", (d, key, hole, dtype, t)) for key in FUNCS for hole in (0, 1) for dtype in ("f8", "f4")]
    work += [("direct", s) for s in product((1, 2), (1, 2, 3), (1, 2, 3), (1, 2, 3) if not t else (1, 2, 3, 4))]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %s" % w[0], res, {})
            continue
        n, fails = res
        chk.bulk(n, n, [{"part": w[0], "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
