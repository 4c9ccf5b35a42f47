"""C34: what is computed of an ocean uses exactly the cells above the sea floor."""
import os
from itertools import combinations, product

import numpy
from numpy import nan

from mc import modfun, par
from mc.modfun import A

PID = "C34"
LEVEL = "exploration"
RULE = ("POP_bottom_layer, POP_bottom_layer_multadd, POP_layer_sum_mult, POP_surf_mean, POP_3D_mean, diff_axis1_ind0bczero_4d, rsdoabsorb and sftof on oceans of up to four columns and three levels: every sea "
        "floor (every number of wet levels of every column) x one or two times x values below the floor missing (over three raw values) or present x types, against a model written cell by "
        "cell, with units, dimensions and probe; every field missing inside the ocean where it may be; whole conversions of each with every sea floor of two columns, whole and in chunks of every "
        "dimension; non-trivial = some column is wet")

BIG = 9.96921e36


def numbers(shape, k=0):
    n = int(numpy.prod(shape))
    return (numpy.array([(-1.0 if i % 3 == 1 else 1.0) * (((i * 7919 + k * 104729 + 31) % 997) / 8.0 + 1) for i in range(n)])).reshape(shape)


def cells(kmt, x):
    """indices of the wet cells of (time, level, row, column)"""
    for t, k, j, i in numpy.ndindex(*x.shape):
        if k < kmt[j, i]:
            yield t, k, j, i


def bottom(kmt, x):
    out = numpy.full((x.shape[0],) + x.shape[2:], nan)
    for t, k, j, i in cells(kmt, x):
        if k == kmt[j, i] - 1:
            out[t, j, i] = x[t, k, j, i]
    return out


def bottom_sum(kmt, dz, x):
    out = numpy.zeros(x.shape[0])
    for t, k, j, i in cells(kmt, x):
        if k == kmt[j, i] - 1 and not numpy.isnan(x[t, k, j, i]):
            out[t] += dz[k] * x[t, k, j, i]
    return out


def column_sum(kmt, dz, x):
    out = numpy.full((x.shape[0],) + x.shape[2:], nan)
    for t, k, j, i in cells(kmt, x):
        out[t, j, i] = (0 if k == 0 else out[t, j, i]) + dz[k] * x[t, k, j, i]
    return out


def surface_mean(kmt, area, x):
    wet = [(j, i) for j, i in numpy.ndindex(*kmt.shape) if kmt[j, i] > 0]
    return numpy.array([sum(area[c] * x[(t,) + c] for c in wet) / sum(area[c] for c in wet) for t in range(x.shape[0])])


def volume_mean(kmt, dz, area, x):
    out, vol = numpy.zeros(x.shape[0]), numpy.zeros(x.shape[0])
    for t, k, j, i in cells(kmt, x):
        out[t] += dz[k] * area[j, i] * x[t, k, j, i]
        vol[t] += dz[k] * area[j, i]
    return out / vol


def difference(kmt, x):
    out = numpy.full(x.shape, nan)
    for t, k, j, i in cells(kmt, x):
        out[t, k, j, i] = x[t, k, j, i] - (x[t, k - 1, j, i] if k else 0)
    return out


def absorbed(kmt, x):
    out = numpy.full(x.shape, nan)
    for t, k, j, i in cells(kmt, x):
        out[t, k, j, i] = x[t, k, j, i] - (x[t, k + 1, j, i] if k < min(kmt[j, i], x.shape[1]) - 1 else 0)
    return out


T3, T4 = ("time", "nlat", "nlon"), ("time", "z_t", "nlat", "nlon")


def ocean(kmt, nt, nz, below):
    """values of three and of four dimensions, missing below the sea floor or not"""
    x = numbers((nt, nz) + kmt.shape)
    s = numbers((nt,) + kmt.shape, 1)
    if below:
        for j, i in numpy.ndindex(*kmt.shape):
            x[:, kmt[j, i]:, j, i] = nan
            if kmt[j, i] == 0:
                s[:, j, i] = nan
    return s, x, numpy.abs(numbers((nz,), 2)), numpy.abs(numbers(kmt.shape, 3))


def calls(kmt, nt, nz, below, raw):
    """(function, arguments, result, dimensions, units)"""
    s, x, dz, area = ocean(kmt, nt, nz, below)
    K, X, S, D, R = A(T4[2:], kmt, "1", "i4"), A(T4, x, "K", raw=raw), A(T3, s, "K", raw=raw), A(["z_t"], dz, "m"), A(T4[2:], area, "m2")
    Z = A(["z_w"], numbers((nz,), 4), "m")
    yield "POP_bottom_layer", [K, X], bottom(kmt, x), T3, "K"
    yield "POP_bottom_layer_multadd", [K, D, X], bottom_sum(kmt, dz, x), ("time",), "K m"
    yield "POP_layer_sum_mult", [K, D, X], column_sum(kmt, dz, x), T3, "K m"
    yield "diff_axis1_ind0bczero_4d", [K, Z, X], difference(kmt, x), ("time", "z_w") + T4[2:], "K"
    yield "rsdoabsorb", [K, Z, X], absorbed(kmt, x), ("time", "z_w") + T4[2:], "K"
    yield "sftof", [K], (kmt > 0) * 1.0, T4[2:], "1"
    if (kmt > 0).any():
        yield "POP_surf_mean", [K, R, S], surface_mean(kmt, area, s), ("time",), "K"
        yield "POP_3D_mean", [K, D, R, X], volume_mean(kmt, dz, area, x), ("time",), "K"


def floors(nz, shape):
    n = shape[0] * shape[1]
    for k in product(range(nz + 1), repeat=n):
        yield numpy.array(k).reshape(shape)


def job_direct(item):
    nz, shape, nt, depth = item
    modfun.load("commonfunctions")
    fails, n = [], 0
    for kmt in floors(nz, shape):
        for below, raw in ((False, BIG), (True, BIG), (True, 2.0), (True, 1e20)):
            for key, args, want, dims, units in calls(kmt, nt, nz, below, raw):
                n += 1
                bad = modfun.examine(key, args, want, dims, units)
                if bad:
                    fails.append(("%s floor %r of %d levels, %d times, %s" % (key, kmt.tolist(), nz, nt, "missing below as %g" % raw if below else "values below"), bad))
    return n, fails


def job_holes(item):
    """values missing in the water itself, where that is defined"""
    nz, shape, depth = item
    modfun.load("commonfunctions")
    fails, n = [], 0
    for kmt in floors(nz, shape):
        x = numbers((2, nz) + shape)
        wet = list(cells(kmt, x))
        for gone in [(c,) for c in wet] + list(combinations(wet, 2)):
            for raw in (BIG, 3.0):
                y = x.copy()
                for g in gone:
                    y[g] = nan
                K, X, D = A(T4[2:], kmt, "1", "i4"), A(T4, y, "K", raw=raw), A(["z_t"], numpy.abs(numbers((nz,), 2)), "m")
                for key, args, want, dims in (("POP_bottom_layer", [K, X], bottom(kmt, y), T3), ("POP_bottom_layer_multadd", [K, D, X], bottom_sum(kmt, D.v, y), ("time",))):
                    n += 1
                    bad = modfun.examine(key, args, want, dims)
                    if bad:
                        fails.append(("%s floor %r missing %r below %g" % (key, kmt.tolist(), gone, raw), bad))
    return n, fails


def job_wrong(_):
    modfun.load("commonfunctions")
    fails, n = [], 0
    K, D, R = A(T4[2:], numpy.ones((2, 2)), "1", "i4"), A(["z_t"], [1., 2.], "m"), A(T4[2:], numpy.ones((2, 2)), "m2")
    S, X = A(T3, numpy.ones((2, 2, 2)), "K"), A(T4, numpy.ones((2, 2, 2, 2)), "K")
    for key, args in (("POP_surf_mean", [K, R, X]), ("POP_3D_mean", [K, D, R, S]), ("diff_axis1_ind0bczero_4d", [K, D, S]), ("rsdoabsorb", [K, D, S]), ("POP_surf_mean", [K, R, 3]), ("POP_3D_mean", [K, D, R, 3]),
                      ("rsdoabsorb", [K, D, 2.5]), ("diff_axis1_ind0bczero_4d", [K, D, "x"])):
        n += 1
        bad = modfun.examine(key, args, None, ())
        if bad:
            fails.append(("%s of %d dimensions" % (key, len(args[-1].dims) if isinstance(args[-1], A) else 0), bad))
    return n, fails


def job_flow(item):
    d, dtype, raw, part, depth = item
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    modfun.load("commonfunctions")
    fails, n = [], 0
    nz, shape, nt = 2, (1, 2), 3
    for f, kmt in enumerate(floors(nz, shape)):
        if f % 3 != part:
            continue
        s, x, dz, area = ocean(kmt, nt, nz, True)
        ins = {"time": A(["time"], [1., 2., 3.], "days since 0001-01-01"), "KMT": A(T4[2:], kmt, "1", "i4"), "X": A(T4, x, "K", dtype, raw), "S": A(T3, s, "K", dtype, raw), "dz": A(["z_t"], dz, "m"),
               "area": A(T4[2:], area, "m2"), "z_w": A(["z_w"], [1., 2.], "m")}
        sizes = {"time": nt, "z_t": nz, "z_w": nz, "nlat": shape[0], "nlon": shape[1]}
        W4 = ("time", "z_w") + T4[2:]
        cases = [("POP_bottom_layer(KMT, X)", T3, "K", bottom(kmt, x)), ("POP_bottom_layer(KMT, 2 * X)", T3, "K", 2 * bottom(kmt, x)), ("POP_bottom_layer_multadd(KMT, dz, 2 * X)", ("time",), "K m", 2 * bottom_sum(kmt, dz, x)),
                 ("POP_layer_sum_mult(KMT, dz, X)", T3, "K m", column_sum(kmt, dz, x)), ("diff_axis1_ind0bczero_4d(KMT, z_w, X)", W4, "K", difference(kmt, x)), ("rsdoabsorb(KMT, z_w, X)", W4, "K", absorbed(kmt, x)),
                 ("3 * sftof(KMT)", T4[2:], "1", 3.0 * (kmt > 0)), ("sftof(KMT)", T4[2:], "%", 100.0 * (kmt > 0))]
        if (kmt > 0).any():
            cases += [("POP_surf_mean(KMT, area, S)", ("time",), "K", surface_mean(kmt, area, s)), ("POP_3D_mean(KMT, dz, area, X)", ("time",), "K", volume_mean(kmt, dz, area, x)),
                      ("POP_3D_mean(KMT, dz, area, X) * POP_surf_mean(KMT, area, S)", ("time",), "K2", volume_mean(kmt, dz, area, x) * surface_mean(kmt, area, s))]
        for text, dims, units, want in cases:
            local = set(T4[2:]) if "bottom_layer(" in text or "POP_layer" in text or "diff" in text or "rsdo" in text or "sftof" in text else set()
            for dim in [None] + list(dims):
                for size in [0] if dim is None else range(1, max(sizes[dim], 2)):
                    n += 1
                    got = modfun.convert(d, ins, sizes, text, dims, units, chunks={dim: size} if dim else None, fill=1e20)
                    label = "%s of floor %r, %s, missing as %g%s" % (text, kmt.tolist(), dtype, raw, ", %s in chunks of %d" % (dim, size) if dim else "")
                    if isinstance(got, str):
                        if dim is None or "sum-like" not in got or dim == "time" or dim in local:
                            fails.append((label, got))
                        continue
                    bad = modfun.differ(got, want, 1e-6 if dtype == "f4" else 1e-9)
                    if bad:
                        fails.append((label, bad))
    return n, fails


def dispatch(w):
    return {"direct": job_direct, "holes": job_holes, "wrong": job_wrong, "flow": job_flow}[w[0]](w[1])


def explore(chk):
    d, t = chk.scratch(), chk.thorough
    work = [("direct", (nz, s, nt, t)) for nz, s, nt in ((3, (2, 2), 1), (2, (2, 2), 2), (3, (1, 3), 2), (3, (3, 1), 2), (2, (1, 1), 1), (1, (2, 2), 2), (4, (1, 2), 2), (5, (2, 1), 1))]
    work += [("direct", (4, (2, 2), 2, t)), ("direct", (3, (2, 3), 2, t))] if t else []
    work += [("holes", (2, (1, 2), t)), ("holes", (3, (1, 1), t)), ("holes", (2, (2, 1), t)), ("wrong", 0)]
    work += [("flow", (d, dtype, raw, part, t)) for dtype, raw in (("f8", BIG), ("f4", 1e36), ("f8", -1e4)) for part in range(3)]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %s" % w[0], res, {})
            continue
        n, fails = res
        chk.bulk(n, n, [{"part": w[0], "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
