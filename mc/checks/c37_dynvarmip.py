"""C37: the transformed Eulerian mean diagnostics and the numerical calculus below them."""
import math
import os
from itertools import combinations, product

import numpy
from numpy import nan

from mc import modfun, par
from mc.modfun import A

PID = "C37"
LEVEL = "exploration"
RULE = ("deriv, spl_init, spl_interp and int_tabulated on every increasing and decreasing grid of up to six of seven abscissae x every unit vector and every vector of small integers, along every axis of arrays "
        "of up to three dimensions, against Lagrange polynomials, natural splines and Boole's rule; the eight DynVarMIP functions on every grid of three to five levels and three or four latitudes, every argument "
        "changed at every point, made missing at every point, potential temperatures without slope, with further dimensions, against the equations written point by point, with units, direction and "
        "dimensions; whole conversions, whole and in chunks; non-trivial = every case")

P0, RADIUS, OMEGA, HEIGHT, GRAVITY = 101325.0, 6.37123e6, 7.29212e-5, 7000.0, 9.80665
ABSCISSAE = (0.0, 1.0, 2.0, 4.0, 7.0, 11.0, 12.0)


# ---- numerical calculus ----

def slope(x, y, k):
    """derivative, at x[k], of the parabola through three neighbouring points"""
    s = min(max(k - 1, 0), len(x) - 3)
    total = 0.0
    for i in range(s, s + 3):
        j, m = [q for q in range(s, s + 3) if q != i]
        total = total + y[i] * ((x[k] - x[j]) + (x[k] - x[m])) / ((x[i] - x[j]) * (x[i] - x[m]))
    return total


def curvature(x, y):
    """second derivatives, at the points, of the natural spline"""
    n = len(x)
    m, r = numpy.eye(n), numpy.zeros(n)
    for i in range(1, n - 1):
        h0, h1 = x[i] - x[i - 1], x[i + 1] - x[i]
        m[i, i - 1], m[i, i], m[i, i + 1] = h0 / 6.0, (h0 + h1) / 3.0, h1 / 6.0
        r[i] = (y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0
    return numpy.linalg.solve(m, r)


def spline(x, y, c, p):
    """value at p of the spline of given second derivatives; the end pieces go on outside"""
    up = x[-1] > x[0]
    k = 0
    while k < len(x) - 2 and (p >= x[k + 1] if up else p < x[k + 1]):
        k += 1
    h = x[k + 1] - x[k]
    s = p - x[k]
    return y[k] + s * ((y[k + 1] - y[k]) / h - h * (2 * c[k] + c[k + 1]) / 6.0) + s * s * c[k] / 2.0 + s ** 3 * (c[k + 1] - c[k]) / (6.0 * h)


def integral(x, y):
    """Boole's rule on the spline"""
    if numpy.isnan(y).any():
        return nan
    n = -(-(len(x) - 1) // 4) * 4
    c = curvature(x, y)
    lo, hi = min(x), max(x)
    h = (hi - lo) / n
    w = {0: 14.0, 1: 32.0, 2: 12.0, 3: 32.0}
    return sum((7.0 if i in (0, n) else w[i % 4]) * spline(x, y, c, lo + i * h) for i in range(n + 1)) * 2.0 * h / 45.0


def grids(values, sizes, both=True):
    for n in sizes:
        for x in combinations(values, n):
            yield numpy.array(x)
            if both:
                yield numpy.array(x[::-1])


def job_calculus(item):
    n, depth = item
    idl, = modfun.load("idl")
    fails, cases = [], 0

    def compare(label, got, want):
        if got is None:
            return
        got, want = numpy.asarray(got, dtype="f8"), numpy.asarray(want, dtype="f8")
        # numbers of order one
        close = numpy.abs(got - want) <= 1e-9 if got.shape == want.shape else None
        if close is None or not close.all():
            fails.append((label, "%r instead of %r" % (got.tolist(), want.tolist())))

    def attempt(label, f, *args, **kw):
        before = [numpy.array(a) for a in args]
        try:
            with numpy.errstate(all="ignore"):
                got = f(*args, **kw)
            if any(numpy.asarray(a).tolist() != b.tolist() for a, b in zip(args, before)):
                fails.append((label, "arguments altered"))
            return got
        except Exception as err:
            fails.append((label, "refused: %r" % err))
            return None

    for x in grids(ABSCISSAE, [n]):
        vectors = [tuple(float(i == k) for i in range(n)) for k in range(n)] + [(1.0,) * n, tuple(x), tuple(x ** 2), tuple(x ** 3)]
        if n <= 4 or depth:
            vectors += list(product((-1.0, 0.0, 2.0), repeat=n))
        ys = numpy.array(vectors)
        points = numpy.concatenate([x, (x[1:] + x[:-1]) / 2.0, [min(x) - 1.0, max(x) + 0.5]])
        # along the only axis, and all vectors at once along every axis
        curv = numpy.array([curvature(x, y) for y in ys])
        if n >= 3:
            want = numpy.array([[slope(x, y, k) for k in range(n)] for y in ys])
            for q in (range(len(ys)) if len(ys) < 100 else range(0, len(ys), 3)):
                cases += 1
                compare("deriv of %r on %r" % (ys[q].tolist(), x.tolist()), attempt("deriv", idl.deriv, x, ys[q]), want[q])
            compare("deriv along the first axis, %r" % x.tolist(), attempt("deriv", idl.deriv, x, ys.T), want.T)
            compare("deriv along the second axis, %r" % x.tolist(), attempt("deriv", idl.deriv, x, ys, axis=1), want)
            for shape in ((2, n, len(ys) // 2), (n, 2, len(ys) // 2), (2, len(ys) // 2, n)):
                axis = shape.index(n) if shape.count(n) == 1 else {2: 0}.get(0, None)
                if axis is None:
                    continue
                cases += 1
                order = [a for a in range(3) if a != axis]
                m = len(ys) // 2 * 2
                block = numpy.moveaxis(ys[:m].reshape(shape[order[0]], shape[order[1]], n), 2, axis)
                wblock = numpy.moveaxis(want[:m].reshape(shape[order[0]], shape[order[1]], n), 2, axis)
                compare("deriv of %r along axis %d, %r" % (shape, axis, x.tolist()), attempt("deriv", idl.deriv, x, block, axis=axis), wblock)
            cases += 2
            unit = numpy.arange(n) * 1.0
            for q in range(len(ys)):
                cases += 1
                compare("deriv of %r without abscissae" % ys[q].tolist(), attempt("deriv", idl.deriv, list(ys[q])), [slope(unit, ys[q], k) for k in range(n)])
        full = numpy.array([[spline(x, y, c, p) for p in points] for y, c in zip(ys, curv)])
        area = numpy.array([integral(x, y) for y in ys])
        for q in (range(len(ys)) if len(ys) < 100 else range(0, len(ys), 3)):
            label = "%r on %r" % (ys[q].tolist(), x.tolist())
            cases += 3
            got = attempt("spl_init of " + label, idl.spl_init, x.copy(), ys[q].copy())
            compare("spl_init of " + label, got, curv[q])
            compare("spl_interp of " + label, attempt("spl_interp of " + label, idl.spl_interp, x.copy(), ys[q].copy(), curv[q].copy(), points.copy()), full[q])
            for p in range(len(points)):
                compare("spl_interp at one point of " + label, attempt("spl_interp of " + label, idl.spl_interp, x.copy(), ys[q].copy(), curv[q].copy(), points[p:p + 1].copy()), full[q][p:p + 1])
            compare("int_tabulated of " + label, attempt("int_tabulated of " + label, idl.int_tabulated, x.copy(), ys[q].copy()), area[q])
            if all(v == int(v) for v in ys[q]):
                # whole numbers are numbers like others
                cases += 3
                whole = ys[q].astype("i8")
                if n >= 3:
                    compare("deriv of whole numbers " + label, attempt("deriv", idl.deriv, x, whole), want[q])
                compare("spl_init of whole numbers " + label, attempt("spl_init of " + label, idl.spl_init, x.copy(), whole), curv[q])
                compare("spl_interp of whole numbers " + label, attempt("spl_interp of " + label, idl.spl_interp, x.copy(), whole, curv[q].copy(), points.copy()), full[q])
                compare("int_tabulated of whole numbers " + label, attempt("int_tabulated of " + label, idl.int_tabulated, x.copy(), whole), area[q])
                if (x == x.astype("i8")).all():
                    compare("int_tabulated of whole numbers on whole numbers " + label, attempt("int_tabulated of " + label, idl.int_tabulated, x.astype("i8"), whole), area[q])
        for axis in (0, 1):
            cases += 3
            mv = (lambda a: a.T) if axis == 0 else (lambda a: a)
            label = "along axis %d, %r" % (axis, x.tolist())
            compare("spl_init " + label, attempt("spl_init " + label, idl.spl_init, x.copy(), mv(ys).copy(), axis=axis), mv(curv))
            compare("spl_interp " + label, attempt("spl_interp " + label, idl.spl_interp, x.copy(), mv(ys).copy(), mv(curv).copy(), points, axis=axis), mv(full))
            compare("int_tabulated " + label, attempt("int_tabulated " + label, idl.int_tabulated, x.copy(), mv(ys).copy(), axis=axis), area)
        m = len(ys) // 2 * 2
        for axis in (0, 1, 2):
            cases += 1
            block = numpy.moveaxis(ys[:m].reshape(2, m // 2, n), 2, axis)
            compare("int_tabulated of three dimensions along axis %d, %r" % (axis, x.tolist()), attempt("int_tabulated", idl.int_tabulated, x.copy(), block.copy(), axis=axis), area[:m].reshape(2, m // 2))
    return cases, fails


# ---- diagnostics ----

class Model(object):
    """the diagnostics, point by point; plain: the shear of the zonal wind is not divided by the cosine of the latitude"""

    def __init__(self, lev, lat, plain):
        self.p, self.phi = [100.0 * x for x in lev], [x / 180.0 * math.pi for x in lat]
        self.cos, self.sin, self.plain = [math.cos(x) for x in self.phi], [math.sin(x) for x in self.phi], plain

    def up(self, f):
        out = numpy.full(f.shape, nan)
        for c in numpy.ndindex(*f.shape):
            out[c] = slope(self.p, [f[(c[0], k) + c[2:]] for k in range(len(self.p))], c[1])
        return out

    def north(self, f):
        out = numpy.full(f.shape, nan)
        for c in numpy.ndindex(*f.shape):
            out[c] = slope(self.phi, [f[c[:2] + (k,) + c[3:]] for k in range(len(self.phi))], c[2])
        return out

    def along(self, values, f, axis):
        shape = [1] * f.ndim
        shape[axis] = len(values)
        return numpy.array(values).reshape(shape)

    def P(self, f):
        return self.along(self.p, f, 1)

    def C(self, f):
        return self.along(self.cos, f, 2)

    def psi(self, vth, th):
        slopes = self.up(th)
        return numpy.where(slopes == 0, nan, vth / slopes)

    def vorticity(self, u):
        shear = self.north(u * self.C(u)) / RADIUS
        return 2 * OMEGA * self.along(self.sin, u, 2) - (shear if self.plain else shear / self.C(u))

    def omega(self, w):
        return -w * self.P(w) / HEIGHT

    def omegastar(self, w, vth, th):
        return self.omega(w) + self.north(self.psi(vth, th) * self.C(w)) / (RADIUS * self.C(w))

    def vstar(self, v, vth, th):
        return v - self.up(self.psi(vth, th))

    def fluxy(self, u, uv, vth, th):
        return RADIUS * self.C(u) * (self.up(u) * self.psi(vth, th) - uv)

    def fluxp(self, u, uw, vth, th):
        return RADIUS * self.C(u) * (self.vorticity(u) * self.psi(vth, th) - self.omega(uw))

    def wtem(self, w, vth, th):
        return -HEIGHT / self.P(w) * self.omegastar(w, vth, th)

    def vtem(self, v, vth, th):
        return self.vstar(v, vth, th)

    def utendvtem(self, u, v, vth, th):
        return self.vstar(v, vth, th) * self.vorticity(u)

    def utendwtem(self, u, w, vth, th):
        return -self.omegastar(w, vth, th) * self.up(u)

    def epfy(self, u, uv, vth, th):
        return self.fluxy(u, uv, vth, th) * self.P(u) / P0

    def epfz(self, u, uw, vth, th):
        return -HEIGHT / P0 * self.fluxp(u, uw, vth, th)

    def utendepfd(self, u, uv, uw, vth, th):
        div = self.north(self.fluxy(u, uv, vth, th) * self.C(u)) / (RADIUS * self.C(u)) + self.up(self.fluxp(u, uw, vth, th))
        return div / (RADIUS * self.C(u))

    def psitem(self, v, vth, th):
        psi = self.psi(vth, th)
        out = numpy.full(v.shape, nan)
        for c in numpy.ndindex(*v.shape):
            column = [0.0] + [v[(c[0], k) + c[2:]] for k in range(c[1] + 1)]
            out[c] = 2 * math.pi * RADIUS * self.cos[c[2]] / GRAVITY * (integral(numpy.array([0.0] + self.p[:c[1] + 1]), numpy.array(column)) - psi[c])
        return out


FUNCS = (("wtem", ("wzm", "vthzm", "thzm"), "m s-1", None), ("vtem", ("vzm", "vthzm", "thzm"), "m s-1", None), ("utendvtem", ("uzm", "vzm", "vthzm", "thzm"), "m s-2", None),
         ("utendwtem", ("uzm", "wzm", "vthzm", "thzm"), "m s-2", None), ("epfy", ("uzm", "uvzm", "vthzm", "thzm"), "m3 s-2", None), ("epfz", ("uzm", "uwzm", "vthzm", "thzm"), "m3 s-2", "up"),
         ("utendepfd", ("uzm", "uvzm", "uwzm", "vthzm", "thzm"), "m s-2", None), ("psitem", ("vzm", "vthzm", "thzm"), "kg s-1", None))
FIELDS = ("uzm", "vzm", "wzm", "uvzm", "uwzm", "vthzm", "thzm")


def fields(shape):
    out = {}
    for f, name in enumerate(FIELDS):
        n = int(numpy.prod(shape))
        out[name] = numpy.array([((i * 7919 + f * 104729 + 31) % 97) / 8.0 + 1 for i in range(n)]).reshape(shape)
    out["wzm"] = out["wzm"] * 1e-3
    out["uwzm"] = out["uwzm"] * 1e-2
    # potential temperature decreases with pressure
    level = numpy.array([900.0, 500.0, 380.0, 330.0, 300.0, 290.0])[:shape[1]].reshape((1, shape[1]) + (1,) * (len(shape) - 2))
    out["thzm"] = level + out["thzm"] * 0.5
    return out


def expected(name, names, lev, lat, fs):
    with numpy.errstate(all="ignore"):
        return [getattr(Model(lev, lat, plain), name)(*[fs[x] for x in names]) for plain in (True, False)]


def judge(name, names, unit, positive, lev, lat, fs, extra, raw=1e36):
    """the function as part of a graph"""
    nt = fs["uzm"].shape[0]
    dims = ("time", "lev", "lat") + extra
    args = [A(["time"], numpy.arange(nt) * 30.0, "days since 0001-01-01"), A(["lev"], lev, "hPa"), A(["lat"], lat, "degrees_north")] + [A(dims, fs[x], "1", raw=raw) for x in names]
    wants = expected(name, names, lev, lat, fs)
    bads = []
    for want in wants:
        bad = modfun.examine("dynvarmip_" + name, args, want, dims, unit)
        if bad is None:
            break
        bads.append(bad)
    else:
        return bads[0]
    with modfun.e2e.quiet(), numpy.errstate(all="ignore"):
        got = modfun.call("dynvarmip_" + name, *args)[{}]
    if got.positive != positive:
        return "direction %r instead of %r" % (got.positive, positive)
    return None


def plain(name, names, lev, lat, fs):
    """the function of arrays"""
    dvmd, = modfun.load("dynvarmipdiags")
    before = [fs[x].copy() for x in names]
    try:
        with numpy.errstate(all="ignore"):
            got = getattr(dvmd, name)(numpy.arange(fs["uzm"].shape[0]) * 30.0, numpy.array(lev), numpy.array(lat), *[fs[x] for x in names])
    except Exception as err:
        return "refused: %r" % err
    if not isinstance(got, numpy.ndarray) or got.dtype.kind != "f":
        return "%r of %r" % (type(got), getattr(got, "dtype", None))
    if any(not numpy.array_equal(a, fs[x]) for a, x in zip(before, names)):
        return "an argument is changed"
    bads = [modfun.differ(got, want) for want in expected(name, names, lev, lat, fs)]
    return None if None in bads else bads[0]


LEVS, LATS = (1.0, 10.0, 100.0, 300.0, 1000.0), (-80.0, -30.0, 0.0, 20.0, 75.0)


def job_grids(item):
    nt, extra, nlev, depth = item
    modfun.load("dynvarmipfunctions")
    fails, n = [], 0
    for lev in combinations(LEVS, nlev):
        for lat in grids(LATS, (3, 4) if not depth else (3, 4, 5)):
            fs = fields((nt, len(lev), len(lat)) + tuple(2 + i for i in range(len(extra))))
            for name, names, unit, positive in FUNCS:
                label = "%s of %d times, levels %r, latitudes %r%s" % (name, nt, list(lev), lat.tolist(), "".join(", by " + e for e in extra))
                for how, bad in (("array function ", plain(name, names, list(lev), lat.tolist(), fs)), ("", judge(name, names, unit, positive, list(lev), lat.tolist(), fs, extra))):
                    n += 1
                    if bad:
                        fails.append((how + label, bad))
    return n, fails


def job_points(item):
    nt, extra, lev, lat, what, which = item
    modfun.load("dynvarmipfunctions")
    fails, n = [], 0
    base = fields((nt, len(lev), len(lat)) + tuple(2 for e in extra))
    name, names, unit, positive = FUNCS[which]
    for arg in names:
        for c in numpy.ndindex(*base[arg].shape):
            fs = dict(base)
            fs[arg] = base[arg].copy()
            if what == "changed":
                fs[arg][c] *= 1.25
            elif what == "flat":
                # a column without temperatures differing by level: no slope
                if arg != "thzm" or c[1] != 0:
                    continue
                fs[arg][(c[0], slice(None)) + c[2:]] = 0.0
            else:
                fs[arg][c] = nan
            n += 1
            bad = judge(name, names, unit, positive, lev, lat, fs, extra, what if isinstance(what, float) else 1e36)
            if bad:
                fails.append(("%s, %s %s at %r%s" % (name, arg, "missing as %g" % what if isinstance(what, float) else what, c, " of four dimensions" if extra else ""), bad))
            if not isinstance(what, float):
                bad = plain(name, names, lev, lat, fs) if what == "changed" else None
                if bad:
                    fails.append(("array function %s, %s %s at %r" % (name, arg, what, c), bad))
    return n, fails


def job_vorticity(item):
    """a wind of solid body rotation adds twice its rate to the absolute vorticity"""
    dvmd, = modfun.load("dynvarmipdiags")
    fails, n = [], 0
    lev, lat = numpy.array([10.0, 100.0, 500.0, 1000.0]), numpy.linspace(-80, 80, 801)
    cos = numpy.cos(numpy.radians(lat))
    shape = (1, 4, 801)
    u = numpy.broadcast_to(20.0 * cos, shape).copy()
    th = numpy.broadcast_to(numpy.array([900.0, 500.0, 350.0, 300.0]).reshape(1, 4, 1), shape).copy()
    one, zero = numpy.ones(shape), numpy.zeros(shape)
    sin = numpy.sin(numpy.radians(lat))
    vorticity = 2 * (OMEGA + 20.0 / RADIUS) * sin
    for name, got, want in (("utendvtem", lambda: dvmd.utendvtem(numpy.zeros(1), lev, lat, u, one, zero, th), numpy.broadcast_to(vorticity, shape)),
                            ("epfz", lambda: dvmd.epfz(numpy.zeros(1), lev, lat, u, zero, one, th), -HEIGHT / P0 * RADIUS * cos * vorticity / Model(lev, lat[:3], True).up(th[:, :, :1]))):
        n += 1
        try:
            bad = modfun.differ(got(), want, 1e-3)
        except Exception as err:
            bad = "refused: %r" % err
        if bad:
            fails.append(("%s of solid body rotation" % name, bad))
    return n, fails


def job_flow(item):
    d, which, dtype, raw = item
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    modfun.load("dynvarmipfunctions")
    fails, n = [], 0
    name, names, unit, positive = FUNCS[which]
    sizes = {"time": 3, "lev": 4, "lat": 4}
    lev, lat = [10.0, 100.0, 500.0, 1000.0], [-80.0, -30.0, 0.0, 20.0]
    dims = ("time", "lev", "lat")
    for hole in [None] + [(t, k, j) for t in range(3) for k in range(4) for j in (0, 2)]:
        fs = fields((3, 4, 4))
        if dtype == "f4":
            fs = dict((k, v.astype("f4").astype("f8")) for k, v in fs.items())
        if hole is not None:
            for x in names:
                fs[x] = fs[x].copy()
                fs[x][hole] = nan
        ins = {"time": A(["time"], [15.0, 45.0, 75.0], "days since 0001-01-01"), "lev": A(["lev"], lev, "hPa"), "lat": A(["lat"], lat, "degrees_north")}
        for x in names:
            ins[x] = A(dims, fs[x], "1", dtype, raw)
        wants = expected(name, names, lev, lat, fs)
        coords = {"time": ("time", "days since 0001-01-01", None), "lev": ("lev", "hPa", None), "lat": ("lat", "degrees_north", None)}
        call = "dynvarmip_%s(time, lev, lat, %s)" % (name, ", ".join(names))
        daily = unit.replace("s-2", "s-1 d-1") if unit == "m s-2" else None
        for text, out, order, factor in ((call, unit, dims, 1.0), ("2 * " + call, unit, dims, 2.0), (call, unit, ("lat", "lev", "time"), 1.0)) + (((call, daily, dims, 86400.0),) if daily else ()):
            for chunk in [{}, {"time": 1}, {"time": 2}, {"lev": 2}, {"lat": 3}, {"lev": 1, "time": 2}] if hole is None or text == call else [{}]:
                n += 1
                got = modfun.convert(d, ins, sizes, text, order, out, coords, chunks=chunk, fill=1e20)
                label = "%s in %s by %s, %s%s%s" % (text, out, order, dtype, "" if hole is None else ", missing at %r" % (hole,), ", in chunks %r" % chunk if chunk else "")
                if isinstance(got, str):
                    if "sum-like" not in got or set(chunk) <= {"time"}:
                        fails.append((label, got))
                    continue
                bads = []
                for want in wants:
                    want = want * factor if order == dims else numpy.transpose(want, (2, 1, 0)) * factor
                    bads.append(modfun.differ(got, want, 1e-9))
                if None not in bads:
                    fails.append((label, bads[0]))
    return n, fails


def dispatch(w):
    return {"calculus": job_calculus, "grids": job_grids, "points": job_points, "vorticity": job_vorticity, "flow": job_flow}[w[0]](w[1])


def explore(chk):
    d, t = chk.scratch(), chk.thorough
    work = [("vorticity", 0)]
    work += [("flow", (d, which) + kind) for which in range(8) for kind in ((("f8", 1e36), ("f4", 1e36), ("f8", -999.0)) if t else (("f8", 1e36),))]
    work += [("calculus", (n, t)) for n in (6, 5, 4, 3, 2)]
    work += [("grids", (nt, extra, nlev, t)) for nlev in (3, 4, 5) for nt, extra in ((1, ()), (2, ("lon",))) + (((3, ()),) if t else ())]
    lev, lat = [10.0, 100.0, 500.0, 1000.0], [-80.0, -30.0, 0.0, 20.0]
    for which in range(8):
        for what in ("changed", "flat", 1e36, 5.0):
            work.append(("points", (1, (), lev, lat, what, which)))
        work.append(("points", (2, ("lon",), lev[:3], lat[:3], "changed", which)))
        work.append(("points", (2, ("lon",), lev[:3], lat[:3], 1e36, which)))
        if t:
            work += [("points", (3, (), [1.0] + lev, lat, what, which)) for what in ("changed", "flat", 1e36, 5.0)]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %s" % w[0], res, {})
            continue
        n, fails = res
        chk.bulk(n, n, [{"part": w[0], "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
