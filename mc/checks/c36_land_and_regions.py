"""C36: values of land units, plant types, land uses, basins and regions go to the right cells with the right weights."""
import os
from itertools import combinations, permutations, product

import numpy
from numpy import nan

from mc import modfun, par
from mc.modfun import A

PID = "C36"
LEVEL = "exploration"
RULE = ("CLM_landunit_to_CMIP6_Lut: every state (absent, active, inactive, without weight) of six kinds of land unit of a cell x kind asked for; every set of land cells of a grid of two by three in "
        "several orders x units of every cell; CLM_pft_to_CMIP6_vegtype: the same with eight plant types; reduce_lu: every set of missing land types; get_soilpools, get_nonwoodyveg, expand_latlon, ocean_basin: every "
        "set of up to two missing values, every component; hemisphere: every dimension, direction and size; cice_where: every condition x every pattern of less, equal, greater and missing; "
        "cice_regions: each cell missing in turn; masked_invalid: every pattern of invalid values; models written cell by cell; whole conversions of each, whole and in chunks")

RAWS = (1e36, 5.0)


def numbers(shape, k=0):
    n = int(numpy.prod(shape))
    return (numpy.array([(-1.0 if i % 3 == 1 else 1.0) * (((i * 7919 + k * 104729 + 31) % 997) / 8.0 + 1) for i in range(n)])).reshape(shape)


class Land(object):
    """grid cells (column, row), and things (cell or None, kind, active, weight of cell, weight of unit) on them"""

    def __init__(self, nlat, nlon, cells, things):
        self.nlat, self.nlon, self.cells, self.things = nlat, nlon, cells, things

    def lon(self, i):
        return 10.0 + 25 * i

    def lat(self, j):
        return -30.0 + 20 * j

    def arrays(self):
        c, t = self.cells, self.things
        far = 1e3
        lon, lat = [self.lon(x[0][0]) if x[0] else far for x in t], [self.lat(x[0][1]) if x[0] else far for x in t]
        return {"ixy": A(["g"], [i + 1 for i, j in c], "1", "i4"), "jxy": A(["g"], [j + 1 for i, j in c], "1", "i4"), "glon": A(["g"], [self.lon(i) for i, j in c]), "glat": A(["g"], [self.lat(j) for i, j in c]),
                "tlon": A(["u"], lon), "tlat": A(["u"], lat), "kind": A(["u"], [x[1] for x in t], "1", "i4"), "act": A(["u"], [x[2] for x in t], "1", "i4"), "wt": A(["u"], [x[3] for x in t]),
                "wl": A(["u"], [x[4] for x in t]), "lat": A(["lat"], [self.lat(j) for j in range(self.nlat)]), "lon": A(["lon"], [self.lon(i) for i in range(self.nlon)])}

    def on(self, i, j):
        return [k for k, x in enumerate(self.things) if x[0] == (i, j) and x[2] == 1 and x[3] > 0] if (i, j) in self.cells else []


def landuse(land, x):
    """(time, use, lat, lon)"""
    out = numpy.full((x.shape[0], 4, land.nlat, land.nlon), nan)
    for i, j in land.cells:
        for use, kinds in ((0, (1,)), (2, (2,)), (3, (7, 8, 9))):
            mine = [k for k in land.on(i, j) if land.things[k][1] in kinds]
            if mine:
                w = sum(land.things[k][3] for k in mine)
                out[:, use, j, i] = sum(x[:, k] * land.things[k][3] for k in mine) / w
    return out


USES = {"veg": 0, "pasture": 1, "crop": 2, "urban": 3}
TYPES = {"tree": range(1, 9), "shrub": range(9, 12), "grass": range(12, 15)}


def vegtype(land, pfts, x, what):
    """(time, lat, lon); pfts: the plants, on the cells of land"""
    out = numpy.full((x.shape[0], land.nlat, land.nlon), nan)
    for i, j in land.cells:
        if not any(u[0] == (i, j) and u[1] == 1 for u in land.things):
            continue
        mine = [k for k, p in enumerate(pfts.things) if p[0] == (i, j) and p[2] == 1 and p[3] > 0 and p[1] in TYPES[what]]
        if mine:
            w = sum(pfts.things[k][4] for k in mine)
            out[:, j, i] = sum(x[:, k] * pfts.things[k][4] for k in mine) / w
    return out


STATES = ((1, 1), (0, 1), (1, 0))


def things(cell, kinds, states):
    """the things of a cell: state 0 absent, else active and with weight or not"""
    out = []
    for n, (kind, s) in enumerate(zip(kinds, states)):
        if s:
            act, wt = STATES[s - 1]
            out.append((cell, kind, act, wt * (.05 + .01 * n * n), .31 - .013 * n * n - (.2 if n == 2 else 0)))
    return out


def lut(land, what, nt, gone=(), raw=1e36):
    x = numbers((nt, len(land.things)))
    for g in gone:
        x[g] = nan
    a = land.arrays()
    args = [A(["time", "u"], x, "W m-2", raw=raw), what, A(["time"], numpy.arange(nt) + 1.), a["lat"], a["lon"], a["ixy"], a["jxy"], a["glon"], a["glat"], a["tlon"], a["tlat"], a["kind"], a["act"], a["wt"], A(["lu"], range(4))]
    want = landuse(land, x)
    if what == "all":
        return modfun.examine("CLM_landunit_to_CMIP6_Lut", args, want, ("time", "lu", "lat", "lon"), "W m-2", rtol=1e-6)
    return modfun.examine("CLM_landunit_to_CMIP6_Lut", args, want[:, USES[what]], ("time", "lat", "lon"), "W m-2", rtol=1e-6)


def veg(land, pfts, what, nt, gone=(), raw=1e36):
    x = numbers((nt, len(pfts.things)))
    for g in gone:
        x[g] = nan
    a, b = land.arrays(), pfts.arrays()
    for k in ("tlon", "tlat", "kind"):
        a[k].dims = ("lu1d",)
    args = [A(["time", "u"], x, "kg", raw=raw), what, A(["time"], numpy.arange(nt) + 1.), a["lat"], a["lon"], a["ixy"], a["jxy"], a["glon"], a["glat"], a["tlon"], a["tlat"], a["kind"],
            b["tlon"], b["tlat"], b["act"], b["kind"], b["wt"], b["wl"]]
    return modfun.examine("CLM_pft_to_CMIP6_vegtype", args, vegtype(land, pfts, x, what), ("time", "lat", "lon"), "kg", rtol=1e-6)


def job_states(item):
    """every state of the things of one cell, with a fixed neighbour"""
    part, depth = item
    modfun.load("CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype")
    fails, n = [], 0
    kinds = (1, 2, 7, 8, 9, 3)
    for c, states in enumerate(product(range(4), repeat=len(kinds))):
        if c % 4 != part or not depth and sum(s > 1 for s in states) > 2:
            continue
        units = things((1, 0), kinds, states)
        land = Land(1, 2, [(0, 0), (1, 0)], things((0, 0), (2, 7), (1, 1)) + units[::-1 if c % 3 else 1])
        for what in list(USES) + ["all"]:
            n += 1
            bad = lut(land, what, 1 + c % 2)
            if bad:
                fails.append(("land units %r of kinds %r: %s" % (states, kinds, what), bad))
    pk = (1, 8, 9, 11, 12, 14)
    for c, states in enumerate(product(range(4), repeat=len(pk))):
        if c % 4 != part or not depth and sum(s > 1 for s in states) > 2:
            continue
        plants = things((1, 0), (0,) + pk + (15,), (1,) + states + (1,))
        for land in (Land(1, 2, [(0, 0), (1, 0)], [((1, 0), 1, 1, 1., 1.)]), Land(1, 2, [(1, 0)], [((0, 0), 1, 1, 1., 1.), ((1, 0), 1, 0, 0., 1.)]), Land(1, 2, [(1, 0), (0, 0)], [((1, 0), 2, 1, 1., 1.), ((0, 0), 1, 1, 1., 1.)]))[:3 if c % 5 == 0 or depth else 1]:
            pfts = Land(1, 2, land.cells, things((0, 0), (9, 3), (1, 1)) + plants[::-1 if c % 3 else 1])
            for what in TYPES:
                n += 1
                bad = veg(land, pfts, what, 1 + c % 2)
                if bad:
                    fails.append(("plants %r of kinds %r, land %r: %s" % (states, pk, land.cells, what), bad))
    return n, fails


def job_cells(item):
    """every set of land cells"""
    part, depth = item
    modfun.load("CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype")
    fails, n = [], 0
    grid = [(i, j) for j in range(2) for i in range(3)]
    c = 0
    for size in range(1, 7):
        for cells in combinations(grid, size):
            for order in [cells, cells[::-1], cells[1:] + cells[:1]] if size > 3 or not depth else permutations(cells):
                c += 1
                if c % 4 != part:
                    continue
                units, plants = [], []
                for k, cell in enumerate(grid):
                    if cell in cells:
                        units += things(cell, (1, 2, 7, 9), ((1, 1, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0), (0, 0, 0, 0), (1, 0, 1, 2), (2, 1, 3, 1))[k])
                        plants += things(cell, (1, 5, 10, 12, 13), ((1, 1, 1, 1, 1), (0, 1, 0, 1, 0), (1, 0, 0, 0, 0), (1, 1, 0, 1, 1), (0, 0, 1, 2, 1), (3, 1, 1, 1, 0))[k])
                units += things(None, (1, 7), (1, 1))
                plants += things(None, (3, 12), (1, 1))
                for rot in (0, len(units) // 2):
                    land = Land(2, 3, list(order), units[rot:] + units[:rot])
                    pfts = Land(2, 3, list(order), plants[rot:] + plants[:rot])
                    for nt in (1, 2):
                        n += 2
                        bad = lut(land, "all", nt)
                        if bad:
                            fails.append(("cells %r, units turned by %d, %d times" % (order, rot, nt), bad))
                        what = ("tree", "shrub", "grass")[(c + rot) % 3]
                        bad = veg(land, pfts, what, nt)
                        if bad:
                            fails.append(("cells %r, plants turned by %d, %d times, %s" % (order, rot, nt, what), bad))
                    if size == 6:
                        for u, raw, small in product(range(max(len(units), len(plants))), RAWS, (1, 1e-7)):
                            i, k = min(u, len(units) - 1), min(u, len(plants) - 1)
                            less = [Land(2, 3, list(order), [x[:3] + (x[3] * small, x[4] * small) if m == v else x for m, x in enumerate(g.things)]) for g, v in ((land, i), (pfts, k))]
                            n += 2
                            bad = lut(less[0], "all", 2, [(1, i)], raw) or veg(land, less[1], ("tree", "shrub", "grass")[u % 3], 2, [(0, k)], raw)
                            if bad:
                                fails.append(("unit or plant %d missing below %g, weights times %g" % (u, raw, small), bad))
    return n, fails


# -- functions of fields --------------------------------------------------------------------------------------------
T3, T4 = ("time", "lat", "lon"), ("time", "lev", "lat", "lon")


def reduced(x):
    return numpy.stack([x[:, 0], 0 * x[:, 0] if False else numpy.zeros(x[:, 0].shape), x[:, 1], x[:, 6] + x[:, 7] + x[:, 8]], axis=1)


def nonwoody(pft, crop, frac):
    out = numpy.full((pft.shape[0], 4) + pft.shape[2:], nan)
    for t, i, j in numpy.ndindex(*out[:, 0].shape):
        out[t, 0, i, j] = pft[t, 12, i, j] + pft[t, 13, i, j] + pft[t, 14, i, j]
        if frac[i, j] <= 1:
            out[t, 1:, i, j] = 0, 100 if crop[t, 1, i, j] > 0 else 0, 0
    return out


def basins(x, comp):
    y = x[:, :, comp].transpose(0, 3, 2, 1)
    return numpy.stack([y[..., 1], y[..., 0] - y[..., 1], y[..., 0]], axis=-1)


def half(x, axis, upper):
    n = x.shape[axis] // 2
    return numpy.take(x, range(n, x.shape[axis]) if upper else range(n), axis)


OPS = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b}


def where(a, op, b, x, value):
    out = numpy.empty(a.shape)
    for k in numpy.ndindex(*a.shape):
        out[k] = nan if numpy.isnan(a[k]) else x[k] if OPS[op](a[k], b) else value
    return out


EAST = [(0, j, 92, "e") for j in range(370, 381)] + [(1, j, 214, "en") for j in (375, 376)] + [(1, 366, i, "en") for i in range(240, 244)] + [(2, j, 85, "e") for j in range(344, 366)] + [(3, 333, i, "n") for i in range(198, 201)]


def straits(aice, u, v, hte, htn, multiple):
    """transports through the straits; cells with missing neighbours are left out, missing velocities count as none"""
    u, v = numpy.nan_to_num(u), numpy.nan_to_num(v)
    out = numpy.zeros((aice.shape[0], 4))
    for t in range(aice.shape[0]):
        for r, j, i, sides in EAST:
            here, east, north = aice[t, j, i], aice[t, j, i + 1], aice[t, j + 1, i]
            if numpy.isnan(here) or "e" in sides and numpy.isnan(east) or "n" in sides and numpy.isnan(north):
                continue
            if "e" in sides:
                out[t, r] += .25 * (here + east) * hte[j, i] * (u[t, j, i] + u[t, j - 1, i])
            if "n" in sides:
                out[t, r] += .25 * (here + north) * htn[j, i] * (v[t, j, i] + v[t, j, i - 1])
    return out * multiple


def job_fields(depth):
    modfun.load("commonfunctions")
    fails, n = [], 0

    def run(label, *args, **kw):
        nonlocal n
        n += 1
        bad = modfun.examine(*args, **kw)
        if bad:
            fails.append((label, bad))

    lu4 = A(["lu"], range(4))
    for size in range(10):
        for gone in combinations(range(9), size):
            x = numbers((2, 9, 1, 2))
            for g in gone:
                x[g % 2, g, 0, (g + size) % 2] = nan
            for raw in RAWS:
                run("reduce_lu missing %r below %g" % (gone, raw), "reduce_lu", [A(["time", "ltype", "lat", "lon"], x, "W", raw=raw), lu4], reduced(x), ("time", "lu", "lat", "lon"), "W", probe=False)
    for size in range(3):
        for gone in combinations(list(numpy.ndindex(3, 2, 1, 2)), size):
            x = numbers((3, 2, 1, 2))
            for g in gone:
                x[g] = nan
            for raw in RAWS:
                run("get_soilpools missing %r below %g" % (gone, raw), "get_soilpools", [A(T3, x[k], "kg", raw=raw) for k in range(3)] + [A(["soil"], range(3))], x.transpose(1, 0, 2, 3), ("time", "soil", "lat", "lon"), "kg", probe=False)
    for size in range(3):
        for gone in combinations(list(product(range(2), (0, 11, 12, 13, 14), (0, 1))), size):
            x = numbers((2, 15, 1, 2))
            for t, k, j in gone:
                x[t, k, 0, j] = nan
            for frac in ([[.5, 1.]], [[1.1, .3]], [[nan, 1.]], [[0., nan]]):
                for crop, raw in product((numpy.zeros((2, 2, 1, 2)), numpy.abs(numbers((2, 2, 1, 2))) * [[[[1, 0.001]], [[0, 1]]], [[[1, 1]], [[1, 0]]]]), RAWS):
                    args = [A(["time", "pft", "lat", "lon"], x, "%", raw=raw), A(["time", "cft", "lat", "lon"], crop, "%"), A(["lat", "lon"], frac, "1", raw=raw), lu4]
                    want = nonwoody(x, crop, numpy.where(numpy.isnan(frac), 9., frac))
                    run("get_nonwoodyveg missing %r below %g fraction %r crop %r" % (gone, raw, frac, crop.ravel().tolist()), "get_nonwoodyveg", args, want, ("time", "lu", "lat", "lon"), "%")
    for nt, nlat, nlon in product((1, 2, 3), repeat=3):
        for size in range(nt + 1):
            for gone in combinations(range(nt), size):
                x = numbers((nt,))
                x[list(gone)] = nan
                want = numpy.broadcast_to(x[:, None, None], (nt, nlat, nlon))
                for raw in RAWS:
                    run("expand_latlon %d %d %d missing %r below %g" % (nt, nlat, nlon, gone, raw), "expand_latlon", [A(["time"], x, "K", raw=raw), A(["lat"], range(nlat)), A(["lon"], range(nlon))], want, T3, "K")
    shape = (2, 2, 3, 2, 1)
    for comp in (0, 1, 2, "0", "2"):
        for size in range(3):
            for gone in combinations([k for k in numpy.ndindex(*shape) if k[2] == int(comp)], size):
                x = numbers(shape)
                for g in gone:
                    x[g] = nan
                for raw in RAWS:
                    run("ocean_basin component %r missing %r below %g" % (comp, gone, raw), "ocean_basin", [A(["time", "tr", "comp", "lev", "lat"], x, "m3", raw=raw), comp, A(["basin"], range(3))],
                        basins(x, int(comp)), ("time", "lat", "lev", "basin"), "m3", probe=False)
    for shape in product((1, 2, 3, 4, 5), repeat=3):
        x = numbers(shape)
        if x.size > 1:
            x.flat[1] = nan
        for axis, dr in product(range(3), (">", "<")):
            run("hemisphere %r of %s %s" % (shape, T3[axis], dr), "hemisphere", [A(T3, x, "K")], half(x, axis, dr == ">"), T3, "K", {"dim": T3[axis], "dr": dr})
    for pattern in product((-1., 0., 1., nan), repeat=4):
        a = numpy.array(pattern).reshape(2, 2, 1)
        x = numbers((2, 2, 1))
        for op, b, gone in product(OPS, (0, 1.0), (None, (1, 0, 0), (0, 1, 0))):
            y = x.copy()
            if gone:
                y[gone] = nan
            run("cice_where %r %s %r, missing %r" % (pattern, op, b, gone), "cice_where", [A(T3, a, "1"), op, b, A(T3, y, "K"), 7.5], where(a, op, b, y, 7.5), T3, "K")
    for pattern in product((1.5, numpy.inf, -numpy.inf, "nan", "missing"), repeat=4):
        raw = numpy.array([nan if v == "nan" else 8. if v == "missing" else v for v in pattern]).reshape(2, 2, 1)
        want = numpy.array([v if v == 1.5 else nan for v in pattern], dtype="f8").reshape(2, 2, 1)
        from pyconform.flownodes import DataNode
        from pyconform.physarray import PhysArray
        node = DataNode(PhysArray(numpy.ma.array(raw, mask=[v == "missing" for v in pattern]), name="x", units="K", dimensions=T3))
        run("masked_invalid %r" % (pattern,), "masked_invalid", [node], want, T3, "K")
    return n, fails


def job_straits(depth):
    modfun.load("commonfunctions")
    fails, n = [], 0
    shape, g = (2, 384, 250), ("nj", "ni")
    full = [numbers(shape, k) for k in range(3)] + [numbers(shape[1:], k) for k in (3, 4)]
    near = set()
    for r, j, i, s in EAST:
        near |= {(j, i), (j, i + 1), (j + 1, i), (j - 1, i), (j, i - 1)}
    tries = [(which, c) for which in range(3) for c in sorted(near)[::1 if depth else 5]] + [(None, None)]
    tries += [(0, (j, i)) for r, j, i, s in EAST[::3]]
    for which, c in tries:
        fields = [f.copy() if k == which else f for k, f in enumerate(full)]
        if c:
            fields[which][(1,) + c] = nan
        for k, raw in enumerate(RAWS if which is not None else (1e36, 1e20)):
            factor = (2.5, -3.0)[k]
            args = [A(("time",) + g, f, "m s-1" if k in (1, 2) else "1", raw=raw) for k, f in enumerate(fields[:3])] + [A(g, f, "m") for f in fields[3:]] + [A(["siline"], range(4)), factor]
            n += 1
            bad = modfun.examine("cice_regions", args, straits(*(fields + [factor])), ("time", "siline"), "m s-1", probe=False)
            if bad:
                fails.append(("cice_regions field %r missing at %r below %g" % (which, c, raw), bad))
    return n, fails


# -- whole conversions ----------------------------------------------------------------------------------------------
def job_flow(item):
    d, dtype, raw, depth = item
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    modfun.load("commonfunctions", "CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype")
    fails, n = [], 0
    nt, nlat, nlon = 3, 2, 3
    land = Land(nlat, nlon, [(0, 0), (2, 1), (1, 0)], things((1, 0), (1, 2, 7, 9), (1, 1, 1, 1)) + things((0, 0), (1, 8, 9), (1, 1, 1)) + things((2, 1), (2, 1, 7), (1, 3, 2)))
    pfts = Land(nlat, nlon, land.cells, things((0, 0), (12, 13, 2), (1, 1, 1)) + things((1, 0), (14, 12, 9), (1, 1, 2)) + things((2, 1), (13, 4), (1, 1)))
    a, b = land.arrays(), pfts.arrays()
    ins = {"time": A(["time"], [31., 59., 90.], "days since 0001-01-01", calendar="noleap"), "lat": a["lat"], "lon": a["lon"], "ixy": a["ixy"], "jxy": a["jxy"], "glon": a["glon"], "glat": a["glat"]}
    for k in ("tlon", "tlat", "kind", "act", "wt"):
        ins["l" + k] = A(["lunit"], a[k].v, "1", a[k].dtype)
    for k in ("tlon", "tlat", "kind", "act", "wt", "wl"):
        ins["p" + k] = A(["plant"], b[k].v, "1", b[k].dtype)
    ef, gpp = numbers((nt, len(land.things))), numbers((nt, len(pfts.things)), 1)
    ef[1, 2] = gpp[2, 0] = nan
    lud, d3, ts = numbers((nt, 9, nlat, nlon), 2), numbers((nt, nlat, nlon), 3), numbers((nt,), 4)
    moc, pft, cft = numbers((nt, 2, 3, 2, nlat), 5), numbers((nt, 15, nlat, nlon), 6), numbers((nt, 2, nlat, nlon), 7)
    cft[1, 1, 0, 2] = 0
    lud[2, 7, 1, 1] = d3[0, 1, 2] = ts[1] = moc[1, 1, 0, 1, 0] = pft[2, 13, 0, 1] = nan
    frac = numpy.array([[1., .5, 1.5], [0., 2., 1.]])
    ins.update(EF=A(["time", "lunit"], ef, "W m-2", dtype, raw), GPP=A(["time", "plant"], gpp, "W m-2", dtype, raw), lut=A(["lu"], range(4)), LUD=A(["time", "ltype", "lat", "lon"], lud, "K", dtype, raw), D3=A(T3, d3, "K", dtype, raw),
               soil=A(["soil"], range(3)), TS=A(["time"], ts, "K", dtype, raw), MOC=A(["time", "tr", "comp", "lev", "lat"], moc, "m", dtype, raw), basin=A(["basin"], range(3)), PFT=A(["time", "pft", "lat", "lon"], pft, "%", dtype, raw),
               CFT=A(["time", "cft", "lat", "lon"], cft, "%", dtype), LF=A(["lat", "lon"], frac, "1", dtype))
    sizes = {"time": nt, "lat": nlat, "lon": nlon, "g": 3, "lunit": len(land.things), "plant": len(pfts.things), "lu": 4, "ltype": 9, "soil": 3, "tr": 2, "comp": 3, "lev": 2, "basin": 3, "pft": 15, "cft": 2}
    here = "time, lat, lon, ixy, jxy, glon, glat, ltlon, ltlat, lkind, "
    lu, U4 = landuse(land, ef), ("time", "lu", "lat", "lon")
    half_ = half(numpy.nan_to_num(d3), 2, True).sum(axis=(1, 2))
    cases = [("CLM_landunit_to_CMIP6_Lut(EF, 'all', %slact, lwt, lut)" % here, U4, "W m-2", lu), ("CLM_landunit_to_CMIP6_Lut(2 * EF, 'urban', %slact, lwt, lut)" % here, T3, "W m-2", 2 * lu[:, 3]),
             ("CLM_landunit_to_CMIP6_Lut(EF, 'crop', %slact, lwt, lut)" % here, T3, "W m-2", lu[:, 2]),
             ("CLM_pft_to_CMIP6_vegtype(GPP, 'grass', %sptlon, ptlat, pact, pkind, pwt, pwl)" % here, T3, "W m-2", vegtype(land, pfts, gpp, "grass")), ("CLM_pft_to_CMIP6_vegtype(2 * GPP, 'tree', %sptlon, ptlat, pact, pkind, pwt, pwl)" % here, T3, "W m-2", 2 * vegtype(land, pfts, gpp, "tree")),
             ("reduce_lu(LUD, lut)", U4, "K", reduced(lud)), ("reduce_lu(3 * LUD, lut)", U4, "K", 3 * reduced(lud)), ("get_soilpools(D3, 2 * D3, D3, soil)", ("time", "soil", "lat", "lon"), "K", numpy.stack([d3, 2 * d3, d3], axis=1)),
             ("get_nonwoodyveg(PFT, CFT, LF, lut)", U4, "%", nonwoody(pft, cft, frac)), ("expand_latlon(2 * TS, lat, lon)", T3, "K", numpy.broadcast_to(2 * ts[:, None, None], d3.shape)),
             ("ocean_basin(MOC, 0, basin)", ("time", "lat", "lev", "basin"), "m", basins(moc, 0)), ("ocean_basin(MOC, 2, basin)", ("time", "lat", "lev", "basin"), "m", basins(moc, 2)),
             ("sum(hemisphere(D3, dim='lon', dr='>'), 'lat', 'lon')", ("time",), "K", half_), ("cice_where(D3, '>', 60, 2 * D3, 0)", T3, "K", where(d3, ">", 60, 2 * d3, 0)), ("cice_where(D3, '<=', 60, D3, 1)", T3, "K", where(d3, "<=", 60, d3, 1)),
             ("masked_invalid(D3)", T3, "K", d3)]
    for text, dims, units, want in cases:
        for dim in [None] + list(dims):
            for size in [0] if dim is None else range(1, sizes[dim]):
                n += 1
                got = modfun.convert(d, ins, sizes, text, dims, units, chunks={dim: size} if dim else None, fill=1e20)
                label = "%s of %s, missing as %g%s" % (text, dtype, raw, ", %s in chunks of %d" % (dim, size) if dim else "")
                if isinstance(got, str):
                    if dim in (None, "time") or dim in ("lat", "lon") and "CLM" not in text and "sum(" not in text:
                        fails.append((label, got))
                    continue
                bad = modfun.differ(got, want, 2e-6 if dtype == "f4" or "CLM" in text else 1e-9)
                if bad:
                    fails.append((label, bad))
    return n, fails


def dispatch(w):
    return {"states": job_states, "cells": job_cells, "fields": job_fields, "straits": job_straits, "flow": job_flow}[w[0]](w[1])


def explore(chk):
    d, t = chk.scratch(), chk.thorough
    work = [("fields", t), ("straits", t)] + [("states", (p, t)) for p in range(4)] + [("cells", (p, t)) for p in range(4)] + [("flow", (d, dtype, raw, t)) for dtype, raw in (("f8", 1e36), ("f4", 1e36), ("f8", -50.0))]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %s" % w[0], res, {})
            continue
        n, fails = res
        chk.bulk(n, n, [{"part": w[0], "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
