"""
Data sets whose definitions read parts of a dimension: the part every definition reads becomes the dimension of the
output; a part read by one definition beside the whole read by another fills an unlimited dimension from its beginning
and cannot fill any other.
"""
import os
from collections import OrderedDict
from itertools import product

import numpy

from mc import e2e

NT, NY = 4, 3


def data():
    t = [10., 20., 30., 40.]
    a = [[100. * i + j for j in range(NY)] for i in range(NT)]
    b = [7., 5., 3., 1.]
    y = [-1., 0., 1.]
    return t, a, b, y


def inputs(d, unlimited, split):
    t, a, b, y = data()
    a = numpy.ma.array(a)
    a[2, 1] = numpy.ma.masked
    vs = {"t": e2e.Var(("t",), t, {"units": "m"}), "a": e2e.Var(("t", "y"), a, {"units": "m", "positive": "up"}, fill=-1e30),
          "b": e2e.Var(("t",), b, {"units": "m"}), "y": e2e.Var(("y",), y, {"units": "1"})}
    sizes = {"t": NT, "y": NY}
    groups = [("t", "a"), ("b", "y")] if split else [tuple(vs)]
    out = []
    for i, g in enumerate(groups):
        p = os.path.join(d, "part%d%d%d.nc" % (i, bool(unlimited), split))
        if not os.path.exists(p):
            e2e.write_file(p, {n: vs[n] for n in g}, sizes, unlimited=unlimited)
        out.append(p)
    return out


def slices():
    """slices of the first dimension selecting at least one element, each selection in one or two writings"""
    seen = {}
    for s in product((None, 0, 1, 2, 3, -1, -2), (None, 0, 1, 2, 3, 4, 9, -1), (None, 2, -1, -2)):
        r = tuple(range(NT)[slice(*s)])
        if r and len(seen.setdefault(r, [])) < 2:
            seen[r].append(s)
    return [(s, r) for r, ss in sorted(seen.items()) for s in ss]


def text(s):
    return ":".join("" if x is None else str(x) for x in (s if s[2] is not None else s[:2]))


DEFS = [("a[%s]", lambda a, b, r: [a[i] for i in r]), ("2*up(a[%s, :])", lambda a, b, r: [[2 * x for x in a[i]] for i in r]),
        ("a[%s] - b[%s]", lambda a, b, r: [[x - b[i] for x in a[i]] for i in r]),
        ("limit(a[%s], below=150)", lambda a, b, r: [[max(x, 150.) for x in a[i]] for i in r]),
        ("a[%s] + a[0]", lambda a, b, r: [[x + z for x, z in zip(a[i], a[0])] for i in r])]


def masked(r):
    return [[i == 2 and j == 1 for j in range(NY)] for i in r]


def spec(out, s, k, whole, direction):
    """s: slice of every definition (or only of v when `whole`)"""
    p = text(s)
    ds = OrderedDict()
    at = {"units": "m", "axis": "T"}
    if direction:
        at["direction"] = direction
    ds["t"] = e2e.outvar(["T"], "t" if whole else "t[%s]" % p, attrs=at)
    ds["y"] = e2e.outvar(["Y"], "y", attrs={"units": "1"})
    d = DEFS[k][0]
    ds["v"] = e2e.outvar(["Y", "T"] if k == 2 and not whole else ["T", "Y"], d % ((p,) * d.count("%s")), attrs={"units": "m"}, filename=out)
    ds["w"] = e2e.outvar(["T"], "mean(a[%s], 'y')" % p if k == 1 else "b[%s]" % p, attrs={"units": "m"})
    return ds


def expected(s, r, k, whole, direction):
    """{variable: list or None (refused)}; None where missing"""
    t, a, b, y = data()
    v = DEFS[k][1](a, b, r)
    m = masked(r)
    v = [[None if mm else x for x, mm in zip(vv, ms)] for vv, ms in zip(v, m)]
    tt = t if whole else [t[i] for i in r]
    w = [sum(x for j, x in enumerate(a[i]) if (i, j) != (2, 1)) / (NY - (i == 2)) for i in r] if k == 1 else [b[i] for i in r]
    turned = direction and len(tt) > 1 and (tt[0] < tt[1]) != (direction == "increasing")
    if whole and len(r) < len(tt):
        v = v + [[None] * NY] * (len(tt) - len(r))
        w = w + [None] * (len(tt) - len(r))
    if turned:
        tt, v, w = tt[::-1], v[::-1], w[::-1]
    if k == 2 and not whole:            # (netCDF reads such variables wrongly if they have fewer records than others)
        v = [[row[j] for row in v] for j in range(NY)]
    return {"t": tt, "y": y, "v": v, "w": w}, turned


def plain(x):
    return numpy.ma.asarray(x).tolist()


def close(x, y):
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    return x == y if x is None or y is None else abs(x - y) < 1e-9


def job(item):
    """every direction, limitedness and chunking of one slice and kind of definition"""
    d, s, r, k, chunkings = item
    work = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "part.nc")
    n, fails = 0, []
    for unlimited, whole in product(((), ("t",)), (False, True)):
        for direction in (None, "increasing", "decreasing"):
            if direction and not whole and len(r) == 1:
                continue                    # a single value has both directions
            want, turned = expected(s, r, k, whole, direction)
            if whole and (k == 4 or k == 1 and len(r) == NT):
                continue                    # 'a' is read in two ways
            refused = whole and len(r) < NT and (not unlimited or turned)
            infiles = inputs(work, unlimited, (len(r) + k) % 2)
            ds = spec(out, s, k, whole, direction)
            for ch in chunkings:
                if k == 1 and "Y" in dict(ch):
                    continue                # summed over
                n += 1
                key = "t%s%s, %s%s, chunks %s" % ("" if whole else "[%s]" % text(s), " unlimited" if unlimited else "", ds["v"]["definition"],
                                                  ", direction " + direction if direction else "", dict(ch))
                try:
                    e2e.run(infiles, ds, chunks=OrderedDict(ch))
                    rec = e2e.read_file(out)
                    got = {v: plain(rec["vars"][v]["values"]) for v in rec["vars"]}
                    diff = None if set(got) == set(want) and all(close(want[v], got[v]) for v in want) else "holds %s instead of %s" % (got, want)
                    if refused:
                        diff = "not refused: " + str(got)
                    elif diff is None and rec["dims"]["T"] != (len(want["t"]), bool(unlimited)):
                        diff = "dimension %s" % (rec["dims"]["T"],)
                except Exception as err:
                    diff = None if refused else "failed: %r" % err
                    if refused and os.path.exists(out):
                        diff = "refused but wrote the file"
                if diff and len(fails) < 4:
                    fails.append((key, diff))
                if os.path.exists(out):
                    os.unlink(out)
    return n, n, fails, [{"definition": ds["v"]["definition"], "chunkings": len(chunkings)}]


def jobs(d, thorough, chunked):
    chs = [()]
    if chunked:
        chs += [(("T", i),) for i in (range(1, NT + 2) if thorough else (1, 2, 3))] + [(("Y", 2),), (("T", 2), ("Y", 1)), (("Y", 2), ("T", 3))]
    for i, (s, r) in enumerate(slices()):
        for k in range(len(DEFS)):
            if thorough or not chunked or (i + k) % 5 in (0, 2):
                yield (d, s, r, k, chs)
