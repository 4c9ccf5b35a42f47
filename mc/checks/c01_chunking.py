"""C01: output files do not depend on how the work is cut into chunks."""
import os
from collections import OrderedDict
from itertools import permutations, product

import numpy

from mc import e2e, par, parts
from mc.model import UNITS, Arr, binop

PID = "C01"
LEVEL = "exploration"
RULE = ("data sets with 4 output dimensions (unlimited time, inverted coordinates on every subset of the axes, transposed "
        "and partially dimensioned variables, characters, masked, range-checked, scalar and data-defined variables) x "
        "every assignment of a chunk size 1..n+1 (or none) to every dimension, and every order of naming them; output "
        "compared with the unchunked output bit for bit and that with the reference values; data sets reading every part of a "
        "dimension (all slices, limited or not, turned or not, alone or beside the whole) with every chunk size; chunking over reduced or "
        "unknown dimensions and non-positive sizes must be refused; non-trivial = more than one chunk")

SZ = {"time": 3, "lat": 3, "lon": 2, "lev": 2, "nb": 2, "sl": 3}
MAP = {"time": "t", "lat": "y", "lon": "x", "lev": "z", "nb": "bnds", "sl": "str"}
DIMS = ("t", "y", "x", "z")
SIZE = {"t": 3, "y": 3, "x": 2, "z": 2}


def fill(dims, seed, masked=(), lo=-50.):
    n = int(numpy.prod([SZ[d] for d in dims]))
    return Arr.make(dims, SZ, [lo + ((i * 37 + seed * 11) % 101) for i in range(n)], UNITS["m"], None, masked)


IN = {
    "T": (fill(("time", "lat", "lon"), 1, (2, 7)), "m", "f4"),
    "P": (fill(("time", "lev", "lat", "lon"), 2, (5,)), "m", "f8"),
    "A": (fill(("lat", "lon"), 3), "m", "f8"),
    "Q": (fill(("lev", "lat"), 4), "m", "f8"),
    "time": (Arr.make(("time",), SZ, [10, 11, 12.5], UNITS["1"]), "days since 2000-01-01", "f8"),
    "lat": (Arr.make(("lat",), SZ, [-45, 0, 45], UNITS["1"]), "1", "f8"),
    "lon": (Arr.make(("lon",), SZ, [100, 200], UNITS["1"]), "1", "f8"),
    "lev": (Arr.make(("lev",), SZ, [1000, 500], UNITS["m"]), "m", "f8"),
    "tb": (Arr.make(("time", "nb"), SZ, [9, 10, 10, 11, 11, 12], UNITS["1"]), "days since 2000-01-01", "f8"),
    "yb": (Arr.make(("lat", "nb"), SZ, [-90, -30, -30, 30, 30, 90], UNITS["1"]), "1", "f8"),
    "s": (Arr.make((), SZ, [2.5], UNITS["1"]), "1", "f8"),
}
NAMES = ["ab", "cde"]


def inputs(d):
    vs = {}
    for n, (m, u, t) in IN.items():
        at = {"units": u}
        if "since" in u:
            at["calendar"] = "noleap"
        vs[n] = e2e.Var(m.dims, e2e.arr_values(m), at, t, -1e30 if n in ("T", "P") else None)
    vs["names"] = e2e.Var(("lev", "sl"), [list(x.ljust(3, "\0")) for x in NAMES], {}, "S1")
    keys = list(vs)
    one = [k for k in keys if k in ("T", "time", "lat", "lon", "tb")]
    p1, p2 = os.path.join(d, "i1.nc"), os.path.join(d, "i2.nc")
    e2e.write_file(p1, {k: vs[k] for k in one}, SZ, unlimited=("time",))
    e2e.write_file(p2, {k: vs[k] for k in keys if k not in one}, SZ, unlimited=("time",))
    return [p1, p2]


def clampmask(m, lo, hi):
    return m.map(lambda v: v if (lo is None or v >= lo) and (hi is None or v <= hi) else None)


def spec(d, inv, kind):
    """returns (dsdict, {file: {variable: model}}); inv: set of output dimensions to be inverted"""
    V = {n: IN[n][0].rename(MAP) for n in IN}
    ds, want = OrderedDict(), OrderedDict()

    def coord(name, dim, axis, src, rising):
        want[name] = V[src].copy()
        way = ("decreasing" if rising else "increasing") if dim in inv else ("increasing" if rising else "decreasing")
        ds[name] = e2e.outvar([dim], src, attrs={"axis": axis, "direction": way, "units": IN[src][1]})

    coord("lat", "y", "Y", "lat", True)
    coord("lon", "x", "X", "lon", True)
    coord("lev", "z", "Z", "lev", False)
    ds["time"] = e2e.outvar(["t"], "time", attrs={"axis": "T", "units": "days since 2000-01-01", "calendar": "noleap"})
    want["time"] = V["time"]
    if kind in ("wide", "narrow"):
        ds["time_b"] = e2e.outvar(["t", "bnds"], "tb", attrs={"units": "days since 2000-01-01", "calendar": "noleap"})
        want["time_b"] = V["tb"]
        ds["lat_b"] = e2e.outvar(["y", "bnds"], "yb", attrs={"units": "1"})
        want["lat_b"] = V["yb"]
        ds["time"]["attributes"]["bounds"] = "time_b"
        ds["lat"]["attributes"]["bounds"] = "lat_b"
    f1, f2 = os.path.join(d, "o1.nc"), os.path.join(d, "o2.nc")
    files = {}
    if kind == "wide":
        ds["zg"] = e2e.outvar(["t", "z", "y", "x"], "P + T*s", attrs={"units": "m"}, filename=f1, metavars=["sc", "lab", "ca", "q"])
        want["zg"] = binop("+", V["P"], binop("*", V["T"], V["s"])).transpose(("t", "z", "y", "x"))
        ds["q"] = e2e.outvar(["y", "z"], "-Q", attrs={"units": "m"})
        want["q"] = V["Q"].map(lambda v: -v).transpose(("y", "z"))
        ds["lab"] = e2e.outvar(["z", "str"], "names", "char")
        ds["ca"] = e2e.outvar(["y"], [7., 8., 9.], attrs={"units": "1"})
        want["ca"] = Arr.make(("y",), {"y": 3}, [7, 8, 9], UNITS["1"])
        files[f1] = ["lat", "lon", "lev", "time", "time_b", "lat_b", "zg", "q", "ca", "sc", "lab"]
    else:
        ds["tas"] = e2e.outvar(["x", "t", "y"], "limit(T, above=40)*s" if kind == "narrow" else "T", "float",
                               {"units": "m", "valid_min": -45.0, "valid_max": 40.0}, filename=f1, metavars=["sc", "q"])
        t = V["T"]
        if kind == "narrow":
            t = binop("*", t.map(lambda v: min(v, 40.)), V["s"])
        want["tas"] = clampmask(t.transpose(("x", "t", "y")), -45., 40.)
        ds["q"] = e2e.outvar(["z", "y"], "Q", attrs={"units": "m", "valid_max": 0.0})
        want["q"] = clampmask(V["Q"], None, 0.)
        ds["ta2"] = e2e.outvar(["t", "y"], "T[:, :, 1] + A[:, 0]", attrs={"units": "m"}, filename=f2, metavars=["sc"])
        want["ta2"] = binop("+", V["T"].take(x=1), V["A"].take(x=0))
        files[f1] = ["lat", "lon", "lev", "time", "tas", "q", "sc"] + (["time_b", "lat_b"] if kind == "narrow" else [])
        files[f2] = ["lat", "time", "ta2", "sc"] + (["time_b", "lat_b"] if kind == "narrow" else [])
    ds["sc"] = e2e.outvar([], "s*2", attrs={"units": "1"})
    want["sc"] = V["s"].map(lambda v: v * 2)
    # every variable of a file having an inverted dimension is inverted along it
    res = {}
    for f, names in files.items():
        active = set(d for d in inv if {"y": "lat", "x": "lon", "z": "lev"}[d] in names)
        res[f] = {}
        for n in names:
            if n == "lab":
                res[f][n] = [x for x in (NAMES[::-1] if "z" in active else NAMES)]
                continue
            m = want[n]
            res[f][n] = m.take(**{x: slice(None, None, -1) for x in active if x in m.dims})
    return ds, res


def raw(rec):
    return [(n, v["dims"], v["dtype"], repr(sorted(v["attrs"].items(), key=str)), numpy.asarray(v["raw"]).tobytes()) for n, v in sorted(rec["vars"].items())], sorted(rec["dims"].items())


def run(item):
    d, inv, kind, chunkings = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    infiles = inputs(work)
    ds, want = spec(work, inv, kind)
    n = nt = 0
    fails = []
    where = "%s inverted=%s" % (kind, sorted(inv))
    e2e.run(infiles, ds)
    ref = {}
    for f, vs in want.items():
        rec = e2e.read_file(f)
        if set(rec["vars"]) != set(vs):
            fails.append((where + " files", "%s holds variables %s instead of %s" % (os.path.basename(f), sorted(rec["vars"]), sorted(vs))))
            continue
        for v, m in vs.items():
            if v == "lab":
                got = [b"".join(r).rstrip(b"\0 ").decode() for r in rec["vars"][v]["raw"]]
                diff = None if got == m else "strings %r instead of %r" % (got, m)
            else:
                diff = e2e.compare(rec["vars"][v], m, 2e-6 if v == "tas" else 1e-9)
            if diff:
                fails.append((where + " unchunked " + v, diff))
        if not rec["dims"]["t"][1]:
            fails.append((where + " unlimited", "the unlimited time dimension is not unlimited in the output"))
        ref[f] = raw(rec)
        os.unlink(f)
    n += 1
    if fails:
        return n, nt, fails, []
    for ch in chunkings:
        n += 1
        nt += any(c < SIZE[x] for x, c in ch)
        key = "%s chunks=%s" % (where, ch)
        try:
            e2e.run(infiles, ds, chunks=OrderedDict(ch))
        except Exception as err:
            fails.append((key, "failed: %r" % err))
            continue
        for f in want:
            got = raw(e2e.read_file(f))
            if got != ref[f] and len(fails) < 10:
                bad = [a[0] for a, b in zip(got[0], ref[f][0]) if a != b]
                fails.append((key, "output of %s differs from the unchunked one in %s" % (os.path.basename(f), bad or "the dimensions")))
            os.unlink(f)
    return n, nt, fails, [{"inverted": sorted(inv), "dataset": kind, "chunkings": len(chunkings)}]


def refusals(item):
    d, which, owner = item
    work = os.path.join(d, "r%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    infiles = inputs(work)
    fails, n = [], 0
    out = os.path.join(work, "r.nc")
    reds = [("sum(P, 'lev')", ("t", "y", "x"), {"z"}), ("mean(P, 'lev', 'lat')", ("t", "x"), {"z", "y"}),
            ("max(T, 'time') * s", ("y", "x"), {"t"}), ("A + min(T, 'time')", ("y", "x"), {"t"}),
            ("limit(up(-sum(T, 'lon')), above=3)", ("t", "y"), {"x"}), ("T - mean(A, 'lon')", ("t", "y", "x"), {"x"}),
            ("chdims(sum(P,'time','lon'), 'lev', 'lat')", ("z", "y"), {"t", "x"}),
            ("chdims(Q - mean(Q, 'lat'), 'lev', 'time')", ("z", "t"), {"y", "t"}),
            ("up(chdims(-chdims(Q/sum(Q, 'lat'), 'lev', 'time'), 'lev', 'lat'))", ("z", "y"), {"y", "t"}),
            ("mean(chdims(Q, 'lev', 'time'), 'time') * s", ("z",), {"t"}),
            ("-limit(data=mean(T, 'lon'), above=3)", ("t", "y"), {"x"}), ("sqrt(data=sum(P*P, 'lev'))", ("t", "y", "x"), {"z"}),
            ("T + limit(data=0*limit(below=0, data=sum(T, 'lat', 'lon')))", ("t", "y", "x"), {"x", "y"})]
    for text, dims, summed in reds[which::4]:
        ds = OrderedDict()
        for n_, d_, s_ in (("lat", "y", "lat"), ("lon", "x", "lon"), ("lev", "z", "lev"), ("time", "t", "time")):
            ds[n_] = e2e.outvar([d_], s_)
        if owner:
            ds["v"] = e2e.outvar(dims, text, filename=out, metavars=["lat", "lon", "lev", "time"])
        else:       # the variable is in another one's file
            ds["v"] = e2e.outvar(dims, text)
            ds["o"] = e2e.outvar(("t", "z", "y", "x"), "P", filename=out, metavars=["v"] if len(dims) % 2 else [])
            text += " beside P"
        e2e.run(infiles, ds)
        ref = raw(e2e.read_file(out))
        os.unlink(out)
        for k in range(1, 16):
            chosen = [x for i, x in enumerate(DIMS) if k >> i & 1]
            for size in (1, 2):
                n += 1
                bad = [x for x in chosen if x in summed]
                for debug in (False, True):
                    ch = OrderedDict((x, size) for x in chosen)
                    key = "%s chunk %s size %d%s" % (text, chosen, size, " debug" if debug else "")
                    try:
                        e2e.run(infiles, ds, chunks=ch, debug=debug)
                        res = "ok"
                    except ValueError:
                        res = "refused"
                    except Exception as err:
                        res = repr(err)
                    want = "refused" if bad and not debug else "ok"
                    if res != want:
                        fails.append((key, "%s instead of %s" % (res, want)))
                    if os.path.exists(out):
                        if res == "ok" and raw(e2e.read_file(out)) != ref:
                            fails.append((key, "differs from the unchunked output"))
                        if res != "ok":
                            fails.append((key, "refused but wrote the file"))
                        os.unlink(out)
        for bad in ({"lat": 1}, {"nope": 2}, {"x": 0}, {"x": -1}, {"y": -5, "x": 1}, {"x": 1.5}, {"x": "1"}, {"x": None}):
            n += 1
            if any(x in summed for x in bad):
                continue
            try:
                e2e.run(infiles, ds, chunks=dict(bad))
                fails.append(("%s chunks %r" % (text, bad), "accepted"))
            except (ValueError, TypeError):
                pass
            except Exception as err:
                fails.append(("%s chunks %r" % (text, bad), "failed with %r" % err))
            if os.path.exists(out):
                fails.append(("%s chunks %r" % (text, bad), "an output file was written"))
                os.unlink(out)
    return n, n, fails, []


def chunkings(dims, top=1):
    out = []
    for sizes in product(*[[None] + list(range(1, SIZE[d] + 1 + top)) for d in dims]):
        ch = tuple((d, s) for d, s in zip(dims, sizes) if s is not None)
        if ch:
            out.append(ch)
    return out


LONG = {"t": 300, "y": 70, "x": 3}


def long_run(item):
    """the same with many steps: the contents of the files against the input, for chunks of many sizes"""
    d, inv, chunkings = item
    work = os.path.join(d, "l%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp, out = os.path.join(work, "in.nc"), os.path.join(work, "out.nc")
    T = (numpy.arange(300 * 70 * 3) * 7919 % 100003 / 8.).reshape(300, 70, 3)
    mask = (numpy.arange(T.size) % 37 == 5).reshape(T.shape)
    tv, yv = numpy.arange(300) + 0.5, numpy.arange(70) * 2.5 - 86.
    e2e.write_file(inp, {"T": e2e.Var(("t", "y", "x"), numpy.where(mask, -1e30, T), {"units": "m"}, "f8", -1e30), "y": e2e.Var(("y",), yv, {"units": "1"}),
                         "W": e2e.Var(("y", "t"), T[:, :, 1].T, {"units": "m"}),
                         "time": e2e.Var(("t",), tv, {"units": "days since 2000-01-01", "calendar": "noleap"})}, LONG, unlimited=("t",))
    ds = OrderedDict()
    ds["time"] = e2e.outvar(["T"], "time", attrs={"axis": "T", "units": "days since 2000-01-01", "calendar": "noleap"})
    ds["Y"] = e2e.outvar(["Y"], "y", attrs={"axis": "Y", "direction": "decreasing" if inv else "increasing", "units": "1"})
    ds["V"] = e2e.outvar(["X", "T", "Y"], "T*2", attrs={"units": "m"}, filename=out, metavars=["w", "Y", "time"])
    ds["w"] = e2e.outvar(["Y", "T"], "W - T[:, :, 0]", attrs={"units": "m"})
    w = slice(None, None, -1) if inv else slice(None)
    with_mask = numpy.ma.masked_array(T, mask)
    want = {"V": (2 * with_mask)[:, w].transpose(2, 0, 1), "w": (with_mask[:, :, 1].data - with_mask[:, :, 0])[:, w].T, "time": tv, "Y": yv[w]}
    fails, n = [], 0
    for ch in chunkings:
        n += 1
        key = "long inverted=%s chunks=%s" % (inv, ch)
        try:
            e2e.run([inp], ds, chunks=OrderedDict(ch))
            got = e2e.read_file(out)["vars"]
            for v, a in want.items():
                m = numpy.ma.getmaskarray(numpy.ma.asarray(a))
                g = numpy.ma.masked_array(got[v]["raw"], numpy.abs(got[v]["raw"]) > 1e19)
                if g.shape != a.shape or not numpy.array_equal(numpy.ma.getmaskarray(g), m) or not numpy.allclose(g.filled(0), numpy.ma.filled(a, 0), rtol=1e-9, atol=0):
                    fails.append((key, "%s is not what the input and its definition give" % v))
            os.unlink(out)
        except Exception as err:
            fails.append((key, "failed: %r" % err))
        if len(fails) > 5:
            break
    return n, n, fails, [{"long": dict(LONG), "chunkings": len(chunkings)}]


def explore(chk):
    d = chk.scratch()
    work = []
    ts, ys = (1, 7, 64, 100, 127, 128, 149, 150, 255, 256, 299, 300, 301, 1000), (1, 9, 35, 64, 69, 70, 71)
    longs = [()] + [(("T", a),) for a in ts] + [(("Y", b),) for b in ys] + [(("T", a), ("Y", b)) for a in ts[2:] for b in ys[1:]]
    longs += [(("Y", b), ("T", a)) for a in ts[3:8:2] for b in ys[1::2]] + [(("X", 2), ("T", 128)), (("X", 1), ("Y", 64), ("T", 150))]
    work += [("long", (d, inv, longs[i::4])) for inv in (False, True) for i in range(4)]
    for kind in ("wide", "narrow", "plain"):
        invs = [set(), {"y"}, {"x"}, {"z"}, {"y", "z"}, {"y", "x"}, {"x", "z"}, {"x", "y", "z"}]
        if not chk.thorough:
            invs = {"wide": invs[::2] + [invs[7]], "narrow": [set(), {"y"}, {"x", "y", "z"}], "plain": [{"x"}]}[kind]
        for inv in invs:
            if chk.thorough:
                chs = []
                for c in chunkings(DIMS):
                    chs += list(permutations(c)) if len(c) < 4 else [c, c[::-1]]
            else:
                chs = chunkings(DIMS, 0) + [c[::-1] for c in chunkings(DIMS, 0) if len(c) == 2] + [((x, SIZE[x] + 1),) for x in DIMS]
            work += [("run", (d, inv, kind, chs[i::6])) for i in range(6)]
    work = [("ref", (d, i, owner)) for i in range(4) for owner in (True, False)] + work
    work += [("part", j) for j in parts.jobs(d, chk.thorough, True)]
    for st, res in par.pmap(dispatch, work):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, nt, fails, samples = res
        chk.bulk(n, nt, samples)
        for key, w in fails:
            chk.fail(key, w, {"case": key})


def dispatch(w):
    return {"run": run, "ref": refusals, "long": long_run, "part": parts.job}[w[0]](w[1])
