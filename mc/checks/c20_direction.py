"""C20: coordinates are written in their declared direction and stay paired with the data."""
import os
from collections import OrderedDict
from itertools import product

import numpy

from mc import e2e, par

PID = "C20"
LEVEL = "exploration"
RULE = ("coordinate values (rising, falling, neither, constant, single, long ones turning at one place) x declared direction (none, increasing, decreasing, unknown) x "
        "axis attribute or none x definition of the coordinate (as is, negated, scaled, converted, sign convention changed, given as data) for one and "
        "two dimensions x a second file without the coordinate x chunk sizes; in the files written every datum must stand at the coordinate "
        "values it had in the input, the coordinate must run in the declared direction, or the write is refused; "
        "non-trivial = a direction is declared")

VALS = {"rise": [1., 2., 4.], "fall": [4., 2., 1.], "bump": [1., 4., 2.], "flat": [3., 3., 3.], "one": [5.], "step": [1., 2., 2.],
        "long": [k * (k + 1) / 2. + 1 for k in range(150)], "turn": [200. - k if k != 120 else 81. for k in range(150)], "late": [k + 1. for k in range(299)] + [298.5]}
# name -> (definition, function of the input value, extra attributes)
DEFS = {"same": ("c", lambda v: v, {}), "neg": ("-c", lambda v: -v, {}), "lin": ("5 - 2*rmunits(c)", lambda v: 5 - 2 * v, {"units": "1"}),
        "cm": ("c", lambda v: 100 * v, {"units": "cm"}), "pos": ("up(c)", lambda v: -v, {"positive": "down"}), "data": (None, lambda v: v, {})}
DIRS = [None, "increasing", "decreasing", "sideways"]


def way(vals):
    d = [b - a for a, b in zip(vals, vals[1:])]
    return "increasing" if all(x > 0 for x in d) else "decreasing" if all(x < 0 for x in d) else None


def job(item):
    from pyconform.flownodes import ValidationWarning  # noqa: F401  (import check)

    d, cases = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    fails, n, nt = [], 0, 0
    for vkey, dkey, way1, axis, xdir, chunks in cases:
        n += 1
        nt += way1 is not None
        cv = VALS[vkey]
        ny = len(cv)
        text, fn, extra = DEFS[dkey]
        xv = [10., 20.]
        sizes = {"y": ny, "x": 2, "t": 2}
        data = numpy.arange(ny * 2 * 2).reshape(2, ny, 2) * 1.5 + 1
        one = numpy.arange(ny) * 7. + 2
        inp = os.path.join(work, "in.nc")
        e2e.write_file(inp, {"c": e2e.Var(("y",), cv, {"units": "m"}), "x": e2e.Var(("x",), xv, {"units": "1"}),
                             "v": e2e.Var(("t", "y", "x"), data, {"units": "1"}), "w": e2e.Var(("y",), one, {"units": "1"})}, sizes)
        o1, o2 = os.path.join(work, "o1.nc"), os.path.join(work, "o2.nc")
        for o in (o1, o2):
            if os.path.exists(o):
                os.unlink(o)
        ds = OrderedDict()
        at = dict({"units": "m"}, **extra)
        if dkey == "data":
            at["units"] = "1"
        if way1:
            at["direction"] = way1
        if axis:
            at["axis"] = "Y"
        xat = {"units": "1", "axis": "X"}
        if xdir:
            xat["direction"] = xdir
        dst = [fn(v) for v in cv]
        ds["V"] = e2e.outvar(["T", "Y", "X"], "v", attrs={"units": "1"}, filename=o1, metavars=["Y", "X", "W", "VT"])
        ds["Y"] = e2e.outvar(["Y"], text if text else dst, attrs=at)
        ds["X"] = e2e.outvar(["X"], "x", attrs=xat)
        ds["W"] = e2e.outvar(["Y"], "w", attrs={"units": "1"})
        ds["VT"] = e2e.outvar(["X", "Y", "T"], "v*2", attrs={"units": "1"})
        # an independent file in which dimension Y has no coordinate
        ds["Z"] = e2e.outvar(["T", "X"], "v[:, 0]", attrs={"units": "1"}, filename=o2)
        key = "%s %s direction=%s axis=%s x=%s chunks=%s" % (vkey, dkey, way1, axis, xdir, chunks)
        refuse = axis and way1 and (way1 == "sideways" or (way(dst) is None))
        try:
            e2e.run([inp], ds, chunks=OrderedDict(chunks))
            if refuse:
                fails.append((key, "accepted"))
                continue
        except (ValueError, RuntimeError) as err:
            if not refuse:
                fails.append((key, "refused: %r" % err))
            elif os.path.exists(o1):
                fails.append((key, "refused but wrote the file"))
            continue
        except Exception as err:
            fails.append((key, "failed: %r" % err))
            continue
        r = e2e.read_file(o1)["vars"]
        ys, xs = r["Y"]["raw"].tolist(), r["X"]["raw"].tolist()
        if axis and way1 and ny > 1 and way(ys) != way1:
            fails.append((key, "coordinate runs %s: %s" % (way(ys), ys)))
        if not (axis and way1) and not numpy.allclose(ys, dst):
            fails.append((key, "coordinate %s instead of %s" % (ys, dst)))
        if xdir and way(xs) != xdir:
            fails.append((key, "x runs %s" % xs))
        if not xdir and xs != xv:
            fails.append((key, "x is %s" % xs))
        # pairing: the permutation of each axis is the one of its coordinate
        flip_y = not numpy.allclose(ys, dst)
        if flip_y and not numpy.allclose(ys[::-1], dst):
            fails.append((key, "coordinate values %s instead of %s in some order" % (ys, dst)))
        want = data[:, ::-1, :] if flip_y else data
        flip_x = xs != xv
        want = want[:, :, ::-1] if flip_x else want
        for name, got, w in (("V", r["V"]["raw"], want), ("VT", r["VT"]["raw"], 2 * want.transpose(2, 1, 0)), ("W", r["W"]["raw"], one[::-1] if flip_y else one)):
            if got.shape != w.shape or not numpy.allclose(got, w):
                fails.append((key, "%s is %s instead of %s at coordinates %s" % (name, got.tolist(), w.tolist(), ys)))
        # automatic metadata: X is a coordinate of the second file as well
        z = e2e.read_file(o2)["vars"]
        zx = z["X"]["raw"].tolist() if "X" in z else xv
        wz = data[:, 0, :][:, ::-1] if zx != xv else data[:, 0, :]
        if xdir and way(zx) != xdir or not numpy.allclose(z["Z"]["raw"], wz):
            fails.append((key, "second file: %s at %s" % (z["Z"]["raw"].tolist(), zx)))
        for o in (r,):
            for v in o.values():
                if "direction" in v["attrs"]:
                    fails.append((key, "the direction request was written as an attribute"))
        if len(fails) > 20:
            break
    return n, nt, fails, [{"values": vkey, "definition": dkey, "direction": way1}]


def explore(chk):
    d = chk.scratch()
    cases = []
    for vkey, dkey, w, axis, xdir in product(VALS, DEFS, DIRS, (True, False), (None, "increasing", "decreasing")):
        chunkings = [(), (("Y", 1),), (("Y", 2),), (("X", 1), ("Y", 2))]
        if dkey == "data":
            chunkings = [(), (("X", 1),), (("T", 1),)]
        if not chk.thorough:
            if xdir == "increasing" or (not axis and xdir):
                continue
            if dkey in ("lin", "cm") and vkey in ("flat", "step") or w == "sideways" and xdir:
                continue
            chunkings = chunkings[:1] + chunkings[2:3] if not xdir else [chunkings[-1]]
        for ch in chunkings:
            if vkey in ("long", "turn", "late"):
                if dkey not in ("same", "data", "neg") or xdir == "increasing":
                    continue
                ch = tuple((a, b if a != "Y" else 64 * b) for a, b in ch)
            if vkey == "one" and dict(ch).get("Y") == 2:
                ch = (("Y", 1),)
            cases.append((vkey, dkey, w, axis, xdir, ch))
    work = [(d, cases[i::32]) for i in range(32)]
    for st, res in par.pmap(job, work):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, nt, fails, samples = res
        chk.bulk(n, nt, samples)
        for k, w in fails:
            chk.fail(k, w, {"case": k})
