"""C31: relabelling units, limiting, roots and sign conventions do to numbers and data exactly what their names say."""
import math
from itertools import product

import numpy

from mc import par
from mc.e2e import quiet

PID = "C31"
LEVEL = "exploration"
RULE = ("chunits: data (plain, computed, reference times of three calendars, numbers) x units (none, texts, reference times, a variable, invalid) x reference date x "
        "calendar (none, given, invalid); limit: data types (doubles, integers, unsigned, with missing values, numbers) x every pair of lower and upper bounds "
        "(none, whole, fractional, negative, beyond the type); sqrt: units x values; up, down: every convention x every sequence of up to four calls; "
        "everything nested in everything; values, units, convention, dimensions, probe, repetition and the untouched operand compared with a model; non-trivial = something changes")

TIME_UNITS = {"days": "days", "hours": "hours", "seconds": "seconds"}
CALS = {"noleap": "365_day", "360_day": "360_day", "standard": "standard", "gregorian": "standard", "365_day": "365_day"}


def leaf(values, unit, cal=None, pos=None, mask=None, dtype="f8", name="a"):
    from cf_units import Unit
    from pyconform.flownodes import DataNode
    from pyconform.physarray import PhysArray
    v = numpy.ma.array(values, dtype=dtype)
    if mask is not None:
        v[mask] = numpy.ma.masked
    dims = ("x",) if v.ndim else ()
    return DataNode(PhysArray(v, name=name, units=Unit(unit, calendar=cal), dimensions=dims, positive=pos))


def call(f, *args, **kw):
    from pyconform.flownodes import EvalNode
    from pyconform.functions import find_function
    return EvalNode(f, find_function(f), *args, **kw)


def op(sign, *args):
    from pyconform.flownodes import EvalNode
    from pyconform.functions import find_operator
    return EvalNode(sign, find_operator(sign, len(args)), *args)


def listed(p):
    m = numpy.ma.getmaskarray(numpy.ma.asarray(p)).ravel()
    return [None if k else float(v) for v, k in zip(numpy.ma.getdata(numpy.ma.asarray(p)).ravel(), m)]


def same(a, b):
    return len(a) == len(b) and all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-12 * max(1, abs(y))) for x, y in zip(a, b))


def outcome(make):
    """(value, probe) or None if refused"""
    with quiet():
        try:
            node = make()
            return node, node[...] if True else None, node[None]
        except (TypeError, ValueError, KeyError) as err:
            return None, "refused", repr(err)
        except Exception as err:
            return None, "failed", repr(err)


# ---------------------------------------------------------------------------- chunits

def split(u):
    a = u.split("since")
    return (a[0].strip(), a[1].strip() if len(a) > 1 else None)


def chunits_data():
    m, s = lambda: leaf([1., 2., 4.], "m", mask=[1]), lambda: leaf([2., 3., 5.], "s", name="b")
    out = []
    for u in ("m", "1", "degC", "%", "days"):
        out.append(("[%s]" % u, (u, None, None), lambda u=u: leaf([1., 2., 4.], u, pos="up", mask=[1]), [1., None, 4.], "up"))
    for c in ("noleap", "360_day", "standard"):
        out.append(("time %s" % c, ("days", "2000-01-01", c), lambda c=c: leaf([0., 31., 60.], "days since 2000-01-01", c), [0., 31., 60.], None))
    out.append(("hours", ("hours", "1990-06-01 12:00:00", "noleap"), lambda: leaf([0., 31., 60.], "hours since 1990-06-01 12:00:00", "noleap"), [0., 31., 60.], None))
    out.append(("a*b", ("m s", None, None), lambda: op("*", m(), s()), [2., None, 20.], None))
    out.append(("a/b", ("m s-1", None, None), lambda: op("/", m(), s()), [.5, None, .8], None))
    out.append(("a**2", ("m2", None, None), lambda: op("**", m(), 2), [1., None, 16.], None))
    out.append(("-a", ("m", None, None), lambda: op("-", m()), [-1., None, -4.], None))
    out.append(("mean", ("m", None, None), lambda: call("mean", m(), "x"), [2.5], None))
    out.append(("scalar", ("m", None, None), lambda: leaf(3., "m", pos="down"), [3.], "down"))
    out.append(("number 3.5", ("1", None, None), lambda: 3.5, [3.5], None))
    out.append(("number 3", ("1", None, None), lambda: 3, [3.], None))
    return out


UNITS = [None, "m", "km", "1", "degC", "hours", "seconds", "hours since 1980-02-01", "days since 1999-12-31 06:00:00", "junk", ("var", "kg", None, None), ("var", "days", "1970-01-01", "360_day"), ""]
REFS = [None, "1999-03-01", "2001-01-01 12:00:00", 7]
CALMENU = [None, "noleap", "360_day", "standard", "junk", 3]


def chunits_job(item):
    from cf_units import Unit
    what, have, make, values, pos = chunits_data()[item]
    fails, n, nt = [], 0, 0
    for units, ref, cal in product(UNITS, REFS, CALMENU):
        key = "chunits(%s, units=%r, refdate=%r, calendar=%r)" % (what, units, ref, cal)
        n += 1
        # model
        u, r, c = have
        if isinstance(units, tuple):
            u, r2, c2 = units[1:]
        elif units is not None:
            (u, r2), c2 = split(units), None
        else:
            r2, c2 = None, None
        if r2 is not None:
            c2 = c2 or "standard"
        r = ref if ref is not None else r2 if r2 is not None else r
        c = cal if cal is not None else c2 if c2 is not None else c
        want = None
        bad = u == "junk" or not isinstance(r, (str, type(None))) or not isinstance(c, (str, type(None)))
        if not bad:
            if r is None:
                if c != "junk":
                    want = Unit(u)
            elif u in TIME_UNITS and c != "junk":
                want = Unit("%s since %s" % (u, r), calendar=c or "standard")
        if r is None and c == "junk" or (u == "" and r is None):
            continue  # a calendar for what is no time, empty units: not claimed
        nt += (u, r, c) != have
        with quiet():
            try:
                data = make()
                kw = {}
                if units is not None:
                    kw["units"] = leaf([1.], "%s since %s" % units[1:3] if units[2] else units[1], units[3], name="w") if isinstance(units, tuple) else units
                if ref is not None:
                    kw["refdate"] = ref
                if cal is not None:
                    kw["calendar"] = cal
                node = call("chunits", data, **kw)
                got, again, probe = node[...], node[...], node[None]
                part = node[{"x": slice(1, None)}] if len(values) > 1 else None
            except Exception as err:
                if want is not None:
                    fails.append((key, "refused: %r" % err))
                continue
        if want is None:
            fails.append((key, "accepted: units %s" % got.units))
            continue
        for w, g, vals in (("value", got, values), ("value again", again, values), ("part", part, values[1:])):
            if g is None:
                continue
            if not same(listed(g), vals):
                fails.append((key, "%s %r instead of %r" % (w, listed(g), vals)))
            if g.units != want or (want.is_time_reference() and CALS.get(g.units.calendar) != CALS.get(want.calendar)):
                fails.append((key, "%s has units %s %s instead of %s %s" % (w, g.units, g.units.calendar, want, want.calendar)))
            if g.positive != pos or g.dimensions != (("x",) if len(values) > 1 else ()):
                fails.append((key, "%s is directed %s along %s" % (w, g.positive, g.dimensions)))
        if probe.units != want or probe.positive != pos or probe.dimensions != got.dimensions or (len(values) > 1 and probe.size):
            fails.append((key, "probe %r" % (probe,)))
        if not isinstance(data, (int, float)) and (not same(listed(data[...]), values) or data[...].positive != pos):
            fails.append((key, "the operand was changed"))
    return n, nt, fails


# ---------------------------------------------------------------------------- limit

BOUNDS = [None, 0, 2, -3, 2.5, -2.5, 1e3, -1e3, 0.0, 7]
LIMIT = [("f8", [-5., 1.5, 2.5, 9.], [3]), ("f8", [-5., 1.5, 2.5, 9.], None), ("f4", [-5., 1.5, 2.5, 9.], [0, 1]), ("i4", [-5, 2, 3, 9], None), ("i2", [-5, 2, -3, 9], [0]),
         ("i1", [-5, 2, -3, 100], None), ("u1", [0, 2, 3, 200], None), ("i8", [-5, 2, 3, 9], [0, 1, 2, 3]), ("f8", 4.5, None), ("i4", 4, None),
         ("number", 4.5, None), ("number", -6, None), ("number", 3, None)]


def fits(bound, dtype):
    return bound == int(bound) and numpy.iinfo(dtype).min <= bound <= numpy.iinfo(dtype).max if dtype.kind in "iu" else True


def limit_job(item):
    kind, values, mask = LIMIT[item]
    fails, n, nt = [], 0, 0
    flat = numpy.ravel(values).tolist()
    have = [None if mask and i in mask else float(v) for i, v in enumerate(flat)]
    for lo, hi in product(BOUNDS, repeat=2):
        if lo is not None and hi is not None and lo > hi:
            continue
        for pos in (None, "up", "down") if kind != "number" else (None,):
            n += 1
            key = "limit(%s %r masked %r, below=%r, above=%r) %s" % (kind, values, mask, lo, hi, pos)
            l, h = lo, hi
            want = [None if v is None else float(h) if h is not None and v > h else float(l) if l is not None and v < l else v for v in have]
            nt += want != have
            kw = {k: v for k, v in (("below", lo), ("above", hi)) if v is not None}
            with quiet():
                try:
                    data = values if kind == "number" else leaf(values, "m", pos=pos, mask=mask, dtype=kind)
                    node = call("limit", data, **kw)
                    got, again, probe = node[...], node[...], node[None]
                except Exception as err:
                    fails.append((key, "refused: %r" % err))
                    continue
            for g in (got, again):
                if not same(listed(g), want):
                    fails.append((key, "gives %r instead of %r" % (listed(g), want)))
                    break
            if kind != "number":
                if str(got.units) != "m" or got.positive != pos or got.dimensions != (("x",) if len(flat) > 1 else ()):
                    fails.append((key, "%s %s %s" % (got.units, got.positive, got.dimensions)))
                if not same(listed(data[...]), have):
                    fails.append((key, "the operand was changed to %r" % listed(data[...])))
                if got.dtype.kind != data[...].dtype.kind and all(b is None or fits(b, data[...].dtype) for b in (lo, hi)):
                    fails.append((key, "type %s" % got.dtype))
                if str(probe.units) != "m" or probe.positive != pos or probe.dimensions != got.dimensions:
                    fails.append((key, "probe %r" % (probe,)))
    return n, nt, fails


# ---------------------------------------------------------------------------- sqrt, rmunits

ROOTS = [("1", "1"), ("m2", "m"), ("m4 s-2", "m2 s-1"), ("kg2", "kg"), ("m", None), ("m3", None), ("m2 s", None), ("J2", "J"), ("rad2", "rad"), ("K2 m-2", "K m-1")]


def sqrt_job(item):
    from cf_units import Unit
    fails, n, nt = [], 0, 0
    for (unit, root), kind, pos in product(ROOTS, ("f8", "f4", "i4", "u1"), (None, "up", "down")):
        for values, mask in (([4, 9, 2], None), ([4, 0, 16], [0]), (16, None), ([4, -9, 1], [2])):
            if kind == "u1" and numpy.min(values) < 0:
                continue
            n += 1
            nt += 1
            key = "sqrt([%s] %s %r masked %r %s)" % (unit, kind, values, mask, pos)
            flat = numpy.ravel(values).tolist()
            want = [None if (mask and i in mask) or v < 0 else math.sqrt(v) for i, v in enumerate(flat)]
            with quiet():
                try:
                    data = leaf(values, unit, pos=pos, mask=mask, dtype=kind)
                    before = listed(data[...])
                    node = call("sqrt", data)
                    got, again, probe = node[...], node[...], node[None]
                except Exception as err:
                    if root is not None:
                        fails.append((key, "refused: %r" % err))
                    continue
            if root is None:
                fails.append((key, "accepted, units %s" % got.units))
                continue
            tol = 1e-3 if kind in ("u1",) else 1e-9
            for g in (got, again):
                gl = listed(g)
                if len(gl) != len(want) or any((x is None) != (y is None) or (x is not None and abs(x - y) > tol * max(1, y)) for x, y in zip(gl, want)):
                    fails.append((key, "gives %r instead of %r" % (gl, want)))
            if got.units != Unit(root) or probe.units != Unit(root) or got.dimensions != probe.dimensions or got.positive != pos:
                fails.append((key, "units %s, probe %s, directed %s" % (got.units, probe.units, got.positive)))
            if listed(data[...]) != before:
                fails.append((key, "the operand was changed"))
    for v in (4, 2.25, 0, 1):
        n += 1
        with quiet():
            if abs(float(call("sqrt", v)[...]) - math.sqrt(v)) > 1e-12:
                fails.append(("sqrt(%r)" % v, "wrong"))
    for unit, cal, pos, kind in product(("m", "1", "days since 2000-01-01", "degC", "%"), ("noleap",), (None, "up", "down"), ("f8", "i4")):
        for values, mask in (([4, 9, 2], [1]), (3, None)):
            n += 1
            key = "rmunits([%s] %r %s %s)" % (unit, values, pos, kind)
            with quiet():
                data = leaf(values, unit, cal, pos, mask, kind)
                had = listed(data[...])
                got = call("rmunits", data)[...]
                probe = call("rmunits", data)[None]
            if listed(got) != had or got.units != Unit(1) or probe.units != Unit(1) or got.positive != pos or data[...].units != Unit(unit, calendar=cal):
                fails.append((key, "%r, probe %r" % (got, probe)))
    return n, nt, fails


# ---------------------------------------------------------------------------- up and down

def direction_job(item):
    fails, n, nt = [], 0, 0
    for pos, kind, shape in product((None, "up", "down"), ("f8", "f4", "i4", "number"), (3, 0)):
        if kind == "number" and (pos or shape):
            continue
        for k in range(1, 5):
            for seq in product(("up", "down"), repeat=k):
                n += 1
                key = "%s of %s data (%s) directed %s" % (" ".join(seq), kind, shape, pos)
                have = [4., -9., 0.][:shape] if shape else [4.]
                sign, p = 1, pos
                for s in seq:
                    if p is not None and p != s:
                        sign = -sign
                    p = s
                nt += sign < 0
                with quiet():
                    data = 4 if kind == "number" else leaf(have if shape else 4., "m", pos=pos, mask=[2] if shape else None, dtype=kind)
                    node = data
                    for s in seq:
                        node = call(s, node)
                    got, again, probe = node[...], node[...], node[None]
                want = [sign * v for v in have]
                if shape:
                    want[2] = None
                if not same(listed(got), want) or not same(listed(again), want) or got.positive != p or probe.positive != p:
                    fails.append((key, "gives %r %s, then %r, instead of %r %s" % (listed(got), got.positive, listed(again), want, p)))
                if kind != "number" and (data[...].positive != pos or not same(listed(data[...])[:2], have[:2])):
                    fails.append((key, "the operand was changed"))
    return n, nt, fails


def wrong_job(item):
    """calls without meaning are refused, when the call is made or when it is evaluated"""
    fails, n = [], 0
    d = lambda: leaf([1., 2.], "m")
    cases = [(f, a, k) for f in ("sqrt", "up", "down", "rmunits") for a, k in (((), {}), ((d(), d()), {}), ((d(),), {"k": 1}))]
    cases += [(f, ("text",), {}) for f in ("sqrt", "chunits", "mean", "sum", "min", "max")]
    cases += [("limit", (d(),), {"upper": 1}), ("limit", (), {}), ("chunits", (), {}), ("chunits", (d(),), {"unit": "m"}), ("limit", (d(), "a"), {}), ("limit", (d(),), {"above": "x"}),
              ("mean", (d(), 1), {}), ("sum", (d(), 2.5), {}), ("max", (3., "x"), {}), ("min", (2, "x"), {}), ("mean", (2, "x"), {}), ("sum", (2,), {})]
    for f, a, k in cases:
        n += 1
        with quiet():
            try:
                call(f, *a, **k)[...]
            except Exception:
                continue
        fails.append(("%s%r%r" % (f, tuple(type(x).__name__ for x in a), k), "accepted"))
    return n, n, fails


def dispatch(w):
    import os
    old, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)  # UDUNITS complains about units without roots
    try:
        return dispatched(w)
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(null)


def dispatched(w):
    return {"chunits": chunits_job, "limit": limit_job, "sqrt": sqrt_job, "direction": direction_job, "wrong": wrong_job}[w[0]](w[1])


def explore(chk):
    work = [("chunits", i) for i in range(len(chunits_data()))] + [("limit", i) for i in range(len(LIMIT))] + [("sqrt", 0), ("direction", 0), ("wrong", 0)]
    for w, (st, res) in zip(work, par.pmap(dispatch, work)):
        if st == "err":
            chk.fail("crash %r" % (w,), res, {})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"part": "%s %s" % w, "cases": n}])
        for k, v in fails:
            chk.fail(k, v, {"case": k})
