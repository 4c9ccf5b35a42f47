"""C10: units are carried through arithmetic and conversions keep the physical value."""
import operator
from itertools import product

import numpy

from mc import par
from mc.model import UNITS, Arr, ModelError, Unspecified, binop, differs, to_phys, unit_matches, close
from cf_units import Unit

PID = "C10"
LEVEL = "exploration"
RULE = ("all ordered pairs of 16 units x {+,-,*,/,//} x plain/in-place x float64/float32/int data x plain numbers on "
        "either side, all conversions, powers and two-operator chains over a unit subset; scale and offset of the result "
        "unit and the values are compared with an exact table; non-trivial = unit differs between operands")
ASSUMPTIONS = ["conversion between reciprocal units (which UDUNITS offers) is not specified and left out", "cf_units converts correctly; the unit table of the model is right"]

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
NAMES = list(UNITS)
OFFSET = ("degC",)


def attempt(f):
    try:
        return f()
    except ModelError:
        return "undefined"
    except Unspecified:
        return "unspecified"
    except (ValueError, TypeError):
        return "refused"


def compare(fails, key, model, real, rtol=1e-9):
    if isinstance(model, str) and model == "unspecified":
        return
    if isinstance(model, str) or isinstance(real, str):
        if not (isinstance(model, str) and isinstance(real, str)):
            fails.append((key, "model: %s, code: %s" % (model if isinstance(model, str) else "defined", real if isinstance(real, str) else "gave a result with units %s" % getattr(real, "units", None))))
        return
    d = differs(real, model, rtol)
    if d:
        fails.append((key, d))


def build(dims, vals, unit, masked=()):
    return Arr.make(dims, {"x": 2, "y": 2}, vals, UNITS[unit], None, masked)


def pair_job(ua):
    fails, n, nt = [], 0, 0
    for ub in NAMES:
        for dt in ("f8", "f4", "i4"):
            rtol = 2e-5 if dt == "f4" else 1e-9
            va, vb = ([3, 7, 12, 25], [2, 5, 9, 4])
            a, b = build(("x", "y"), va, ua, (3,)), build(("y", "x"), vb, ub, (1,))
            for op in OPS:
                if op in ("*", "/", "//") and (ua in OFFSET or ub in OFFSET):
                    continue
                if op == "//" and ua != ub:
                    continue
                key = "%s [%s] %s [%s]" % (dt, ua, op, ub)
                compare(fails, key, attempt(lambda: binop(op, a, b)), attempt(lambda: OPS[op](to_phys(a, ua, "a", dt), to_phys(b, ub, "b", dt))), rtol)
                n += 1
                nt += ua != ub
                if op in IOPS and dt == "f8":
                    compare(fails, "inplace " + key, attempt(lambda: binop(op, a, b)), attempt(lambda: IOPS[op](to_phys(a, ua, "a", dt), to_phys(b, ub, "b", dt))), rtol)
                    n += 1
            # conversion keeps everything but the number and the unit
            key = "convert %s [%s] to [%s]" % (dt, ua, ub)
            compare(fails, key, attempt(lambda: a.convert(UNITS[ub])), attempt(lambda: to_phys(a, ua, "a", dt).convert(ub)), rtol)
            compare(fails, key + " Unit", attempt(lambda: a.convert(UNITS[ub])), attempt(lambda: to_phys(a, ua, "a", dt).convert(Unit(ub))), rtol)
            for pos in ("up", "down"):
                p = a.copy(positive=pos)
                compare(fails, key + " " + pos, attempt(lambda: p.convert(UNITS[ub])), attempt(lambda: to_phys(p, ua, "a", dt).convert(ub)), rtol)
            n += 4
            # assignment into a slice converts to the target's unit
            if UNITS[ua].same_kind(UNITS[ub]):
                t = to_phys(a, ua, "a", dt)
                src = build(("x", "y"), vb, ub)
                if dt != "i4":
                    t[:] = to_phys(src, ub, "b", dt)
                    compare(fails, "assign " + key, src.convert(UNITS[ua]), t, rtol)
                    n += 1
    # plain numbers are unitless
    a = build(("x",), [3, 8], ua)
    for v in (2, 0.5):
        s = Arr.make((), {}, [v], UNITS["1"])
        for op in ("+", "-", "*", "/"):
            if op in ("*", "/") and ua in OFFSET:
                continue
            compare(fails, "[%s] %s %r" % (ua, op, v), attempt(lambda: binop(op, a, s)), attempt(lambda: OPS[op](to_phys(a, ua), v)))
            compare(fails, "%r %s [%s]" % (v, op, ua), attempt(lambda: binop(op, s, a)), attempt(lambda: OPS[op](v, to_phys(a, ua))))
            n += 2
    if ua not in OFFSET:
        for e in (0, 1, 2, 3, -1, -2):
            s = Arr.make((), {}, [e], UNITS["1"])
            compare(fails, "[%s] ** %r" % (ua, e), attempt(lambda: binop("**", a, s)), attempt(lambda: to_phys(a, ua) ** e))
            n += 1
            def ip():
                p = to_phys(a, ua)
                p **= e
                return p
            compare(fails, "[%s] **= %r" % (ua, e), attempt(lambda: binop("**", a, s)), attempt(ip))
            n += 1
        # exponents must be unitless, and are scaled when given in percent
        for ub in NAMES:
            s = Arr.make((), {}, [200.0 if ub == "%" else 2.0], UNITS[ub])
            compare(fails, "[%s] ** array [%s]" % (ua, ub), attempt(lambda: binop("**", a, s)), attempt(lambda: to_phys(a, ua) ** to_phys(s, ub)))
            n += 1
        compare(fails, "invert [%s]" % ua, a.map(lambda v: 1 / v, unit=UNITS[ua].power(-1)), attempt(lambda: to_phys(a, ua).invert()))
        n += 1
    return n, nt, fails


def chain_job(job):
    ua, op1 = job
    sub = ["1", "%", "m", "km", "s", "h", "m2"]
    fails, n = [], 0
    for ub, uc in product(sub, sub):
        a, b, c = build(("x",), [3, 8], ua), build(("y",), [2, 5], ub), build(("x", "y"), [4, 9, 7, 6], uc)
        for op2 in ("+", "-", "*", "/"):
            key = "([%s] %s [%s]) %s [%s]" % (ua, op1, ub, op2, uc)
            compare(fails, key, attempt(lambda: binop(op2, binop(op1, a, b), c)), attempt(lambda: OPS[op2](OPS[op1](to_phys(a, ua), to_phys(b, ub)), to_phys(c, uc))))
            key = "[%s] %s ([%s] %s [%s])" % (ua, op1, ub, op2, uc)
            compare(fails, key, attempt(lambda: binop(op1, a, binop(op2, b, c))), attempt(lambda: OPS[op1](to_phys(a, ua), OPS[op2](to_phys(b, ub), to_phys(c, uc)))))
            n += 2
    return n, n, fails


TIME = ["days since 2000-01-01", "hours since 2000-01-01", "days since 2000-03-01 12:00", "seconds since 1999-12-30"]
EPOCH = {TIME[0]: (86400.0, 0.0), TIME[1]: (3600.0, 0.0)}


def time_job(_):
    """reference times: conversion between epochs in every calendar, differences in calendars are refused"""
    import cftime

    from pyconform.physarray import PhysArray

    fails, n = [], 0
    cals = ["noleap", "360_day", "standard", "julian"]
    for cal, cal2, u1, u2 in product(cals, cals, TIME, TIME):
        vals = [0.0, 1.5, 59.0, 400.25]
        p = PhysArray(numpy.array(vals), name="t", units=Unit(u1, calendar=cal), dimensions=("time",))
        key = "%s|%s -> %s|%s" % (u1, cal, u2, cal2)
        got = attempt(lambda: p.convert(Unit(u2, calendar=cal2)))
        n += 1
        if cal != cal2:
            if got != "refused":
                fails.append((key, "conversion between calendars gave a result"))
            continue
        want = [cftime.date2num(cftime.num2date(v, u1, cal), u2, cal) for v in vals]
        if isinstance(got, str):
            fails.append((key, "refused"))
        elif not all(abs(float(x) - float(y)) < 1e-6 * max(1, abs(float(y))) for x, y in zip(got.data, want)) or got.units != Unit(u2, calendar=cal2) or got.dimensions != ("time",):
            fails.append((key, "gives %r instead of %r" % (got, want)))
    return n, n, fails


def dispatch(j):
    return j[0](j[1])


def explore(chk):
    jobs = [(pair_job, u) for u in NAMES]
    sub = ["m", "km", "%", "s"] if not chk.thorough else ["1", "%", "m", "km", "s", "h", "m2", "kg", "m s-1", "Pa"]
    jobs += [(chain_job, (u, op)) for u in sub for op in ("+", "-", "*", "/")]
    jobs.append((time_job, 0))
    for job, (st, res) in zip(jobs, par.pmap(dispatch, jobs)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job[1])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(job[1]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
