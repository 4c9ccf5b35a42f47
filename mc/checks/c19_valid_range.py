"""C19: declared limits are checked, reported, and hide exactly the values beyond them."""
from itertools import product

import numpy

from mc import par
from mc.e2e import quiet
from mc.model import UNITS, Arr, differs, snapshot, to_phys

PID = "C19"
LEVEL = "exploration"
RULE = ("every vector of up to 3 values from {-2,-1,0,1,2,missing} (and all 2x2 arrays from a sub-alphabet) x every pair of valid_min / valid_max from {absent, "
        "empty, -1, 0, 1, 0.5, -1.5} x declared types x unit and sign conversion before the test, whole and in every part; "
        "mean-of-absolute-value limits likewise; warnings and hidden values compared with the definition; non-trivial = a limit is set")

VALUES = [-2, -1, 0, 1, 2, None]
LIM = ["absent", "", None, -1, 0, 1, 0.5, -1.5]


def make(vals, dims, attrs, datatype="double", unit="1", pos=None, src="f8"):
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import DataNode, ValidateNode

    sizes = {"x": len(vals) if len(dims) == 1 else 2, "y": 2}
    m = Arr.make(dims, sizes, [-9 if v is None else v for v in vals], UNITS[unit], pos, tuple(i for i, v in enumerate(vals) if v is None))
    leaf = DataNode(to_phys(m, unit, "a", src))
    vd = VariableDesc("v", datatype=datatype, dimensions=[DimensionDesc(d, size=sizes[d]) for d in dims], attributes=attrs)
    return m, leaf, ValidateNode(vd, leaf)


def beyond(v, lo, hi):
    num = lambda l: isinstance(l, (int, float))
    return v is not None and ((num(lo) and v < lo), (num(hi) and v > hi)) or (False, False)


def run_one(key, vals, dims, attrs, lo, hi, want, conv, fails, parts, **kw):
    from pyconform.flownodes import ValidationWarning

    m, leaf, node = make(vals, dims, attrs, **kw)
    before = snapshot(leaf[...])
    full = conv(m)
    for ix in parts:
        part = full.take(**ix)
        hidden = part.map(lambda v: None if any(beyond(v, lo, hi)) else v)
        exp = {n for n, f in (("valid_min", 0), ("valid_max", 1)) for v in part.vals.values() if beyond(v, lo, hi)[f]}
        try:
            with quiet() as rec:
                got = node[dict(ix)] if ix else node[...]
        except Exception as err:
            fails.append((key + " %r" % ix, "failed: %r" % err))
            continue
        d = differs(got, hidden, 1e-6)
        if d:
            fails.append((key + " %r" % ix, d))
        n = sum(1 for w in rec if issubclass(w.category, ValidationWarning))
        if n != len(exp):
            fails.append((key + " %r" % ix, "%d warnings instead of %d (%s)" % (n, len(exp), sorted(exp))))
    with quiet() as rec:
        node[None]
    if any(issubclass(w.category, ValidationWarning) for w in rec):
        fails.append((key + " probe", "a probe warned"))
    if snapshot(leaf[...]) != before:
        fails.append((key, "the data were changed"))


def job(item):
    vals, thorough = item
    dims = ("x",) if len(vals) < 4 else ("x", "y")
    if not vals:
        return 0, 0, []
    fails, n, nt = [], 0, 0
    parts = [{}] + ([{"x": slice(0, 1)}, {"x": slice(None, None, -1)}, {"x": slice(1, None)}] if len(vals) > 1 else [])
    for lo, hi in product(LIM, LIM):
        if all(isinstance(l, (int, float)) for l in (lo, hi)) and lo > hi:
            continue            # an empty range: not specified
        attrs = {"units": "1"}
        if lo != "absent":
            attrs["valid_min"] = lo
        if hi != "absent":
            attrs["valid_max"] = hi
        for dt, src in (("double", "f8"), ("float", "f8"), ("int", "i4"), ("double", "i4"), ("short", "i2")):
            if dt in ("short", "float") and not thorough and len(vals) != 2:
                continue
            n += 1
            nt += isinstance(lo, (int, float)) or isinstance(hi, (int, float))
            run_one("%r as %s/%s in [%r, %r]" % (vals, src, dt, lo, hi), vals, dims, attrs, lo, hi, None, lambda m: m, fails, parts, datatype=dt, src=src)
        # the limits are in the declared units and convention
        if len(vals) == 2 or thorough:
            for f, unit in ((100.0, "%"), (0.01, "1")):
                n += 1
                scale = (lambda l: l * f if isinstance(l, (int, float)) else l)
                a = dict(attrs, units=unit)
                for k in ("valid_min", "valid_max"):
                    if k in a:
                        a[k] = scale(a[k])
                have = "1" if unit == "%" else "%"
                run_one("%r %s->%s in [%r, %r]" % (vals, have, unit, lo, hi), vals, dims, a, scale(lo), scale(hi), None,
                        lambda m: m.convert(UNITS[unit]), fails, parts, unit=have)
            n += 1
            run_one("%r up->down in [%r, %r]" % (vals, lo, hi), vals, dims, dict(attrs, positive="down"), lo, hi, None,
                    lambda m: m.toward("down"), fails, parts, pos="up")
        if len(fails) > 20:
            break
    return n, nt, fails


def mean_job(item):
    """limits of the mean absolute value only warn"""
    from pyconform.flownodes import ValidationWarning

    vals, = item
    fails, n, nt = [], 0, 0
    here = [abs(v) for v in vals if v is not None]
    mean = sum(here) / len(here) if here else None
    for lo, hi in product(["absent", "", None, 0, 0.5, 1, 1.25, 2], repeat=2):
        attrs = {"units": "1"}
        if lo != "absent":
            attrs["ok_min_mean_abs"] = lo
        if hi != "absent":
            attrs["ok_max_mean_abs"] = hi
        num = lambda l: isinstance(l, (int, float))
        if mean is not None and any(num(l) and abs(mean - l) < 1e-9 and mean != l for l in (lo, hi)):
            continue
        exp = (mean is not None and num(lo) and mean < lo) + (mean is not None and num(hi) and mean > hi)
        n += 1
        nt += num(lo) or num(hi)
        key = "%r mean abs in [%r, %r]" % (vals, lo, hi)
        m, leaf, node = make(vals, ("x",), attrs)
        try:
            with quiet() as rec:
                got = node[...]
        except Exception as err:
            fails.append((key, "failed: %r" % err))
            continue
        d = differs(got, m)
        if d:
            fails.append((key, d))
        c = sum(1 for w in rec if issubclass(w.category, ValidationWarning))
        if c != exp:
            fails.append((key, "%d warnings instead of %d" % (c, exp)))
    return n, nt, fails


def dispatch(j):
    return j[0](j[1])


def explore(chk):
    vecs = [v for k in (1, 2, 3) for v in product(VALUES, repeat=k)]
    jobs = [(job, (v, chk.thorough)) for v in vecs]
    jobs += [(job, (v, False)) for v in product([-2, 0, 1, None], repeat=4)][:: 1 if chk.thorough else 3]
    jobs += [(mean_job, (v,)) for v in vecs]
    for j, (st, res) in zip(jobs, par.pmap(dispatch, jobs, chunksize=4)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(j[1])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(j[1]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
