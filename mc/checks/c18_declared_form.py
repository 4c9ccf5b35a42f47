"""C18: what is delivered for writing has the declared type, dimension order, units and sign convention."""
from itertools import permutations, product

import numpy

from mc import par
from mc.e2e import quiet
from mc.model import UNITS, Arr, ModelError, Unspecified, close, differs, observe, to_phys, unit_matches

PID = "C18"
LEVEL = "exploration"
RULE = ("data of 9 number types x declared types (or none) x data units x declared units (none, open in every spelling, equal, "
        "convertible, inconvertible) x conventions in any case x every dimension order, requested whole, in parts and as a probe; "
        "values at and beyond the ends of every declared integer type; reference times: data units and calendars x declared units with any of unit, reference and calendar left open; "
        "compared with a reference model; non-trivial = something has to be converted or is refused")

SIZES = {"x": 3, "y": 2}
TYPES = {"byte": "i1", "ubyte": "u1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "int64": "i8", "uint64": "u8",
         "float": "f4", "real": "f4", "double": "f8"}
OPEN = ["", "?", "unknown", " ? "]
UN = ["m", "km", "s", "1", "%", "degC", "K"]


def castable(a, b):
    """same kind or widening kind: unsigned -> signed -> floating"""
    order = "uif"
    return order.index(numpy.dtype(a).kind) <= order.index(numpy.dtype(b).kind)


def desc(name, dims, datatype, attrs):
    from pyconform.datasets import DimensionDesc, VariableDesc

    return VariableDesc(name, datatype=datatype, dimensions=[DimensionDesc(d, size=SIZES.get(d, 3)) for d in dims], attributes=attrs)


def type_job(item):
    from pyconform.flownodes import DataNode, ValidateNode

    src, declared = item
    fails, n, nt = [], 0, 0
    m = Arr.make(("x", "y"), SIZES, [3, 7, 12, 25, 4, 9], UNITS["m"], "up", (1,))
    dst = src if declared is None else TYPES[declared]
    # single precision data are held in double precision
    held = "f8" if src == "f4" else src
    ok = declared is None or castable(held, dst)
    for dims in permutations(("x", "y")):
        for unit in (None, "m", "km", "cm"):
            for pos in (None, "up", "down"):
                n += 1
                key = "%s as %s%s [%s] %s" % (src, declared, dims, unit, pos)
                if numpy.dtype(dst).kind != "f" and (unit == "km" or "u" in (numpy.dtype(dst).kind, numpy.dtype(src).kind) and pos == "down"):
                    continue        # an integer type cannot hold the converted values
                attrs = {}
                if unit:
                    attrs["units"] = unit
                if pos:
                    attrs["positive"] = pos
                try:
                    with quiet():
                        node = ValidateNode(desc("v", dims, declared, attrs), DataNode(to_phys(m, "m", "a", src)))
                        got = node[...]
                        probe = node[None]
                except (TypeError, ValueError) as err:
                    if ok:
                        fails.append((key, "refused: %r" % err))
                    continue
                if not ok:
                    fails.append((key, "accepted"))
                    continue
                nt += 1
                want = m.transpose(dims)
                if unit:
                    want = want.convert(UNITS[unit])
                if pos:
                    want = want.toward(pos)
                d = differs(got, want, 1e-6 if dst == "f4" else 1e-9)
                if d:
                    fails.append((key, d))
                if numpy.dtype(dst).kind == "f" or not unit or unit == "m":
                    if got.dtype != numpy.dtype(dst if declared else held):
                        fails.append((key, "type %s" % got.dtype))
                if tuple(probe.dimensions) != tuple(dims) or probe.size or not unit_matches(probe.units, want.unit) or probe.positive != want.positive:
                    fails.append((key, "probe %r" % (probe,)))
    return n, nt, fails


def range_job(item):
    """values a declared integer type cannot hold are refused, whatever is missing; others are delivered unchanged"""
    from pyconform.flownodes import DataNode, ValidateNode
    from pyconform.physarray import PhysArray

    src, declared = item
    fails, n, nt = [], 0, 0
    si, di = numpy.iinfo(src), numpy.iinfo(TYPES[declared])
    marks = sorted({v for lo, hi in ((si.min, si.max), (di.min, di.max)) for v in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 2 * hi + 3) if si.min <= v <= si.max} | {0, 5})
    for at, v, missing in product(range(3), marks, (False, True)):
        n += 1
        vals = [1, 2, 3]
        vals[at] = v
        mask = [missing and k == at for k in range(3)]
        p = PhysArray(numpy.ma.array(numpy.array(vals, dtype=src), mask=mask), name="a", units="1", dimensions=("x",))
        fits = missing or di.min <= v <= di.max
        nt += not fits
        key = "%s %r %s as %s" % (src, vals, mask, declared)
        for ix, sel in ((Ellipsis, slice(None)), ({"x": slice(0, 2)}, slice(0, 2)), ({"x": slice(2, None)}, slice(2, None))):
            inside = fits or at not in range(3)[sel]
            try:
                with quiet():
                    got = ValidateNode(desc("v", ("x",), declared, {"units": "1"}), DataNode(p))[ix]
            except (TypeError, ValueError, OverflowError) as err:
                if inside:
                    fails.append((key, "refused %r: %r" % (sel, err)))
                continue
            if not inside:
                fails.append((key, "accepted %r: %r" % (sel, got)))
            elif got.tolist() != [None if m else int(w) for w, m in zip(vals, mask)][sel] or got.dtype != numpy.dtype(TYPES[declared]):
                fails.append((key, "gives %r" % (got,)))
    return n, nt, fails


def unit_job(item):
    from pyconform.flownodes import DataNode, ValidateNode

    have, = item
    fails, n, nt = [], 0, 0
    whole = (Ellipsis, {})
    menus = {2: [whole, ({"x": slice(1, None)}, {"x": slice(1, None)}), ({"y": slice(None, None, -1)}, {"y": slice(None, None, -1)}), ((slice(0, 1),), None)],
             1: [whole, ({"x": slice(1, None)}, {"x": slice(1, None)}), ({"x": slice(0, 1)}, {"x": slice(0, 1)})], 0: [whole, ({}, {}), ({"x": slice(0, 1)}, {})]}
    for wish in [None] + OPEN + UN:
        for pos, dpos in product((None, "up", "down"), (None, "", "up", "down", "Up", "DOWN")):
            for order in list(permutations(("x", "y"))) + [("x",), ()]:
                n += 1
                m = Arr.make(tuple(sorted(order)), SIZES, [3, -7, 12, 25, 0.5, 9][:(1, 3, 6)[len(order)]], UNITS[have], pos, (2,) if order else ())
                attrs = {"long_name": "kept"}
                if wish is not None:
                    attrs["units"] = wish
                if dpos is not None:
                    attrs["positive"] = dpos
                key = "[%s] %s as [%s] %s %s" % (have, pos, wish, dpos, order)
                target = have if wish is None or wish in OPEN else wish
                try:
                    want = m.transpose(order).convert(UNITS[target])
                    if dpos and pos:
                        want = want.toward(dpos.lower())
                except ModelError:
                    want = None
                except Unspecified:
                    continue
                nt += target != have or pos != dpos
                leaf = DataNode(to_phys(m, have, "a"))
                try:
                    with quiet():
                        node = ValidateNode(desc("v", order, "double", attrs), leaf)
                        for ix, by in menus[len(order)]:
                            got = node[ix]
                            if want is None:
                                fails.append((key, "accepted"))
                                break
                            if by is None:
                                continue
                            d = differs(got, want.take(**by), 1e-9)
                            if d:
                                fails.append((key + " %r" % (ix,), d))
                except (TypeError, ValueError) as err:
                    if want is not None:
                        fails.append((key, "refused: %r" % err))
                    continue
                if want is None:
                    continue
                # the attributes describe what is delivered
                at = dict(node.attributes)
                if wish is not None:
                    from cf_units import Unit
                    try:
                        u = Unit(at["units"])
                        good = unit_matches(u, UNITS[target])
                    except Exception:
                        good = False
                    if not good:
                        fails.append((key, "units attribute %r" % at.get("units")))
                elif "units" in at:
                    fails.append((key, "units attribute %r was invented" % at["units"]))
                if at.get("long_name") != "kept":
                    fails.append((key, "an attribute was lost"))
                if differs(leaf[...], m):
                    fails.append((key, "the data were changed"))
    return n, nt, fails


REFS = ["2000-01-01", "1999-12-30 06:30:00", "2000-03-01 12:00"]
CALS = ["noleap", "360_day", "standard"]
PER = {"days": 1.0, "hours": 24.0, "seconds": 86400.0}


def time_job(item):
    import cftime
    from cf_units import Unit

    from pyconform.flownodes import DataNode, ValidateNode
    from pyconform.physarray import PhysArray

    unit, ref, cal = item
    fails, n, nt = [], 0, 0
    vals = [0.0, 1.5, 58.0, 59.0, 60.0, 400.25]
    have = "%s since %s" % (unit, ref)
    wishes = ["", "?", "unknown"] + ["%s since %s" % (u, r) for u in ("days", "hours", "?", "") for r in REFS[:2] + ["?", "unknown"]] + ["days", "hours", "m"]
    for wish, wcal in product(wishes, [None] + CALS):
        n += 1
        key = "[%s|%s] as [%s|%s]" % (have, cal, wish, wcal)
        attrs = {"units": wish}
        if wcal:
            attrs["calendar"] = wcal
        wu, wr = ([s.strip() for s in wish.split("since")] + [""])[:2]
        tu = unit if wu in ("", "?", "unknown") else wu
        tr = ref if wr in ("", "?", "unknown") else wr
        refused = tu == "m" or (wcal is not None and wcal != cal)
        p = PhysArray(numpy.ma.array(vals, mask=[0, 0, 0, 0, 1, 0]), name="t", units=Unit(have, calendar=cal), dimensions=("x",))
        if refused and wcal is not None and (tu, tr) == (unit, ref) and wcal != cal:
            pass
        try:
            with quiet():
                vd = desc("t", ("x",), "double", attrs)
                node = ValidateNode(vd, DataNode(p))
                got = node[...]
                part = node[{"x": slice(1, 3)}]
        except Exception as err:
            if not refused:
                fails.append((key, "refused: %r" % err))
            continue
        if refused:
            fails.append((key, "accepted"))
            continue
        nt += (tu, tr) != (unit, ref)
        target = "%s since %s" % (tu, tr)
        want = [cftime.date2num(cftime.num2date(v, have, cal), target, cal) for v in vals]
        g, mk = numpy.ma.getdata(got), numpy.ma.getmaskarray(got)
        if mk.tolist() != [False] * 4 + [True, False] or any(abs(float(a) - float(b)) > 1e-6 * max(1, abs(float(b))) for a, b, k in zip(g, want, mk) if not k):
            fails.append((key, "gives %r instead of %r" % (got.tolist(), want)))
        if numpy.ma.getdata(part).tolist() != g[1:3].tolist():
            fails.append((key, "a part differs"))
        at = node.attributes
        if Unit(str(at["units"]), calendar=cal) != Unit(target, calendar=cal):
            fails.append((key, "units attribute %r instead of %r" % (at["units"], target)))
        if Unit("days since 2000-01-01", calendar=at.get("calendar", "standard")).calendar != Unit("days since 2000-01-01", calendar=cal).calendar:
            fails.append((key, "calendar attribute %r instead of %r" % (at.get("calendar"), cal)))
        if got.units != Unit(target, calendar=cal):
            fails.append((key, "data units %r" % got.units))
    return n, nt, fails


def dispatch(j):
    return j[0](j[1])


def explore(chk):
    jobs = [(type_job, (s, d)) for s in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8") for d in [None] + list(TYPES)]
    ints = [t for t in TYPES if numpy.dtype(TYPES[t]).kind in "iu"]
    jobs += [(range_job, (s, d)) for s in ("i1", "u1", "i2", "u2", "i4", "u4", "i8") for d in ints if castable(s, TYPES[d])]
    jobs += [(unit_job, (u,)) for u in UN]
    jobs += [(time_job, (u, r, c)) for u in PER for r in (REFS if chk.thorough else REFS[:2]) for c in CALS]
    for job, (st, res) in zip(jobs, par.pmap(dispatch, jobs)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job[1])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(job[1]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
