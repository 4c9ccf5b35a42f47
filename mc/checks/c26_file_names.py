"""C26: dates in output file names are the first and last times of the file, in its calendar."""
import os
from collections import OrderedDict
from itertools import product

import numpy

from mc import e2e, par

PID = "C26"
LEVEL = "exploration"
RULE = ("all calendars x reference dates x units x time axes (one, two, several values, leap days, ends of months, years 1 to 10000) x patterns (several formats, "
        "several patterns, in directories, no pattern, unbalanced, malformed) x declared units of the output time; every arrangement of candidate time variables "
        "(by name, units, standard name, axis; explicit, hidden, absent) in every order; the name of the file written is compared with independent "
        "calendar arithmetic; non-trivial = the name holds a pattern")

# -- independent calendars: days since 0001-01-01 ---------------------------------------------------


def leap(y, cal):
    if cal in ("noleap", "365_day", "360_day"):
        return False
    if cal in ("all_leap", "366_day"):
        return True
    if cal == "julian":
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m, cal):
    if cal == "360_day":
        return 30
    return [31, 29 if leap(y, cal) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def number(date, cal):
    y, m, d = date
    n = sum(360 if cal == "360_day" else 366 if leap(k, cal) else 365 for k in range(1, y))
    return n + sum(mlen(y, k, cal) for k in range(1, m)) + d - 1


def add(date, days, cal):
    y, m, d = date
    d += days
    while d > mlen(y, m, cal):
        d -= mlen(y, m, cal)
        y, m = (y, m + 1) if m < 12 else (y + 1, 1)
    while d < 1:
        y, m = (y, m - 1) if m > 1 else (y - 1, 12)
        d += mlen(y, m, cal)
    return y, m, d


def text(fmt, date, secs):
    y, m, d = date
    for a, b in (("%Y", "%04d" % y), ("%m", "%02d" % m), ("%d", "%02d" % d), ("%H", "%02d" % (secs // 3600)), ("%M", "%02d" % (secs // 60 % 60)), ("%S", "%02d" % (secs % 60))):
        fmt = fmt.replace(a, b)
    return fmt


CALS = ["noleap", "365_day", "360_day", "all_leap", "366_day", "standard", "gregorian", "proleptic_gregorian", "julian"]
REFS = [(1, 1, 1), (850, 1, 1), (1999, 12, 30), (2000, 2, 28), (9999, 12, 30)]
UNIT = {"days": 86400, "hours": 3600, "seconds": 1}
AXES = [[0.], [0., 1.], [1.5, 30., 31.25], [59., 60., 365.], [364.75, 366.]]
PATTERNS = ["v_{%Y-%Y}.nc", "v_{%Y%m-%Y%m}.nc", "{%Y%m%d-%Y%m%d}", "v_{%Y%m%d%H%M-%Y%m%d%H%M}_{%m-%d}.nc", "a{%Y-%m}b/{%Y-%Y}/v.nc", "v_{%Y-}.nc", "v_{x%Y-y%Y}_$.nc"]


def mixed(ref, cal):
    """standard calendar before 1582 is Julian: leave those dates to the pure calendars"""
    return cal in ("standard", "gregorian") and ref[0] < 1600


def expected(pattern, first, last):
    out = ""
    rest = pattern
    while "{" in rest:
        pre, rest = rest.split("{", 1)
        inner, rest = rest.split("}", 1)
        a, b = inner.split("-")
        out += pre + text(a, *first) + "-" + text(b, *last)
    return out + rest


def when(ref, days, cal):
    whole = int(numpy.floor(days))
    return add(ref, whole, cal), int(round((days - whole) * 86400))


def write(path, tvars, fmt="NETCDF4_CLASSIC"):
    v = OrderedDict()
    for n, (dims, vals, attrs) in tvars.items():
        v[n] = e2e.Var(dims, vals, attrs)
    k = max([len(vals) for dims, vals, _ in tvars.values() if dims == ("t",)] or [2])
    v["a"] = e2e.Var(("t",), numpy.arange(k) + 1., {"units": "1"})
    e2e.write_file(path, v, {"t": k}, unlimited=("t",))


def files(work):
    return sorted(os.path.relpath(os.path.join(r, f), work) for r, _, ff in os.walk(work) for f in ff if f != "in.nc")


def clear(work):
    e2e.clean(work)


def job(item):
    d, cal, ref, thorough = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp = os.path.join(work, "in.nc")
    fails, n = [], 0
    ref_text = "%04d-%02d-%02d" % ref
    for unit, axis in product(UNIT, AXES):
        clear(work)
        write(inp, {"time": (("t",), [v * 86400 / UNIT[unit] for v in axis], {"units": "%s since %s" % (unit, ref_text), "calendar": cal})})
        first, last = when(ref, axis[0], cal), when(ref, axis[-1], cal)
        for pattern in PATTERNS:
            for declared in ("%s since %s" % (unit, ref_text), "?", "hours since %s" % ref_text):
                if declared != "?" and unit != "days" and not thorough:
                    continue
                n += 1
                key = "%s %s since %s %s in %s declared %s" % (cal, unit, ref_text, axis, pattern, declared)
                want = expected(pattern, first, last)
                ds = OrderedDict()
                ds["V"] = e2e.outvar(["T"], "a", attrs={"units": "1"}, filename=os.path.join(work, pattern))
                ds["time"] = e2e.outvar(["T"], "time", attrs=dict({"units": declared}, **({"calendar": cal} if declared != "?" else {})))
                try:
                    warns = [w for w in e2e.run([inp], ds) if w.category.__module__.startswith('pyconform')]
                except Exception as err:
                    fails.append((key, "refused: %r" % err))
                    continue
                got = files(work)
                if got != [want]:
                    fails.append((key, "file %r instead of %r" % (got, want)))
                else:
                    r = e2e.read_file(os.path.join(work, want))
                    if set(r["vars"]) != {"V", "time"}:
                        fails.append((key, "holds %r" % sorted(r["vars"])))
                if warns:
                    fails.append((key, "warned: %s" % warns[0].message))
                for f in got:
                    os.unlink(os.path.join(work, f))
        if len(fails) > 20:
            break
    clear(work)
    return n, n, fails


# candidates: name -> (definition, dims, attributes)
D1 = {"units": "days since 2001-01-01", "calendar": "noleap"}
SRC = {"t1": [0., 10.], "t2": [400., 410.], "t3": [800., 900.]}
YEARS = {"t1": "2001", "t2": "2002", "t3": "2003"}


def arrangements(chk, d):
    """which variable the dates come from"""
    work = os.path.join(d, "arr")
    os.makedirs(work, exist_ok=True)
    inp = os.path.join(work, "in.nc")
    write(inp, OrderedDict((t, (("t",), v, D1)) for t, v in SRC.items()))
    cands = {"time": ("time", "t1", dict(D1)), "time1": ("time1", "t1", dict(D1)), "tau": ("tau", "t2", dict(D1)), "axis": ("ax", "t2", dict(D1, axis="T")),
             "sname": ("sn", "t2", dict(D1, standard_name="time")), "own": ("own", "t3", dict(D1)), "_hid": ("_hid", "t3", dict(D1))}
    sets = [(), ("time",), ("time1",), ("tau",), ("axis",), ("sname",), ("time", "tau"), ("time", "time1"), ("time", "sname", "axis"), ("time", "tau", "axis", "sname"),
            ("time", "own"), ("time", "tau", "own"), ("own", "tau"), ("time", "_hid"), ("tau", "_hid"), ("_hid",), ("own", "_hid")]
    from itertools import permutations
    for names in sets:
        for order in permutations(names):
            for explicit in [None] + [e for e in ("own", "_hid", "tau") if e in names] + ["nobody"]:
                for member in ("dims", "metavars"):
                    for pattern in ("f_{%Y-%Y}.nc", "plain.nc"):
                        key = "times %s explicit %s as %s in %s" % (list(order), explicit, member, pattern)
                        ds = OrderedDict()
                        kw = {} if explicit is None else {"autoparse_time_variable": explicit}
                        ds["V"] = e2e.outvar(["T"], "a", attrs={"units": "1"}, filename=os.path.join(work, pattern),
                                             metavars=[cands[c][0] for c in order] if member == "metavars" else [], **kw)
                        for c in order:
                            nme, src, attrs = cands[c]
                            ds[nme] = e2e.outvar(["T"], src, attrs=attrs)
                        # expectation
                        visible = [c for c in order if c[0] != "_"]
                        warned = False
                        if explicit == "nobody":
                            want = "refused"
                        elif pattern == "plain.nc":
                            want = pattern
                        elif explicit is not None:
                            y = YEARS[cands[explicit][1]]
                            want = "f_%s-%s.nc" % (y, y)
                        elif not visible and not order:
                            want, warned = pattern, True
                        elif not visible:
                            continue  # only a hidden time variable, not named explicitly: not claimed
                        else:
                            years = {YEARS[cands["time"][1]]} if "time" in visible else {YEARS[cands[c][1]] for c in visible}
                            want = {"f_%s-%s.nc" % (y, y) for y in years}
                            if len(want) == 1:
                                want = want.pop()
                        try:
                            warns = [w for w in e2e.run([inp], ds) if w.category.__module__.startswith('pyconform')]
                            got = files(work)
                        except (ValueError, KeyError):
                            got, warns = "refused", []
                        except Exception as err:
                            got, warns = "failed: %r" % err, []
                        ok = got == want or got == [want] or (isinstance(want, set) and len(got) == 1 and got[0] in want)
                        chk.ran(key, got, "{" in pattern)
                        if not ok:
                            chk.fail(key, "%r instead of %r" % (got, want), {"case": key})
                        elif isinstance(got, list):
                            r = e2e.read_file(os.path.join(work, got[0]))
                            hold = {"V"} | {cands[c][0] for c in visible}
                            if set(r["vars"]) != hold:
                                chk.fail(key, "holds %r instead of %r" % (sorted(r["vars"]), sorted(hold)), {"case": key})
                            if warned != bool(warns):
                                chk.fail(key, "warnings: %r" % [str(w.message) for w in warns], {"case": key})
                        for f in files(work):
                            os.unlink(os.path.join(work, f))


def malformed(chk, d):
    work = os.path.join(d, "bad")
    os.makedirs(work, exist_ok=True)
    inp = os.path.join(work, "in.nc")
    write(inp, {"time": (("t",), [0., 1.], D1)})
    for pattern, want in [("v_{%Y-%Y.nc", "refused"), ("v_{%Y}.nc", "refused"), ("v_{%Y-%m-%d}.nc", "refused"), ("v_{%Y-%Y}_{.nc", "refused"), ("v_%Y-%Y}.nc", ["v_%Y-%Y}.nc"])]:
        for second in (False, True):
            ds = OrderedDict()
            ds["V"] = e2e.outvar(["T"], "a", attrs={"units": "1"}, filename=os.path.join(work, pattern))
            ds["time"] = e2e.outvar(["T"], "time", attrs=D1)
            if second:
                ds["W"] = e2e.outvar(["T"], "2*a", attrs={"units": "1"}, filename=os.path.join(work, "second.nc"))
            try:
                e2e.run([inp], ds)
                got = files(work)
            except ValueError:
                got = "refused" if not files(work) else files(work)
            except Exception as err:
                got = "failed: %r" % err
            w = want if want == "refused" else sorted(want + (["second.nc"] if second else []))
            chk.ran((pattern, second), got)
            if got != w:
                chk.fail("pattern %s second %s" % (pattern, second), "%r instead of %r" % (got, w), {"pattern": pattern})
            for f in files(work):
                os.unlink(os.path.join(work, f))
    # two files that come to the same name
    for p1, p2 in [("v_{%Y-%Y}.nc", "v_2001-2001.nc"), ("v_{%Y-%Y}.nc", "v_{%Y-2001}.nc"), ("v_{%Y-%Y}.nc", "v_{%m-%m}.nc")]:
        for order in (0, 1):
            ds = OrderedDict()
            for n, p, text_ in [("V", p1, "a"), ("W", p2, "2*a")][::-1 if order else 1]:
                ds[n] = e2e.outvar(["T"], text_, attrs={"units": "1"}, filename=os.path.join(work, p))
            ds["time"] = e2e.outvar(["T"], "time", attrs=D1)
            try:
                e2e.run([inp], ds)
                got = files(work)
            except (ValueError, RuntimeError):
                got = "refused" if not files(work) else files(work)
            want = ["v_01-01.nc", "v_2001-2001.nc"] if p2.startswith("v_{%m") else "refused"
            chk.ran((p1, p2, order), got)
            if got != want:
                chk.fail("files %s and %s order %d" % (p1, p2, order), "%r instead of %r" % (got, want), {})
            for f in files(work):
                os.unlink(os.path.join(work, f))


def explore(chk):
    d = chk.scratch()
    items = [(d, cal, ref, chk.thorough) for cal in CALS for ref in REFS if not mixed(ref, cal)]
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:3])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    arrangements(chk, d)
    malformed(chk, d)
