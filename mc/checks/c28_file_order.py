"""C28: input files are put in the order of their times and every gap, overlap or disorder of their times is found."""
import hashlib
import os
import shutil
from itertools import cycle, permutations, product

import cftime
import numpy
from netCDF4 import Dataset

from mc import par
from mc.e2e import quiet

PID = "C28"
LEVEL = "exploration"
RULE = ("calendars x units of time x first date x period (hours to decades; starts, middles or ends of months) x times with and without bounds (at their ends, or at different places of their intervals); for each: every sequence of "
        "three (thorough: four) out of six consecutive steps as one file and every run of four and five with one step replaced, every ordered pair of files out of all runs of at least three of nine steps, all ordered triples of "
        "runs which cover them, repeat one, overlap, leave one out or have other steps, all orders; error iff the times, in order, are not equally many steps apart; order and counts compared; "
        "40 files and long files in, against and out of order with one fault each; files unaltered; non-trivial = more than one file, or times out of step")

CALENDARS = ["noleap", "360_day", "standard", "proleptic_gregorian"]
UNITS = ["days since 0001-01-01 00:00:00", "days since 1979-01-01", "hours since 1978-03-15 06:00:00", "seconds since 1998-12-31 12:00:00", "minutes since 1970-01-01 00:00:00"]
PERIODS = ["1h", "3h", "6h", "12h", "1d", "5d", "mon first", "mon middle", "season", "year", "decade"]
STARTS = {"h": (1999, 12, 30, 6), "d": (2000, 2, 27, 0), "m": (1999, 10, 1, 0), "s": (1999, 3, 1, 0), "y": (1999, 1, 1, 0)}


def months(cal, n, y, m, step):
    m += n * step - 1
    return cftime.datetime(y + m // 12, m % 12 + 1, 1, calendar=cal)


def seconds(date, cal):
    return int(round(cftime.date2num(date, "seconds since 1900-01-01", cal)))


def edges(period, cal, n, early):
    """n + 1 edges of n steps, in seconds"""
    kind = period[-1] if period[0].isdigit() else period[0]
    kind = "y" if period == "decade" else kind
    y, m, d, h = STARTS[kind]
    if early:
        y -= 1998
    if kind in "hd":
        s = seconds(cftime.datetime(y, m, d, h, calendar=cal), cal)
        return [s + k * int(period[:-1]) * (3600 if kind == "h" else 86400) for k in range(n + 1)]
    step = {"mon first": 1, "mon middle": 1, "season": 3, "year": 12, "decade": 120}[period]
    return [seconds(months(cal, k, y, m, step), cal) for k in range(n + 1)]


def encode(secs, units, cal):
    """seconds -> numbers in the units"""
    unit, ref = units.split(" since ")
    ref = ref.split()
    y, m, d = map(int, ref[0].split("-"))
    h = int(ref[1].split(":")[0]) if len(ref) > 1 else 0
    zero = seconds(cftime.datetime(y, m, d, h, calendar=cal), cal)
    return [(s - zero) / {"days": 86400., "hours": 3600., "minutes": 60., "seconds": 1.}[unit] for s in secs]


class Series(object):
    """Steps of one period, written as files on demand"""

    def __init__(self, d, period, cal, units, bounds, early, n=9):
        self.dir, self.cal, self.units, self.bounds = d, cal, units, bounds
        e = edges(period, cal, n, early)
        times = [(a + b) // 2 for a, b in zip(e, e[1:])] if period == "mon middle" else e[:-1] if not bounds else e[1:]
        if bounds == "loose":
            # somewhere in their intervals: it is the intervals which follow each other
            times = [a + int((b - a) * f) for a, b, f in zip(e, e[1:], cycle((.5, .25, .9, .1, .75, .5, 0., .6, .3)))]
        self.times = encode(times, units, cal)
        self.edges = encode(e, units, cal)
        self.files = {}

    def file(self, steps):
        steps = tuple(steps)
        if steps not in self.files:
            # names do not sort like the times; some are a single letter
            if max(steps) > 9:
                name = "f%d.%d.nc" % (steps[0] * 37 % 101, len(self.files))
            else:
                name = "".join("zyxwvutsrq"[s] for s in steps) + (".nc" if len(steps) != 4 else "")
            path = os.path.join(self.dir, name)
            with Dataset(path, "w", format="NETCDF3_CLASSIC") as nc:
                nc.createDimension("time", None)
                nc.createDimension("nb", 2)
                nc.createDimension("x", 1)
                t = nc.createVariable("time", "f8", ("time",))
                t.units, t.calendar = self.units, self.cal
                t[:] = [self.times[s] for s in steps]
                if self.bounds:
                    t.bounds = "time_bnds"
                    nc.createVariable("time_bnds", "f8", ("time", "nb"))[:] = [[self.edges[s], self.edges[s + 1]] for s in steps]
            self.files[steps] = path
        return self.files[steps]


def in_step(steps):
    d = {b - a for a, b in zip(steps, steps[1:])}
    return len(d) == 1 and min(d) > 0


def expected(runs):
    """runs: tuples of steps in the order given -> (in order?, names in order, counts)"""
    if not all(in_step(r) for r in runs) or len({r[1] - r[0] for r in runs}) > 1:
        return 1, None, None
    order = sorted(runs, key=lambda r: (r[0] + r[-1], r))
    step = order[0][1] - order[0][0]
    for a, b in zip(order, order[1:]):
        if b[0] - a[-1] != step:
            return 1, None, None
    return 0, order, [len(r) for r in order]


def examine(series, runs):
    from pyconform import mapdates
    paths = [series.file(r) for r in runs]
    with quiet():
        try:
            got = mapdates.get_files_in_order(list(paths))
            names, counts, error = got
        except Exception as err:
            return "failed: %r" % err
    error_, order, counts_ = expected(runs)
    if bool(error) != bool(error_):
        return "error %r instead of %r" % (error, error_)
    if not error_:
        if [os.path.basename(x) for x in names] != [os.path.basename(series.file(r)) for r in order]:
            return "order %r instead of %r" % (list(names), order)
        if [int(c) for c in counts] != counts_:
            return "counts %r instead of %r" % (list(counts), counts_)
    return None


def job(item):
    d, period, cal, units, bounds, early, depth = item
    d = os.path.join(d, "s%d" % os.getpid())
    os.makedirs(d)
    fails, n, nt = [], 0, 0
    try:
        s = Series(d, period, cal, units, bounds, early)
        name = "%s %s %r%s%s" % (period, cal, units, " %s bounds" % (bounds if bounds == "loose" else "") if bounds else "", " early" if early else "")
        cases = [(c,) for k in range(3, 4 + (depth > 1)) for c in product(range(6 if depth else 5), repeat=k)]
        # longer runs with one step out of place
        cases += [(tuple(range(i)) + (c,) + tuple(range(i + 1, k)),) for k in (4, 5) for i in range(k) for c in range(k + 1)]
        runs = [tuple(range(i, j)) for i in range(9) for j in range(i + 3, 10)]
        cases += [(a, b) for a in runs for b in runs if depth > 1 or abs(a[-1] + 1 - b[0]) < 2 or (depth and len(a + b) < 8)]
        thirds = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (2, 3, 4), (5, 6, 7), (0, 1, 2, 3, 4, 5), (3, 4, 5, 6, 7, 8)]
        cases += list(product(thirds, repeat=3)) if depth else list(permutations(thirds[:4], 3))
        # files of other steps than their neighbours'
        wide = [(0, 2, 4), (3, 5, 7), (1, 3, 5), (4, 6, 8), (2, 5, 8), (0, 3, 6)]
        cases += [c for w in wide for r in thirds[:3] + [(0, 1, 2, 3)] for c in ((w, r), (r, w))]
        cases += [c for w in ((3, 5, 7), (2, 4, 6)) for c in permutations([(0, 1, 2), w, (6, 7, 8)])]
        cases += [c for c in permutations([(0, 1, 2), (3, 4, 5), (6, 7, 8)]) if depth > 1]
        if period in ("1d", "mon first"):
            cases += [c for a in range(9) for b in range(9) for c in permutations([tuple(x for x in range(3) if x != a) or (0,), (3, 4, 5), tuple(x for x in (6, 7, 8) if x != b)], 3)
                      if min(map(len, c)) > 2]
        hashes = {}
        for runs_ in cases:
            n += 1
            nt += len(runs_) > 1 or not in_step(runs_[0])
            bad = examine(s, runs_)
            if bad:
                fails.append(("%s files %r" % (name, runs_), bad))
        # a second time over a few: the files are as they were
        for steps, path in s.files.items():
            with open(path, "rb") as f:
                hashes[steps] = hashlib.sha1(f.read()).hexdigest()
        for runs_ in cases[-6:]:
            bad = examine(s, runs_)
            if bad:
                fails.append(("%s files %r again" % (name, runs_), bad))
        for steps, path in s.files.items():
            with open(path, "rb") as f:
                if hashes[steps] != hashlib.sha1(f.read()).hexdigest():
                    fails.append(("%s file %r" % (name, steps), "was altered"))
    finally:
        shutil.rmtree(d)
    return n, nt, fails


def many_job(item):
    """many files, and files of many steps: in, against and out of order, one missing, one twice, one step left out"""
    d, period, cal, units, bounds, size = item
    d = os.path.join(d, "m%d" % os.getpid())
    os.makedirs(d)
    fails, n = [], 0
    try:
        count = 40 if size < 12 else 5
        s = Series(d, period, cal, units, bounds, False, count * size + 1)
        runs = [tuple(range(k * size, (k + 1) * size)) for k in range(count)]
        cases = [runs, runs[::-1], runs[1::2] + runs[::2], sorted(runs, key=lambda r: r[0] * 37 % 101), [sum(runs, ())]]
        cases += [runs[k:] + runs[:k] for k in range(1, count, 6)] + [runs[:k] + runs[k + 2:k + 3] + runs[k + 1:k + 2] + runs[k + 3:] for k in range(0, count - 2, 5)]
        for k in sorted({1, count // 2, count - 2}):
            cases += [runs[:k] + runs[k + 1:], runs[:k] + runs[k:k + 1] + runs[k:], runs[k + 1:] + runs[:k]]
            cases += [runs[:k] + [runs[k][:j] + runs[k][j + 1:]] + runs[k + 1:] for j in sorted({0, size // 2, size - 1}) if size > 3]
            cases += [runs[:k] + [tuple(x + 1 for x in runs[k])] + runs[k + 1:]]
            if size > 3:
                j = size // 2
                cases += [runs[:k] + [runs[k][:j] + (runs[k][j + 1], runs[k][j]) + runs[k][j + 2:]] + runs[k + 1:],
                          runs[:k] + [runs[k][:j] + (runs[k][j - 1],) + runs[k][j + 1:]] + runs[k + 1:]]
        whole = sum(runs, ())
        cases += [[whole[:k] + whole[k + 1:]] for k in (0, 1, 50, len(whole) // 2, len(whole) - 2, len(whole) - 1)]
        for c in cases:
            n += 1
            bad = examine(s, c)
            if bad:
                fails.append(("%d files of %d steps %s %s %r case %d" % (count, size, period, cal, units, n), bad[:500]))
    finally:
        shutil.rmtree(d)
    return n, n, fails


def dispatch(item):
    return many_job(item) if len(item) == 6 else job(item)


def explore(chk):
    d = chk.scratch()
    items = [(d, p, c, u, b, k) for p, c, u in (("1d", "noleap", UNITS[1]), ("mon first", "standard", UNITS[1]), ("6h", "360_day", UNITS[2]), ("year", "proleptic_gregorian", UNITS[0]))
             for b in (False, True) for k in ((3, 12, 130) if p != "year" else (3, 12))]
    for period, cal, units, bounds, early in product(PERIODS, CALENDARS, UNITS, (False, True, "loose"), (False, True)):
        if early and (cal != "noleap" or "since 0001" not in units):
            continue
        core = units is UNITS[1] and (cal == "noleap" or period in ("mon first", "1d"))
        if not chk.thorough and UNITS.index(units) not in {"noleap": (0, 1, 2, 3), "standard": (1, 2, 4), "360_day": (1, 2), "proleptic_gregorian": (1,)}[cal]:
            continue
        if not chk.thorough and not core and (UNITS.index(units) + PERIODS.index(period) + (False, True, "loose").index(bounds) + early) % 2:
            continue
        items.append((d, period, cal, units, bounds, early, 2 if chk.thorough else 1 if core else 0))
    for item, (st, res) in zip(items, par.pmap(dispatch, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:]), "cases": n}])
        for k, w in fails[:30]:
            chk.fail(k, w, {"case": k})
    # what cannot be read is refused, not skipped
    from pyconform import mapdates
    s = Series(d, "1d", "noleap", UNITS[1], False, False)
    junk = os.path.join(d, "junk.nc")
    with open(junk, "w") as f:
        f.write("no netCDF")
    for paths in ([junk], [s.file((0, 1, 2)), junk], [junk, s.file((0, 1, 2))], [os.path.join(d, "absent.nc")], [s.file((0, 1, 2)), os.path.join(d, "absent.nc")]):
        key = "unreadable %r" % [os.path.basename(p) for p in paths]
        try:
            with quiet():
                error = mapdates.get_files_in_order(paths)[2]
            bad = None if error else "accepted"
        except Exception:
            bad = None
        chk.ran(key, bad)
        if bad:
            chk.fail(key, bad, {})
