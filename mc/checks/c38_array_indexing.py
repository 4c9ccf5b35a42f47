"""C38: selecting from and assigning to parts of a physical array, by position or by dimension name."""
from itertools import permutations, product

import numpy

from mc import par
from mc.model import UNITS, Arr, close, differs, observe, to_phys, unit_matches

PID = "C38"
LEVEL = "exploration"
RULE = ("arrays of every ordered tuple of up to 3 named dimensions, with masks, units, sign conventions x every index of integers and "
        "slices: positional, elliptic, by name in every order (with names the array does not have); and every assignment "
        "to such a selection of numbers, plain arrays, missing data and physical arrays with convertible or inconvertible units and permuted "
        "dimensions; transpositions by name and position; compared with a map-based model; non-trivial = a proper selection")

SIZES = {"x": 3, "y": 2, "z": 2}
ITEM = [slice(None), 0, 1, -1, slice(0, 1), slice(1, None), slice(None, None, -1), slice(0, 0), slice(-1, -3, -1)]
SMALL = [slice(None), -1, 0, slice(1, None), slice(None, None, -1)]
VALS = [3, 7, -12, 25, 0.5, 4, 8, 9, -1, 6, 11, 13]


def base(dims, masked, pos="up", unit="m"):
    n = 1
    for d in dims:
        n *= SIZES[d]
    return Arr.make(dims, SIZES, VALS[:n], UNITS[unit], pos, masked)


def requests(dims, menu):
    yield slice(None), {}
    yield Ellipsis, {}
    yield (), {}
    yield {}, {}
    for k in range(1, len(dims) + 1):
        for c in product(menu, repeat=k):
            yield c, dict(zip(dims, c))
            if k < len(dims):
                yield (Ellipsis,) + c, dict(zip(dims[len(dims) - k:], c))
                yield c + (Ellipsis,), dict(zip(dims, c))
            if k == 2:
                yield (c[0], Ellipsis, c[1]), {dims[0]: c[0], dims[-1]: c[1]}
        for ds in permutations(dims, k):
            for c in product(SMALL, repeat=k):
                d = dict(zip(ds, c))
                yield d, d
                yield dict(d, other=0), d
    for i in (menu if dims else []):
        yield i, {dims[0]: i}


def job(item):
    from pyconform.physarray import PhysArray

    dims, masked, pos, full = item
    m = base(dims, masked, pos)
    fails, n, nt = [], 0, 0

    def bad(key, what):
        if len(fails) < 12:
            fails.append(("%s %s %s: %s" % (dims, masked, pos, key), what))

    menu = ITEM if full else SMALL
    for idx, byname in requests(dims, menu):
        n += 1
        nt += bool(byname)
        real = to_phys(m, "m", "a")
        want = m.take(**byname)
        try:
            got = real[idx]
            d = differs(got, want)
            if not d and differs(real, m):
                d = "selecting changed the array"
        except Exception as err:
            d = "failed: %r" % err
        if d:
            bad("[%r]" % (idx,), d)
    # assignment
    for idx, byname in requests(dims, SMALL[1:] + [slice(None)]):
        sel = m.take(**byname)
        coords = {}
        src = []
        # the flat list of selected coordinates of the original, in the order of the selection
        where = Arr(m.dims, m.sizes, {k: k for k in m.vals}, m.unit).take(**byname)
        shape = tuple(where.sizes[d] for d in where.dims)
        cnt = len(where.vals)
        scalar = [(2.5, 2.5), (4, 4.0)]
        plain = numpy.arange(cnt).reshape(shape) * 1.25 + 100
        jobs = [("number %r" % v, v, {k: w for k in where.vals}) for v, w in scalar]
        jobs.append(("array", plain, {k: float(plain[k]) for k in where.vals}))
        if cnt:
            mk = numpy.ma.array(plain, mask=False)
            mk[tuple(0 for _ in shape)] = numpy.ma.masked
            jobs.append(("masked array", mk, {k: (None if not any(k) else float(plain[k])) for k in where.vals}))
        if shape == tuple(m.sizes[d] for d in m.dims) and len(dims) > 0:
            for dd in permutations(dims):
                for unit, f in (("m", 1.0), ("km", 1000.0), ("cm", 0.01)):
                    srcm = Arr.make(dims, SIZES, [100 + 1.25 * i for i in range(cnt)], UNITS[unit], None, (0,)).transpose(dd)
                    back = srcm.transpose(dims)
                    jobs.append(("physical %s %s" % (dd, unit), to_phys(srcm, unit, "b"), {k: None if back.vals[k] is None else back.vals[k] * f for k in where.vals}))
            jobs.append(("inconvertible", to_phys(Arr.make(dims, SIZES, [1.0] * cnt, UNITS["s"]), "s", "b"), None))
        for what, value, new in jobs:
            n += 1
            nt += bool(byname)
            key = "[%r] = %s" % (idx, what)
            real = to_phys(m, "m", "a")
            if new is None:
                try:
                    real[idx] = value
                    bad(key, "accepted")
                except (ValueError, TypeError):
                    pass
                if differs(real, m):
                    bad(key, "refused but changed: %s" % differs(real, m))
                continue
            want = m.copy(vals=dict(m.vals))
            for k, orig in where.vals.items():
                want.vals[orig] = new[k]
            try:
                real[idx] = value
                d = differs(real, want)
            except Exception as err:
                d = "failed: %r" % err
            if d:
                bad(key, d)
    # transposition
    for dd in permutations(dims):
        for form in ("names", "tuple", "list", "axes"):
            n += 1
            nt += dd != dims
            real = to_phys(m, "m", "a")
            try:
                got = {"names": lambda: real.transpose(*dd), "tuple": lambda: real.transpose(tuple(dd)), "list": lambda: real.transpose(list(dd)),
                       "axes": lambda: real.transpose(*[dims.index(x) for x in dd])}[form]()
                d = differs(got, m.transpose(dd)) or differs(real, m)
            except Exception as err:
                d = "failed: %r" % err
            if d:
                bad("transpose %s %s" % (form, dd), d)
    for dd in [dims + ("q",), dims[:-1], tuple("pqr"[:len(dims)])]:
        if set(dd) == set(dims):
            continue
        n += 1
        try:
            to_phys(m, "m", "a").transpose(*dd)
            bad("transpose to %s" % (dd,), "accepted")
        except (ValueError, TypeError):
            pass
    return n, nt, fails


def explore(chk):
    items = []
    for k in range(0, 4):
        for dims in permutations(("x", "y", "z"), k):
            for masked in ((), (0,), (1,)) if k else ((), (0,)):
                for pos in ("up", None, "down"):
                    if not chk.thorough and pos == "down" and k != 2:
                        continue
                    items.append((dims, masked, pos, k < 3 or chk.thorough))
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
