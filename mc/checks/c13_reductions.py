"""C13: reductions act on exactly the named dimensions and on valid data only."""
from itertools import combinations, permutations, product

import numpy

from mc import par
from mc.model import UNITS, Arr, differs, snapshot, to_phys

PID = "C13"
LEVEL = "exploration"
RULE = ("arrays of every ordered tuple of up to 3 named dimensions with sizes 1-3 x every mask of up to 6 elements (line and "
        "plane masks above) x floating, single and integer data x every sequence of distinct dimension names (including "
        "names the array does not have) x mean/sum/min/max as functions in a flow graph, and mean/sum as array methods by "
        "name and by axis; zonalmean of arrays of four dimensions; sequences of two reductions; compared with explicit loops; non-trivial = something is reduced")

PRIMES = [2, 3, -5, 7, 11, -13, 17, 19, 23, -29, 31, 37, 41, 43, -47, 53, 59, 61]


def masks(shape, thorough):
    n = int(numpy.prod(shape)) if shape else 1
    if n <= (6 if thorough or len(shape) < 3 else 2):
        return [tuple(i for i in range(n) if m >> i & 1) for m in range(2 ** n)]
    idx = numpy.arange(n).reshape(shape)
    out = [(), (0,), (n - 1,), tuple(range(n))]
    for ax in range(len(shape)):
        for k in range(shape[ax]):
            out.append(tuple(int(i) for i in numpy.take(idx, k, axis=ax).ravel()))
    out += [tuple(i for i in range(n) if i % 2), tuple(range(n - 1)), tuple(range(1, n))]
    return out


def names(dims):
    pool = list(dims) + ["nodim"]
    for k in range(0, len(pool) + 1):
        for p in permutations(pool, k):
            yield p


def job(item):
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.functions import find_function

    dims, sizes, thorough = item
    shape = tuple(sizes[d] for d in dims)
    n = nt = 0
    fails = []

    def check(key, f, want, rtol):
        try:
            d = differs(f(), want, rtol)
        except Exception as err:
            d = "failed: %r" % err
        if d and len(fails) < 10:
            fails.append((key, d))

    for mask in masks(shape, thorough):
        for dt, unit, pos in (("f8", "m", "up"), ("f4", "1", None), ("i4", "kg m-2 s-1", "down")):
            if dt != "f8" and len(mask) not in (0, 1) and not thorough:
                continue
            count = int(numpy.prod(shape)) if shape else 1
            m = Arr.make(dims, sizes, PRIMES[:count], UNITS[unit], pos, mask)
            real = to_phys(m, unit, "a", dt)
            node = DataNode(real)
            before = snapshot(node[...])
            rtol = 1e-5 if dt == "f4" else 1e-9
            for nm in names(dims):
                eff = tuple(d for d in nm if d in dims)
                for how in ("mean", "sum", "min", "max"):
                    key = "%s %s%s mask=%s %s%r" % (dt, how, dims, mask, shape, nm)
                    want = m.reduce(eff, how)
                    n += 1
                    nt += bool(eff)
                    check(key, lambda: EvalNode(how, find_function(how), node, *nm)[...], want, rtol)
                    if how in ("mean", "sum") and "nodim" not in nm:
                        check("method " + key, lambda: getattr(real, how)(dimensions=list(nm)), want, rtol)
                        check("method tuple " + key, lambda: getattr(real, how)(dimensions=tuple(nm)), want, rtol)
                        axes = tuple(dims.index(d) for d in nm)
                        check("axis " + key, lambda: getattr(real, how)(axis=axes), want, rtol)
                        n += 3
                        if len(axes) == 1:
                            check("axis int " + key, lambda: getattr(real, how)(axis=axes[0]), want, rtol)
                            check("axis negative " + key, lambda: getattr(real, how)(axis=axes[0] - len(dims)), want, rtol)
                            n += 2
                        if set(nm) == set(dims):
                            check("all " + key, lambda: getattr(real, how)(), want, rtol)
                            n += 1
            if snapshot(node[...]) != before:
                fails.append(("purity %s %s" % (dims, mask), "reducing changed the data"))
            if dt == "f8":
                for d1, d2 in permutations(dims, 2):
                    for h1, h2 in product(("mean", "sum", "min", "max"), repeat=2):
                        key = "%s(%s(a,%s),%s) %s mask=%s" % (h2, h1, d1, d2, shape, mask)
                        want = m.reduce((d1,), h1).reduce((d2,), h2)
                        n += 1
                        nt += 1
                        check(key, lambda: EvalNode(h2, find_function(h2), EvalNode(h1, find_function(h1), node, d1), d2)[...], want, rtol)
    return n, nt, fails


def job_zonal(item):
    """zonalmean: the mean over the fourth dimension, whatever its name"""
    from pyconform.flownodes import DataNode
    from mc import modfun
    modfun.load("commonfunctions")
    dims, sizes, thorough = item
    shape = tuple(sizes[d] for d in dims)
    n, fails = 0, []
    for mask in masks(shape, thorough):
        for dt, unit, pos in (("f8", "m", "up"), ("f4", "1", None), ("i4", "kg m-2 s-1", "down")):
            if dt != "f8" and len(mask) not in (0, 1):
                continue
            n += 1
            m = Arr.make(dims, sizes, (PRIMES * 5)[:int(numpy.prod(shape))], UNITS[unit], pos, mask)
            node = DataNode(to_phys(m, unit, "a", dt))
            before = snapshot(node[...])
            try:
                f = modfun.call("zonalmean", node)
                want = m.reduce((dims[3],), "mean")
                d = differs(f[...], want, 1e-5 if dt == "f4" else 1e-9)
                if not d and set(f.sumlike_dimensions) != {dims[3]}:
                    d = "reduces %r" % sorted(f.sumlike_dimensions)
                for k in range(3):
                    for sl in (slice(0, 1), slice(1, None), slice(None, None, -1)):
                        if not d and shape[k] > 1:
                            part = numpy.ma.asarray(f[{dims[k]: sl}])
                            whole = numpy.ma.asarray(f[...])[tuple(sl if q == k else slice(None) for q in range(3))]
                            if part.shape != whole.shape or not numpy.ma.allclose(part, whole) or (numpy.ma.getmaskarray(part) != numpy.ma.getmaskarray(whole)).any():
                                d = "part %r of %s" % (sl, dims[k])
                if snapshot(node[...]) != before:
                    d = "changed the data"
            except Exception as err:
                d = "failed: %r" % err
            if d and len(fails) < 10:
                fails.append(("%s zonalmean%s mask=%s %s" % (dt, dims, mask, shape), d))
    return n, n, fails


def _run(x):
    return (job_zonal if len(x[0]) == 4 else job)(x)


def explore(chk):
    items = [(dims, dict(zip(dims, sz)), chk.thorough) for dims in permutations(("x", "y", "z", "t")) for sz in product((1, 2), repeat=4)]
    items += [(("t", "z", "y", "x"), dict(zip("tzyx", sz)), chk.thorough) for sz in permutations((1, 2, 3, 2))]
    for k in range(0, 4):
        for dims in permutations(("x", "y", "z"), k):
            for sz in product((1, 2, 3), repeat=k):
                if k == 3 and (sorted(sz) not in ([1, 2, 3], [2, 2, 2]) if not chk.thorough else False):
                    continue
                items.append((dims, dict(zip(dims, sz)), chk.thorough))
    for item, (st, res) in zip(items, par.pmap(_run, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
