"""C06: joining two index expressions == applying them one after the other."""
from itertools import product

import numpy

from mc import par
from pyconform.indexing import align_index, index_tuple, join

PID = "C06"
LEVEL = "exploration"
RULE = ("every array length up to the bound x every first index x every second index (ints and slices, all "
        "starts/stops in [-n-1, n+1] or absent, steps +-1..3 or absent), long arrays between 11 ends with 7 steps, and tuples/ellipsis/dict forms on 2-D/3-D "
        "shapes; non-trivial = both indices applied to a non-empty array")


def indices(n, steps, margin=1):
    ends = [None] + list(range(-n - margin, n + margin + 1))
    out = [slice(a, b, s) for a in ends for b in ends for s in steps]
    out += list(range(-n - 1, n + 1))
    return out


def desc(i):
    if isinstance(i, slice):
        return "%s:%s:%s" % tuple("" if x is None else x for x in (i.start, i.stop, i.step))
    if isinstance(i, tuple):
        return "(" + ", ".join(desc(j) for j in i) + ")"
    if isinstance(i, dict):
        return "{" + ", ".join("%s=%s" % (k, desc(i[k])) for k in sorted(i)) + "}"
    return "..." if i is Ellipsis else repr(i)


def ref(a, i1, i2):
    try:
        b = a[i1]
    except IndexError:
        return "IndexError"
    try:
        c = b[i2] if isinstance(b, numpy.ndarray) and b.ndim else (b if i2 == () else None)
        if c is None:
            return "skip"
    except IndexError:
        return "IndexError"
    return (numpy.shape(c), tuple(numpy.ravel(c).tolist()))


def impl(a, i1, i2):
    try:
        i12 = join(a.shape, i1, i2)
    except IndexError:
        return "IndexError"
    try:
        c = a[i12]
    except IndexError:
        return "IndexError(result)"
    return (numpy.shape(c), tuple(numpy.ravel(c).tolist()))


def long_indices(n):
    ends = [None, 0, 1, n // 3, n - 1, n, n + 5, -1, -n // 2, -n, -n - 3]
    return [slice(a, b, s) for a in ends for b in ends for s in (None, 1, 7, n - 1, n + 1, -1, -10)] + [0, 1, n // 2, n - 1, n, -1, -n, -n - 1]


def one_d(args):
    n, steps, part, nparts = args
    a = numpy.arange(n)
    idx = indices(n, steps) if steps else long_indices(n)
    fails, cnt, nt, outs, samples = [], 0, 0, set(), []
    for k, i1 in enumerate(idx):
        if k % nparts != part:
            continue
        for i2 in idx:
            if not isinstance(i1, slice):
                if i2 != idx[0]:
                    continue
                i2 = ()
            r = ref(a, i1, i2)
            if r == "skip":
                continue
            g = impl(a, i1, i2)
            cnt += 1
            nt += r != "IndexError" and len(r[1]) > 0
            outs.add(r)
            if g != r:
                if len(fails) < 50:
                    fails.append(("n=%d %s then %s" % (n, desc(i1), desc(i2)), "applying one by one gives %r, the joined index gives %r" % (r, g)))
            elif len(samples) < 2:
                samples.append("n=%d %s then %s -> %r" % (n, desc(i1), desc(i2), r))
    return cnt, nt, fails, len(outs), samples


def multi_d(args):
    shape, part, nparts, pool1, pool2 = args
    a = numpy.arange(int(numpy.prod(shape))).reshape(shape)
    fails, cnt, nt, outs = [], 0, 0, set()
    for k, i1 in enumerate(pool1):
        if k % nparts != part:
            continue
        for i2 in pool2:
            if a[i1].ndim == 0 if not _bad(a, i1) else False:
                if i2 != ():
                    continue
            r = ref(a, i1, i2)
            if r == "skip":
                continue
            g = impl(a, i1, i2)
            cnt += 1
            nt += r != "IndexError" and len(r[1]) > 0
            outs.add(r)
            if g != r:
                if len(fails) < 50:
                    fails.append(("shape=%s %s then %s" % (shape, desc(i1), desc(i2)),
                                  "applying one by one gives %r, the joined index gives %r" % (r, g)))
    return cnt, nt, fails, len(outs), []


def _bad(a, i):
    try:
        a[i]
        return False
    except IndexError:
        return True


def explore(chk):
    jobs1 = []
    lens = range(0, 5) if chk.thorough else range(0, 4)
    for n in lens:
        steps = (None, 1, 2, 3, -1, -2, -3) if (n <= 3 or chk.thorough) else (None, 2, -1, -2)
        np_ = 16 if n >= 3 else 1
        jobs1 += [(n, steps, p, np_) for p in range(np_)]
    if not chk.thorough:
        jobs1 += [(4, (None, 2, -1), p, 16) for p in range(16)]
        jobs1 += [(5, (1, -2), p, 16) for p in range(16)]
    else:
        jobs1 += [(5, (None, 2, 3, -1, -2), p, 32) for p in range(32)]
        jobs1 += [(6, (2, -1, -3), p, 32) for p in range(32)]
    jobs1 += [(n, None, p, 16) for n in ((100, 1500) if chk.thorough else (100,)) for p in range(16)]
    el = [0, -1, 1, slice(None), slice(1, None), slice(None, None, -1), slice(0, 2), slice(0, 0), slice(2, None, -2)]
    el2 = el[:] if chk.thorough else [0, -1, slice(None), slice(1, None), slice(None, None, -1), slice(0, 0)]
    pool1 = [()] + el + [Ellipsis] + [p for p in product(el, el2)] + [(Ellipsis, e) for e in el] + [(e, Ellipsis) for e in el] + [(e, Ellipsis, f) for e in el2 for f in el2]
    pool2 = [()] + el2 + [Ellipsis] + [p for p in product(el2, el2)] + [(Ellipsis, e) for e in el2] + [(e, Ellipsis) for e in el2]
    jobs2 = [(shape, p, 8, pool1, pool2) for shape in [(3,), (3, 2), (1, 3), (2, 0), (2, 3, 2)] for p in range(8)]
    for jobs, fn in ((jobs1, one_d), (jobs2, multi_d)):
        for job, (st, res) in zip(jobs, par.pmap(fn, jobs)):
            if st == "err":
                chk.fail("crash", res, {"job": repr(job)[:200]})
                continue
            cnt, nt, fails, nout, samples = res
            chk.bulk(cnt, nt, [{"case": s} for s in samples], nout)
            for key, what in fails:
                chk.fail(key, what, {"case": key})
    # normal forms: index_tuple / align_index agree with numpy on every expression of the pools
    dims = ("x", "y", "z")
    for shape in [(3,), (3, 2), (2, 3, 2)]:
        a = numpy.arange(int(numpy.prod(shape))).reshape(shape)
        d = dims[:len(shape)]
        for i in pool1:
            if _bad(a, i):
                if sum(1 for e in (i if isinstance(i, tuple) else (i,)) if e is not Ellipsis) > a.ndim:
                    try:
                        index_tuple(i, a.ndim)
                        chk.fail("tuple:%s%s" % (shape, desc(i)), "too many indices accepted", {"i": desc(i)})
                    except IndexError:
                        pass
                    chk.ran(("many", shape, desc(i)), "IndexError")
                continue
            t = index_tuple(i, a.ndim)
            u = align_index(i, d)
            ok = len(t) == a.ndim and all(not (e is Ellipsis) for e in t) and numpy.array_equal(a[t], a[i]) and numpy.array_equal(a[u], a[i])
            chk.ran(("tuple", shape, desc(i)), numpy.shape(a[t]))
            if not ok:
                chk.fail("tuple:%s%s" % (shape, desc(i)), "normalised index %s selects something else" % desc(t), {"i": desc(i)})
        for combo in product([None, 0, slice(1, None), slice(None, None, -1)], repeat=len(shape)):
            by = {dd: e for dd, e in zip(d, combo) if e is not None}
            by["other"] = 1
            want = a[tuple(slice(None) if e is None else e for e in combo)]
            u = align_index(by, d)
            chk.ran(("dict", shape, desc(by)), want.shape)
            if not (len(u) == a.ndim and numpy.array_equal(a[u], want)):
                chk.fail("dict:%s%s" % (shape, desc(by)), "aligned index %s selects something else" % desc(u), {"i": desc(by)})
        e = align_index(None, d)
        chk.ran(("none", shape), a[e].shape)
        if a[e].size != 0 or a[e].ndim != a.ndim:
            chk.fail("none:%s" % (shape,), "None must select an empty array with all dimensions, got %s" % desc(e), {})
