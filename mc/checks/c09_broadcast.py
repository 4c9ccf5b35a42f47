"""C09: arithmetic pairs elements by dimension name."""
import operator
from itertools import permutations, product

from mc import par
from mc.model import UNITS, Arr, ModelError, binop, differs, to_phys

PID = "C09"
LEVEL = "exploration"
RULE = ("all ordered dimension tuples over 3 named dimensions for both operands x {+,-,*,/,//} x masks x in-place/plain, "
        "all three-operand expressions over tuples of up to two dimensions, unequal sizes, length-1 dimensions, plain "
        "scalars on either side; compared element by element with a map-based model; non-trivial = operands differ in "
        "dimensions or masks")

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv}
SIZES = {"x": 2, "y": 3, "z": 2}
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def tuples(names, upto):
    return [p for n in range(upto + 1) for p in permutations(names, n)]


def arr(dims, sizes=SIZES, which=0, masked=()):
    n = 1
    for d in dims:
        n *= sizes[d]
    vals = [PRIMES[(i + which) % 12] + 0.25 * which for i in range(n)]
    return Arr.make(dims, sizes, vals, UNITS["1"], None, masked)


def masks(dims, sizes=SIZES):
    yield ()
    if dims:
        yield (0,)
        yield (1,)


def attempt(f):
    try:
        return f()
    except ModelError:
        return "undefined"
    except (ValueError, TypeError) as err:
        return "refused"


def compare(chk_fails, key, model, real):
    if isinstance(model, str) or isinstance(real, str):
        if not (isinstance(model, str) and isinstance(real, str)):
            chk_fails.append((key, "model: %s, code: %s" % (model if isinstance(model, str) else "defined", real if isinstance(real, str) else "gave a result")))
        return
    d = differs(real, model)
    if d:
        chk_fails.append((key, d))


def pair_job(job):
    da, = job
    fails, n, nt = [], 0, 0
    for db in tuples("xyz", 3):
        for ma in masks(da):
            for mb in masks(db):
                a, b = arr(da, which=0, masked=ma), arr(db, which=3, masked=mb)
                for op in OPS:
                    key = "%s%r %s %s%r" % (",".join(da), ma, op, ",".join(db), mb)
                    want = attempt(lambda: binop(op, a, b))
                    got = attempt(lambda: OPS[op](to_phys(a, "1", "a"), to_phys(b, "1", "b")))
                    compare(fails, key, want, got)
                    n += 1
                    nt += da != db or bool(ma or mb)
                    want = attempt(lambda: binop(op, a, b)) if set(db) <= set(da) else "undefined"
                    got = attempt(lambda: IOPS[op](to_phys(a, "1", "a"), to_phys(b, "1", "b")))
                    compare(fails, "inplace " + key, want, got)
                    n += 1
    return n, nt, fails


def triple_job(job):
    da, op1 = job
    ts = tuples("xy", 2) + [("z",), ("z", "x"), ("y", "z")]
    fails, n, nt = [], 0, 0
    for db, dc in product(ts, ts):
        a, b, c = arr(da), arr(db, which=2, masked=(0,)), arr(dc, which=5)
        A, B, C = to_phys(a, "1", "a"), to_phys(b, "1", "b"), to_phys(c, "1", "c")
        for op2 in ("+", "-", "*", "/"):
            key = "(%s %s %s) %s %s" % (",".join(da), op1, ",".join(db), op2, ",".join(dc))
            compare(fails, key, binop(op2, binop(op1, a, b), c), attempt(lambda: OPS[op2](OPS[op1](A, B), C)))
            key = "%s %s (%s %s %s)" % (",".join(da), op1, ",".join(db), op2, ",".join(dc))
            compare(fails, key, binop(op1, a, binop(op2, b, c)), attempt(lambda: OPS[op1](A, OPS[op2](B, C))))
            n += 2
            nt += 2
    return n, nt, fails


def misc_job(_):
    fails, n, nt = [], 0, 0
    # unequal or length-1 sizes under one name
    for sa, sb in product([1, 2, 3], repeat=2):
        for da, db in product([("x",), ("x", "y"), ("y", "x"), ("z", "x")], repeat=2):
            a, b = arr(da, {"x": sa, "y": 2, "z": 1}), arr(db, {"x": sb, "y": 2, "z": 1}, which=4)
            for op in OPS:
                key = "%s(x=%d) %s %s(x=%d)" % (",".join(da), sa, op, ",".join(db), sb)
                compare(fails, key, attempt(lambda: binop(op, a, b)), attempt(lambda: OPS[op](to_phys(a, "1"), to_phys(b, "1"))))
                n += 1
                nt += 1
    # plain numbers on either side, every dimension tuple
    for da in tuples("xyz", 3):
        a = arr(da, masked=(0,) if da else ())
        for v in (2, 0.5, -3):
            s = Arr.make((), {}, [v], UNITS["1"])
            for op in OPS:
                compare(fails, "%s %s %r" % (",".join(da), op, v), binop(op, a, s), attempt(lambda: OPS[op](to_phys(a, "1"), v)))
                compare(fails, "%r %s %s" % (v, op, ",".join(da)), binop(op, s, a).transpose(a.dims), attempt(lambda: OPS[op](v, to_phys(a, "1"))))
                n += 2
                nt += 1
            if v in (2, 0.5):
                compare(fails, "%s ** %r" % (",".join(da), v), binop("**", a, s), attempt(lambda: to_phys(a, "1") ** v))
                n += 1
        # exponents must be scalar
        for db in (("x",), ("y", "x")):
            compare(fails, "%s ** array %s" % (",".join(da), ",".join(db)), "undefined", attempt(lambda: to_phys(a, "1") ** to_phys(arr(db), "1")))
            n += 1
        # invert
        inv = attempt(lambda: to_phys(a, "km").invert())
        compare(fails, "invert %s" % ",".join(da), a.map(lambda v: 1.0 / v, unit=UNITS["km"].power(-1)), inv)
        # transposition
        for p in permutations(da):
            compare(fails, "transpose %s to %s" % (da, p), a.transpose(p), attempt(lambda: to_phys(a, "1").transpose(p)))
            compare(fails, "transpose %s to *%s" % (da, p), a.transpose(p), attempt(lambda: to_phys(a, "1").transpose(*p) if p else to_phys(a, "1")))
            n += 2
        for bad in [da + ("q",), da[1:], ("q",) * len(da)]:
            if bad and bad != da:
                compare(fails, "transpose %s to %s" % (da, bad), "undefined", attempt(lambda: to_phys(a, "1").transpose(bad)))
                n += 1
    return n, nt, fails


def dispatch(j):
    return j[0](j[1])


def explore(chk):
    jobs = [(pair_job, (d,)) for d in tuples("xyz", 3)]
    ts = tuples("xy", 2) + [("z", "x"), ("y", "z")] + ([("z",), ("x", "z"), ("x", "y", "z"), ("z", "y", "x")] if chk.thorough else [])
    jobs += [(triple_job, (d, op)) for d in ts for op in ("+", "-", "*", "/")]
    jobs.append((misc_job, 0))
    for job, (st, res) in zip(jobs, par.pmap(dispatch, jobs)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job[1])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(job[1]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
