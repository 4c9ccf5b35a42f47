"""C11: the up/down sign convention is respected by arithmetic, conversion, functions."""
import operator
from itertools import product

from mc import par
from mc.model import UNITS, Arr, ModelError, binop, differs, to_phys
from pyconform.flownodes import DataNode, EvalNode
from pyconform.functions import find_function, find_operator

PID = "C11"
LEVEL = "exploration"
RULE = ("{none, up, down}^2 (and ^3 for two-operator expressions) x {+,-,*,/} x plain/in-place x same/different units "
        "x same/permuted/disjoint dimensions, up()/down()/flip() sequences to depth 4, powers, and the up/down functions "
        "nested in expressions evaluated through flow nodes; non-trivial = some convention is set")

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
POS = (None, "up", "down")
DIMS = [("x", "y"), ("y", "x"), ("x",), ("z",), ()]
SIZES = {"x": 2, "y": 2, "z": 2}


def arr(dims, unit, pos, which=0, masked=()):
    n = 2 ** len(dims)
    return Arr.make(dims, SIZES, [[3, 7, -12, 25], [-2, 5, 9, 4], [6, -8, 1.5, 10]][which][:n], UNITS[unit], pos, masked)


def attempt(f):
    try:
        return f()
    except ModelError:
        return "undefined"
    except (ValueError, TypeError):
        return "refused"


def compare(fails, key, model, real):
    if isinstance(model, str) or isinstance(real, str):
        if not (isinstance(model, str) and isinstance(real, str)):
            fails.append((key, "model: %s, code: %s" % (model if isinstance(model, str) else "defined", real if isinstance(real, str) else "gave a result")))
        return
    d = differs(real, model)
    if d:
        fails.append((key, d))


def pair_job(pa):
    fails, n, nt = [], 0, 0
    for pb, da, db, (ua, ub), op in product(POS, DIMS, DIMS, [("m", "m"), ("m", "km"), ("m", "s")], OPS):
        if op in "+-" and ub == "s":
            continue
        for m in ((), (0,)):
            a, b = arr(da, ua, pa, 0, m if da else ()), arr(db, ub, pb, 1)
            key = "%s %s[%s] %s %s %s[%s]%s" % (pa, ",".join(da), ua, op, pb, ",".join(db), ub, m)
            compare(fails, key, attempt(lambda: binop(op, a, b)), attempt(lambda: OPS[op](to_phys(a, ua), to_phys(b, ub))))
            n += 1
            nt += bool(pa or pb)
            if set(db) <= set(da):
                compare(fails, "inplace " + key, attempt(lambda: binop(op, a, b)), attempt(lambda: IOPS[op](to_phys(a, ua), to_phys(b, ub))))
                n += 1
    for da, op, v in product(DIMS, OPS, (2, 0.5)):
        u = "1"
        a, s = arr(da, u, pa), Arr.make((), {}, [v], UNITS["1"])
        compare(fails, "%s %s %s %r" % (pa, da, op, v), binop(op, a, s), attempt(lambda: OPS[op](to_phys(a, u), v)))
        compare(fails, "%r %s %s %s" % (v, op, pa, da), binop(op, s, a).transpose(a.dims), attempt(lambda: OPS[op](v, to_phys(a, u))))
        n += 2
    for da, e in product(DIMS, (0, 1, 2, 3, 4, -1, -2)):
        a, s = arr(da, "m", pa), Arr.make((), {}, [e], UNITS["1"])
        compare(fails, "%s %s ** %d" % (pa, da, e), binop("**", a, s), attempt(lambda: to_phys(a, "m") ** e))
        n += 1
        for pe in ("up", "down"):
            compare(fails, "%s ** %s" % (pa, pe), "undefined", attempt(lambda: to_phys(a, "m") ** to_phys(s.copy(positive=pe), "1")))
    for da in DIMS:
        a = arr(da, "m", pa)
        for seq in (q for k in range(1, 5) for q in product(("up", "down", "flip"), repeat=k)):
            m, p = a, to_phys(a, "m")
            for s in seq:
                m = m.flip() if s == "flip" else m.toward(s)
                p = getattr(p, s)()
            compare(fails, "%s %s %s" % (pa, da, ".".join(seq)), m, p)
            n += 1
            nt += 1
    return n, nt, fails


def triple_job(job):
    pa, op1 = job
    fails, n, nt = [], 0, 0
    units = [("m", "km", "m"), ("m", "m", "cm")] if op1 in "+-" else [("m", "s", "m"), ("1", "1", "1")]
    for pb, pc, op2, (ua, ub, uc), (db, dc) in product(POS, POS, OPS, units, [(("x", "y"), ("y", "x")), (("y",), ("x",)), ((), ("x", "y"))]):
        a, b, c = arr(("x", "y"), ua, pa, 0), arr(db, ub, pb, 1), arr(dc, uc, pc, 2)
        A, B, C = [lambda q=q, u=u: to_phys(q, u) for q, u in ((a, ua), (b, ub), (c, uc))]
        k = "%s[%s] %s %s[%s] %s %s[%s] %s,%s" % (pa, ua, op1, pb, ub, op2, pc, uc, db, dc)
        compare(fails, "left " + k, attempt(lambda: binop(op2, binop(op1, a, b), c)), attempt(lambda: OPS[op2](OPS[op1](A(), B()), C())))
        compare(fails, "right " + k, attempt(lambda: binop(op1, a, binop(op2, b, c))), attempt(lambda: OPS[op1](A(), OPS[op2](B(), C()))))
        n += 2
        nt += bool(pa or pb or pc)
    return n, nt, fails


def node_job(pa):
    """up/down functions inside expressions, evaluated twice through flow nodes"""
    fails, n, nt = [], 0, 0
    fn = {"up": find_function("up"), "down": find_function("down")}
    for pb, f, g, op, ub in product(POS, (None, "up", "down"), (None, "up", "down"), ("+", "-", "*"), ("m", "km")):
        a, b = arr(("x", "y"), "m", pa, 0, (1,)), arr(("y", "x"), ub, pb, 1)
        A, B = DataNode(to_phys(a, "m", "a")), DataNode(to_phys(b, ub, "b"))
        na = EvalNode("f", fn[f], A) if f else A
        nb = EvalNode("g", fn[g], B) if g else B
        node = EvalNode(op, find_operator(op, numargs=2), na, nb)
        neg = EvalNode("-", find_operator("-", numargs=1), node)
        ma, mb = (a.toward(f) if f else a), (b.toward(g) if g else b)
        want = binop(op, ma, mb)
        for i in range(2):
            k = "run%d %s(%s) %s %s(%s [%s])" % (i, f, pa, op, g, pb, ub)
            compare(fails, k, want, attempt(lambda: node[:]))
            compare(fails, "-" + k, want.map(lambda v: -v), attempt(lambda: neg[:]))
            compare(fails, "part " + k, want.take(x=slice(1, 2)), attempt(lambda: node[{"x": slice(1, 2)}]))
            n += 3
            nt += 3
        inner = EvalNode("up", fn["up"], EvalNode("down", fn["down"], na))
        compare(fails, "up(down(%s(%s)))" % (f, pa), ma.toward("down").toward("up"), attempt(lambda: inner[:]))
        n += 1
    return n, nt, fails


def dispatch(j):
    return j[0](j[1])


def explore(chk):
    jobs = [(pair_job, p) for p in POS] + [(triple_job, (p, o)) for p in POS for o in OPS] + [(node_job, p) for p in POS]
    for job, (st, res) in zip(jobs, par.pmap(dispatch, jobs)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job[1])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(job[1]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
