"""C12: computing never changes the data it reads (histories of operations on shared arrays)."""
import operator

import numpy

from mc import exprs, par
from mc.model import UNITS, Arr, ModelError, Unspecified, binop, differs, snapshot, to_phys

PID = "C12"
LEVEL = "model_checking"
RULE = ("every operation history up to the depth bound on four shared registers (plain and in-place arithmetic, sign "
        "changes, powers, reductions, inversion), the real arrays being compared with a value-semantics model of all "
        "registers after every step, and every definition up to depth 2 probed, evaluated and sliced on shared arrays and nodes; states = distinct model states, transitions = operations executed on the real code")

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
SIZES = {"x": 2, "y": 2}


def initial():
    a = Arr.make(("x", "y"), SIZES, [3, 7, -12, 25], UNITS["m"], "up")
    b = Arr.make(("y", "x"), SIZES, [-2, 5, 9, 4], UNITS["m"], "down", (3,))
    c = Arr.make(("x",), SIZES, [0.5, -4], UNITS["km"], None)
    r = Arr.make((), SIZES, [1.5], UNITS["1"], None)
    return {"a": a, "b": b, "c": c, "r": r}


REALUNITS = {"a": "m", "b": "m", "c": "km", "r": "1"}


def build():
    m = initial()
    return m, {k: to_phys(m[k], REALUNITS[k], k) for k in m}


def alphabet(full):
    ops = []
    regs = ["a", "b", "c", "r"]
    for p in regs + [2.0]:
        for q in regs + [2.0]:
            if p == 2.0 and q == 2.0:
                continue
            for o in (("+", "-", "*", "/") if full else ("+", "*")):
                if not full and "r" in (p, q) and o == "*":
                    continue
                ops.append(("bin", p, o, q))
    for p in ("a", "b", "r"):
        for q in regs + [2.0]:
            for o in (("+", "-", "*", "/") if full else ("-",)):
                ops.append(("inp", p, o, q))
    for p in ("a", "b", "r"):
        for f in ("up", "down", "flip"):
            if full or p == "b" or f == "flip":
                ops.append(("sign", p, f))
    for p in regs:
        if full or p in "ab":
            ops.append(("pow", p, 2))
            ops.append(("mean", p))
            ops.append(("invert", p))
            if full:
                ops.append(("pow", p, 3))
                ops.append(("sum", p))
                ops.append(("floor", p, 2.0))
    if full:
        ops += [("floor", p, q) for p, q in (("a", "c"), ("c", "a"), ("a", "b"), ("c", "b"), (2.0, "a"), ("r", "b"))]
        ops += [("ifloor", p, q) for p, q in (("a", "c"), ("b", "a"), ("a", 2.0))]
    return ops


def model_val(m, p):
    return m[p] if isinstance(p, str) else Arr.make((), SIZES, [p], UNITS["1"])


def step_model(m, op):
    """new register contents (value semantics), or raises ModelError"""
    m = dict(m)
    k = op[0]
    if k == "bin":
        m["r"] = binop(op[2], model_val(m, op[1]), model_val(m, op[3]))
    elif k == "inp":
        a, b = model_val(m, op[1]), model_val(m, op[3])
        if not set(b.dims) <= set(a.dims):
            raise ModelError("in-place broadcast")
        m[op[1]] = binop(op[2], a, b)
    elif k == "sign":
        m[op[1]] = m[op[1]].flip() if op[2] == "flip" else m[op[1]].toward(op[2])
    elif k == "pow":
        m["r"] = binop("**", m[op[1]], model_val(m, op[2]))
    elif k in ("mean", "sum"):
        m["r"] = m[op[1]].reduce(("x",) if "x" in m[op[1]].dims else (), k)
    elif k == "invert":
        a = m[op[1]]
        m["r"] = a.map(lambda v: None if v == 0 else 1 / v, unit=a.unit.power(-1))
    elif k == "floor":
        m["r"] = binop("//", model_val(m, op[1]), model_val(m, op[2]))
    elif k == "ifloor":
        a, b = model_val(m, op[1]), model_val(m, op[2])
        if not set(b.dims) <= set(a.dims):
            raise ModelError("in-place broadcast")
        m[op[1]] = binop("//", a, b)
    return m


def step_real(s, op):
    k = op[0]
    val = lambda p: s[p] if isinstance(p, str) else p
    if k == "bin":
        s["r"] = OPS[op[2]](val(op[1]), val(op[3]))
    elif k == "inp":
        s[op[1]] = IOPS[op[2]](s[op[1]], val(op[3]))
    elif k == "sign":
        getattr(s[op[1]], op[2])()
    elif k == "pow":
        s["r"] = s[op[1]] ** op[2]
    elif k in ("mean", "sum"):
        d = ("x",) if "x" in s[op[1]].dimensions else ()
        if d:
            s["r"] = getattr(s[op[1]], k)(dimensions=d)
        else:
            s["r"] = s[op[1]].copy()
    elif k == "invert":
        s["r"] = s[op[1]].invert()
    elif k == "floor":
        s["r"] = val(op[1]) // val(op[2])
    elif k == "ifloor":
        s[op[1]] = operator.ifloordiv(s[op[1]], val(op[2]))


def target(op):
    return op[1] if op[0] in ("inp", "ifloor", "sign") else "r"


def canon(m):
    return tuple((k, m[k].dims, tuple(sorted((i, None if v is None else float("%.9g" % v)) for i, v in m[k].vals.items())),
                  "%.9g %s" % (m[k].unit.scale, m[k].unit.base_string()), m[k].positive) for k in sorted(m))


def run_history(hist, m0s):
    """Execute on the real code; check after the last step.  m0s: list of models after each step."""
    _, s = build()
    for op in hist[:-1]:
        step_real(s, op)
    before = {k: snapshot(s[k]) for k in s}
    op = hist[-1]
    want = m0s
    try:
        with numpy.errstate(all="ignore"):
            step_real(s, op)
    except (ValueError, TypeError, ZeroDivisionError) as err:
        return "refused" if want is None else "code refuses (%s)" % err, s, before
    if want is None:
        return "code gives a result where the operation is undefined", s, before
    for k in sorted(s):
        if k != target(op):
            after = snapshot(s[k])
            if after != before[k]:
                return "%s was changed by an operation that only reads it: %s -> %s" % (k, before[k], after), s, before
        d = differs(s[k], want[k], 1e-8)
        if d:
            return "register %s: %s" % (k, d), s, before
    return None, s, before


def explore_from(job):
    first, full, depth = job
    ops = alphabet(full)
    states, fails = set(), []
    counts = {"transitions": 0, "runs": 0}

    def rec(hist, m):
        for op in ([first] if not hist else ops):
            try:
                want = step_model(m, op)
            except ModelError:
                want = None
            except Unspecified:
                continue
            h = hist + [op]
            bad, s, before = run_history(h, want)
            counts["runs"] += 1
            counts["transitions"] += len(h)
            if bad and bad != "refused":
                if len(fails) < 10:
                    fails.append((" ; ".join(map(repr, h)), bad))
                continue
            if want is None:
                # a refused operation leaves the other registers alone
                for k in s:
                    if k != target(op) and snapshot(s[k]) != before[k] and len(fails) < 10:
                        fails.append((" ; ".join(map(repr, h)), "refused operation changed %s" % k))
                continue
            states.add(hash(canon(want)))
            if len(h) < depth:
                rec(h, want)

    rec([], initial())
    return counts, states, fails


def expressions(es):
    """definitions evaluated on arrays and on nodes that hold them: probe, whole and a part leave all of them alone"""
    fails, n = [], 0
    arrays = {v: to_phys(exprs.var_model(v), exprs.VARS[v][1], v) for v in exprs.VARS}
    nodes = exprs.data_leaves()
    have = lambda: {(k, v): snapshot(p) for k, d in (("array", arrays), ("node", {v: nodes[v]._data if hasattr(nodes[v], "_data") else nodes[v][()] for v in nodes})) for v, p in d.items()}
    before = have()
    for e in es:
        for leaves in (arrays, nodes):
            n += 1
            with numpy.errstate(all="ignore"):
                try:
                    f = exprs.build_node(e, leaves)
                    for i in (None, Ellipsis, {"x": slice(0, 1)}, Ellipsis):
                        f[i]
                except Exception:
                    pass            # whether it has a meaning is the matter of C14
            after = have()
            if after != before:
                fails.append((exprs.text(e), "; ".join("%s %s became %s" % (k, before[k], after[k]) for k in before if after[k] != before[k])[:600]))
                return n, fails
    return n, fails


def explore(chk):
    l0, l1 = exprs.level0(), exprs.level1()
    es = l0 + l1 + list(exprs.unary(l1)) + list(exprs.binary(list(exprs.unary(l0)), l0)) + list(exprs.binary(l0, list(exprs.unary(l0))))
    for st, res in par.pmap(expressions, [es[i:i + 60] for i in range(0, len(es), 60)]):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        chk.evaluations += res[0]
        chk.transitions += 4 * res[0]
        for k, w in res[1]:
            chk.fail(k, w, {"expression": k})
    chk.count("expressions on shared arrays and nodes", len(es))
    full = alphabet(True)
    small = alphabet(False)
    plan = [(op, True, 3 if chk.thorough else 2) for op in full] + [(op, False, 3) for op in small]
    if chk.thorough:
        plan += [(op, False, 4) for op in small if op[0] in ("inp", "sign")]
    for job, (st, res) in zip(plan, par.pmap(explore_from, plan)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job)})
            continue
        counts, states, fails = res
        chk.evaluations += counts["runs"]
        chk.transitions += counts["transitions"]
        chk.states |= states
        for k, w in fails:
            chk.fail(k, w, {"history": k})
    chk.samples += [{"history": [repr(small[1]), repr(small[-1])]}, {"alphabet": [repr(o) for o in full[:10]], "size": len(full)}]
    chk.count("depth full alphabet", 3 if chk.thorough else 2)
    chk.count("depth reduced alphabet", 4 if chk.thorough else 3)
