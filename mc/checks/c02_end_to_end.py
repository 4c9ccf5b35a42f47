"""C02: what ends up in the output file is the value of the variable's definition."""
import os
import shutil
from collections import OrderedDict
from itertools import permutations

import numpy

from mc import e2e, exprs, par, parts
from mc.model import UNITS, Arr, U, to_phys

PID = "C02"
LEVEL = "exploration"
RULE = ("all definition expressions up to depth 1 over 5 input variables, numeric constants, integer and full-length "
        "slice indices and every built-in function, and depth 2 (every unary function on every depth-1 expression, "
        "binary combinations over sub-alphabets), all slices of a dimension in five definitions; depth<=1 with every output dimension order x requested units x positive "
        "x datatype; each is parsed, mapped, executed and read back from the output file and compared with the reference "
        "value; undefined expressions must be refused; non-trivial = expression with an operator, function or index")

OUT = {"x": "X", "y": "Y", "z": "Z", "u": "U", "w": "W"}
ALT = {"x": "x", "y": "lat", "z": "x_z", "u": "u", "w": "y"}    # other names, one of them another input dimension's
CHK = None


def idx_exprs():
    out = []
    for v, idx in (("a", (0,)), ("a", (-1,)), ("a", (slice(None), 1)), ("a", (slice(None), -1)), ("a", (1, 2)),
                   ("a", (slice(None, None, -1),)), ("a", (slice(None), slice(None, None, -1))), ("b", (2, slice(None))),
                   ("b", (slice(0, 3), 1)), ("c", (1,)), ("d", (slice(1, None, -1),)), ("a", (slice(None, None, -1), slice(None, None, -1)))):
        out.append(("idx", v, idx))
    return out


def idx_text(i):
    if isinstance(i, int):
        return str(i)
    t = ":".join("" if x is None else str(x) for x in (i.start, i.stop))
    return t if i.step is None else t + ":" + str(i.step)


def text(e):
    if e[0] == "idx":
        return "%s[%s]" % (e[1], ",".join(idx_text(i) for i in e[2]))
    if e[0] == "neg":
        return "(-%s)" % text(e[1])
    if e[0] == "bin":
        return "(%s %s %s)" % (text(e[2]), e[1], text(e[3]))
    if e[0] == "call":
        args = [text(e[2])] + [repr(x) for x in e[3]] + ["%s=%r" % kv for kv in sorted(e[4].items())]
        return "%s(%s)" % (e[1], ", ".join(args))
    return exprs.text(e)


def value(e):
    if e[0] == "idx":
        m = exprs.var_model(e[1])
        return m.take(**dict(zip(m.dims, e[2])))
    if e[0] == "var":
        return exprs.var_model(e[1])
    return exprs.evaluate(sub(e))


def sub(e):
    """replace index leaves by pseudo variables"""
    k = e[0]
    if k == "idx":
        return ("var", text(e))
    if k == "neg":
        return ("neg", sub(e[1]))
    if k == "bin":
        return ("bin", e[1], sub(e[2]), sub(e[3]))
    if k == "call":
        return ("call", e[1], sub(e[2]), e[3], e[4])
    return e


ENV = {text(("idx", v, i)): exprs.var_model(v).take(**dict(zip(exprs.var_model(v).dims, i))) for _, v, i in idx_exprs()}


def outcome(e):
    try:
        m = exprs.evaluate(sub(e), ENV)
    except exprs.ModelError:
        return "undefined"
    except (exprs.Unspecified, OverflowError, ZeroDivisionError):
        return "unspecified"
    if any(isinstance(v, complex) or (v is not None and abs(v) > 1e12) for v in m.vals.values()):
        return "unspecified"
    return m


def expressions(thorough):
    l0 = exprs.level0()
    nums = [("num", 2), ("num", 0.5)]
    l1 = exprs.level1() + idx_exprs()
    for v in l0:
        for n in nums:
            l1 += [("bin", op, v, n) for op in exprs.BINOPS] + [("bin", op, n, v) for op in exprs.BINOPS]
        l1 += [("bin", "**", v, ("num", 2)), ("bin", "**", v, ("num", 3))]
    shallow = l0 + l1
    idx = idx_exprs()
    sub_l1 = list(exprs.unary(l0))
    l2 = list(exprs.unary(l1)) + list(exprs.binary(idx, l0, ("+", "*", "/"))) + list(exprs.binary(l0, idx, ("-",)))
    if thorough:
        l2 += list(exprs.binary(l1, l0)) + list(exprs.binary(l0, l1)) + list(exprs.binary(sub_l1, sub_l1))
    else:
        l2 += list(exprs.binary(sub_l1, l0, ("-",))) + list(exprs.binary(l0[:2], sub_l1, ("+", "/")))
    return shallow, l2


def unit_strings(u):
    base = u.base_string()
    if base == "1":
        return [("1", U()), ("%", U(0.01))]
    out = [(base, U(1.0, 0.0, **u.exps)), ("1000 " + base, U(1000.0, 0.0, **u.exps))]
    return out


def variants(m, full, k):
    """(dimension order, units or None, positive or None, datatype)"""
    perms = list(permutations(m.dims))
    units = [None] + unit_strings(m.unit)
    if full:
        return [(p, u, s, t) for p in perms for u in units for s in (None, "up", "down") for t in ("double", "float")]
    return [(perms[k % len(perms)], units[(k // 2) % len(units)], (None, "down", "up")[(k // 3) % 3], ("double", "float")[k % 2])]


def expected(m, var):
    perm, unit, pos, typ = var
    if unit is not None:
        m = m.convert(unit[1])
    m = m.transpose(perm)
    if pos is not None and m.positive not in (None, pos):
        m = m.flip()
    return m


def write_inputs(d):
    vs = {}
    for v in exprs.VARS:
        m = exprs.var_model(v)
        attrs = {"units": exprs.VARS[v][1]}
        if exprs.VARS[v][2]:
            attrs["positive"] = exprs.VARS[v][2]
        vs[v] = e2e.Var(m.dims, e2e.arr_values(m), attrs, fill=-9e33)
    vs["yc"] = e2e.Var(("y",), [1., 2., 3.], {"units": "1"})
    names = list(vs)
    p1, p2 = os.path.join(d, "in1.nc"), os.path.join(d, "in2.nc")
    e2e.write_file(p1, {n: vs[n] for n in names[:3]}, exprs.SIZES)
    e2e.write_file(p2, {n: vs[n] for n in names[3:]}, exprs.SIZES)
    return [p1, p2]


def helpers(sizes, names):
    """1-d variables that pin the dimension mapping, and data-defined sizes of renamed dimensions"""
    ds = OrderedDict()
    ds["hx"] = e2e.outvar([names["x"]], "c")
    ds["hy"] = e2e.outvar([names["y"]], "yc")
    ds["hz"] = e2e.outvar([names["z"]], "d")
    src = {2: "c", 3: "yc"}
    for d in ("u", "w"):
        if d in sizes:
            ds["k" + d] = e2e.outvar([names[d]], list(range(sizes[d])))
            ds["h" + d] = e2e.outvar([names[d]], "chdims(%s,%r)" % (src[sizes[d]], d))
    if names is ALT:    # data of the specification with the names of input variables
        ds["c"] = e2e.outvar([names["x"]], [55., 66.], attrs={"units": exprs.VARS["c"][1]})
        ds["d"] = e2e.outvar([names["z"]], [77., 88.], attrs={"units": exprs.VARS["d"][1]})
    return ds


def run(item):
    d, jobs, sizes = item
    n = nt = 0
    fails, samples = [], []
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    infiles = write_inputs(work)
    for names in (OUT, ALT) if len(jobs) > 1 else (OUT,):
        ds = helpers(sizes, names)
        out = os.path.join(work, "out.nc")
        first = True
        for i, (e, var) in enumerate(jobs):
            at = {}
            if var[1] is not None:
                at["units"] = var[1][0]
            if var[2] is not None:
                at["positive"] = var[2]
            kw = dict(filename=out) if first else {}
            if first:
                kw["metavars"] = list(ds) + ["v%d" % j for j in range(1, len(jobs))]
            first = False
            ds["v%d" % i] = e2e.outvar([names[q] for q in var[0]], text(e), var[3], at, **kw)
        try:
            e2e.run(infiles, ds)
            res = e2e.read_file(out)["vars"]
        except Exception as err:
            if len(jobs) == 1:
                fails.append((text(jobs[0][0]), "failed: %r" % err))
            else:   # find the offending one
                for j in jobs:
                    f = run((d, [j], sizes))[2]
                    fails += f
                if not fails:
                    fails.append(("group", "a group of definitions fails though each alone works: %r" % err))
            return len(jobs), len(jobs), fails, []
        for i, (e, var) in enumerate(jobs):
            n += 1
            nt += e[0] != "var"
            m = expected(outcome(e), var).rename(names)
            diff = e2e.compare(res["v%d" % i], m, 1e-9 if var[3] == "double" else 2e-6)
            if diff and len(fails) < 10:
                fails.append(("%s -> dims %s units %s positive %s %s (dimension names %s)" % (
                    text(e), var[0], var[1] and var[1][0], var[2], var[3], "/".join(names.values())), diff))
        samples = [{"definition": text(jobs[0][0]), "output": str(jobs[0][1][0]), "units": str(jobs[0][1][1] and jobs[0][1][1][0])}]
        os.unlink(out)
    return n, nt, fails, samples


def run_undefined(item):
    d, es = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    infiles = write_inputs(work)
    fails = []
    for e in es:
        out = os.path.join(work, "undef.nc")
        # dimensions the result would have by broadcasting
        ds = helpers({}, OUT)
        k = exprs.level0()
        ok = False
        for dims in ((), ("X",), ("Y",), ("Z",), ("X", "Y"), ("X", "Y", "Z"), ("X", "Z"), ("Y", "Z")):
            ds["v"] = e2e.outvar(dims, text(e), filename=out, metavars=list(ds)[:3])
            try:
                e2e.run(infiles, ds)
                ok = True
            except Exception:
                pass
            if os.path.exists(out):
                ok = True
                os.unlink(out)
        if ok:
            fails.append((text(e), "an undefined expression produced an output file"))
    return len(es), len(es), fails, []


def explore(chk):
    scratch = chk.scratch()
    shallow, deep = expressions(chk.thorough)
    groups, undef = {}, []
    k = 0
    for full, es in ((True, shallow), (False, deep)):
        for e in es:
            m = outcome(e)
            if m == "unspecified":
                chk.count("unspecified expressions")
                continue
            if m == "undefined":
                undef.append(e)
                continue
            key = tuple((d, m.sizes[d]) for d in ("u", "w") if d in m.sizes)
            for var in variants(m, full, k):
                groups.setdefault(key, []).append((e, var))
            k += 1
    items = []
    for key, jobs in groups.items():
        items += [(scratch, jobs[i:i + 60], dict(key)) for i in range(0, len(jobs), 60)]
    und = undef if chk.thorough else undef[::1]
    work = [("run", i) for i in items] + [("und", (scratch, und[i:i + 20])) for i in range(0, len(und), 20)]
    chk.count("definitions", sum(len(g) for g in groups.values()))
    chk.count("undefined definitions", len(und))
    work += [("part", j) for j in parts.jobs(scratch, chk.thorough, False)]
    for st, res in par.pmap(dispatch, work):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, nt, fails, samples = res
        chk.bulk(n, nt, samples)
        for key, w in fails:
            chk.fail(key, w, {"definition": key})


def dispatch(w):
    return {"run": run, "und": run_undefined, "part": parts.job}[w[0]](w[1])
