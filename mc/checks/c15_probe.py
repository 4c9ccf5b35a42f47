"""C15: the metadata probe (node[None]) promises what the data deliver, without touching data."""
from mc import exprs, par
from mc.model import unit_matches

PID = "C15"
LEVEL = "exploration"
RULE = ("all definition expressions up to depth 2 over 5 variables (binary combinations of depth 1 over a sub-alphabet), from "
        "data held in memory and from files, with and without a dimension renaming or a validation as output variable (dimensions, units, sign convention) on top: dimensions, units, sign "
        "convention and kind of number of the probe compared with those of the data and of the reference; a probe holds "
        "no values, reads none (integer data: kind of number) and changes nothing; non-trivial = expression with an operator or function")


def meta(p):
    return tuple(p.dimensions), p.units, p.positive


class Counting(object):
    """a source node that counts requests for values (index other than None)"""

    def __new__(cls, base):
        from pyconform.flownodes import FlowNode

        class Node(FlowNode):
            reads = 0

            def __getitem__(self, index):
                if index is not None:
                    Node.reads += 1
                return base[index]

        n = Node("count")
        n.cls = Node
        return n


def refusal(e, leaves):
    """does the probe refuse what evaluation refuses? (other than for sizes, which a probe does not know)"""
    def attempt(i):
        try:
            exprs.build_node(e, leaves)[i]
        except Exception as err:
            return repr(err)
    a, b = attempt(None), attempt(Ellipsis)
    if b and not a and "Cannot broadcast arrays" not in b:
        return "the probe is not refused, the evaluation is (%s)" % b


def times(chk):
    """reference times validated with units, reference date or calendar left open"""
    from itertools import product

    from cf_units import Unit

    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import DataNode, EvalNode, ValidateNode
    from pyconform.functions import find_function
    from pyconform.physarray import PhysArray

    for have, cal, want, wcal, new in product(["days since 2000-01-01", "hours since 1999-03-01 06:00"], ["noleap", "standard", "360_day"],
                                              ["days since 2000-01-01", "days since 1998-02-03", "hours since ?", "? since 2001-01-01", "?", ""], [None, "same"],
                                              [None, "days since 2000-02-01"]):
        src = DataNode(PhysArray([1., 2., 60.], name="t", units=Unit(have, calendar=cal), dimensions=("t",)))
        if new:
            src = EvalNode("c", find_function("chunits"), src, units=new, calendar=cal)
        attrs = {"units": want}
        if wcal:
            attrs["calendar"] = cal
        key = "%s %s as %s%s%s" % (have, cal, want, " same calendar" if wcal else "", " changed" if new else "")
        try:
            nd = ValidateNode(VariableDesc("V", datatype="double", dimensions=[DimensionDesc("t", size=3)], attributes=attrs), src)
            a, b, c = nd[None], nd[...], nd[None]
            bad = None if meta(a) == meta(b) == meta(c) and a.units.calendar == b.units.calendar and not a.size else "probe %r, data %r" % (meta(a), meta(b))
        except Exception as err:
            bad = "failed: %r" % err
        chk.ran(key, bad)
        if bad:
            chk.fail(key, bad, {})


def run(es):
    from pyconform.flownodes import MapNode

    n = nt = 0
    fails, samples = [], []
    base = exprs.data_leaves()
    leaves = {k: Counting(v) for k, v in base.items()}
    for e in es:
        m = exprs.outcome(e)
        key = exprs.text(e)
        if m == "undefined":
            n += 1
            if refusal(e, leaves):
                fails.append((key, refusal(e, leaves)))
        if isinstance(m, str):
            continue
        try:
            for l in leaves.values():
                l.cls.reads = 0
            node = exprs.build_node(e, leaves)
            nodes = [("", node, m.dims)]
            mp = {d: "o" + d for d in m.dims}
            nodes.append(("map ", MapNode("m", node, mp), tuple(mp[d] for d in m.dims)))
            from mc.checks.c14_slicing import wrapped
            nodes = [(p, nd, m if not p else m.rename(mp)) for p, nd, _ in nodes] + [(p + " ", nd, w) for p, nd, w, _ in wrapped(node, m)]
            for pre, nd, w in nodes:
                dims = w.dims
                n += 1
                nt += e[0] != "var"
                for i in (0, 1):
                    info = nd[None]
                    if tuple(info.dimensions) != tuple(dims):
                        fails.append((pre + key, "probe has dimensions %r instead of %r" % (info.dimensions, dims)))
                    if not unit_matches(info.units, w.unit):
                        fails.append((pre + key, "probe has units %s" % info.units))
                    if info.positive != w.positive:
                        fails.append((pre + key, "probe has positive %r instead of %r" % (info.positive, w.positive)))
                    if m.dims and info.size:
                        fails.append((pre + key, "probe holds %d values" % info.size))
                    reads = sum(l.cls.reads for l in leaves.values())
                    if reads:
                        fails.append((pre + key, "a probe reads data"))
                        break
                    if i == 0:
                        whole = nd[...]
                        for l in leaves.values():
                            l.cls.reads = 0
                        if meta(whole) != meta(info):
                            fails.append((pre + key, "probe %r, data %r" % (meta(info), meta(whole))))
                        if whole.dtype.kind != info.dtype.kind:
                            fails.append((pre + key, "probe is of kind %s, data %s" % (info.dtype, whole.dtype)))
        except Exception as err:
            fails.append((key, "failed: %r" % err))
        if len(samples) < 1:
            samples.append({"expression": key})
        if len(fails) > 20:
            break
    return n, nt, fails, samples


def single(e):
    """is an array reduced to a single number somewhere in the expression? (numpy has no kinds of single missing values)"""
    if e[0] in ("var", "num"):
        return False
    if e[0] == "call" and e[1] in ("mean", "sum", "min", "max") and not exprs.evaluate(e).dims:
        return True
    return any(single(x) for x in e[1:] if isinstance(x, tuple) and x and x[0] in ("var", "num", "neg", "bin", "call"))


def kinds(job):
    """integer data: the probe knows when a result is an integer and when not"""
    from pyconform.flownodes import DataNode, MapNode

    from mc.model import to_phys

    dtypes, es = job
    n = nt = 0
    fails = []
    leaves = {v: DataNode(to_phys(exprs.var_model(v), exprs.VARS[v][1], v, dtypes[i % len(dtypes)])) for i, v in enumerate(exprs.VARS)}
    for e in es:
        m = exprs.outcome(e)
        if isinstance(m, str) or single(e):
            continue
        key = "%s of %s" % (exprs.text(e), "/".join(dtypes))
        n += 1
        try:
            node = MapNode("m", exprs.build_node(e, leaves), {"x": "X"}) if n % 2 else exprs.build_node(e, leaves)
            info, whole, again = node[None], node[...], node[None]
        except Exception as err:
            fails.append((key, "failed: %r" % err))
            continue
        nt += whole.dtype.kind == "i"
        for i in (info, again):
            if i.dtype.kind != whole.dtype.kind or meta(i) != meta(whole) or (m.dims and i.size):
                fails.append((key, "probe %r of kind %s, data %r of kind %s" % (meta(i), i.dtype, meta(whole), whole.dtype)))
    return n, nt, fails[:20], []


def dispatch(job):
    return job[0](job[1])


def chunks(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def explore(chk):
    l0, l1 = exprs.level0(), exprs.level1()
    sub = list(exprs.unary(l0))
    es = l0 + l1 + list(exprs.unary(l1)) + list(exprs.binary(sub, l0)) + list(exprs.binary(l0, sub))
    if chk.thorough:
        es += list(exprs.binary(l1, sub)) + list(exprs.binary(sub, l1)) + list(exprs.unary(exprs.unary(l1)))
    jobs = [(run, c) for c in chunks(es, 60)]
    some = l0 + l1 + list(exprs.unary(l1)) + list(exprs.binary(sub, l0))
    jobs += [(kinds, (t, c)) for t in (("i4",), ("i2", "f8"), ("f8", "i8", "i4")) for c in chunks(some, 200)]
    for st, res in par.pmap(dispatch, jobs):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, nt, fails, samples = res
        chk.bulk(n, nt, samples)
        for k, w in fails:
            chk.fail(k, w, {"expression": k})
    times(chk)
    chk.count("expressions", len(es))
