"""C14: asking a node for a part gives that part of the whole (and asking again gives it again)."""
from mc import exprs, par
from mc.model import UNITS, differs

PID = "C14"
LEVEL = "exploration"
RULE = ("all definition expressions up to depth 1 over 5 variables (and depth 2: every unary function on every depth-1 "
        "expression, binary operators on pairs of depth-1 unary expressions in a sub-alphabet), each requested whole, in "
        "parts selected by dimension name over the dimensions it does not reduce, and again; the same mapped to other dimension "
        "names and validated as a variable with its dimensions in another order, another sign convention or unit; compared with the reference "
        "value; non-trivial = expression with a non-empty slice menu")


OTHER = {"m": "km", "km": "m", "m2": "m2", "1": "%"}


def wrapped(node, m):
    """the expression mapped to other dimension names, and as the variable of a file: (what, node, value, new names of dimensions)"""
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import MapNode, ValidateNode

    out = []
    if m.dims:
        mp = {m.dims[-1]: "q"}
        out.append(("map last", MapNode("m", node, mp), m.rename(mp), mp))
        mp = dict(zip(m.dims, m.dims[1:] + ("q",)))
        out.append(("map shifted", MapNode("m", node, mp), m.rename(mp), mp))
    unit = [u for u in UNITS if UNITS[u] == m.unit] + [None]
    for dims, pos, u in ((m.dims[::-1], None, None), (m.dims, {"up": "down", "down": "up"}.get(m.positive, "up"), unit[0]), (m.dims[1:] + m.dims[:1], m.positive, OTHER.get(unit[0]))):
        w = m.transpose(dims)
        attrs = {}
        if u:
            w = w.convert(UNITS[u])
            attrs["units"] = u
        if pos:
            if m.positive:
                w = w.toward(pos)
            attrs["positive"] = pos
        vd = VariableDesc("v", datatype="double", dimensions=[DimensionDesc(d, size=m.sizes[d]) for d in dims], attributes=attrs)
        out.append(("written as %s %s %s" % (dims, attrs.get("units"), pos), ValidateNode(vd, node), w, {}))
    return out


def run(es):
    n = nt = 0
    fails, samples = [], []
    leaves = exprs.data_leaves()
    for e in es:
        m = exprs.outcome(e)
        if m == "unspecified":
            continue
        key = exprs.text(e)
        try:
            node = exprs.build_node(e, leaves)
            whole = node[:] if m == "undefined" or m.dims else node[()]
        except Exception as err:
            n += 1
            if m != "undefined":
                fails.append((key, "evaluation failed: %r" % err))
            continue
        n += 1
        if m == "undefined":
            fails.append((key, "gives a result where the definition has no meaning"))
            continue
        d = differs(whole, m)
        if d:
            fails.append((key, d))
            continue
        banned = exprs.reduced_dims(e)
        menu = exprs.slices_of(m, banned)
        nt += len(menu) > 1
        for idx in menu:
            n += 1
            try:
                d = differs(node[dict(idx)], m.take(**idx))
            except Exception as err:
                d = "evaluation failed: %r" % err
            if d and len(fails) < 20:
                fails.append(("%s %s" % (key, sorted((k, str(v)) for k, v in idx.items())), d))
        try:
            d = differs(node[{}], m)
        except Exception as err:
            d = "evaluation failed: %r" % err
        if d:
            fails.append(("again " + key, d))
        for pre, nd, w, rename in wrapped(node, m):
            parts = exprs.slices_of(m, banned)
            for idx in [{}] + parts[::max(1, len(parts) // 4)] + [{}] + ([slice(0, 1)] if pre.startswith('map') and m.dims[0] not in banned else []):
                n += 1
                ask = idx if isinstance(idx, slice) else {rename.get(d, d) if isinstance(rename, dict) else d: i for d, i in idx.items()}
                by = {w.dims[0]: idx} if isinstance(idx, slice) else {d: i for d, i in ask.items() if d in w.dims}
                try:
                    d = differs(nd[ask], w.take(**by))
                except Exception as err:
                    d = "evaluation failed: %r" % err
                if d and len(fails) < 20:
                    fails.append(("%s %s %s" % (pre, key, ask), d))
        if len(samples) < 1:
            samples.append({"expression": key, "slices": len(menu)})
    # the leaves must still hold what they held
    for v in leaves:
        d = differs(leaves[v][()], exprs.var_model(v))
        if d:
            fails.append(("leaf " + v, d))
    return n, nt, fails, samples


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def explore(chk):
    l0, l1 = exprs.level0(), exprs.level1()
    es = l0 + l1 + list(exprs.unary(l1))
    sub = list(exprs.unary(l0))
    if chk.thorough:
        es += list(exprs.binary(l1, l0)) + list(exprs.binary(l0, l1)) + list(exprs.binary(sub, sub))
    else:
        es += list(exprs.binary(sub, l0[:3], ("+", "*"))) + list(exprs.binary(l0[:3], sub, ("-",))) + list(exprs.binary(sub[::2], sub[1::2], ("+",)))
    for st, res in par.pmap(run, chunks(es, 40)):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, nt, fails, samples = res
        chk.bulk(n, nt, samples)
        for k, w in fails:
            chk.fail(k, w, {"expression": k})
    chk.count("expressions", len(es))
