"""
Bounded-exhaustive generator of definition expressions over a fixed set of input variables, with a text form,
a reference meaning (mc.model) and a way to build the corresponding real flow nodes.

Expression: ("var", name) | ("neg", e) | ("bin", op, e, f) | ("call", fname, e, args, kwds)
"""
from itertools import product
from math import sqrt

from mc.model import UNITS, U, Arr, ModelError, Unspecified, binop

SIZES = {"x": 2, "y": 3, "z": 2}

VARS = {
    "a": (("x", "y"), "m", "up", [3, 7, -12, 25, 0.5, 4], (2,)),
    "b": (("y", "x"), "km", "down", [-2, 5, 9, 4, 1, -0.25], ()),
    "c": (("x",), "m", None, [0.5, -4], ()),
    "d": (("z",), "m2", None, [9, 2.25], ()),
    "s": ((), "1", None, [2], ()),
}


def var_model(name):
    dims, unit, pos, vals, masked = VARS[name]
    return Arr.make(dims, SIZES, vals, UNITS[unit], pos, masked)


CALLS = [
    ("sqrt", (), {}),
    ("up", (), {}),
    ("down", (), {}),
    ("chunits", (), {"units": "cm"}),
    ("chunits", (), {"units": "m2"}),
    ("limit", (), {"above": 4.0}),
    ("limit", (), {"below": 0.75}),
    ("limit", (), {"below": -1, "above": 5}),
    ("rmunits", (), {}),
    ("chdims", ("u",), {}),
    ("chdims", ("u", "w"), {}),
    ("mean", ("x",), {}),
    ("mean", ("y", "x"), {}),
    ("sum", ("y",), {}),
    ("sum", ("x", "y"), {}),
    ("min", ("x",), {}),
    ("max", ("y",), {}),
    ("max", ("z", "x"), {}),
]

BINOPS = ("+", "-", "*", "/")


def text(e):
    k = e[0]
    if k == "var":
        return e[1]
    if k == "num":
        return repr(e[1])
    if k == "neg":
        return "(-%s)" % text(e[1])
    if k == "bin":
        return "(%s%s%s)" % (text(e[2]), e[1], text(e[3]))
    args = [text(e[2])] + [repr(x) for x in e[3]] + ["%s=%r" % kv for kv in sorted(e[4].items())]
    return "%s(%s)" % (e[1], ",".join(args))


def evaluate(e, env=None):
    """the reference meaning; raises ModelError if undefined, Unspecified if nothing is claimed"""
    k = e[0]
    if k == "var":
        return env[e[1]] if env and e[1] in env else var_model(e[1])
    if k == "num":
        return Arr.make((), {}, [e[1]], UNITS["1"])
    if k == "neg":
        return evaluate(e[1], env).map(lambda v: -v)
    if k == "bin":
        return binop(e[1], evaluate(e[2], env), evaluate(e[3], env))
    f, a, args, kwds = e[1], evaluate(e[2], env), e[3], e[4]
    if f == "sqrt":
        half = {b: x / 2 for b, x in a.unit.exps.items()}
        if any(x != int(x) for x in half.values()) or a.unit.scale != 1:
            raise Unspecified()  # UDUNITS roots only some units
        return a.map(lambda v: sqrt(v) if v >= 0 else None, unit=U(1.0, 0.0, **half))
    if f in ("up", "down"):
        return a.toward(f)
    if f == "chunits":
        return a.copy(unit=UNITS[kwds["units"]])
    if f == "limit":
        lo, hi = kwds.get("below"), kwds.get("above")
        def clamp(v):
            if hi is not None and v > hi:
                v = hi
            if lo is not None and v < lo:
                v = lo
            return v
        return a.map(clamp)
    if f == "rmunits":
        return a.copy(unit=UNITS["1"])
    if f == "chdims":
        new = tuple(args[:len(a.dims)]) + a.dims[len(args):]
        if len(set(new)) != len(new):
            raise Unspecified()
        return Arr(new, dict(zip(new, [a.sizes[d] for d in a.dims])), dict(a.vals), a.unit, a.positive)
    if f in ("mean", "sum", "min", "max"):
        return a.reduce(tuple(args), f)
    raise ValueError(f)


def level0():
    return [("var", v) for v in VARS]


def unary(es):
    for e in es:
        yield ("neg", e)
        for f, args, kwds in CALLS:
            yield ("call", f, e, args, kwds)


def binary(es, fs, ops=BINOPS):
    for e in es:
        for f in fs:
            for op in ops:
                yield ("bin", op, e, f)


def level1():
    l0 = level0()
    return list(unary(l0)) + list(binary(l0, l0))


def build_node(e, leaves):
    """the real nodes, built from the public node classes"""
    from pyconform.flownodes import EvalNode
    from pyconform.functions import find_function, find_operator

    k = e[0]
    if k == "var":
        return leaves[e[1]]
    if k == "num":
        return e[1]
    if k == "neg":
        return EvalNode("-", find_operator("-", numargs=1), build_node(e[1], leaves))
    if k == "bin":
        return EvalNode(e[1], find_operator(e[1], numargs=2), build_node(e[2], leaves), build_node(e[3], leaves))
    return EvalNode(e[1], find_function(e[1]), build_node(e[2], leaves), *e[3], **e[4])


def data_leaves():
    from pyconform.flownodes import DataNode

    from mc.model import to_phys

    return {v: DataNode(to_phys(var_model(v), VARS[v][1], v)) for v in VARS}


def outcome(e):
    try:
        m = evaluate(e)
    except ModelError:
        return "undefined"
    except (Unspecified, OverflowError):
        return "unspecified"
    if any(isinstance(v, complex) for v in m.vals.values()):
        return "unspecified"
    if any(v is not None and abs(v) > 1e12 for v in m.vals.values()):
        return "unspecified"
    return m


def reduced_dims(e):
    """names a reduction in the expression sums over (those may not be sliced)"""
    k = e[0]
    if k in ("var", "num"):
        return set()
    if k == "neg":
        return reduced_dims(e[1])
    if k == "bin":
        return reduced_dims(e[2]) | reduced_dims(e[3])
    own = set(e[3]) if e[1] in ("mean", "sum", "min", "max") else set()
    return own | reduced_dims(e[2])


def slices_of(m, banned=()):
    """index dictionaries over the (non-reduced) dimensions of the result"""
    menu = [slice(0, 1), slice(1, None), slice(None, None, -1), slice(-1, None, -1)]
    free = [d for d in m.dims if d not in banned]
    out = [{}]
    for d in free:
        out += [{d: s} for s in menu]
    if len(free) >= 2:
        out += [{free[0]: s, free[1]: t} for s, t in product(menu[:3], menu[1:3])]
    return out
