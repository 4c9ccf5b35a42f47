"""C35: walking the graph of a data flow meets every part of it once, in the promised order; functions and operators are found by exactly their keys."""
from itertools import product

from mc import par

PID = "C35"
LEVEL = "exploration"
RULE = ("walks: all directed acyclic graphs of up to 4 nodes with every ordered list of up to 3 inputs per node, repeated inputs included, and all of 5 (thorough: 6) nodes "
        "with every set of inputs in both orders, long chains, combs and trees, every start node, with and without numbers and texts among the inputs, nodes of four classes; both walks compared with "
        "reachability, distances and the definition of a depth-first order, twice and interleaved; registries: every key x number of arguments, every set of up to three "
        "user classes with new, nested or colliding keys; non-trivial = a node with two paths to it, or a user class")


def nodes_of(inputs, consts):
    """FlowNodes of several classes with the given lists of input numbers (node i uses only higher numbers)"""
    import numpy
    from pyconform.flownodes import DataNode, EvalNode, FlowNode
    from pyconform.physarray import PhysArray

    class F(object):
        def __init__(self, *a, **k):
            pass
    n = len(inputs)
    out = [None] * n
    for i in reversed(range(n)):
        ins = [out[j] for j in inputs[i]]
        if consts & 1:
            ins.insert(0, 3)
        if consts & 2:
            ins.append("text")
        if not ins and i % 2:
            out[i] = DataNode(PhysArray(numpy.zeros(2), name="n", dimensions=("x",)))
        elif i % 3 == 1:
            out[i] = EvalNode("n", F, *ins)
        elif i % 3 == 2 and len(ins) > 1:
            out[i] = EvalNode("n", F, ins[0], **{"k%d" % k: v for k, v in enumerate(ins[1:])})
        else:
            out[i] = FlowNode("n", *ins)
    return out


def model(inputs, start, consts):
    """(distance of everything reachable, adjacency)"""
    adj = {}
    for i, ins in enumerate(inputs):
        a = list(ins)
        if consts & 1:
            a.insert(0, "c3")
        if consts & 2:
            a.append("ctext")
        adj[i] = a
    dist, todo = {start: 0}, [start]
    while todo:
        x = todo.pop(0)
        for y in adj.get(x, ()):
            if y not in dist:
                dist[y] = dist[x] + 1
                todo.append(y)
    return dist, adj


def check_order(kind, walk, dist, adj, start):
    if len(walk) != len(set(walk)):
        return "met twice"
    if set(walk) != set(dist):
        return "met %r instead of %r" % (walk, sorted(dist, key=str))
    if walk[0] != start:
        return "does not start at the start"
    if kind == "bfs":
        if [dist[w] for w in walk] != sorted(dist[w] for w in walk):
            return "not by distance"
    else:
        # next one is an input of the latest node which still has one not met
        met, path = {start}, [start]
        for w in walk[1:]:
            while path and all(y in met for y in adj.get(path[-1], ())):
                path.pop()
            if not path or w not in adj[path[-1]]:
                return "not depth first at %r in %r" % (w, walk)
            met.add(w)
            path.append(w)
    return None


def walk_job(item):
    from pyconform.flownodes import iter_bfs, iter_dfs
    graphs, consts = item
    fails, n, nt = [], 0, 0
    for inputs in graphs:
        nodes = nodes_of(inputs, consts)
        ids = {id(x): i for i, x in enumerate(nodes)}

        def num(walk):
            return [ids[id(x)] if id(x) in ids else "c%s" % x for x in walk]
        before = [list(x.inputs) for x in nodes]
        for start in range(len(inputs)):
            dist, adj = model(inputs, start, consts)
            for kind, f in (("dfs", iter_dfs), ("bfs", iter_bfs)):
                n += 1
                key = "%s from %d of %r, constants %d" % (kind, start, inputs, consts)
                try:
                    w = num(f(nodes[start]))
                    bad = check_order(kind, w, dist, adj, start)
                    if not bad:
                        # two walks at the same time do not disturb each other
                        a, b = f(nodes[start]), f(nodes[start])
                        got = [[], []]
                        for x, y in zip(a, b):
                            got[0].append(x)
                            got[1].append(y)
                        if num(got[0]) != w or num(got[1]) != w:
                            bad = "interleaved walks differ"
                except Exception as err:
                    bad = "failed: %r" % err
                if bad:
                    fails.append((key, bad))
            if sum(len(set(a)) for k, a in adj.items() if k in dist) >= len(dist):
                nt += 1
        if [list(x.inputs) for x in nodes] != before:
            fails.append(("%r" % (inputs,), "a walk altered the graph"))
    return n, nt, fails


def graphs(thorough):
    out = []
    # long ones: a chain, a comb, many inputs of one, a tree
    for n in (30, 60):
        out += [tuple((i + 1,) if i + 1 < n else () for i in range(n)), tuple((i + 1, n - 1) if i + 2 < n else (n - 1,) if i + 2 == n else () for i in range(n)),
                (tuple(range(1, n)),) + ((),) * (n - 1), tuple(tuple(j for j in (2 * i + 1, 2 * i + 2) if j < n) for i in range(n)),
                (tuple(range(n - 1, 0, -1)),) + tuple((i + 1,) if i + 1 < n else () for i in range(1, n))]
    for n in (1, 2, 3, 4):
        options = []
        for i in range(n):
            rest = range(i + 1, n)
            options.append([t for k in range(4) for t in product(rest, repeat=k)] if i + 1 < n else [()])
        out += list(product(*options))
    for n in (5,) + ((6,) if thorough else ()):
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for mask in range(1 << len(pairs)):
            g = [[] for _ in range(n)]
            for k, (i, j) in enumerate(pairs):
                if mask >> k & 1:
                    g[i].append(j)
            out.append(tuple(map(tuple, g)))
            if n == 5 or thorough:
                out.append(tuple(tuple(reversed(x)) for x in g))
    return out


# ---------------------------------------------------------------------------- registries

OPERATORS = {("-", 1): lambda a, b=None: -a, ("-", 2): lambda a, b: a - b, ("+", 2): lambda a, b: a + b, ("*", 2): lambda a, b: a * b,
             ("/", 2): lambda a, b: a / b, ("**", 2): lambda a, b: a ** b}
BUILTIN = {"sqrt", "mean", "sum", "min", "max", "up", "down", "chunits", "limit", "rmunits", "chdims"}


def attempt(f):
    try:
        return f()
    except (KeyError, RuntimeError) as err:
        return type(err).__name__
    except Exception as err:
        return "failed: %r" % err


def operators(chk):
    from pyconform import functions as fn
    from pyconform.flownodes import EvalNode
    for key in ("-", "+", "*", "/", "**", "%", "", "sqrt", "?", "--"):
        sizes = [k for s, k in OPERATORS if s == key]
        for na in (None, 0, 1, 2, 3, "2"):
            for name, look in (("find_operator", fn.find_operator), ("find", fn.find)):
                k = "%s(%r, %r)" % (name, key, na)
                got = attempt(lambda: look(key, numargs=na))
                want = (na in sizes) if na is not None else len(sizes) == 1
                if name == "find" and na is None and key == "sqrt":
                    bad = None if isinstance(got, type) and got.key == "sqrt" else got
                elif want:
                    m = na or sizes[0]
                    vals = [(6.0, 2.0), (1.0, 4.0), (-3.0, 2.0)]
                    bad = None
                    if not isinstance(got, type):
                        bad = "not found: %r" % (got,)
                    else:
                        for a, b in vals:
                            res = EvalNode(key, got, *(a, b)[:m])[...]
                            if res != OPERATORS[key, m](a, b):
                                bad = "%r of %r is %r" % (key, (a, b)[:m], res)
                        if bad is None and (got.key, got.numargs) != (key, m):
                            bad = "calls itself %r" % ((got.key, got.numargs),)
                else:
                    bad = None if got == "KeyError" else "found %r" % (got,)
                chk.ran(k, bad or "as promised")
                if bad:
                    chk.fail(k, bad, {})
    if list(fn.list_operators()) != sorted({s for s, _ in OPERATORS}):
        chk.fail("list_operators", "lists %r" % fn.list_operators(), {})


def registry_job(keys):
    """in a process of its own: define classes with these (key, parent) and look everything up"""
    from pyconform import functions as fn
    before = sorted(fn.list_functions())
    bad = []
    if set(before) != BUILTIN or len(before) != len(BUILTIN):
        bad.append("built-in functions are %r" % before)
    sqrt = fn.find_function("sqrt")
    classes = []
    for key, parent in keys:
        base = fn.Function if parent == "Function" else sqrt if parent == "sqrt" else classes[-1] if classes else fn.Function
        body = {} if key is None else {"key": key}
        body["__init__"] = lambda self, *a, **k: fn.Function.__init__(self, *a, **k)
        body["__getitem__"] = lambda self, index: "called"
        classes.append(type("User%d" % len(classes), (base,), body))
    table = {}
    for k in before:
        table.setdefault(k, []).append(None)
    for c in classes:
        table.setdefault(c.key, []).append(c)
    listed = sorted(fn.list_functions())
    if listed != sorted(k for k, v in table.items() for _ in v):
        bad.append("lists %r" % listed)
    for key in list(table) + ["absent", "", "+", "Function", "SQRT", None]:
        for name, look in (("find_function", fn.find_function), ("find", fn.find)):
            got = attempt(lambda: look(key))
            have = table.get(key, [])
            if name == "find" and key == "+":
                ok = isinstance(got, type) and issubclass(got, fn.Operator)
            elif not have:
                ok = got == "KeyError"
            elif len(have) > 1:
                ok = got in ("RuntimeError", "KeyError")
            else:
                ok = isinstance(got, type) and got.key == key and (have[0] is None or got is have[0])
            if not ok:
                bad.append("%s(%r) is %r" % (name, key, got))
    return 1, 1 if keys else 0, [(repr(keys), b) for b in bad]


def spread(chk, fn, items, chunksize=1):
    for item, (st, res) in zip(items, par.pmap(fn, items, chunksize=chunksize)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)[:300]})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item)[:120], "cases": n}])
        for key, bad in fails[:20]:
            chk.fail(key, bad, {"case": key})


def explore(chk):
    from pyconform.flownodes import iter_bfs, iter_dfs
    gs = graphs(chk.thorough)
    size = 300
    items = [(gs[i:i + size], c) for i in range(0, len(gs), size) for c in ((0, 3) if not chk.thorough else (0, 1, 2, 3))]
    spread(chk, walk_job, items)
    for f in (iter_dfs, iter_bfs):
        for x in (None, 3, "text", [], object(), {}):
            try:
                list(f(x))
                bad = "accepted"
            except TypeError:
                bad = None
            except Exception as err:
                bad = "failed: %r" % err
            key = "%s(%r)" % (f.__name__, type(x).__name__)
            chk.ran(key, bad or "TypeError")
            if bad:
                chk.fail(key, bad, {})
    operators(chk)
    menu = [(k, p) for k in ("mine", "other", "sqrt", "func2", None) for p in ("Function", "sqrt", "previous")]
    sets = [()] + [(a,) for a in menu] + list(product(menu, repeat=2)) + (list(product(menu, repeat=3)) if chk.thorough else [])
    spread(chk, registry_item, sets, 8)


def registry_item(keys):
    """a fresh child process per set: classes stay registered for ever"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = registry_job(keys)
        except BaseException as err:
            res = (1, 0, [(repr(keys), "failed: %r" % err)])
        with os.fdopen(w, "wb") as f:
            pickle.dump(res, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        res = pickle.load(f)
    os.waitpid(pid, 0)
    return res


