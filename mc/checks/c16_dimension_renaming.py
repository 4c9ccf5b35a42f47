"""C16: renaming dimensions changes names only, and requests are understood in the new names."""
from itertools import permutations, product

from mc import par
from mc.model import UNITS, Arr, differs, snapshot, to_phys

PID = "C16"
LEVEL = "exploration"
RULE = ("data with 0-3 dimensions x every injective renaming of the dimensions (old names, each other's names, new names; "
        "partial and superfluous maps) x every request: none, whole, integers, slices, positional tuples with ellipsis, "
        "dictionaries by new name (also naming dimensions the data do not have, or old names that are no new name) x one, "
        "two and three renamings in a row and arithmetic between differently renamed data; non-trivial = a name changes")

SIZES = {"x": 3, "y": 2, "z": 2}
ITEM = [slice(None), 0, 1, -1, slice(0, 1), slice(1, None), slice(None, None, -1), slice(-1, None, -1), slice(0, 0)]
SMALL = [slice(None), 1, slice(1, None), slice(None, None, -1)]
VALS = [3, 7, -12, 25, 0.5, 4, 8, 9, -1, 6, 11, 13]


def data(dims):
    n = 1
    for d in dims:
        n *= SIZES[d]
    return Arr.make(dims, SIZES, VALS[:n], UNITS["m"], "up", (1,) if n > 1 else ())


def injective(dims, pool):
    for image in product(pool, repeat=len(dims)):
        m = {d: o for d, o in zip(dims, image) if o != d}
        if len(set(image)) == len(image):
            yield m
            full = dict(zip(dims, image))
            if full != m:
                yield full          # identity entries written out


def requests(dims):
    """(index for the node, index by name)"""
    yield slice(None), {}
    yield Ellipsis, {}
    yield (), {}
    yield {}, {}
    menu = ITEM if len(dims) < 3 else SMALL
    for k in range(1, len(dims) + 1):
        for c in product(menu, repeat=k):
            yield c, dict(zip(dims, c))
            if k < len(dims):
                yield (Ellipsis,) + c, dict(zip(dims[len(dims) - k:], c))
                yield c + (Ellipsis,), dict(zip(dims, c))
        for ds in permutations(dims, k):
            for c in product(SMALL, repeat=k):
                d = dict(zip(ds, c))
                yield d, d
                yield dict(d, other=slice(0, 1)), d
    for i in (ITEM if dims else []):
        yield i, {dims[0]: i}


def ask(fails, key, node, m, idx, byname, meta=True):
    try:
        d = differs(node[idx], m.take(**byname), units=meta, positive=meta)
    except Exception as err:
        d = "failed: %r" % err
    if d and len(fails) < 10:
        fails.append((key, d))


def job(item):
    from pyconform.flownodes import DataNode, EvalNode, MapNode
    from pyconform.functions import find_operator

    dims, mp = item
    m = data(dims)
    leaf = DataNode(to_phys(m, "m", "a"))
    before = snapshot(leaf[...])
    node = MapNode("n", leaf, mp)
    out = m.rename(mp)
    fails, n, nt = [], 0, 0
    for idx, byname in requests(out.dims):
        ask(fails, "%s %r %r" % (dims, mp, idx), node, out, idx, byname)
        n += 1
        nt += bool(mp)
    # names of the data that are not names of the result select nothing
    for d in dims:
        if d not in out.dims:
            ask(fails, "%s %r old name %s" % (dims, mp, d), node, out, {d: slice(0, 1)}, {})
            n += 1
    # superfluous entries of the map
    extra = dict(mp, q="r")
    ask(fails, "%s %r superfluous" % (dims, extra), MapNode("n", leaf, extra), out, Ellipsis, {})
    # a second and third renaming
    pool = list(out.dims)
    for second in permutations(pool):
        mp2 = {a: b for a, b in zip(pool, second) if a != b}
        two, o2 = MapNode("n2", node, mp2), out.rename(mp2)
        mp3 = {d: "t" + d for d in o2.dims[:1]}
        three, o3 = MapNode("n3", two, mp3), o2.rename(mp3)
        for nd, o in ((two, o2), (three, o3)):
            for ix in [{}] + [{d: s} for d in o.dims for s in SMALL]:
                ask(fails, "%s %r then %r %r" % (dims, mp, mp2, ix), nd, o, ix, ix)
                n += 1
        # arithmetic combines by the new names
        s = EvalNode("+", find_operator("+", 2), node, two)
        from mc.model import ModelError, binop
        try:
            want = binop("+", out, o2)
        except ModelError:
            want = None
        try:
            d = differs(s[...], want) if want else "gives a result for unequal sizes"
            s[...]
        except Exception as err:
            d = None if want is None else "failed: %r" % err
        if d:
            fails.append(("%s %r + %r" % (dims, mp, mp2), d))
        n += 1
    if snapshot(leaf[...]) != before:
        fails.append(("purity %s %r" % (dims, mp), "renaming changed the data"))
    return n, nt, fails


def explore(chk):
    items = []
    for k in range(0, 4):
        for dims in permutations(("x", "y", "z"), k):
            pool = ("x", "y", "z", "u", "v") if k < 3 or chk.thorough else ("x", "y", "z", "u")
            seen = set()
            for mp in injective(dims, pool):
                f = repr(sorted(mp.items()))
                if f not in seen:
                    seen.add(f)
                    items.append((dims, mp))
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
