"""C21: output dimensions are matched to input dimensions consistently, whatever the order and names of variables."""
import os
from collections import OrderedDict
from itertools import permutations, product

import numpy

from mc import e2e, par

PID = "C21"
LEVEL = "exploration"
RULE = ("every subset of coordinate variables over 3 dimensions x every layout of a 3-D and a 2-D output variable x two namings of "
        "the variables x equal and different dimension sizes x every order of declaring the variables; the mapping must not depend on the order; "
        "where coordinates (and elimination) determine it the files must hold the data under the right dimensions, else matched in order of declaration; and where all are "
        "given it may not be refused; contradictory declarations are refused; sizes and the unlimited dimension are inherited; non-trivial = a permuted layout")

NAMES = [{"x": "cx", "y": "cy", "z": "cz", "V": "dv", "W": "dw"}, {"x": "pz", "y": "py", "z": "px", "V": "b", "W": "a"}]
LA, LB = "zxy", "yx"  # layout of the input variables
ALIAS = [{"x": "X", "y": "Y", "z": "Z"}, {"x": "y", "y": "z", "z": "x"}, {"x": "z", "y": "Y", "z": "x"}]


def determined(known, layouts):
    """close the set of known dimensions under elimination (a variable with exactly one unknown dimension)"""
    known = set(known)
    again = True
    while again:
        again = False
        for dims in layouts:
            rest = [d for d in dims if d not in known]
            if len(rest) == 1:
                known.add(rest[0])
                again = True
    return known


def in_order(coords, lv, lw):
    """output dimension (by the input dimension it is meant for) -> input dimension: known ones first, then the fewest-dimensional variable, in order"""
    mp = {c: c for c in coords}
    for want, have in ([(lw, LB)] if lw else []) + [(lv, LA)]:
        free_out = [c for c in want if c not in mp]
        free_in = [c for c in have if c not in [mp[c] for c in want if c in mp]]
        if len(free_out) != len(free_in):
            return None
        mp.update(zip(free_out, free_in))
    ok = set(mp[c] for c in lv) == set("xyz") and (not lw or set(mp[c] for c in lw) == set("xy")) and len(set(mp.values())) == len(mp)
    return mp if ok else None


def inputs(path, sizes):
    a = numpy.arange(sizes["x"] * sizes["y"] * sizes["z"]).reshape(sizes["x"], sizes["y"], sizes["z"]) + 100.
    b = numpy.arange(sizes["x"] * sizes["y"]).reshape(sizes["x"], sizes["y"]) + 10.
    vs = {c: e2e.Var((c,), numpy.arange(sizes[c]) + {"x": 1., "y": 2., "z": 3.}[c], {"units": "1"}) for c in "xyz"}
    vs["a"] = e2e.Var(tuple(LA), a.transpose(["xyz".index(c) for c in LA]), {"units": "1"})
    vs["b"] = e2e.Var(tuple(LB), b.transpose(["xy".index(c) for c in LB]), {"units": "1"})
    e2e.write_file(path, vs, sizes, unlimited=("y",))
    return a, b


def job(item):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    d, sizes, names, alias, thorough = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp, out = os.path.join(work, "in.nc"), os.path.join(work, "out.nc")
    a, b = inputs(inp, sizes)
    fails, n, nt = [], 0, 0
    with e2e.quiet():
        ids = lambda: InputDatasetDesc(filenames=[inp])
    for coords in [c for k in range(4) for c in permutations("xyz", k) if list(c) == sorted(c)]:
        for lv, lw in product(permutations("xyz"), list(permutations("xy")) + [None]):
            spec = OrderedDict()
            members = []
            for c in coords:
                spec[names[c]] = e2e.outvar([alias[c]], c, attrs={"units": "1"})
            if lw:
                spec[names["W"]] = e2e.outvar([alias[c] for c in lw], "b", attrs={"units": "1"})
            spec[names["V"]] = e2e.outvar([alias[c] for c in lv], "a", attrs={"units": "1"}, filename=out, metavars=[names[c] for c in coords] + ([names["W"]] if lw else []))
            key0 = "sizes %s coords %s V%s W%s names %s dims %s" % (sorted(sizes.values()), "".join(coords), lv, lw, names["V"], sorted(alias.items()))
            layouts = [lv] + ([lw] if lw else [])
            known = determined(coords, layouts)
            sure = known >= set("xyz")
            seen = {}
            orders = list(permutations(spec))
            if not thorough and len(orders) > 24:
                orders = orders[::11] + [orders[-1]]
            for k, order in enumerate(orders):
                n += 1
                nt += lv != ("x", "y", "z")
                ds = OrderedDict((v, spec[v]) for v in order)
                key = "%s order %s" % (key0, order)
                try:
                    with e2e.quiet():
                        df = DataFlow(ids(), OutputDatasetDesc(dsdict=ds))
                        mp = sorted(df.dimension_map.items())
                except (ValueError, RuntimeError) as err:
                    mp = "refused"
                except Exception as err:
                    fails.append((key, "failed: %r" % err))
                    continue
                seen.setdefault(repr(mp), order)
                if k in (0, len(orders) - 1) and mp != "refused":
                    res = None
                    try:
                        with e2e.quiet():
                            df.execute(serial=True)
                        r = e2e.read_file(out)
                        os.unlink(out)
                    except (ValueError, RuntimeError) as err:
                        r = None
                    if r is None:
                        mp = "refused"
                    else:
                        omap = {c: c for c in "xyz"} if sure else in_order(coords, lv, lw)
                        if omap is None:
                            fails.append((key, "accepted, although dimensions matched in order contradict each other"))
                        else:
                            got = r["vars"][names["V"]]
                            want = a.transpose(["xyz".index(omap[c]) for c in lv])
                            if got["dims"] != tuple(alias[c] for c in lv) or not numpy.array_equal(got["raw"], want):
                                fails.append((key, "data under the wrong dimensions: %s %s" % (got["dims"], got["raw"].tolist())))
                            if lw:
                                got = r["vars"][names["W"]]
                                if not numpy.array_equal(got["raw"], b.transpose(["xy".index(omap[c]) for c in lw])):
                                    fails.append((key, "2-D data under the wrong dimensions"))
                            for c in "xyz":
                                if r["dims"][alias[c]] != (sizes[omap[c]], omap[c] == "y"):
                                    fails.append((key, "dimension %s is %r" % (alias[c], r["dims"][alias[c]])))
                        for c in coords:
                            if not numpy.array_equal(r["vars"][names[c]]["raw"], numpy.arange(sizes[c]) + {"x": 1., "y": 2., "z": 3.}[c]):
                                fails.append((key, "coordinate %s wrong" % c))
                if mp == "refused" and (set(coords) >= set("xyz") or (len(coords) == 2)):
                    fails.append((key, "refused although the coordinates determine the mapping"))
            if len(seen) > 1:
                fails.append((key0, "depends on the order of declaration: %s" % sorted(seen.items())))
            if len(fails) > 20:
                return n, nt, fails
    return n, nt, fails


def contradictions(chk, d):
    """declarations that contradict each other, or themselves, are refused; nothing is written"""
    inp, out = os.path.join(d, "c.nc"), os.path.join(d, "co.nc")
    for sizes in ({"x": 2, "y": 2, "z": 2}, {"x": 2, "y": 3, "z": 4}):
        inputs(inp, sizes)
        cx = ("cx", ["X"], "x")
        cases = {
            "one output dimension, two input dimensions": [cx, ("c2", ["X"], "y"), ("V", ["X"], "b[0]")],
            "one input dimension, two output dimensions": [cx, ("c2", ["X2"], "x"), ("V", ["X"], "b[0]")],
            "too few output dimensions": [cx, ("V", ["X"], "b")],
            "too many output dimensions": [cx, ("V", ["X", "Y", "Z"], "b")],
            "scalar for data with dimensions": [cx, ("V", [], "b")],
            "dimension for scalar data": [cx, ("V", ["X"], "b[0,0]")],
            "wrong dimension": [cx, ("cy", ["Y"], "y"), ("V", ["X"], "b[:,0]")],
            "one dimension twice": [cx, ("V", ["X", "X"], "b")],
        }
        for what, vs in cases.items():
            for order in permutations(vs):
                ds = OrderedDict()
                for nme, dims, text in order:
                    kw = dict(filename=out, metavars=[v[0] for v in vs if v[0] != "V"]) if nme == "V" else {}
                    ds[nme] = e2e.outvar(dims, text, attrs={"units": "1"}, **kw)
                key = "%s %s order %s" % (what, sorted(sizes.values()), [o[0] for o in order])
                try:
                    e2e.run([inp], ds)
                    res = "accepted"
                except (ValueError, RuntimeError, TypeError):
                    res = "refused"
                except Exception as err:
                    res = "failed: %r" % err
                chk.ran(key, res)
                if res != "refused":
                    chk.fail(key, res, {"case": key})
                if os.path.exists(out):
                    chk.fail(key, "wrote the file", {"case": key})
                    os.unlink(out)


def explore(chk):
    d = chk.scratch()
    items = []
    for sizes in ({"x": 2, "y": 2, "z": 2}, {"x": 2, "y": 3, "z": 4}):
        for names in NAMES:
            for alias in ALIAS if chk.thorough else (ALIAS[:1] if names is NAMES[0] else ALIAS[1:]):
                items.append((d, sizes, names, alias, chk.thorough))
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:4]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    contradictions(chk, d)
