"""C23: within a data set every name has one description, shared by all its files and variables, or the set is refused."""
from collections import OrderedDict
from itertools import product

from mc import par

PID = "C23"
LEVEL = "model_checking"
RULE = ("all lists of up to 3 dimension descriptions over 2 names and 6 settings; all data sets of one file with up to 3 variables, two files with one or two "
        "variables and three files with one variable, over 2 variable names, types, 9 dimension lists and settings of the dimensions; files of equal name; accepted exactly if "
        "consistent; from every accepted data set all sequences of up to 2 changes of a dimension (set, unset) through any of the handles that reach it, "
        "observed through all handles and compared with one shared record; non-trivial = a name occurs twice")

SET = {"-": None, "2": (2, False, False), "3": (3, False, False), "2+": (2, True, False), "2s": (2, False, True), "0": (0, False, False)}


def dim(name, s):
    from pyconform.datasets import DimensionDesc
    if SET[s] is None:
        return DimensionDesc(name)
    size, unl, sl = SET[s]
    return DimensionDesc(name, size=size, unlimited=unl, stringlen=sl)


def state(dd):
    return (dd.size, dd.unlimited, dd.stringlen) if dd.size is not None else None


def merge(pairs):
    """model: name -> setting, or None if contradictory"""
    out = OrderedDict()
    for n, s in pairs:
        v = SET[s]
        if n not in out:
            out[n] = v
        elif v is not None:
            if out[n] is not None and out[n] != v:
                return None
            out[n] = v
    return out


def lists(chk):
    from pyconform.datasets import DimensionDesc
    one = [(n, s) for n in "xy" for s in SET]
    for k in range(4 if not chk.thorough else 5):
        for pairs in product(one, repeat=k):
            if k == 4 and any(s in ("0", "2s") for _, s in pairs):
                continue
            want = merge(pairs)
            try:
                got = DimensionDesc.unique([dim(n, s) for n, s in pairs])
                res = OrderedDict((n, state(d)) for n, d in got.items())
                if any(d.name != n for n, d in got.items()):
                    chk.fail(repr(pairs), "named wrongly", {"dims": pairs})
            except ValueError:
                res = None
            except Exception as err:
                res = repr(err)
            chk.ran(("dims", pairs), res, len(set(n for n, _ in pairs)) < k)
            if res != want or (want is not None and list(res) != list(want)):
                chk.fail("dimensions %r" % (pairs,), "%r instead of %r" % (res, want), {"dims": pairs})


# -- data sets --------------------------------------------------------------------------------
# a variable: (name, type, ((dim, setting), ...)); a file: (name, (variables))

DIMS = [()] + [(("x", s),) for s in ("-", "2", "3", "2+")] + [(("x", "-"), ("y", "2")), (("y", "2"), ("x", "-")), (("x", "2"), ("y", "-")), (("y", "3"),)]


def model(files):
    """None = refused, else (dimension settings, {variable: (type, dims, files)}, {file: {variables}})"""
    for _, vs in files:
        for _, _, dims in vs:
            if merge(dims) is None:
                return None
    dims = merge([d for _, vs in files for v in vs for d in v[2]])
    if dims is None:
        return None
    var = OrderedDict()
    content = OrderedDict()
    for f, vs in files:
        here = OrderedDict()
        for n, t, dd in vs:
            rec = (t, tuple(d for d, _ in dd))
            if n in var and var[n][:2] != rec:
                return None
            var.setdefault(n, rec + (set(),))
            var[n][2].add(f)
            here[n] = True
        if f in content and set(content[f]) != set(here):
            return None
        content.setdefault(f, here)
    return dims, var, content


def build(files):
    from pyconform.datasets import DatasetDesc, FileDesc, VariableDesc
    return DatasetDesc(files=[FileDesc(f, variables=[VariableDesc(n, datatype=t, dimensions=[dim(d, s) for d, s in dd]) for n, t, dd in vs])
                              for f, vs in files])


def handles(ds, d):
    """every way to reach the description of dimension d"""
    yield "dataset", ds.dimensions.get(d)
    for f, fd in ds.files.items():
        if d in fd.dimensions:
            yield "file " + f, fd.dimensions[d]
        for v, vd in fd.variables.items():
            if d in vd.dimensions:
                yield "variable %s of file %s" % (v, f), vd.dimensions[d]
    for v, vd in ds.variables.items():
        if d in vd.dimensions:
            yield "variable " + v, vd.dimensions[d]
        for f, fd in vd.files.items():
            if d in fd.dimensions:
                yield "file %s of variable %s" % (f, v), fd.dimensions[d]


def look(ds, dims):
    for d, want in dims.items():
        for h, dd in handles(ds, d):
            if state(dd) != want or dd.name != d:
                return "dimension %s seen from %s is %r instead of %r" % (d, h, state(dd), want)
    return None


def compare(ds, want):
    dims, var, content = want
    if set(ds.dimensions) != set(dims):
        return "dimensions %r instead of %r" % (sorted(ds.dimensions), sorted(dims))
    if set(ds.variables) != set(var) or set(ds.files) != set(content):
        return "variables %r files %r" % (sorted(ds.variables), sorted(ds.files))
    for n, (t, dd, ff) in var.items():
        for vd in [ds.variables[n]] + [ds.files[f].variables[n] for f in ff]:
            if vd.datatype != t or tuple(vd.dimensions) != dd:
                return "variable %s is %r %r instead of %r %r" % (n, vd.datatype, tuple(vd.dimensions), t, dd)
            if set(vd.files) != ff:
                return "variable %s is in files %r instead of %r" % (n, sorted(vd.files), sorted(ff))
    for f, here in content.items():
        if set(ds.files[f].variables) != set(here):
            return "file %s holds %r instead of %r" % (f, sorted(ds.files[f].variables), sorted(here))
        if set(ds.files[f].dimensions) != {d for n in here for d in var[n][1]}:
            return "file %s has dimensions %r" % (f, sorted(ds.files[f].dimensions))
    return look(ds, dims)


def job(item):
    batch, depth = item
    fails, n, nt, trans = [], 0, 0, 0
    outcomes = {"accepted": 0, "refused": 0}
    for files in batch:
        n += 1
        names = [v[0] for _, vs in files for v in vs] + [d for _, vs in files for v in vs for d, _ in v[2]]
        nt += len(set(names)) < len(names)
        want = model(files)
        try:
            ds = build(files)
        except (ValueError, TypeError):
            ds = None
        except Exception as err:
            fails.append((repr(files), "failed: %r" % err))
            continue
        outcomes["refused" if ds is None else "accepted"] += 1
        if (ds is None) != (want is None):
            fails.append((repr(files), "refused" if ds is None else "accepted although contradictory"))
            continue
        if ds is None:
            continue
        bad = compare(ds, want)
        if bad:
            fails.append((repr(files), bad))
            continue
        dims = OrderedDict(want[0])
        hs = {d: [h for h, _ in handles(ds, d)] for d in dims}
        ops = [(d, h, s) for d in dims for h in range(len(hs[d])) for s in ("4", "-", "2+")]
        for seq in [(o,) for o in ops] + ([(o, p) for o in ops for p in ops if o[1] != p[1]] if depth > 1 else []):
            ds2 = ds
            now = dict(dims)
            for d, h, s in seq:
                trans += 1
                dd = list(handles(ds2, d))[h][1]
                if s == "-":
                    dd.unset()
                    got = state(dd)
                    now[d] = None
                else:
                    from pyconform.datasets import DimensionDesc
                    dd.set(DimensionDesc("other", size=4 if s == "4" else 2, unlimited=s == "2+"))
                    now[d] = (4, False, False) if s == "4" else (2, True, False)
                bad = look(ds2, now)
                if bad:
                    fails.append((repr(files), "after %r: %s" % (seq, bad)))
                    break
            if bad:
                break
            for d, v in dims.items():  # back to the start
                dd = ds2.dimensions[d]
                if v is None:
                    dd.unset()
                else:
                    dd.set(dim("o", [k for k in SET if SET[k] == v][0]))
    return n, nt, trans, outcomes, fails


def space(thorough):
    full = [(n, t, dd) for n in "vw" for t in (("float", "double") if n == "v" else ("float",)) for dd in DIMS]
    small = [v for v in full if v[1] == "float" and len(v[2]) < 2 or v[2] == DIMS[5] and v[0] == "v"]
    for a in full:
        yield [("f1", (a,))], 2
    for a, b in product(full, repeat=2):
        yield [("f1", (a, b))], 1
        yield [("f1", (a,)), ("f2", (b,))], 2 if thorough or b in small else 1
        yield [("f1", (a,)), ("f1", (b,))], 1
    mid = full if thorough else [v for v in small if v[2] not in (DIMS[4],)]
    for a, b, c in product(mid, repeat=3):
        yield [("f1", (a, b)), ("f2", (c,))], 1
        yield [("f1", (a,)), ("f2", (b,)), ("f3", (c,))], 1
        yield [("f1", (a,)), ("f2", (b,)), ("f1", (c,))], 1
        yield [("f1", (a, b, c))], 1


def explore(chk):
    lists(chk)
    groups = {}
    for files, depth in space(chk.thorough):
        groups.setdefault(depth, []).append(files)
    items = [(fs[i:i + 100], depth) for depth, fs in groups.items() for i in range(0, len(fs), 100)]
    states = 0
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[0][:1])})
            continue
        n, nt, trans, outcomes, fails = res
        chk.bulk(n, nt, [{"case": repr(item[0][0])}])
        states += n
        chk.transitions += trans
        for k, v in outcomes.items():
            chk.count(k, v)
        for k, w in fails:
            chk.fail(k, w, {"files": k})
    chk.states = states
