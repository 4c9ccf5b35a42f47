"""C22: what cannot be computed is skipped with a warning, exactly that, and everything else is written as usual."""
import os
from collections import OrderedDict
from itertools import combinations, product

import numpy

from mc import e2e, par

PID = "C22"
LEVEL = "exploration"
RULE = ("every subset of 4 input variables being absent x every assignment of definitions (variables, expressions, functions, keyword arguments, "
        "selections, references to output data, data, empty text, none at all) to two file owners and to a third variable x every role of the third variable "
        "(in neither file by itself, found by its dimensions, metavar of one file, named by coordinates or bounds) x two chunkings, with and without units declared; "
        "files written, their content and the warnings compared with a model of what depends on what; definitions without meaning in every role, which must not be skipped; non-trivial = something is skipped")

X, Y = 3, 2
A = numpy.array([1., 2., 4.])
B = numpy.array([[1., 5.], [2., 7.], [3., 11.]])
C = numpy.array([10., 20.])
T = numpy.array([0., 1., 2.])
D = numpy.array([7., 8., 9.])
INPUTS = {"a": (("x",), A), "b": (("x", "y"), B), "c": (("y",), C), "t": (("x",), T)}

# definition -> (names it needs, value as a function of nothing); all values lie on x
DEFS = OrderedDict([
    ("a", ("a", A)),
    ("a + t", ("at", A + T)),
    ("-(2*t)", ("t", -2 * T)),
    ("b[:,0]", ("b", B[:, 0])),
    ("mean(b,'y') - a", ("ab", B.mean(axis=1) - A)),
    ("mean(b*c, 'y')", ("bc", (B * C).mean(axis=1))),
    ("limit(data=a + 0*c[0], above=100)", ("ac", A)),
    ("a + D", ("aD", A + D)),
    ("D", ("D", D)),
    ("nowhere", ("?", None)),
    ("A", ("?", None)),
    ("W + a", ("aW", None)),
    ("a*(nowhere - a)", ("a?", None)),
    ("", None),
    ("  ", None),
    (None, None),
])
DATA = [5., 6., 8.]
ROLES = ["dims", "scalar dims", "metavar1", "scalar metavar1", "coordinates2", "bounds1"]


def name(text):
    return "none" if text is None else "data" if not isinstance(text, str) else repr(text)


def variable(text, attrs, **kw):
    bare = kw.pop("bare", False)
    v = e2e.outvar(["x"], text, attrs=dict(attrs) if bare else dict(attrs, units="1"), **kw)
    if text is None:
        del v["definition"]
    return v


def job(item):
    d, absent, texts, thorough = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp = os.path.join(work, "in.nc")
    present = [v for v in INPUTS if v not in absent]
    vs = OrderedDict((v, e2e.Var(INPUTS[v][0], INPUTS[v][1], {"units": "1"})) for v in present)
    # names which are almost those asked for
    for v in ("Nowhere", "nowher", "nowhere_", "aa", "tt"):
        vs[v] = e2e.Var(("x",), A + 100, {"units": "1"})
    vs["other"] = e2e.Var(("x",), A, {"units": "1"})
    e2e.write_file(inp, vs, {"x": X, "y": Y})
    fails, n, nt = [], 0, 0

    def available(text):
        if isinstance(text, list):
            return True
        if DEFS[text] is None:
            return False
        return all(v in present or v == "D" or (v == "W" and isinstance(t2, list)) for v in DEFS[text][0])

    def value(text):
        return numpy.array(text) if isinstance(text, list) else A + numpy.array(t2) if text == "W + a" else DEFS[text][1]

    t1, t2, t3 = texts
    for role in ROLES:
        for chunks in ({}, {"x": 2}):
            if chunks and not (thorough or role == "dims"):
                continue
            n += 1
            for f in ("f1.nc", "f2.nc"):
                if os.path.exists(os.path.join(work, f)):
                    os.unlink(os.path.join(work, f))
            key = "without %s: V=%s W=%s M=%s as %s chunks %s" % ("".join(absent) or "nothing", name(t1), name(t2), name(t3), role, chunks)
            bare = (n + len(repr(texts)) + len(absent)) % 2 == 1
            mv1, mv2, a1, a2 = ["D"], ["D"], {}, {}
            if role in ("metavar1", "scalar metavar1"):
                mv1 = ["D", "M"]
            elif role == "coordinates2":
                a2 = {"coordinates": "D M"}
            elif role == "bounds1":
                a1 = {"bounds": "M"}
            spec = OrderedDict()
            spec["D"] = e2e.outvar(["x"], D.tolist(), attrs={"units": "1"})
            spec["V"] = variable(t1, a1, bare=bare, filename=os.path.join(work, "f1.nc"), metavars=mv1)
            spec["W"] = variable(t2, a2, bare=not bare and "W + a" not in (t1, t3), filename=os.path.join(work, "f2.nc"), metavars=mv2)
            spec["M"] = variable(t3, {}, bare=bare)
            if role == "scalar dims":  # not on any dimension of the files: must not be pulled in
                spec["M"]["dimensions"] = ["Z"]
            elif role == "scalar metavar1":
                spec["M"]["dimensions"] = []
                if isinstance(t3, list):
                    spec["M"]["definition"] = t3[0]
                elif DEFS[t3] is not None:
                    spec["M"]["definition"] = "mean(%s,'x')" % t3
            # model ------------------------------------------------------------------------
            defined = {"V": isinstance(t1, list) or DEFS[t1] is not None, "W": isinstance(t2, list) or DEFS[t2] is not None,
                       "M": isinstance(t3, list) or DEFS[t3] is not None}
            files = {}
            for f, owner in (("f1.nc", "V"), ("f2.nc", "W")):
                if defined[owner]:
                    with_m = role != "scalar dims" and (role != "scalar metavar1" or owner == "V")
                    files[f] = {owner, "D"} | ({"M"} if with_m and defined["M"] else set())
            text = {"V": t1, "W": t2, "M": t3, "D": D.tolist()}
            # a variable without definition that a surviving file names explicitly: refused
            refused = not defined["M"] and ((role in ("metavar1", "scalar metavar1", "bounds1") and defined["V"]) or (role == "coordinates2" and defined["W"]))
            used = set().union(*files.values()) if files else set()
            skipped_vars = {v for v in "VWM" if not defined[v]} | {v for v in used if not available(text[v])}
            written = {f for f, vv in files.items() if all(available(text[v]) for v in vv)}
            skipped_files = set(files) - written
            nt += bool(skipped_vars)
            # run ----------------------------------------------------------------------------
            try:
                warns = e2e.run([inp], spec, chunks=dict(chunks))
                res = "ran"
            except (ValueError, KeyError, RuntimeError) as err:
                res = "refused"
            except Exception as err:
                fails.append((key, "failed: %r" % err))
                continue
            if refused:
                if res == "ran":
                    fails.append((key, "a named variable without definition was ignored"))
                elif os.listdir(work) != ["in.nc"]:
                    fails.append((key, "refused, but wrote %r" % sorted(os.listdir(work))))
                continue
            mapped = any(isinstance(text[v], str) and available(text[v]) for v in used)
            if chunks and not mapped:
                continue  # x is then no dimension of the data flow that could be chunked: not claimed
            if res != "ran":
                fails.append((key, "refused: nothing but the skipped variables is affected"))
                continue
            there = set(os.listdir(work)) - {"in.nc"}
            if there != written:
                fails.append((key, "files %r instead of %r" % (sorted(there), sorted(written))))
                continue
            for f in written:
                r = e2e.read_file(os.path.join(work, f))
                if set(r["vars"]) != files[f]:
                    fails.append((key, "%s holds %r instead of %r" % (f, sorted(r["vars"]), sorted(files[f]))))
                    continue
                for v in files[f]:
                    want = value(text[v])
                    if v == "M" and role == "scalar metavar1":
                        want = want[0] if isinstance(t3, list) else want.mean()
                    if numpy.shape(r["vars"][v]["raw"]) != numpy.shape(want) or not numpy.allclose(numpy.asarray(r["vars"][v]["raw"]), want):
                        fails.append((key, "%s in %s is %r instead of %r" % (v, f, r["vars"][v]["raw"].tolist(), want.tolist())))
            said = [str(w.message) for w in warns if "definition" in w.category.__name__.lower()]
            for v in skipped_vars:
                if not any(v in m.replace(".", " ").replace("'", " ").split() for m in said):
                    fails.append((key, "no warning about %s: %r" % (v, said)))
            for f in skipped_files:
                if not any(f in m for m in said):
                    fails.append((key, "no warning about file %s: %r" % (f, said)))
            if len(said) != len(skipped_vars) + len(skipped_files):
                fails.append((key, "warnings %r, skipped %r %r" % (said, sorted(skipped_vars), sorted(skipped_files))))
        if len(fails) > 20:
            break
    return n, nt, fails


# definitions which nothing is missing for, but which have no meaning: they are refused, not skipped
WRONG = ["nofunction(a)", "a + 2*nofunction(b, 'y')", "a + u", "a + (t", "mean(a, dim='x')", "limit(a, over=3)", "mean(3, 'x')", "b[0,0,0]", "sqrt(u)", "a ++* t", "A(a)"]


def wrong_job(item):
    d, text, role = item
    work = os.path.join(d, "x%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp = os.path.join(work, "in.nc")
    vs = OrderedDict((v, e2e.Var(INPUTS[v][0], INPUTS[v][1], {"units": "1"})) for v in INPUTS)
    vs["u"] = e2e.Var(("x",), A, {"units": "m"})
    e2e.write_file(inp, vs, {"x": X, "y": Y})
    for f in ("f1.nc", "f2.nc"):
        if os.path.exists(os.path.join(work, f)):
            os.unlink(os.path.join(work, f))
    spec = OrderedDict()
    spec["V"] = variable(text if role == "V" else "a", {}, filename=os.path.join(work, "f1.nc"), metavars=["M"] if role == "meta" else [])
    spec["W"] = variable(text if role == "W" else "t", {"coordinates": "M"} if role == "coordinates" else {}, filename=os.path.join(work, "f2.nc"))
    spec["M"] = variable(text if role not in ("V", "W") else "a", {})
    try:
        e2e.run([inp], spec)
        return 1, 1, [("V, W and M with %r as %s" % (text, role), "not refused, files %r" % sorted(set(os.listdir(work)) - {"in.nc"}))]
    except Exception:
        return 1, 1, []


def dispatch(item):
    return wrong_job(item) if len(item) == 3 else job(item)


def explore(chk):
    d = chk.scratch()
    items = [(d, text, role) for text in WRONG for role in ("V", "W", "dims", "meta", "coordinates")]
    texts = list(DEFS) + [DATA]
    absents = [c for k in range(5) for c in combinations("abct", k)]
    third = texts if chk.thorough else ["a", "mean(b,'y') - a", "t + a" if "t + a" in DEFS else "a + t", "nowhere", "", DATA]
    second = texts if chk.thorough else ["a", "-(2*t)", "b[:,0]", "limit(data=a + 0*c[0], above=100)", "D", "a*(nowhere - a)", None, DATA]
    for absent in absents:
        for t1, t2, t3 in product(texts, second, third):
            if not chk.thorough and len(absent) not in (0, 1, 4) and (t2 != "-(2*t)" or t3 not in ("a", "nowhere")):
                continue
            items.append((d, absent, (t1, t2, t3), chk.thorough))
    for item, (st, res) in zip(items, par.pmap(dispatch, items, chunksize=16)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:3])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
