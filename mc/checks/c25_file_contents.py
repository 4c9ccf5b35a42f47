"""C25: an output specification determines which variables each file holds; impossible specifications are refused."""
import os
from collections import OrderedDict
from itertools import permutations, product

import numpy

from mc import e2e, par

PID = "C25"
LEVEL = "exploration"
RULE = ("specifications of two file owners (all dimension lists over 3 dimensions up to length 2) x every set of metavars x three further variables with "
        "dimension lists and bounds / coordinates attributes naming each other, or unknown names x every order of declaration; contents of the file "
        "descriptions (and of the files written, for one order each) compared with the rule; all pairs of data type and file format; all single "
        "omissions and malformed entries; non-trivial = a variable is pulled in")

SIZES = {"x": 3, "y": 2, "z": 2}
LISTS = [(), ("x",), ("y",), ("x", "y"), ("y", "x"), ("x", "z")]
DATA = {(): 5., ("x",): [1., 2., 4.], ("y",): [3., 7.], ("z",): [9., 8.]}


def values(dims):
    if dims in DATA:
        return DATA[dims]
    return (numpy.arange(numpy.prod([SIZES[d] for d in dims])) + 1.).reshape([SIZES[d] for d in dims]).tolist()


def model(spec):
    """spec: name -> (dims, file or None, metavars, bounds, coordinates); returns None (refused), or file -> (least, most)"""
    out = {}
    for n, (dims, f, mv, b, c) in spec.items():
        if f is None:
            continue
        if any(m not in spec for m in mv):
            return None
        base = {n} | set(mv)
        fd = {d for m in base for d in spec[m][0]}
        here = base | {m for m, v in spec.items() if v[1] is None and v[0] and set(v[0]) <= fd}

        def refs(names):
            return {r for m in names for r in ([spec[m][3]] if spec[m][3] else []) + spec[m][4].split()}

        one = refs(here)
        if any(r not in spec for r in one):
            return None
        most = here | one
        while True:
            more = {r for r in refs(most) if r in spec} - most
            if not more:
                break
            most |= more
        out[f] = (here | one, most)
    return out


def dsdict(spec, order, where):
    ds = OrderedDict()
    for n in order:
        dims, f, mv, b, c = spec[n]
        attrs = {"units": "1"}
        if b:
            attrs["bounds"] = b
        if c:
            attrs["coordinates"] = c
        kw = dict(filename=os.path.join(where, f), metavars=list(mv)) if f else {}
        ds[n] = e2e.outvar(dims, values(dims), attrs=attrs, **kw)
    return ds


def judge(found, want, where):
    if want is None:
        return "accepted, although it names an unknown variable"
    if set(found) != {os.path.join(where, f) for f in want}:
        return "files %r instead of %r" % (sorted(found), sorted(want))
    for f, (least, most) in want.items():
        got = set(found[os.path.join(where, f)])
        if not least <= got <= most:
            return "%s holds %r instead of %r" % (f, sorted(got), sorted(least))
    return None


def job(item):
    from pyconform.datasets import OutputDatasetDesc
    d, owners, third, thorough = item
    fails, n, nt = [], 0, 0
    where = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(where, exist_ok=True)
    names = ["V", "W", "P", "Q", "S"]
    (dv, dw), (dp, dq, ds_) = owners, third
    mvs = [((), ()), (("P",), ()), (("Q", "S"), ("P",)), (("W",), ("V", "S")), (("S", "S", "V"), ("Q",)), (("nobody",), ())]
    refs = [("", "", "", ""), ("P", "Q S", "", ""), ("", "S", "Q", ""), ("Q", "", "S", "V"), ("", "nobody", "", ""), ("", "", "nobody", ""), ("", "P  Q", "", "W P")]
    for (mv, mw), (bv, cw, bp, cq) in product(mvs, refs):
        spec = OrderedDict([("V", (dv, "f1.nc", mv, bv, "")), ("W", (dw, "f2.nc", mw, "", cw)), ("P", (dp, None, (), bp, "")),
                            ("Q", (dq, None, (), "", cq)), ("S", (ds_, None, (), "", ""))])
        want = model(spec)
        nt += want is not None and any(len(least) > 1 for least, _ in want.values())
        orders = list(permutations(names)) if thorough else [tuple(names), tuple(reversed(names)), ("P", "V", "S", "W", "Q")]
        for k, order in enumerate(orders):
            n += 1
            key = "V%s meta %s bounds %r; W%s meta %s coordinates %r; P%s bounds %r; Q%s coordinates %r; S%s; order %s" % (
                dv, mv, bv, dw, mw, cw, dp, bp, dq, cq, ds_, "".join(order))
            try:
                with e2e.quiet():
                    o = OutputDatasetDesc(dsdict=dsdict(spec, order, where))
                bad = judge({f: fd.variables for f, fd in o.files.items()}, want, where)
            except (ValueError, KeyError, TypeError):
                bad = None if want is None else "refused"
            except Exception as err:
                bad = "failed: %r" % err
            if bad:
                fails.append((key, bad))
                continue
            if want is not None and k == 0 and (mv, bv) in ((("P",), ""), ((), "P"), (("S", "S", "V"), "Q")):
                n += 1
                try:
                    inp = os.path.join(where, "in.nc")
                    if not os.path.exists(inp):
                        e2e.write_file(inp, {"a": e2e.Var(("i",), [1., 2.], {"units": "1"})}, {"i": 2})
                    e2e.run([inp], dsdict(spec, order, where))
                    found = {}
                    for f in os.listdir(where):
                        if f != "in.nc":
                            r = e2e.read_file(os.path.join(where, f))
                            found[os.path.join(where, f)] = r["vars"]
                            for v, rec in r["vars"].items():
                                if rec["dims"] != spec[v][0] or rec["raw"].tolist() != values(spec[v][0]):
                                    bad = "%s in %s is %s %r" % (v, f, rec["dims"], rec["raw"].tolist())
                            used = {x for v in r["vars"].values() for x in v["dims"]}
                            if {x: s[0] for x, s in r["dims"].items()} != {x: SIZES[x] for x in used}:
                                bad = "%s has dimensions %r" % (f, r["dims"])
                            os.unlink(os.path.join(where, f))
                    bad = bad or judge(found, want, where)
                except Exception as err:
                    bad = "failed: %r" % err
                if bad:
                    fails.append(("written: " + key, bad))
        if len(fails) > 20:
            break
    return n, nt, fails


CLASSIC = ["byte", "char", "short", "int", "float", "double"]
MORE = ["ubyte", "ushort", "uint", "int64", "uint64"]
FORMATS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT", "NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_64BIT_DATA"]


def types(chk, d):
    """data types and formats, for the owner, a metavar and a variable found by its dimensions"""
    from pyconform.datasets import OutputDatasetDesc
    for fmt, t, role in product(FORMATS + [None, "netcdf4", "HDF5", 4], CLASSIC + MORE + ["real", "string", "float32", "", 5, None], ["owner", "meta", "dims"]):
        path = os.path.join(d, "t.nc")
        ds = OrderedDict()
        ds["V"] = e2e.outvar(["x"], "a" if t == "char" else DATA[("x",)], attrs={"units": "1"}, filename=path, metavars=["M"] if role == "meta" else [])
        if fmt is not None:
            ds["V"]["file"]["format"] = fmt
        ds["M"] = e2e.outvar(["x"], DATA[("x",)], attrs={"units": "1"})
        who = "V" if role == "owner" else "M"
        if t == "char":
            ds[who]["definition"] = ["a", "b", "c"]
            ds[who]["dimensions"] = ["x", "n"]
            ds[who]["attributes"] = {}
        if role != "owner" and t == "char":
            ds["V"]["dimensions"] = ["x"]
            ds["V"]["definition"] = DATA[("x",)]
        if role == "dims" and t == "char":
            continue  # its string length dimension is in no other variable
        if t is None:
            del ds[who]["datatype"]
        else:
            ds[who]["datatype"] = t
        f = "NETCDF4_CLASSIC" if fmt is None else fmt
        key = "type %r in format %r as %s" % (t, fmt, role)
        if f not in FORMATS or (t is not None and t not in CLASSIC + MORE + ["real"]):
            want = "refused"
        elif t is None or t in CLASSIC:
            want = "accepted"
        elif t == "real":
            want = "accepted"
        elif f == "NETCDF3_64BIT_DATA":
            want = None
        else:
            want = "accepted" if f == "NETCDF4" else "refused"
        inp = os.path.join(d, "in.nc")
        e2e.write_file(inp, {"a": e2e.Var(("i",), [1., 2.], {"units": "1"})}, {"i": 2})
        try:
            with e2e.quiet():
                o = OutputDatasetDesc(dsdict=ds)
            got = "accepted"
            if o.variables[who].datatype != ("float" if t is None else t) or o.files[path].format != f:
                chk.fail(key, "described as %r in %r" % (o.variables[who].datatype, o.files[path].format), {"case": key})
        except (ValueError, TypeError):
            got = "refused"
        except Exception as err:
            got = "failed: %r" % err
        if want == "accepted" and got == "accepted":
            try:
                e2e.run([inp], ds)
                r = e2e.read_file(path)
                code = {"byte": "|i1", "ubyte": "|u1", "char": "|S1", "short": "<i2", "ushort": "<u2", "int": "<i4", "uint": "<u4", "int64": "<i8",
                        "uint64": "<u8", "float": "<f4", "real": "<f4", "double": "<f8", None: "<f4"}[t]
                have = r["vars"][who]["dtype"].replace(">", "<")
                if have != code:
                    got = "written as %s" % have
                if r["format"] != {"NETCDF3_64BIT": "NETCDF3_64BIT_OFFSET"}.get(f, f):
                    got = "written in format %s" % r["format"]
                os.unlink(path)
            except Exception as err:
                got = "not written: %r" % err
        chk.ran(key, got)
        if want is not None and got != want:
            chk.fail(key, "%s instead of %s" % (got, want), {"case": key})


def malformed(chk):
    """single omissions and malformed entries"""
    from pyconform.datasets import OutputDatasetDesc

    def base():
        ds = OrderedDict()
        ds["V"] = e2e.outvar(["x"], "a", filename="f1.nc", metavars=["M"])
        ds["W"] = e2e.outvar(["x", "y"], "b", filename="f2.nc")
        ds["M"] = e2e.outvar(["x"], "c")
        return ds

    def nothing(ds):
        pass

    cases = {"unchanged": (nothing, True)}
    for v in "VWM":
        cases[v + " without dimensions"] = (lambda ds, v=v: ds[v].pop("dimensions"), False)
        cases[v + " without attributes"] = (lambda ds, v=v: ds[v].pop("attributes"), True)
        cases[v + " attributes no dictionary"] = (lambda ds, v=v: ds[v].update(attributes=["units"]), False)
    for v in "VW":
        cases[v + " file without name"] = (lambda ds, v=v: ds[v]["file"].pop("filename"), False)
        cases[v + " file attributes no dictionary"] = (lambda ds, v=v: ds[v]["file"].update(attributes="title"), False)
        for val, ok in [(k, True) for k in range(10)] + [(-1, False), (10, False), ("2", False), (1.5, False), (None, False)]:
            cases[v + " deflate %r" % (val,)] = (lambda ds, v=v, val=val: ds[v]["file"].update(deflate=val), ok)
        for val, ok in (("M", True), ("x", False), ("nobody", False), ("V", v == "V"), ("W", v == "W")):
            cases[v + " autoparse time %r" % val] = (lambda ds, v=v, val=val: ds[v]["file"].update(autoparse_time_variable=val), ok)
    cases["same file twice"] = (lambda ds: ds["W"]["file"].update(filename="f1.nc"), False)
    cases["third owner of a file"] = (lambda ds: ds["M"].update(file={"filename": "f2.nc"}), False)
    cases["third file"] = (lambda ds: ds["M"].update(file={"filename": "f3.nc"}), True)
    for what, (change, ok) in cases.items():
        for order in permutations("VWM"):
            ds = base()
            change(ds)
            ds = OrderedDict((v, ds[v]) for v in order)
            key = "%s order %s" % (what, "".join(order))
            try:
                with e2e.quiet():
                    o = OutputDatasetDesc(dsdict=ds)
                got = True
            except (ValueError, TypeError, KeyError):
                got = False
            except Exception as err:
                got = repr(err)
            chk.ran(key, got)
            if got != ok:
                chk.fail(key, "%s instead of %s" % (got, ok), {"case": key})
            elif got and "deflate" in what and o.files["f1.nc" if what[0] == "V" else "f2.nc"].deflate != int(what.split()[-1]):
                chk.fail(key, "other deflate level", {"case": key})
            elif got and o.files["f1.nc"].deflate != 2 and not what.startswith("V deflate"):
                chk.fail(key, "default deflate level is %r" % o.files["f1.nc"].deflate, {"case": key})


def explore(chk):
    d = chk.scratch()
    items = []
    owners = list(product(LISTS if chk.thorough else LISTS[:4] + LISTS[5:], repeat=2))
    thirds = [(("x",), ("y",), ()), (("x", "y"), ("z",), ("x",)), ((), ("y", "x"), ("x",)), (("x",), ("x", "z"), ("z",))]
    if chk.thorough:
        thirds = list(product(LISTS, LISTS[:4] + [("z",)], [(), ("x",), ("z",)]))
    for o in owners:
        for t in thirds:
            items.append((d, o, t, chk.thorough))
    for item, (st, res) in zip(items, par.pmap(job, items, chunksize=2)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:3])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    types(chk, d)
    malformed(chk)
