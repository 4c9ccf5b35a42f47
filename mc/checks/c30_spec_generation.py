"""C30: iconform writes, for every defined and requested variable, the specification that definitions, MIP table and attributes say."""
import contextlib
import io
import json
import os
import re
import shutil
from collections import OrderedDict
from itertools import combinations, product

from mc import e2e, par

PID = "C30"
LEVEL = "exploration"
RULE = ("the real command on: every definition file of up to three (after a heading: four) lines out of fourteen kinds; MIP tables of every type x dimensions x frequency, format x compression x "
        "shuffle, requested and empty fields; every pair of global attributes each absent, given and to be filled, with all the others absent or present; every combination of cell measures, ensemble "
        "index, grid and realm; axes with every kind of requested values, definitions of several realms and generic levels; several tables, experiments and requests; one file per "
        "variable; the real CMIP6 data request for every experiment, and selections of activities, tables and variables out of it; the files written are compared key by "
        "key with a model of the specification; and generated specifications are run to the end by xconform; non-trivial = a variable is written")

FILL = "__FILL__"
TYPES = {"char": "char", "byte": "byte", "short": "short", "int": "int", "float": "float", "real": "real", "double": "double", "character": "char", "integer": "int"}
MINUTES, DAYS, MONTHS, YEARS = "%Y%m%d%H%M", "%Y%m%d", "%Y%m", "%Y"
STAMPS = {"1hr": (MINUTES, ""), "1hrCM": (MINUTES, "-clim"), "1hrPt": (MINUTES, ""), "3hr": (MINUTES, ""), "3hrPt": (MINUTES, ""), "6hr": (MINUTES, ""), "6hrPt": (MINUTES, ""),
          "subhrPt": (MINUTES, ""), "day": (DAYS, ""), "mon": (MONTHS, ""), "monPt": (MONTHS, ""), "monC": (MONTHS, "-clim"), "yr": (YEARS, ""), "yrPt": (YEARS, ""), "dec": (YEARS, "")}
FORMATS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]
MEASURES = ["areacello", "areacella", "areacellr", "areacellg", "volcello"]
NO_PARENT = ["branch_time_in_child", "branch_time_in_parent", "parent_mip_era", "parent_source_id", "parent_time_units"]
UUID = "[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}"


# -- the model ------------------------------------------------------------------------------------------------------
def stamp(freq):
    if freq not in STAMPS:
        return ""
    f, clim = STAMPS[freq]
    return "_{%s-%s}%s" % (f, f, clim)


def file_attributes(ga, var, header):
    """attributes of the file of one variable, and what else the global attributes say about the file"""
    a = dict(ga)
    fmt = a.pop("netcdf_type")
    grids = {}
    for part in filter(None, a.pop("grids", "").split(";")):
        realms, text = part.split(":")
        for r in realms.split(","):
            grids[r.strip()] = text
    known = dict((k, header[k]) for k in ("activity_id", "data_specs_version", "experiment") if k in header)
    known.update(creation_date="", frequency=var["frequency"], table_id=var["mipTable"])
    known.update((k, var[k]) for k in ("realm", "variable_id") if k in var)
    for k in a:
        if a[k] == FILL and k in known:
            a[k] = known[k]
    if a.get("tracking_id") == FILL:
        a["tracking_id"] = re.compile("hdl:21.14100/" + UUID + "$")
    if a.get("external_variables") == FILL:
        words = [m for m in MEASURES if m in var.get("cell_measures", "")]
        if words:
            a["external_variables"] = set(words)
        else:
            del a["external_variables"]
    if "branch_method" not in a:
        a.update((k, "no parent") for k in NO_PARENT if k in a)
    index = ["realization_index", "initialization_index", "physics_index", "forcing_index"]
    label = a.get("variant_label")
    if label not in (None, FILL):
        a.update(zip(index, map(int, re.match("r([0-9]+)i([0-9]+)p([0-9]+)f([0-9]+)$", label).groups())))
    if a.get("further_info_url") == FILL:
        need = ["mip_era", "institution_id", "source_id", "experiment_id", "variant_label"]
        if all(k in a for k in need):
            a["further_info_url"] = "https://furtherinfo.es-doc.org/" + ".".join([a[k] for k in need[:4]] + [a.get("sub_experiment_id", ""), a["variant_label"]])
    if "grid" in a:
        a["grid"] = grids.get(a.get("realm", var["realm"]).split()[0], a["grid"])
    path = dict((k, a.get(k, "")) for k in ("mip_era", "activity_id", "institution_id", "source_id", "grid_label"))
    ripf = "r%si%sp%sf%s" % tuple(a[k] for k in index) if all(k in a for k in index) else "None"
    opts = {}
    if fmt.startswith("NETCDF4"):
        opts = dict((k, a.pop(k)) for k in ("compression", "shuffle") if k in a)
        if "compression" in opts:
            opts["deflate"] = int(opts["compression"])
    for k in a:
        if isinstance(a[k], str) and FILL in a[k]:
            a[k] = ""
    a["variant_label"] = ripf
    return a, path, ripf, dict(opts, format=fmt)


def variable(name, entry, header, ga, definition, glob, exp, out):
    """the specification of one variable of a CMOR table"""
    v = dict(entry)
    v.update(variable_id=name, realm=header["realm"], mipTable=header["table_id"].replace("Table ", ""), frequency=header["frequency"])
    dims = v["dimensions"].split()[::-1]
    fattrs, path, ripf, fopts = file_attributes(ga, v, header)
    from pyconform.cli import iconform
    spec = {"attributes": dict((k, x) for k, x in v.items() if x != ""), "definition": v.get("requested") or definition, "dimensions": dims}
    spec["attributes"].update(comment=definition)
    if dims:
        spec["attributes"].update(coordinates=" ".join(dims))
    spec["datatype"] = TYPES[v["type"]] if v.get("type") not in ("", None, "None") else "real"
    table, src, grid = v["mipTable"], path["source_id"], path["grid_label"]
    spec["file"] = dict(fopts, attributes=fattrs, filename="/".join(
        [out, path["mip_era"], path["activity_id"], path["institution_id"], src, exp, ripf, table, name, grid, iconform.version,
         "_".join([name, table, src, exp, ripf, grid]) + stamp(v["frequency"]) + ".nc"]))
    if glob:
        spec["input_glob"] = glob
    return spec


def axis(name, entry, coords):
    spec = {"attributes": dict((k, x) for k, x in entry.items() if x != ""), "dimensions": [name]}
    if "time" in name:
        spec["attributes"]["units"] = "days since 0001-01-01 00:00:00"
    if "type" in entry:
        spec["datatype"] = TYPES[entry["type"]]
    req = entry.get("requested", "")
    if req:
        if isinstance(req, str):
            req = req.replace(",", " ").split()
            try:
                req = [float(r) for r in req]
            except ValueError:
                pass
        spec["definition"] = req
    if name in coords:
        spec["definition"] = coords[name]
    return spec


def model(defs, coords, globs, tables, ga, exps, out="/out", wanted=None):
    """{file name: specification}; defs {table: {variable: definition}}, coords {realm: {axis: definition}}, globs {(table, variable): glob}"""
    files = {}
    for exp in exps:
        for t in tables:
            h = t["Header"]
            table = h["table_id"].replace("Table ", "")
            for name, entry in t["variable_entry"].items():
                if name not in defs.get(table, {}) or (wanted and name not in wanted):
                    continue
                spec = variable(name, entry, h, ga, defs[table][name], globs.get((table, name)), exp, out)
                f = "%s_%s_%s_%s_spec.json" % (exp, spec["file"]["attributes"]["activity_id"], table, h["realm"].replace(" ", "_"))
                files.setdefault(f, {})[name] = spec
                for d in spec["dimensions"]:
                    a = {} if d in h.get("generic_levels", "").split() else t["axis_entry"][d]
                    mine = [c for c in coords if c in h["realm"].split()]
                    files[f][d] = axis(d, a, coords[mine[0]] if mine else {})
    return files


def differs(got, want, where=""):
    """None, or where a specification is not as the model says"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s is %r" % (where, got)
        if set(got) != set(want):
            return "%s has %s" % (where or "output", " and ".join("%s %r" % (w, sorted(k)) for w, k in (("in addition", set(got) - set(want)), ("not", set(want) - set(got))) if k))
        for k in want:
            bad = differs(got[k], want[k], "%s/%s" % (where, k))
            if bad:
                return bad
        return None
    if hasattr(want, "match"):
        return None if isinstance(got, str) and want.match(got) else "%s is %r" % (where, got)
    if isinstance(want, set):
        return None if isinstance(got, str) and sorted(got.split()) == sorted(want) else "%s is %r instead of %r" % (where, got, sorted(want))
    if where.endswith("input_glob"):
        got = got.strip() if isinstance(got, str) else got
    return None if got == want and type(got) is type(want) else "%s is %r instead of %r" % (where, got, want)


# -- the real command -----------------------------------------------------------------------------------------------
def run(d, deftext, tables, ga, argv=(), exps=("hist",), out="/out", names=None):
    """{file name: what was written} or the refusal"""
    from pyconform.cli import iconform
    spec = os.path.join(d, "spec")
    shutil.rmtree(spec, ignore_errors=True)
    with open(os.path.join(d, "defs.txt"), "w") as f:
        f.write(deftext)
    args = ["-d", os.path.join(d, "defs.txt"), "-o", spec, "-p", out, "-e", ",".join(exps)]
    if tables is not None:
        paths = []
        for i, t in enumerate(tables):
            paths.append(os.path.join(d, "table%d.json" % i))
            with open(paths[-1], "w") as f:
                json.dump(t, f)
        args += ["-tt", "cmor", "-t", ",".join(paths)]
    paths = []
    for i, g in enumerate(ga if isinstance(ga, list) else [ga]):
        paths.append(os.path.join(d, "ga%d.%s" % (i, "txt" if isinstance(g, str) else "json")))
        with open(paths[-1], "w") as f:
            f.write(g if isinstance(g, str) else json.dumps(g))
    args += ["-g", ",".join(paths)] + list(argv)
    try:
        with e2e.quiet():
            iconform.main(args)
    except (Exception, SystemExit) as err:
        return "refused: %r" % err
    got = {}
    for name in sorted(os.listdir(spec)) if os.path.isdir(spec) else ():
        with open(os.path.join(spec, name)) as f:
            got[name] = json.load(f)
        for k, v in got[name].items():
            for dim in v["dimensions"]:
                if dim not in got[name]:
                    return "%s: %s has no dimension %s" % (name, k, dim)
    return got


def examine(d, deftext, want, tables, ga, **kw):
    got = run(d, deftext, tables, ga, **kw)
    if want == "refused":
        return None if isinstance(got, str) and got.startswith("refused") else "accepted"
    if isinstance(got, str):
        return got
    if "-to" in kw.get("argv", ()):
        # (files for axes are of no interest)
        got = dict((f, s) for f, s in got.items() if f in want or any("file" in v for v in s.values()))
    bad = differs(got, want)
    if bad:
        return bad
    ids = [v["file"]["attributes"]["tracking_id"] for f in got.values() for v in f.values() if "tracking_id" in v.get("file", {}).get("attributes", {})]
    ids = [i for i in ids if re.match("hdl:21.14100/" + UUID, i)]
    return "tracking_id given twice" if len(ids) != len(set(ids)) else None


# -- what is put in -------------------------------------------------------------------------------------------------
AXES = OrderedDict([
    ("x", {"axis": "X", "units": "degrees_east", "type": "double", "standard_name": "longitude", "requested": ""}),
    ("time", {"axis": "T", "units": "days since ?", "type": "double", "long_name": ""}),
    ("lev", {"axis": "Z", "units": "Pa", "positive": "down", "type": "double", "requested": "100000. 85000 500."}),
    ("basin", {"units": "", "type": "character", "requested": "atlantic pacific"}),
    ("site", {"type": "integer"}),
])
GA = OrderedDict([("activity_id", FILL), ("variable_id", FILL), ("netcdf_type", "NETCDF4_CLASSIC"), ("mip_era", "CMIP6"), ("source_id", "S1"), ("institution_id", "NCAR"), ("grid_label", "gn"),
                  ("variant_label", "r1i2p3f4"), ("tracking_id", FILL), ("table_id", FILL)])


def table(name="T1", realm="atmos", freq="mon", variables=None, axes=AXES, **header):
    entries = OrderedDict()
    for k, v in (variables or {"a": {}, "b": {}}).items():
        entries[k] = OrderedDict([("dimensions", "x time"), ("units", "K"), ("type", "real"), ("long_name", "the " + k), ("comment", "")])
        entries[k].update(v)
        for f in [f for f in entries[k] if entries[k][f] is Ellipsis]:
            del entries[k][f]
    return {"Header": dict({"table_id": "Table " + name, "realm": realm, "frequency": freq, "activity_id": "CMIP", "data_specs_version": "01.00.27"}, **header),
            "variable_entry": entries, "axis_entry": axes}


DEFS = "# TABLE : T1\na=A\nb=f(B, k=3)\n# Coords: atmos\nx=xx\ntime=tt\n"
DEFD = {"T1": {"a": "A", "b": "f(B, k=3)"}}
COORDS = {"atmos": {"x": "xx", "time": "tt"}}

LINES = ["# TABLE : T1", "#TABLE:T2", "# Coords: atmos", "a=A1", "  a = A2  ", "b=f(x, k=3)", "a=A3 # *.h0.*", "b=", "", "# some remark", "b=q == 2 #", "junk", "x=XX # 1 # 2", "b=BB # 1 # 2"]


def reading(lines):
    """the definitions a file of these lines gives: defs, coords, globs, or None where it is to be refused"""
    defs, coords, globs, here, name = {}, {}, {}, None, None
    for line in lines:
        s = line.strip()
        if s.startswith("#"):
            head = re.match("# ?(TABLE|Coords) ?: ?(.*)", s)
            if head:
                name = head.group(2)
                here = (defs if head.group(1) == "TABLE" else coords).setdefault(name, {})
            continue
        text, _, remark = s.partition("#")
        key, eq, value = text.partition("=")
        if eq:
            if here is None:
                return None
            here[key.strip()] = value.strip()
            globs[(name, key.strip())] = remark.strip() if remark and "#" not in remark else None
    return defs, coords, globs


def grammar(depth):
    for n in range(1, 4):
        for lines in product(LINES, repeat=n):
            yield lines
    for head in LINES[:2] if depth else LINES[:1]:
        for lines in product(LINES, repeat=3):
            yield (head,) + lines
    if depth:
        for lines in product(LINES, repeat=3):
            yield LINES[:1] + list(lines[:1]) + LINES[2:3] + list(lines[1:])


def job_grammar(item):
    d, part, depth = item
    d = scratch(d)
    fails, n = [], 0
    # the variables, so that a file of definitions which defines nothing of it gives nothing
    tables = [table(), table("T2", realm="land")]
    for i, lines in enumerate(grammar(depth)):
        if i % 8 != part:
            continue
        n += 1
        got = reading(lines)
        end = "\r\n" if i % 5 == 0 else "\n"
        text = end.join(lines) + (end if i % 3 else "")
        want = "refused" if got is None else model(got[0], got[1], got[2], tables, GA, ["hist"])
        bad = examine(d, text, want, tables, GA)
        if bad:
            fails.append(("definitions %r" % (list(lines),), bad))
    return n, fails


def scratch(d):
    d = os.path.join(d, "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cases(depth):
    """(label, kwargs of examine after the directory)"""
    def case(label, defs=DEFD, coords=COORDS, globs=(), tables=None, ga=GA, deftext=None, wanted=None, **kw):
        tables = [table()] if tables is None else tables
        text = deftext
        if text is None:
            text = "".join("# TABLE : %s\n%s" % (t, "".join("%s = %s\n" % x for x in d.items())) for t, d in defs.items())
            text += "".join("# Coords: %s\n%s" % (t, "".join("%s = %s\n" % x for x in d.items())) for t, d in coords.items())
        merged = {}
        for g in ga if isinstance(ga, list) else [ga]:
            if isinstance(g, str):
                g = dict((a, b or FILL) for a, b in (line.split("=", 1) for line in g.splitlines()))
            merged.update((k, "" if x is None else x) for k, x in g.items())
        want = model(defs, coords, dict(globs), tables, merged, kw.get("exps", ("hist",)), kw.get("out", "/out"), wanted)
        if "-to" in kw.get("argv", ()):
            want = dict((f.replace("_spec", "_" + v + "_spec"), dict([(v, s[v])] + [(x, s[x]) for x in s[v]["dimensions"]])) for f, s in want.items() for v in s if "file" in s[v])
        return label, text, want, tables, ga, kw

    # fields of a variable
    types = [Ellipsis, "", "None", None] + sorted(TYPES)
    dims = ["", "time", "x time", "x lev time", "basin time", "site", "lev"]
    for t, dd, f in product(types, dims, sorted(STAMPS) + ["fx", "odd"]):
        if depth or t in (Ellipsis, "real") or f in ("mon", "fx") and dd in ("x time", "", "lev"):
            yield case("type %r dimensions %r frequency %s" % (t, dd, f), tables=[table(freq=f, variables={"a": {"type": t, "dimensions": dd}, "b": {}})])
    for fmt, c, s, q in product(FORMATS, (None, "0", "5", 3), (None, "1", 1), (None, "", "17.5", "text")):
        ga = dict(GA, netcdf_type=fmt)
        ga.update((k, x) for k, x in (("compression", c), ("shuffle", s)) if x is not None)
        yield case("format %s compression %r shuffle %r requested %r" % (fmt, c, s, q), ga=ga, tables=[table(variables={"b": {"requested": Ellipsis if q is None else q}})])
    for fmt in ("NETCDF5", "", "netcdf4"):
        lab, text, want, tables, ga, kw = case("format %r" % fmt)
        yield lab, text, "refused", tables, dict(GA, netcdf_type=fmt), kw
    fields = OrderedDict([("cell_methods", "time: mean"), ("positive", "up"), ("valid_min", "-5.5"), ("ok_min_mean_abs", ""), ("standard_name", ""), ("flag_values", "0 1"), ("out_name", "")])
    for n in range(len(fields) + 1):
        for some in combinations(fields, n):
            yield case("fields %r" % (some,), tables=[table(variables={"a": dict((k, fields[k]) for k in some)})])

    # global attributes
    opts = OrderedDict([
        ("activity_id", [FILL, "ScenarioMIP"]), ("data_specs_version", [FILL, "1"]), ("experiment", [FILL, "historical run"]), ("experiment_id", ["hist"]), ("realm", [FILL, "land"]),
        ("frequency", [FILL, "x"]), ("creation_date", [FILL, "2020"]), ("external_variables", [FILL, "areacella"]), ("further_info_url", [FILL, "http://a"]), ("variant_label", [FILL, "r12i3p45f6"]),
        ("sub_experiment_id", [FILL, "none"]), ("grid", [FILL, "native"]), ("grids", ["atmos,land:T42;ocean: 1 deg"]), ("tracking_id", [FILL, "hdl:1"]), ("table_id", [FILL, "TT"]),
        ("mip_era", ["CMIP6"]), ("institution_id", ["NCAR"]), ("source_id", ["S1"]), ("grid_label", ["gn"]), ("title", [FILL, "", "a __FILL__ b"]), ("compression", ["4"]), ("branch_time_in_child", ["1.0D", FILL]),
        ("branch_time_in_parent", ["2.0D"]), ("parent_mip_era", [FILL, "CMIP6"]), ("parent_source_id", [""]), ("parent_time_units", [FILL]), ("number", [3, 2.5]),
        ("realization_index", ["7", 7]), ("initialization_index", ["8"]), ("physics_index", [9]), ("forcing_index", ["1"])])
    must = {"variable_id": FILL, "netcdf_type": "NETCDF4", "activity_id": FILL}
    both = [table(variables={"a": {"cell_measures": "area: areacella volume: volcello"}, "b": {}}), table("T2", "ocean seaIce", "day", experiment="H")]
    defs = {"T1": DEFD["T1"], "T2": {"b": "BB"}}
    rich = dict((k, o[0]) for k, o in opts.items())
    rich["variant_label"] = "r1i1p1f1"
    for k1, k2 in combinations(opts, 2):
        for a, b in product([None] + opts[k1], [None] + opts[k2]):
            for base in (must, rich) if depth or "further_info_url" in (k1, k2) or "variant_label" in (k1, k2) else (must,):
                ga = dict(base, **must)
                for k, x in ((k1, a), (k2, b)):
                    if x is not None:
                        ga[k] = x
                    elif k not in must:
                        ga.pop(k, None)
                yield case("attributes %s=%r %s=%r of %d" % (k1, a, k2, b, len(base)), ga=ga, tables=both, defs=defs)
    keys = ["mip_era", "institution_id", "source_id", "experiment_id", "sub_experiment_id", "variant_label", "realization_index", "physics_index"]
    for n in range(len(keys) + 1):
        for gone in combinations(keys, n):
            yield case("without %r" % (gone,), ga=dict((k, x) for k, x in dict(rich, **must).items() if k not in gone), tables=both, defs=defs)
    for n in range(len(MEASURES) + 1):
        for m in combinations(MEASURES, n):
            for given in (None, FILL, "areacello") if depth or n < 3 else (FILL,):
                ga = dict(GA)
                if given:
                    ga["external_variables"] = given
                yield case("measures %r external %r" % (m, given), ga=ga, tables=[table(variables={"a": {"cell_measures": " ".join("area: " + x for x in m)}, "b": {}})])
    for realm, g, r, given in product(("atmos", "land landIce", "ocean", "aerosol"), (None, "atmos:T42", "land, ocean:a b;atmos:", "landIce:c;aerosol,land:d"), (None, FILL, "land", "ocean atmos"), (None, FILL, "n")):
        ga = dict(GA)
        ga.update((k, x) for k, x in (("grids", g), ("realm", r), ("grid", given)) if x is not None)
        yield case("realm %r grids %r given %r grid %r" % (realm, g, r, given), ga=ga, tables=[table(realm=realm)], coords={})
    for r, i, p, f in product((1, 10), (1, 2), (1, 11), (3, 100)):
        yield case("label r%di%dp%df%d" % (r, i, p, f), ga=dict(GA, variant_label="r%di%dp%df%d" % (r, i, p, f), realization_index="99"))
    # several files of attributes, as JSON and as text
    pieces = [{"title": "t1", "mip_era": None}, {"title": None, "comment": "c"}, "title=t2\nsource=a=b\n", "mip_era=\nlicense=CC # 4"]
    for n in (1, 2, 3):
        for some in product(pieces[:3], repeat=n):
            yield case("attribute files %r" % (some,), ga=[dict(GA)] + list(some))
    text = "".join("%s=%s\n" % (k, "" if x == FILL else x) for k, x in GA.items())
    yield case("attributes as text", ga=[text])
    for some in product(pieces[:3], repeat=2):
        yield case("attributes as text and %r" % (some,), ga=[text] + list(some))

    # axes
    for req, typ, name in product((Ellipsis, "", "1 2 3", "5.", "a b", "fram, bering strait", "1., 2.5", "3,4.5", ["p", "q"], [1.5, 2.0], []), (Ellipsis, "double", "character", "integer"), ("z", "time", "time2", "lifetime")):
        ax = OrderedDict(AXES)
        ax[name] = dict((k, x) for k, x in (("requested", req), ("type", typ), ("units", "u"), ("bounds_values", ""), ("value", "3.")) if x is not Ellipsis)
        for co in ({}, {"atmos": {name: "zz(1)"}}, {"land": {name: "other"}}, {"atmos": {"x": "xx"}, "land": {name: "l"}}):
            yield case("axis %s requested %r type %r coords %r" % (name, req, typ, co), tables=[table(axes=ax, variables={"a": {"dimensions": "x " + name}, "b": {"dimensions": name}})], coords=co)
    for realm, mine, name in product(("ocean seaIce", "land landIce", "atmos atmosChem", "seaIce ocean"), (0, 1), ("x", "time")):
        word = realm.split()[mine]
        if sum(w in realm for w in (word, "aerosol")) == 1:
            yield case("realm %r axis %s of %s" % (realm, name, word), tables=[table(realm=realm)], coords={"aerosol": {"x": "no"}, word: {name: "xx"}})
    for dd, gen in product(("lev", "alev", "x alev time", "alevhalf alev"), ("alev alevhalf", "alevhalf alev olev")):
        yield case("generic levels %r dimensions %r" % (gen, dd), tables=[table(generic_levels=gen, variables={"a": {"dimensions": dd}})], coords={"atmos": {"alev": "(lev)"}})

    # several tables, experiments and requests
    tabs = [table("T1"), table("T2", "land", "day", {"a": {}, "c": {"dimensions": "lev time"}}), table("T3", "atmos", "fx", {"a": {"dimensions": "x"}, "d": {}}), table("T4", "ocean seaIce", "mon", {"c": {}, "d": {}}, activity_id="OMIP")]
    alldefs = {"T1": {"a": "A1", "b": ""}, "T2": {"a": "A2", "c": "C2"}, "T3": {"d": "D3", "a": "A3"}, "T4": {"c": "C4"}}
    names = [sorted(set(t["variable_entry"])) for t in tabs]
    for n in (1, 2, 3, 4):
        for some in combinations(range(4), n):
            for m in range(5):
                for known in combinations(sorted(alldefs), m):
                    defs = dict((k, alldefs[k]) for k in known)
                    yield case("tables %r definitions for %r" % (some, known), tables=[tabs[i] for i in some], defs=defs)
            for exps in (["hist"], ["hist", "ssp585"], ["a", "b", "c"], ["x-y_z"]):
                yield case("tables %r experiments %r" % (some, exps), tables=[tabs[i] for i in some], defs=alldefs, exps=exps)
                yield case("tables %r experiments %r one file each" % (some, exps), tables=[tabs[i] for i in some], defs=alldefs, exps=exps, argv=["-to", "1"])
            common = sorted(set.intersection(*[set(names[i]) for i in some]))
            for k in range(1, len(common) + 1):
                for wanted in combinations(common, k):
                    yield case("tables %r wanted %r" % (some, wanted), tables=[tabs[i] for i in some], defs=alldefs, wanted=wanted, argv=["-u", ",".join(wanted)])
                    yield case("tables %r wanted %r out" % (some, wanted), tables=[tabs[i] for i in some], defs=alldefs, wanted=wanted, argv=["-u", ",".join(reversed(wanted))], out="/some where/out")


def job_cases(item):
    d, part, depth = item
    d = scratch(d)
    fails, n, nt = [], 0, 0
    for i, (label, text, want, tables, ga, kw) in enumerate(cases(depth)):
        if i % 8 != part:
            continue
        n += 1
        nt += bool(want)
        bad = examine(d, text, want, tables, ga, **kw)
        if bad:
            fails.append((label, bad))
    return n, nt, fails


# -- the data request of CMIP6 --------------------------------------------------------------------------------------
def dreq():
    from dreqPy import dreq
    from mc import core
    global DQ, BY
    with e2e.quiet():
        DQ = dreq.loadDreq()
    coll = DQ.coll
    BY = {"items": {}, "vars": {}}
    for i in coll["requestItem"].items:
        BY["items"].setdefault(i.esid, []).append(i)
    for i in coll["requestVar"].items:
        BY["vars"].setdefault(i.vgid, []).append(i.vid)
    BY["link"] = dict((i.uid, i) for i in coll["requestLink"].items)
    for k in ("CMORvar", "var", "structure", "spatialShape", "temporalShape", "grids"):
        BY[k] = dict((i.uid, i) for i in coll[k].items)
    BY["exp"] = dict((i.label, i) for i in coll["experiment"].items)
    BY["axis"] = {}
    for i in coll["grids"].items:
        BY["axis"].setdefault(i.label, i)
    BY["name"] = dict((v.label + ":" + v.mipTable, v) for v in coll["CMORvar"].items)


def text(item, name):
    x = getattr(item, name, "")
    return x if isinstance(x, str) else ""


def requested(exp, mips=None):
    """CMOR variables requested of an experiment, by way of itself, its group or its activity"""
    e = BY["exp"].get(exp, BY["exp"]["historical"])
    out = {}
    for ref in (e.uid, e.egid, e.mip):
        for i in BY["items"].get(ref, ()):
            if mips is None or i.mip in mips:
                for vid in BY["vars"].get(BY["link"][i.rlid].refid, ()):
                    v = BY["CMORvar"].get(vid)
                    if v is not None:
                        out[vid] = v
    return e, out


def dimensions(v):
    s = BY["structure"][v.stid]
    out = [x for x in text(BY["spatialShape"][s.spid], "dimensions").split("|") if x]
    out += [BY["grids"][x].label for x in s.dids] if isinstance(getattr(s, "dids", None), tuple) else []
    out += [x for x in text(BY["temporalShape"][s.tmid], "dimensions").split("|") if x]
    return out[::-1]


def examine_request(got, exp, variables, activity):
    """variables: {uid: CMORvar} requested and in the tables wanted; everything has the definition D_<label>_<table>"""
    want = {}
    for v in variables.values():
        f = "%s_%s_%s_%s_spec.json" % (exp, activity, v.mipTable, v.modeling_realm.replace(" ", "_"))
        want.setdefault(f, {}).setdefault(BY["var"][v.vid].label, []).append(v)
    if set(got) != set(want):
        return "files %r besides, %r missing" % (sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5])
    for f in want:
        names = set(k for k, s in got[f].items() if "file" in s)
        if names != set(want[f]):
            return "%s: variables %r besides, %r missing" % (f, sorted(names - set(want[f]))[:5], sorted(set(want[f]) - names)[:5])
        axes, may = set(), set()
        for name, vs in want[f].items():
            bads = [bad_variable(got[f], got[f][name], name, v) for v in vs]
            # several variables of one table under one name: any of them
            if all(bads):
                return "%s %s: %s" % (f, name, bads[0])
            axes |= set(got[f][name]["dimensions"])
            may |= set(x for v in vs for x in dimensions(v))
        if not axes <= set(got[f]) - names <= axes | may:
            return "%s: axes %r besides, %r missing" % (f, sorted(set(got[f]) - names - axes), sorted(axes - set(got[f])))
        for a in axes:
            bad = bad_axis(got[f][a], a)
            if bad:
                return "%s axis %s: %s" % (f, a, bad)
    return None


def bad_variable(spec, s, name, v):
    d = "D_%s_%s" % (v.label, v.mipTable)
    structure = BY["structure"][v.stid]
    units = text(BY["var"][v.vid], "units")
    want = {"mipTable": v.mipTable, "frequency": v.frequency, "realm": v.modeling_realm, "variable_id": name, "standard_name": text(BY["var"][v.vid], "sn"), "cell_methods": text(structure, "cell_methods"),
            "cell_measures": text(structure, "cell_measures"), "positive": text(v, "positive"), "long_name": text(v, "title"), "description": text(v, "description"), "comment": d, "missing_value": 1e20}
    if units:
        want["units"] = units
    if s["definition"] != d:
        return "definition %r" % s["definition"]
    if s["dimensions"] != dimensions(v):
        return "dimensions %r instead of %r" % (s["dimensions"], dimensions(v))
    if s["datatype"] != TYPES[v.type]:
        return "type %r" % s["datatype"]
    for k, x in want.items():
        if s["attributes"].get(k, "") != x:
            return "%s %r instead of %r" % (k, s["attributes"].get(k), x)
    fa = s["file"]["attributes"]
    if (fa["variable_id"], fa["table_id"], fa["frequency"], fa["realm"]) != (name, v.mipTable, v.frequency, v.modeling_realm):
        return "file attributes %r" % fa
    ext = set(m for m in MEASURES if m in want["cell_measures"])
    if set(fa.get("external_variables", "").split()) != ext:
        return "external variables %r" % fa.get("external_variables")
    base = os.path.basename(s["file"]["filename"])
    if not base.startswith("%s_%s_S1_" % (name, v.mipTable)) or not base.endswith("_r1i2p3f4_gn%s.nc" % stamp(v.frequency)):
        return "file name %r" % base
    return None


def bad_axis(s, name):
    a = BY["axis"][name]
    want = dict((k, text(a, o)) for k, o in (("axis", "axis"), ("positive", "positive"), ("value", "value"), ("title", "title"), ("direction", "direction")))
    if text(a, "standardName"):
        want["standard_name"] = text(a, "standardName")
    want["units"] = "days since 0001-01-01 00:00:00" if "time" in name else text(a, "units") or "1"
    for k in ("valid_min", "valid_max"):
        x = getattr(a, k, None)
        want[k] = x if isinstance(x, (int, float)) else ""
    for k, x in want.items():
        if s["attributes"].get(k, "") != x:
            return "%s %r instead of %r" % (k, s["attributes"].get(k), x)
    if name != "landUse" and s["datatype"] != TYPES[a.type]:
        return "type %r" % s["datatype"]
    req = text(a, "requested").replace(",", " ").split()
    try:
        req = [float(x) for x in req]
    except ValueError:
        pass
    if s.get("definition", []) != req:
        return "definition %r instead of %r" % (s.get("definition"), req)
    return None


def requests(depth):
    """(experiment, activities, tables, variables) asked for"""
    names = sorted(BY["exp"])
    for e in names:
        yield e, None, None, None
    yield "nothing-registered", None, None, None
    for e in ("historical", "piControl", "abrupt-4xCO2", "land-hist", "omip1", "amip", "ssp585") + (tuple(names[::5]) if depth else ()):
        _, all_ = requested(e)
        for t in sorted(set(v.mipTable for v in all_.values())):
            yield e, None, [t], None
        mips = sorted(set(i.mip for r in (BY["exp"][e].uid, BY["exp"][e].egid, BY["exp"][e].mip) for i in BY["items"].get(r, ())))
        for m in mips:
            yield e, [m], None, None
        yield e, mips[:2], ["Amon", "day"], None
        yield e, None, ["Amon", "Omon", "Lmon"], None
    for vs in (["tas:Amon"], ["tas:day", "tas:Amon", "tos:Omon"], ["ch4Clim:Amon"], ["ta27:E1hr", "nothing:Amon", "areacella:fx"], ["jpdftaureliqmodis:E3hrPt", "siline:SImon", "sitimefrac:SImon"]):
        for e in ("historical", "abrupt-4xCO2"):
            yield e, None, None, vs
            yield e, None, ["Amon", "E3hrPt"], vs


def job_request(item):
    d, exp, mips, tables, names = item
    d = scratch(d)
    deftext = "".join("# TABLE: %s\n%s" % (t, "".join("%s = D_%s_%s\n" % (v.label, v.label, t) for v in vs)) for t, vs in BY["tables"].items())
    e, vs = requested(exp, mips)
    if names:
        vs = dict((BY["name"][x].uid, BY["name"][x]) for x in names if x in BY["name"])
    vs = dict((k, v) for k, v in vs.items() if tables is None or v.mipTable in tables)
    argv = ["-tt", "xml"]
    argv += ["-m", ",".join(mips)] if mips else []
    argv += ["-t", ",".join(tables)] if tables else []
    argv += ["-u", ",".join(names)] if names else []
    got = run(d, deftext, None, dict(GA, realm=FILL, frequency=FILL, external_variables=FILL), argv, exps=[exp])
    if isinstance(got, str):
        return len(vs), got
    return len(vs), examine_request(got, exp, vs, e.mip)


# -- to the end -----------------------------------------------------------------------------------------------------
def convert(d, fmt, typ, dims, freq):
    """specification made by iconform, run by the data flow"""
    import numpy
    infile = os.path.join(d, "in.nc")
    vals = {"x": numpy.array([10., 20., 30.]), "time": numpy.arange(4.) * 30 + 15, "lev": numpy.array([500., 850.])}
    src = numpy.arange(24.).reshape(4, 2, 3)
    e2e.write_file(infile, OrderedDict([
        ("xx", e2e.Var(["x"], vals["x"], {"units": "degrees_east"})), ("tt", e2e.Var(["t"], vals["time"], {"units": "days since 0001-01-01 00:00:00", "calendar": "noleap"})),
        ("ll", e2e.Var(["l"], vals["lev"], {"units": "Pa"})), ("A", e2e.Var(["t", "l", "x"], src, {"units": "K"}, {"integer": "i4", "short": "i2"}.get(typ, "f8")))]), {"x": 3, "t": 4, "l": 2}, unlimited=("t",))
    index = ",".join([":"] + [":" if k in dims.split() else "1" for k in ("lev", "x")])
    ax = {"x": AXES["x"], "time": {"axis": "T", "units": "days since ?", "type": "double", "calendar": "noleap"}, "lev": {"units": "Pa", "type": "double"}}
    defs = "# TABLE : T1\na = A[%s]\n# Coords: atmos\nx=xx\ntime=tt\nlev=ll\n" % index
    ga = dict(GA, netcdf_type=fmt, compression="4", shuffle="1", title="some title")
    out = os.path.join(d, "out")
    shutil.rmtree(out, ignore_errors=True)
    got = run(d, defs, [table(freq=freq, axes=ax, variables={"a": {"dimensions": dims, "type": typ}})], ga, out=out)
    if isinstance(got, str):
        return got
    (spec,) = got.values()
    with open(os.path.join(d, "spec", sorted(got)[0])) as f:
        spec = json.load(f, object_pairs_hook=OrderedDict)
    try:
        e2e.run([infile], spec)
    except Exception as err:
        return "the specification is refused: %r" % err
    found = [os.path.join(r, f) for r, _, fs in os.walk(out) for f in fs]
    if len(found) != 1:
        return "files %r" % found
    span = {"mon": "_000101-000104", "day": "_00010116-00010416", "fx": "", "yr": "_0001-0001"}[freq]
    path = os.path.join(out, "CMIP6/CMIP/NCAR/S1/hist/r1i2p3f4/T1/a/gn")
    if os.path.dirname(os.path.dirname(found[0])) != path or os.path.basename(found[0]) != "a_T1_S1_hist_r1i2p3f4_gn%s.nc" % span:
        return "file %r" % found[0]
    nc = e2e.read_file(found[0])
    if nc["format"] != fmt or nc["attrs"].get("title") != "some title" or nc["attrs"].get("variable_id") != "a" or nc["attrs"].get("variant_label") != "r1i2p3f4":
        return "format %s, attributes %r" % (nc["format"], nc["attrs"])
    a = nc["vars"]["a"]
    want = src[tuple(slice(None) if i == ":" else 1 for i in index.split(","))]
    order = [k for k in ("time", "lev", "x") if k in dims.split()]
    turned = dims.split()[::-1]
    want = numpy.transpose(want, [order.index(k) for k in turned])
    if a["dims"] != tuple(turned) or a["dtype"][1:] != {"real": "f4", "double": "f8", "integer": "i4", "short": "i2"}[typ] or not numpy.array_equal(a["raw"], want):
        return "variable %r" % a
    if fmt.startswith("NETCDF4") and (a["complevel"] != 4 or not a["zlib"]):
        return "compression %r" % a["complevel"]
    if (a["attrs"]["units"], a["attrs"]["long_name"], a["attrs"]["comment"], a["attrs"]["mipTable"]) != ("K", "the a", "A[%s]" % index, "T1"):
        return "attributes %r" % a["attrs"]
    for k in turned:
        if not numpy.array_equal(nc["vars"][k]["raw"], vals[k]):
            return "%s is %r" % (k, nc["vars"][k]["raw"])
    return None


def job_convert(item):
    d = scratch(item[0])
    return convert(d, *item[1:])


def explore(chk):
    d = chk.scratch()
    for job, name in ((job_grammar, "definition files"), (job_cases, "tables and attributes")):
        for st, res in par.pmap(job, [(d, p, chk.thorough) for p in range(8)]):
            if st == "err":
                chk.fail("crash " + name, res, {})
                continue
            n, nt, fails = res if len(res) == 3 else (res[0], res[0], res[1])
            chk.bulk(n, nt)
            chk.count(name, n)
            for k, w in fails[:30]:
                chk.fail(k, w, {"case": k})
    # the data request
    dreq()
    BY["tables"] = {}
    for v in DQ.coll["CMORvar"].items:
        BY["tables"].setdefault(v.mipTable, []).append(v)
    asked = list(requests(chk.thorough))
    for item, (st, res) in zip(asked, par.pmap(job_request, [(d,) + a for a in asked])):
        key = "data request %r" % (item,)
        n, bad = (0, res) if st == "err" else res
        chk.ran(key, n, bool(n))
        chk.count("variables of the data request", n)
        if bad:
            chk.fail(key, bad, {"request": item})
    # to the end
    items = [(d, fmt, typ, dims, freq) for fmt, typ, dims, freq in product(FORMATS, ("real", "double", "integer", "short"), ("x time", "x lev time", "time", "time x", "lev x time"), ("mon", "day", "fx", "yr"))
             # (in netCDF-3 files only the first dimension can be unlimited)
             if (chk.thorough or fmt == "NETCDF4" or typ == "real") and not (fmt.startswith("NETCDF3") and dims == "time x")]
    for item, (st, res) in zip(items, par.pmap(job_convert, items)):
        key = "conversion %r" % (item[1:],)
        chk.ran(key, res)
        if res:
            chk.fail(key, res, {"case": key})
