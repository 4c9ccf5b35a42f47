"""C29: the dependency report names exactly the input variables a definition refers to."""
import contextlib
import io
import json
import os
import re
from collections import OrderedDict
from itertools import permutations, product

from mc import e2e, par

PID = "C29"
LEVEL = "exploration"
RULE = ("all definitions up to depth 2 over variables (also subscripted, also sharing prefixes), numbers, texts, operators, functions and keyword arguments x "
        "specification files and definition files (comments, blank lines, headings, line ends, spacing) x sets of definitions (also invalid, empty, data, named like inputs, "
        "without variables) x requests for all, one, several, undefined variables x frequency and realm attributes; printed report compared with "
        "the variables put into the definition; for depth 1, each reported variable is shown to be required by the data flow; non-trivial = a variable occurs")

LEAVES = [("a", {"a"}), ("ab", {"ab"}), ("b_1[0]", {"b_1"}), ("a[0,:]", {"a"}), ("C[-1:2]", {"C"}), ("3.5", set())]


def compounds(subs):
    """(text, variables) built from a list of (text, variables)"""
    for (t, v), (u, w) in product(subs, repeat=2):
        for op in ("+", "-", "*", "/", "**"):
            yield "(%s)%s(%s)" % (t, op, u), v | w
        yield "mean(%s, 'a') - %s" % (t, u), v | w
        yield "f(%s, k=%s)" % (t, u), v | w
        yield "f(x=%s,y=%s)" % (t, u), v | w
        yield "f(g(%s),'ab', %s)" % (t, u), v | w
        yield "%s == %s" % (t, u), v | w
        yield "%s < %s" % (t, u), v | w
    for t, v in subs:
        yield "-(%s)" % t, v
        yield "f(%s)" % t, v
        yield "chunits(%s, units='b_1')" % t, v


BAD = ["a +", "f(a", "a b", "(a", "", "[a]"]


def report(argv):
    from pyconform.cli import vardeps
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        vardeps.main(argv)
    return buf.getvalue()


def read(text):
    """{variable: set or 'No' or 'Not'}, total, complaints"""
    deps, total, where, complaints = OrderedDict(), None, None, 0
    for line in text.splitlines():
        s = line.strip()
        if s.startswith("Output Variable Dep"):
            where = "deps"
        elif s.startswith("Complete Spec"):
            where, total = "total", set()
        elif where == "total":
            total |= set(s.split())
        elif where == "deps" and s:
            name, rest = s.split(":", 1) if "]:" not in s else s.split("]:", 1)
            name = name.split(" [")[0]
            rest = rest.strip()
            deps[name] = "No" if rest.startswith("No dep") else "Not" if rest.startswith("Not def") else set(rest.split())
        elif s:
            complaints += 1
    return deps, total, complaints


def judge(key, text, defs, asked, fails):
    """defs: name -> variable set, or None (not a valid definition); asked: names"""
    deps, total, _ = read(text)
    if set(deps) != set(asked):
        fails.append((key, "reports on %r instead of %r" % (sorted(deps), sorted(asked))))
        return
    want_total = set()
    for n in asked:
        if n not in defs:
            want = "Not"
        elif not defs[n]:
            want = "No"
        else:
            want = defs[n]
            want_total |= want
        if deps[n] != want and not (want == "No" and deps[n] == set()):
            fails.append((key, "%s: %r instead of %r" % (n, deps[n], want)))
    if total != want_total:
        fails.append((key, "needs %r instead of %r" % (total, want_total)))


def job(item):
    d, batch, as_text = item
    path = os.path.join(d, "d%d" % os.getpid())
    fails, n, nt = [], 0, 0
    names = ["V%03d" % i for i in range(len(batch))]
    defs = OrderedDict((nme, v) for nme, (t, v) in zip(names, batch))
    if as_text:
        with open(path, "w") as f:
            for nme, (t, v) in zip(names, batch):
                f.write("%s = %s\n" % (nme, t))
        argv = ["-d", "-n", path]
    else:
        with open(path, "w") as f:
            json.dump(OrderedDict((nme, {"definition": t, "attributes": {"units": "1"}}) for nme, (t, v) in zip(names, batch)), f)
        argv = ["-n", path]
    n += len(batch)
    nt += sum(bool(v) for v in defs.values())
    try:
        text = report(argv)
    except Exception as err:
        fails.append(("%s" % [t for t, _ in batch][:3], "failed: %r" % err))
        return n, nt, fails
    out = []
    judge("text file" if as_text else "specification", text, defs, list(defs), out)
    for k, w in out:
        nme = w.split(":")[0]
        fails.append(("%s: %s" % (k, dict(zip(names, [t for t, _ in batch])).get(nme, "total")), w))
    return n, nt, fails


def layouts(chk, d):
    """ways of writing a definitions file; sets of definitions and requests"""
    path = os.path.join(d, "defs")
    base = [("P", "a + b", {"a", "b"}), ("Q", "f(c, k=d)", {"c", "d"}), ("R", "2.5", set()), ("S", "a +", None), ("T", "b*e[0]", {"b", "e"})]
    forms = ["{n}={t}\n", "{n} = {t}\n", "  {n}  =  {t}  \n", "{n} = {t} # comment\n", "{n} = {t}\r\n", "# head\n\n{n} = {t}\n# {n} = zz\n", "{n} = {t} # x = y\n"]
    for form in forms:
        for k in range(1, 6):
            for sel in permutations(base, k) if k < 3 else [base[:k], base[::-1][:k]]:
                with open(path, "w", newline="") as f:
                    for n, t, _ in sel:
                        f.write(form.format(n=n, t=t))
                defs = {n: v for n, _, v in sel}
                for asked in [[], [sel[0][0]], ["nobody"], ["nobody", sel[-1][0]], [s[0] for s in sel][::-1]]:
                    key = "definitions %r of %s asked %s" % (form, "".join(defs), asked)
                    fails = []
                    try:
                        judge(key, report(["-d", "-n", path] + asked), defs, asked or list(defs), fails)
                    except Exception as err:
                        fails.append((key, "failed: %r" % err))
                    chk.ran(key, len(fails))
                    for a, b in fails:
                        chk.fail(a, b, {"case": a})
    # output variables named like inputs, of themselves or of others; lines that are no definitions
    alike = [("a", "a + b", {"a", "b"}), ("b", "2*a", {"a"}), ("c", "f(d, k=c)", {"c", "d"}), ("ab", "ab", {"ab"}), ("d", "1", set())]
    lines = ["", "# remark\n", "Heading\n", "  Heading # remark\n", "#\n", "\n", " # Heading\n"]
    for k in (1, 2, 3):
        for sel in permutations(alike, k):
            defs = {n: v for n, _, v in sel}
            for between in product(lines, repeat=2) if k < 3 else [("", "")]:
                for as_text in (True, False):
                    if not as_text and between != ("", ""):
                        continue
                    with open(path, "w") as f:
                        if as_text:
                            f.write(between[0] + between[1].join("%s = %s\n" % (n, t) for n, t, _ in sel) + between[1] + between[0])
                        else:
                            json.dump(OrderedDict((n, {"definition": t}) for n, t, _ in sel), f)
                    headings = sum("Heading" in x.split("#")[0] for x in [between[0]] * 2 + [between[1]] * k)
                    for asked in [[], [sel[0][0]], [sel[-1][0], "x"]]:
                        key = "%s of %s, lines %r, asked %s" % ("definitions" if as_text else "specification", "".join(defs), between, asked)
                        fails = []
                        try:
                            text = report((["-d"] if as_text else []) + ["-n", path] + asked)
                            judge(key, text, defs, asked or list(defs), fails)
                            if text.count("Could not parse") != headings:
                                fails.append((key, "%d complaints instead of %d" % (text.count("Could not parse"), headings)))
                        except Exception as err:
                            fails.append((key, "failed: %r" % err))
                        chk.ran(key, len(fails))
                        for x, y in fails:
                            chk.fail(x, y, {"case": x})
    extras = [{}, {"frequency": "mon"}, {"frequency": "mon", "realm": "atmos"}, {"realm": "ocean"}, {"units": "m: s"}]
    for k in range(1, 6):
        for sel in permutations(base + [("N", None, "absent"), ("D", [1., 2.], "absent"), ("E", "", None)], min(k, 2)) if k < 3 else [base[:k]]:
            for ex in extras:
                ds = OrderedDict()
                for n, t, _ in sel:
                    ds[n] = {"attributes": ex}
                    if t is not None:
                        ds[n]["definition"] = t
                    if ex == {"units": "m: s"}:
                        del ds[n]["attributes"]
                with open(path, "w") as f:
                    json.dump(ds, f)
                defs = {n: v for n, _, v in sel if v != "absent"}
                for asked in [[], [sel[0][0]], ["nobody", sel[-1][0]]]:
                    key = "specification of %s attributes %s asked %s" % ("".join(ds), ex, asked)
                    fails = []
                    try:
                        judge(key, report(["-n", path] + asked), defs, asked or list(defs), fails)
                    except Exception as err:
                        fails.append((key, "failed: %r" % err))
                    chk.ran(key, len(fails))
                    for a, b in fails:
                        chk.fail(a, b, {"case": a})
    try:
        report(["-n", os.path.join(d, "nofile")])
        chk.fail("no file", "accepted", {})
    except (OSError, SystemExit):
        chk.ran("no file", "refused")


def needed(chk, d):
    """each reported variable is required by the data flow, and nothing else is"""
    from mc.e2e import Var
    path, inp, out = os.path.join(d, "n.json"), os.path.join(d, "n.nc"), os.path.join(d, "o.nc")
    names = ["a", "b", "c", "ab"]
    for text in ["a + b", "mean(a,'y') - b*0", "limit(data=c, above=4)", "a - (b + c)", "-(ab)", "chunits(a*1, units='1')", "b[0:3]", "max(a, 'ab')", "ab/a", "rmunits(c)"]:
        spec = OrderedDict(V=e2e.outvar(["x"], text, attrs={"units": "1"}, filename=out))
        with open(path, "w") as f:
            json.dump(spec, f)
        deps = read(report(["-n", path]))[0]["V"]
        for miss in [None] + names:
            e2e.write_file(inp, {n: Var(("x",), [1., 2., 3.], {"units": "1"}) for n in names if n != miss}, {"x": 3})
            e2e.run([inp], spec)
            written = os.path.exists(out)
            if written:
                os.unlink(out)
            chk.ran(("needed", text, miss), written)
            if written != (miss not in deps):
                chk.fail("%s without %s" % (text, miss), "the file is %swritten, reported are %s" % ("" if written else "not ", sorted(deps)), {})


def explore(chk):
    d = chk.scratch()
    one = LEAVES + list(compounds(LEAVES))
    simple = LEAVES[:4] + [("ab*a", {"a", "ab"}), ("f(a,k=C)", {"a", "C"}), ("f('ab')", set()), ("-b_1[0]", {"b_1"}), ("f()", set()), ("x1**2", {"x1"})]
    two = list(compounds(simple if not chk.thorough else one))
    every = one + two
    items = [(d, every[i:i + 100], as_text) for as_text in (False, True) for i in range(0, len(every), 100)]
    for item, (st, res) in zip(items, par.pmap(job, items)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1][:3])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1][:2]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    layouts(chk, d)
    needed(chk, d)
