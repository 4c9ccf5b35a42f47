"""C05: the command line does what its options say, on every rank, and always ends."""
import json
import os
import pickle
import shutil
import sys
import warnings
from collections import OrderedDict
from itertools import product

from mc import e2e, par

PID = "C05"
LEVEL = "exploration"
RULE = ("every combination of chunk, deflate, debug, error, module, no-history, serial options and input-file arguments "
        "(several, globs, nothing matching, none) from small menus on 1, 2 and 3 simulated ranks of the real command "
        "(those with modules or error mode also as separate processes); "
        "outputs compared with the reference values and the options' documented effect; non-trivial = an option is given")
ASSUMPTIONS = ["ranks are simulated as in C04; runs in which one rank fails leave the others to the MPI launcher and are explored on one rank only",
               "user modules and error mode on several ranks are explored with each rank in a process of its own, one after the other, "
               "given the messages of the manager"]

SZ = {"x": 4, "y": 3}
V = [[1., 2, 3], [4, 5, 6], [7, 8, 90], [10, 11, 12]]

MODULE = '''
from pyconform.functions import Function
class Twice{n}(Function):
    key = "twice{n}"
    def __init__(self, data):
        super(Twice{n}, self).__init__(data)
    def __getitem__(self, index):
        return self.arguments[0][index] * 2
'''


def prepare(work):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "in"))
    vs = {"v": e2e.Var(("x", "y"), V, {"units": "m"}), "x": e2e.Var(("x",), [1., 2, 3, 4], {"units": "1"})}
    e2e.write_file(os.path.join(work, "in", "a1.nc"), vs, SZ)
    e2e.write_file(os.path.join(work, "in", "a2.nc"), {"w": e2e.Var(("y",), [1., 2, 3], {"units": "1"})}, SZ)
    for n in (1, 2):
        # with the name of a module of Python, both the same
        os.makedirs(os.path.join(work, "m%d" % n))
        with open(os.path.join(work, "m%d" % n, "json.py"), "w") as f:
            f.write(MODULE.format(n=n))


def spec(work, kind):
    o = lambda n: os.path.join(work, "out", n)
    ds = OrderedDict()
    ds["X"] = e2e.outvar(["X"], "x", attrs={"units": "1"})
    ds["y"] = e2e.outvar(["Y"], "w", attrs={"units": "1"})
    f = {"plain": "v*w", "module1": "twice1(v*w)", "module12": "twice2(twice1(v*w))", "limits": "v*w", "limitsq": "v*w", "sum": "v*w"}[kind]
    at = {"units": "m"}
    if kind == "limits":
        at["valid_max"] = 100.0
    ds["p"] = e2e.outvar(["X", "Y"], f, attrs=at, filename=o("p.nc"), deflate=3)
    ds["q"] = e2e.outvar(["Y"], "sum(v,'x')" if kind == "sum" else "w*2", attrs=dict({"units": "m" if kind == "sum" else "1"}, **({"valid_max": 5.0} if kind == "limitsq" else {})), filename=o("q.nc"), deflate=0, metavars=["X"] if kind != "sum" else [])
    if kind == "plain":
        ds["r"] = e2e.outvar(["X"], "x", filename=o("r.nc"))
    return ds


def reference(kind):
    """{file: {variable: nested list (None = missing)}}"""
    p = [[a * b for a, b in zip(row, (1, 2, 3))] for row in V]
    k = {"module1": 2, "module12": 4}.get(kind, 1)
    p = [[a * k for a in row] for row in p]
    if kind == "limits":
        p = [[None if a > 100 else a for a in row] for row in p]
    q = [sum(r[i] for r in V) for i in range(3)] if kind == "sum" else [2., 4, 6]
    if kind == "limitsq":
        q[2] = None
    X, y = [1., 2, 3, 4], [1., 2, 3]
    ref = {"p.nc": {"p": p, "X": X, "y": y}, "q.nc": {"q": q, "y": y}}
    if kind != "sum":
        ref["q.nc"]["X"] = X
    if kind == "plain":
        ref["r.nc"] = {"r": X, "X": X}
    return ref


def cases(thorough):
    out = []
    for kind, chunks, deflate, debug, error, mods, nohist, infiles in product(
            ("plain", "module1", "module12", "limits", "limitsq", "sum"),
            ((), (("X", 1),), (("Y", 2),), (("X", 3), ("Y", 1))),
            (None, 0, 1, 9), (False, True), (False, True), ((), (1,), (1, 2), (2, 1)), (False, True),
            ("both", "glob", "nothing", "none")):
        if kind == "module1" and mods not in ((), (1,)):
            continue
        if kind == "module12" and mods not in ((1,), (1, 2), (2, 1)):
            continue
        if kind in ("limits", "limitsq", "sum", "plain") and mods not in ((), (1, 2)):
            continue
        if kind == "plain" and mods and (deflate, debug, error) != (None, False, False):
            continue
        dev = (len(chunks) > 0) + (deflate is not None) + debug + error + (kind == "plain" and len(mods) > 0) + nohist + (infiles != "both")
        if not thorough and dev > (2 if kind in ("plain", "sum") else 1):
            continue
        if thorough and dev > 3:
            continue
        out.append(dict(kind=kind, chunks=chunks, deflate=deflate, debug=debug, error=error, mods=mods, nohist=nohist, infiles=infiles))
    # requests for chunks that are not possible, in any place among possible ones
    for bad in (("Q", 1), ("X", 0), ("Y", -1)):
        for good in ((), (("X", 1),), (("X", 2), ("Y", 1)), (("Y", 3),)):
            if bad[0] in dict(good):
                continue
            for i in range(len(good) + 1):
                for debug in (False, True):
                    out.append(dict(kind="plain", chunks=good[:i] + (bad,) + good[i:], deflate=None, debug=debug, error=False, mods=(), nohist=False, infiles="both"))
    return out


def expectation(c):
    if c["infiles"] in ("nothing", "none"):
        return "validated"
    need = {"module1": {1}, "module12": {1, 2}}.get(c["kind"], set())
    if not need <= set(c["mods"]):
        return "fails"
    if any(n not in "XY" or s < 1 for n, s in c["chunks"]):
        return "fails"
    if c["kind"] == "sum" and any(n == "X" for n, _ in c["chunks"]) and not c["debug"]:
        return "fails"
    if c["kind"] in ("limits", "limitsq") and c["error"]:
        return "fails"
    return "written"


def argv(c, work):
    a = ["-f", os.path.join(work, "spec.json")]
    for n, s in c["chunks"]:
        a += ["-c", "%s,%d" % (n, s)]
    if c["deflate"] is not None:
        a += ["-d", str(c["deflate"])]
    a += ["--debug"] * c["debug"] + ["-e"] * c["error"] + ["-n"] * c["nohist"]
    for m in c["mods"]:
        a += ["-m", os.path.join(work, "m%d" % m, "json.py")]
    i = os.path.join(work, "in")
    a += {"both": [i + "/a1.nc", i + "/a2.nc"], "glob": [i + "/a?.nc"], "nothing": [i + "/zz*.nc"], "none": []}[c["infiles"]]
    return a


def tree(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def drive(c, work, ranks, serial):
    """run the command on simulated ranks (in this process); returns list of problems"""
    import asaptools.simplecomm as sc
    from mc.sched import Comm, Sched

    sched, board, seen = Sched(ranks, {}), {}, []

    real = sc.create_comm

    def create_comm(serial=False):
        seen.append(bool(serial))
        return real(serial=True) if serial else Comm(sched, board, sched.me(), ranks)
    sc.create_comm = create_comm
    from pyconform.cli import xconform

    if hasattr(xconform, "create_comm"):
        xconform.create_comm = create_comm
    args = argv(c, work) + (["-s"] if serial else [])
    before = dict(sys.modules)
    with e2e.quiet():
        warnings.simplefilter("ignore")
        dead = sched.run(lambda r: xconform.main(args))
    probs = []
    if dead:
        probs.append("ranks %s never end" % dead)
    if any(sys.modules.get(n) is not m for n, m in before.items()):
        probs.append("modules were replaced: %s" % sorted(n for n, m in before.items() if sys.modules.get(n) is not m))
    if any(s != serial for s in seen):
        probs.append("the serial option was not honoured")
    failed = [r for r in range(ranks) if sched.result[r][0] == "error"]
    return probs + judge(c, work, [repr(sched.result[r][1]) if r in failed else None for r in range(ranks)])


def judge(c, work, errors, solo=False):
    """problems of the outcome; errors: what each rank failed with or None"""
    probs = []
    want = expectation(c)
    failed = [r for r in range(len(errors)) if errors[r] is not None]
    out = os.path.join(work, "out")
    got = tree(out) if os.path.exists(out) else []
    final = [f for f in got if not f.endswith(".tmp.nc")]
    if want == "fails":
        if len(failed) != (1 if solo else len(errors)):
            probs.append("succeeds although it must fail" if not failed else "ranks %s fail" % failed)
        if ("q.nc" if c["kind"] == "limitsq" else "p.nc") in final:
            probs.append("an output that must not be produced was written")
        return probs
    if failed:
        return probs + ["rank %d fails: %s" % (r, errors[r]) for r in failed[:1]]
    if want == "validated":
        return probs + (["files were written without any input: %s" % got] if got else [])
    ref = reference(c["kind"])
    if sorted(got) != sorted(ref):
        return probs + ["outputs %s instead of %s" % (got, sorted(ref))]
    for f in ref:
        rec = e2e.read_file(os.path.join(out, f))
        if set(rec["vars"]) != set(ref[f]):
            probs.append("%s holds %s instead of %s" % (f, sorted(rec["vars"]), sorted(ref[f])))
            continue
        level = c["deflate"] if c["deflate"] is not None else {"p.nc": 3, "q.nc": 0}.get(f, 2)
        for v, vals in ref[f].items():
            x = rec["vars"][v]
            if x["values"].tolist() != vals:
                probs.append("%s in %s is %s instead of %s" % (v, f, x["values"].tolist(), vals))
            if x["zlib"] != (level > 0) or (level > 0 and x["complevel"] != level):
                probs.append("%s in %s is compressed at level %s instead of %d" % (v, f, x["zlib"] and x["complevel"], level))
            if ("history" in x["attrs"]) == c["nohist"]:
                probs.append("history attribute %s with%s the no-history option" % ("missing" if not c["nohist"] else "written", "" if c["nohist"] else "out"))
    return probs


class Solo(object):
    """one rank by itself: what the manager sends is kept in a file for the others"""

    def __init__(self, rank, size, path):
        self._r, self._n, self._path, self._calls = rank, size, path, 0

    def get_size(self):
        return self._n

    def get_rank(self):
        return self._r

    def is_manager(self):
        return self._r == 0

    def sync(self):
        pass

    def partition(self, data=None, func=None, involved=False, tag=0):
        self._calls += 1
        p = "%s.%d" % (self._path, self._calls)
        op = func if func else lambda *x: x[0][x[1]::x[2]]
        first = 0 if involved else 1
        if self._r == 0:
            with open(p, "wb") as f:
                pickle.dump([None if r < first else pickle.dumps(op(data, r - first, self._n - first)) for r in range(self._n)], f)
            return op(data, 0, self._n - first) if involved else None
        with open(p, "rb") as f:
            return pickle.loads(pickle.load(f)[self._r])


def solo(item):
    base, c, ranks = item
    work = os.path.join(base, "w%d" % os.getpid())
    prepare(work)
    with open(os.path.join(work, "spec.json"), "w") as f:
        json.dump(spec(work, c["kind"]), f)
    errors = []
    for rank in range(ranks):
        def act():
            import asaptools.simplecomm as sc

            class SoloComm(Solo, sc.SimpleComm):
                pass
            make = lambda serial=False: SoloComm(rank, ranks, os.path.join(work, "message"))
            sc.create_comm = make
            from pyconform.cli import xconform

            if hasattr(xconform, "create_comm"):
                xconform.create_comm = make
            warnings.simplefilter("ignore")
            try:
                xconform.main(argv(c, work))
                return None
            except BaseException as err:
                return repr(err)
        errors.append(apart(act))
    return judge(c, work, errors, True)


def one(item):
    base, c, ranks, serial = item
    work = os.path.join(base, "w%d" % os.getpid())
    prepare(work)
    with open(os.path.join(work, "spec.json"), "w") as f:
        json.dump(spec(work, c["kind"]), f)
    return apart(lambda: drive(c, work, ranks, serial), lambda err: ["the check could not drive the command: %s" % err], ["the command crashed"])


def apart(act, onerror=str, crashed="crashed"):
    """the result of act() in a process of its own"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import threading
            threading.stack_size(16 << 20)
            res = act()
        except BaseException as err:
            res = onerror(repr(err))
        os.write(w, json.dumps(res)[:60000].encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return crashed


def bad_usage(item):
    """wrong command lines must be refused before anything is written"""
    base, = item
    work = os.path.join(base, "w%d" % os.getpid())
    prepare(work)
    with open(os.path.join(work, "spec.json"), "w") as f:
        json.dump(spec(work, "plain"), f)
    s = os.path.join(work, "spec.json")
    i = os.path.join(work, "in", "a?.nc")
    bad = [["-f", s, "-c", "X", i], ["-f", s, "-c", "X,2,3", i], ["-f", s, "-c", "X,two", i], ["-f", s, "-c", "X,1.5", i],
           ["-f", s, "-c", "X,0", i], ["-f", s, "-c", "X,-2", i], ["-f", s, "-c", "nodim,2", i], ["-f", s, "-d", "x", i],
           ["-f", s, "-d", "10", i], ["-f", s, "-d", "-1", i], ["-f", s + "missing", i], ["-f", s, "-m", os.path.join(work, "nomod.py"), i],
           ["-f", s, "--unknown", i], [i]]
    res = []
    for a in bad:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                from pyconform.cli import xconform
                xconform.main(["-s"] + a)
                code = 0
            except BaseException:
                code = 1
            os._exit(code)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        out = os.path.join(work, "out")
        got = [f for f in (tree(out) if os.path.exists(out) else []) if not f.endswith(".tmp.nc")]
        if st == 0 or got:
            res.append(("arguments " + " ".join(x.replace(work, "") for x in a), "accepted" if st == 0 else "refused but wrote %s" % got))
        shutil.rmtree(out, ignore_errors=True)
    return len(bad), res


def dispatch(item):
    return solo(item) if len(item) == 3 else one(item)


def explore(chk):
    base = chk.scratch()
    work = []
    for c in cases(chk.thorough):
        dev = any(c[k] for k in ("chunks", "debug", "error", "nohist")) or c["deflate"] is not None or c["infiles"] != "both"
        work.append((base, c, 1, False))
        if expectation(c) != "fails" and not c["mods"]:
            work.append((base, c, 2, False))
            if chk.thorough or not dev or c["infiles"] != "both":
                work.append((base, c, 3, False))
        work.append((base, c, 1, True))
        if expectation(c) == "written" and (c["mods"] or c["error"]) or c["kind"] in ("limits", "limitsq") and c["error"] and expectation(c) == "fails":
            work += [(base, c, r) for r in ((2, 3, 4) if chk.thorough else (2 + (len(work) % 2),))]
    for it, (st, res) in zip(work, par.pmap(dispatch, work, chunksize=4)):
        c, ranks = it[1:3]
        serial = it[3:] == (True,)
        key = "%s%s on %d rank%s%s" % (sorted((k, v) for k, v in c.items() if v not in ((), False, None)), " serial" if serial else "", ranks, "s" * (ranks > 1),
                                       " apart" * (len(it) == 3))
        chk.ran(key, expectation(c), nontrivial=len(key) > 40)
        if st == "err":
            chk.fail("crash", res, {})
            continue
        for p in res[:3]:
            chk.fail(key, p, {"case": key})
    for st, res in par.pmap(bad_usage, [(base,)]):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        chk.bulk(res[0], res[0])
        for k, w in res[1]:
            chk.fail(k, w, {"case": k})
