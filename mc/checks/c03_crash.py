"""C03: an output file only ever appears complete under its name - whatever fails, wherever the run dies."""
import os
import resource
import signal
import shutil
import sys
from collections import OrderedDict

from mc import e2e, par

PID = "C03"
LEVEL = "fault_enumeration"
RULE = ("a run writing two chunked output files (nested directories, inverted coordinate) is killed before and after every "
        "file operation and at every executed source line (quick: first, second and last execution), made to fail before and after every single file operation (open, header, attribute, read, write, "
        "close, rename, mkdir), and starved of disk space at every file-size limit of a grid; started from no output, an "
        "older output and a stale temporary file; after each, the output names must hold nothing, the older content or "
        "the complete new content, no success may be reported for an incomplete file, and a retry (same objects, and a "
        "new run) must complete; non-trivial = the fault fired")
ASSUMPTIONS = ["rename within one directory is atomic (POSIX); power loss (lost directory entries or unflushed pages) is not modelled",
               "a failing operation raises an error or kills the process; silent corruption by the file system is not modelled"]

SZ = {"x": 3, "y": 2}
F1, F2 = "o/a/one.nc", "o/b/two.nc"


def make_inputs(d):
    vs = {"v": e2e.Var(("x", "y"), [[1., 2], [3, 4], [5, 6]], {"units": "m"}),
          "x": e2e.Var(("x",), [1., 2, 3], {"units": "1"})}
    return [e2e.write_file(os.path.join(d, "in.nc"), vs, SZ)]


def spec(d, fmt):
    ds = OrderedDict()
    ds["x"] = e2e.outvar(["X"], "x", attrs={"units": "1", "axis": "X", "direction": "decreasing"})
    ds["one"] = e2e.outvar(["X", "Y"], "v*2", attrs={"units": "m"}, filename=os.path.join(d, F1), format=fmt, attributes={"title": "t"})
    ds["two"] = e2e.outvar(["Y", "X"], "v", attrs={"units": "cm"}, filename=os.path.join(d, F2), format=fmt)
    return ds


def build(d, infiles, fmt):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    with e2e.quiet():
        return DataFlow(InputDatasetDesc(filenames=infiles), OutputDatasetDesc(dsdict=spec(d, fmt)))


def execute(df):
    with e2e.quiet():
        df.execute(serial=True, chunks={"X": 2})


def content(p):
    """None if absent, else what an observer reads"""
    if not os.path.exists(p):
        return None
    try:
        r = e2e.read_file(p)
        return sorted((n, v["dims"], v["values"].tolist(), [i for i in v["attrs"].items()]) for n, v in r["vars"].items())
    except Exception as err:
        return "unreadable: %r" % err


def prestate(d, kind, olddir):
    for sub in ("o",):
        shutil.rmtree(os.path.join(d, sub), ignore_errors=True)
    if kind in ("old", "oldstale"):
        for f in (F1, F2):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copy(os.path.join(olddir, "old.nc"), os.path.join(d, f))
    if kind in ("stale", "oldstale"):
        for f in (F1, F2):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f + ".tmp.nc"), "wb") as fh:
                fh.write(b"\x89HDF half a file")


def setup(d, fmt):
    work = os.path.join(d, "w%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    infiles = make_inputs(work)
    e2e.write_file(os.path.join(work, "old.nc"), {"old": e2e.Var(("x",), [9., 9, 9], {})}, SZ)
    execute(build(work, infiles, fmt))
    ref = {f: content(os.path.join(work, f)) for f in (F1, F2)}
    old = content(os.path.join(work, "old.nc"))
    return work, infiles, ref, old


def judge(work, kind, ref, old, fmt, success=False):
    out = []
    for f in (F1, F2):
        c = content(os.path.join(work, f))
        ok = [ref[f]] if success else [ref[f], old if kind.startswith("old") else None]
        if c not in ok:
            out.append("%s is %s" % (f, "missing" if c is None else "incomplete: %s" % str(c)[:300]))
    return out


def rerun(work, infiles, ref, old, fmt, kind):
    """a new run after the fault must complete"""
    try:
        execute(build(work, infiles, fmt))
    except Exception as err:
        return ["a new run afterwards fails: %r" % err]
    return ["after a new run " + m for m in judge(work, kind, ref, old, fmt, True)]


def child(fn):
    """run fn in a forked child; returns its exit status (or -signal)"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            code = fn()
        except BaseException:
            code = 98
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    return -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)


# ---------------------------------------------------------------------------- death at every line
def lines(item):
    d, fmt, kind, part, parts, every = item
    work, infiles, ref, old = setup(d, fmt)

    repo = os.sep + "pyconform" + os.sep

    seen = {}

    def tracer(limit, counter):
        def local(frame, event, arg):
            if event == "line":
                counter[0] += 1
                if limit < 0:
                    seen.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(counter[0])
                if counter[0] == limit:
                    os._exit(77)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            return local if repo in f and "site-packages" not in f else None
        return glob

    def go(limit, counter):
        df = build(work, infiles, fmt)
        sys.settrace(tracer(limit, counter))
        try:
            execute(df)
        finally:
            sys.settrace(None)

    counter = [0]
    prestate(work, kind, work)
    go(-1, counter)
    total = counter[0]
    fails, n, nt = [], 0, 0
    # every event, or the first, second and last execution of every source line
    points = list(range(1, total + 1)) if every else sorted(set(i for v in seen.values() for i in v[:2] + v[-1:]))
    for k in points[part::parts]:
        prestate(work, kind, work)
        st = child(lambda: go(k, [0]) or 0)
        n += 1
        nt += st == 77
        bad = judge(work, kind, ref, old, fmt)
        if st not in (77, 0):
            bad.append("unexpected exit status %d" % st)
        bad += rerun(work, infiles, ref, old, fmt, kind)
        for b in bad:
            if len(fails) < 8:
                fails.append(("%s %s killed at line event %d of %d" % (fmt, kind, k, total), b))
    return n, nt, fails, [{"format": fmt, "before": kind, "line events": total}]


# ---------------------------------------------------------------------------- failing operations
def operations(item):
    from mc import faults
    d, fmt, kind, part, parts = item
    work, infiles, ref, old = setup(d, fmt)

    prestate(work, kind, work)
    df = build(work, infiles, fmt)
    faults.arm()
    execute(df)
    total, log = faults.disarm()
    fails, n, nt = [], 0, 0
    for k in range(1 + part, total + 1, parts):
        for after in (False, True):
            prestate(work, kind, work)

            def die():
                df = build(work, infiles, fmt)
                faults.arm(k, after, die=True)
                execute(df)
                return 0
            st = child(die)
            n += 1
            nt += st == 77
            for b in judge(work, kind, ref, old, fmt, success=st == 0) + rerun(work, infiles, ref, old, fmt, kind):
                if len(fails) < 8:
                    fails.append(("%s %s killed %s %s (operation %d)" % (fmt, kind, "after" if after else "before", log[k - 1], k), b))
            for retry in ("same", "new"):
                key = "%s %s %s %s (operation %d), retry with %s objects" % (fmt, kind, "after" if after else "before", log[k - 1], k, retry)
                if after and log[k - 1] == "open w":
                    continue   # the file just created could not be closed by anybody
                prestate(work, kind, work)
                df = build(work, infiles, fmt)
                faults.arm(k, after)
                err = None
                try:
                    execute(df)
                except Exception as e:
                    err = e
                fired, _ = faults.disarm()
                n += 1
                nt += fired >= k
                bad = judge(work, kind, ref, old, fmt, success=err is None)
                if retry == "same":
                    if err is not None:
                        try:
                            execute(df)
                        except Exception as e2:
                            bad.append("retrying after %r fails: %r" % (err, e2))
                        else:
                            bad += ["after retrying " + m for m in judge(work, kind, ref, old, fmt, True)]
                else:
                    del df
                    bad += rerun(work, infiles, ref, old, fmt, kind)
                for b in bad:
                    if len(fails) < 8:
                        fails.append((key, b))
    return n, nt, fails, [{"format": fmt, "before": kind, "operations": log}] if part == 0 else []


def operations_entry(item):
    from mc import faults
    import sys as _s
    if "mc._faults_on" not in _s.modules:
        faults.install()
        _s.modules["mc._faults_on"] = faults
    return operations(item)


# ---------------------------------------------------------------------------- no space left
def space(item):
    d, fmt, kind, limits = item
    work, infiles, ref, old = setup(d, fmt)
    fails, n, nt = [], 0, 0
    for lim in limits:
        prestate(work, kind, work)

        def go():
            df = build(work, infiles, fmt)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
            try:
                execute(df)
            except Exception:
                return 3
            return 0
        st = child(go)
        n += 1
        nt += st != 0
        bad = judge(work, kind, ref, old, fmt, success=st == 0)
        for b in bad + rerun(work, infiles, ref, old, fmt, kind):
            if len(fails) < 8:
                fails.append(("%s %s file size limit %d (exit %d)" % (fmt, kind, lim, st), b))
    return n, nt, fails, []


def explore(chk):
    d = chk.scratch()
    fmts = ("NETCDF4_CLASSIC", "NETCDF3_CLASSIC")
    kinds = ("none", "old", "stale", "oldstale")

    def collect(results):
        for st, res in results:
            if st == "err":
                chk.fail("crash", res, {})
                continue
            n, nt, fails, samples = res
            chk.bulk(n, nt, samples)
            for key, w in fails:
                chk.fail(key, w, {"fault": key})

    t0 = chk.evaluations
    work = [(d, f, k, p, 4) for f in fmts for k in kinds for p in range(4)]
    collect(par.pmap(operations_entry, work))
    chk.count("operation faults", chk.evaluations - t0)
    t0 = chk.evaluations
    combos = [(f, k) for f in fmts for k in kinds] if chk.thorough else [(fmts[0], "none"), (fmts[0], "old")]
    work = [(d, f, k, p, 8, chk.thorough) for f, k in combos for p in range(8)]
    collect(par.pmap(lines, work))
    chk.count("line crashes", chk.evaluations - t0)
    t0 = chk.evaluations
    step = 64 if chk.thorough else 1024
    grid = {"NETCDF4_CLASSIC": list(range(0, 30000, step)), "NETCDF3_CLASSIC": list(range(0, 1200, 40 if not chk.thorough else 4))}
    work = [(d, f, k, grid[f][i::4]) for f in fmts for k in ("none", "old") for i in range(4)]
    collect(par.pmap(space, work))
    chk.count("file size limits", chk.evaluations - t0)
