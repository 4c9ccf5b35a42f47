"""C04: however many ranks run, and however they interleave, every output file is written once and completely."""
import os
import shutil
from collections import OrderedDict

from mc import e2e, par

PID = "C04"
LEVEL = "exploration"
RULE = ("every schedule of 1..5 ranks with at most 0-3 deviations (per configuration) from the default schedule over 6 output "
        "layouts, at every communication and every file-system operation on the output; non-trivial = a schedule with at "
        "least one deviation (a rank switch the default does not make)")
ASSUMPTIONS = ["ranks are threads with private data flows and a communicator with the semantics of asaptools' SimpleCommMPI "
               "(partition scatters from the manager through pickle, sync is a barrier); the real partition function is used",
               "a scheduling point at every communication and every file-system operation on the output; code in between does "
               "not touch shared state of other processes"]

SZ = {"x": 3, "y": 2}


def make_inputs(d):
    vs = {"v": e2e.Var(("x", "y"), [[1., 2], [3, 4], [5, 6]], {"units": "m"}), "x": e2e.Var(("x",), [1., 2, 3], {"units": "1"}),
          "y": e2e.Var(("y",), [1., 2], {"units": "1"})}
    return [e2e.write_file(os.path.join(d, "in.nc"), vs, SZ)]


LAYOUTS = {
    # file name -> (dims, definition): different sizes give different weights
    "shared dir": [("new/a.nc", "XY", "v"), ("new/b.nc", "XY", "v*2")],
    "nested": [("new/p/a.nc", "XY", "v"), ("new/q/a.nc", "X", "x"), ("new/a.nc", "YX", "v*3")],
    "flat": [("a.nc", "X", "x"), ("b.nc", "XY", "v"), ("c.nc", "Y", "y"), ("d.nc", "XY", "v*2")],
    "one": [("new/a.nc", "XY", "v")],
    "none": [],
    "scalar": [("a.nc", "", "sum(v,'x','y')"), ("b.nc", "", "max(x, 'x')"), ("c.nc", "X", "x")],
}


def spec(d, layout):
    ds = OrderedDict()
    for i, (f, dims, text) in enumerate(LAYOUTS[layout]):
        ds["v%d" % i] = e2e.outvar(list(dims), text, attrs={"units": "m" if "v" in text else "1"}, filename=os.path.join(d, f))
    if layout == "none":
        ds["v"] = e2e.outvar(["X"], "missing_variable", filename=os.path.join(d, "never.nc"))
    if layout in ("nested", "flat"):   # one file of the data set cannot be produced
        ds["lost"] = e2e.outvar(["X"], "nosuchvariable", filename=os.path.join(d, "lost.nc"))
    return ds


def content(p):
    r = e2e.read_file(p)
    return sorted((n, v["dims"], v["values"].tolist()) for n, v in r["vars"].items())


def tree(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def install():
    import sys
    from mc import faults
    if not hasattr(faults, "_installed"):
        faults.install()
        faults._installed = True
    return faults


class Runner(object):
    def __init__(self, d, layout, size, mode):
        self.faults = install()
        self.work = os.path.join(d, "w%d" % os.getpid())
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.infiles = make_inputs(self.work)
        self.out = os.path.join(self.work, "out")
        self.layout, self.size, self.mode = layout, size, mode
        os.makedirs(self.out)
        e2e.run(self.infiles, spec(self.out, layout))
        self.ref = {f: content(os.path.join(self.out, f)) for f in tree(self.out)}

    def once(self, dev):
        """run one schedule; returns (steps, problems, signature)"""
        from mc.sched import Comm, Sched
        from pyconform.dataflow import DataFlow
        from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        sched, board, opened = Sched(self.size, dev), {}, []
        prefix = os.path.join(self.work, "out")

        def hook(name, args):
            r = sched.me()
            if r is None:
                return
            path = [a for a in args if isinstance(a, str)]
            if name in ("stat", "open"):
                if not path or not path[0].startswith(prefix):
                    return
            elif name == "open w":
                opened.append((r, path[0] if path else "?"))
            elif name not in ("close", "rename", "replace", "mkdir"):
                return
            sched.point(name)

        def rank(r):
            comm = Comm(sched, board, r, self.size)
            df = DataFlow(InputDatasetDesc(filenames=self.infiles), OutputDatasetDesc(dsdict=spec(self.out, self.layout)))
            df.execute(scomm=comm, chunks={"X": 2} if any("X" in x[1] and "(" not in x[2] for x in LAYOUTS[self.layout]) and self.layout != "scalar" else {})

        with e2e.quiet():
            self.faults.HOOK[0] = hook
            try:
                dead = sched.run(rank)
            finally:
                self.faults.HOOK[0] = None
        probs = []
        if dead:
            probs.append("ranks %s wait for ever" % dead)
        for r, res in enumerate(sched.result):
            if res[0] == "error":
                probs.append("rank %d fails: %r" % (r, res[1]))
        got = tree(self.out)
        for f in self.ref:
            if f not in got:
                probs.append("%s was not written" % f)
            elif content(os.path.join(self.out, f)) != self.ref[f]:
                probs.append("%s has other contents than in a serial run" % f)
        for f in got:
            if f not in self.ref:
                probs.append("extra file %s" % f)
        names = [p for _, p in opened]
        for p in set(names):
            if names.count(p) > 1:
                probs.append("%s was written %d times" % (os.path.basename(p), names.count(p)))
        return sched.steps, probs, tuple(sched.trace)


def explore_from(item):
    from mc.sched import children
    d, layout, size, bound, first = item
    run = Runner(d, layout, size, None)
    todo, n, steps_total, fails, traces = [first], 0, 0, [], set()
    while todo:
        dev = todo.pop()
        steps, probs, tr = run.once(dev)
        n += 1
        steps_total += len(steps)
        traces.add(hash(tr))
        for p in probs:
            if len(fails) < 5:
                fails.append(("%s, %d ranks, deviations %s" % (layout, size, sorted(dev.items())), p))
        if len(fails) >= 5:
            break
        if len(dev) < bound:
            todo.extend(children(dev, steps))
    # replay one schedule twice: same observations
    a, b = run.once(first), run.once(first)
    if a[2] != b[2]:
        fails.append(("replay", "the same schedule gives different traces"))
    return n, steps_total, len(traces), fails


def base(item):
    d, layout, size, bound, first = item
    run = Runner(d, layout, size, None)
    steps, probs, tr = run.once({})
    return steps, [("%s, %d ranks, default schedule" % (layout, size), p) for p in probs], len(run.ref)


def explore(chk):
    from itertools import count
    d = chk.scratch()
    plan = [("shared dir", 1, 0), ("shared dir", 2, 2), ("shared dir", 3, 1), ("nested", 2, 1), ("nested", 3, 1), ("nested", 4, 1),
            ("flat", 1, 0), ("flat", 2, 1), ("flat", 3, 1), ("flat", 4, 0), ("flat", 5, 0), ("one", 1, 0), ("one", 2, 1), ("one", 3, 0),
            ("none", 1, 0), ("none", 2, 1), ("scalar", 1, 0), ("scalar", 2, 0), ("scalar", 3, 0)]
    if chk.thorough:
        plan = [(l, s, {1: 0, 2: 2, 3: 2}.get(s, 1)) for l, s, b in plan] + [("shared dir", 2, 3)]
    items = [(d, l, s, b, {}) for l, s, b in plan]
    work = []
    for it, (st, res) in zip(items, par.pmap(base, items)):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        steps, fails, nfiles = res
        for k, w in fails:
            chk.fail(k, w, {"schedule": k})
        chk.count("outputs expected", nfiles)
        if it[3] > 0 and not fails:
            from mc.sched import children
            work += [it[:4] + (dev,) for dev in children({}, steps)]
        chk.bulk(1, 0)
        chk.transitions += len(steps)
    chk.samples.append({"plan (layout, ranks, deviations)": plan[:4]})
    total = 0
    for st, res in par.pmap(explore_from, work, chunksize=2):
        if st == "err":
            chk.fail("crash", res, {})
            continue
        n, steps, traces, fails = res
        chk.bulk(n, traces)
        chk.transitions += steps
        total += traces
        for k, w in fails:
            chk.fail(k, w, {"schedule": k})
    chk.count("distinct traces", total)
