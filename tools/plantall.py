"""plantall.py FILE [ID...]: write /verif/seeded/<id>/ for the changes described in FILE (a Python module with a list B), each confirmed in a scratch copy.

Each entry: id, property, file, [(old, new), ...], needs, breaks, body of demo.py."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMPI_MCA_ess_singleton_isolated="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1")
PRE = '''import contextlib, io, os, shutil, sys, tempfile, warnings
sys.path.insert(0, os.getcwd())
from collections import OrderedDict
import numpy as np
from netCDF4 import Dataset
warnings.simplefilter("ignore")
D = tempfile.mkdtemp()


def infile(sizes, name="in.nc", unlimited=(), **variables):
    """variables: name -> (dims, values, attributes[, dtype])"""
    path = os.path.join(D, name)
    with Dataset(path, "w") as nc:
        for d in sizes:
            nc.createDimension(d, None if d in unlimited else sizes[d])
        for n, v in variables.items():
            attrs = dict(v[2])
            x = nc.createVariable(n, v[3] if len(v) > 3 else "f8", v[0], fill_value=attrs.pop("_FillValue", None))
            for k in attrs:
                x.setncattr(k, attrs[k])
            x[...] = np.ma.asarray(v[1])
    return path


def ov(dims, definition, attrs=None, datatype="double", file=None, **opts):
    d = OrderedDict(datatype=datatype, dimensions=list(dims), definition=definition, attributes=OrderedDict(attrs or {}))
    if file:
        d["file"] = dict(filename=os.path.join(D, file), **opts)
    return d


def flow(inputs, spec, **kw):
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    with contextlib.redirect_stdout(io.StringIO()):
        DataFlow(InputDatasetDesc(filenames=inputs), OutputDatasetDesc(dsdict=OrderedDict(spec))).execute(serial=True, **kw)


def values(file, name):
    with Dataset(os.path.join(D, file)) as nc:
        return nc.variables[name][...]


def expect(what, got, want):
    if got != want:
        raise SystemExit("%s: %r instead of %r" % (what, got, want))


def refused(what, act):
    try:
        act()
    except Exception:
        return
    raise SystemExit("%s: not refused" % what)


def main():
%s

try:
    main()
finally:
    shutil.rmtree(D)
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OMPI_MCA_ess_singleton_isolated=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
ROOT = os.environ.get("PLANT_ROOT", "/verif")
ns = {}
exec(open(sys.argv[1]).read(), ns)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in ns["B"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    M = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo") + "/.", M])
        D = ROOT + "/seeded/" + b["id"]
        os.makedirs(D, exist_ok=True)
        body = "\n".join("    " + l if l.strip() else l for l in b["demo"].strip("\n").split("\n"))
        open(D + "/demo.py", "w").write(PRE.replace("%s\n\ntry:", body + "\n\n\ntry:"))
        open(D + "/demo.sh", "w").write(SH)
        os.chmod(D + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        def demo():
            p = subprocess.run(["bash", D + "/demo.sh"], cwd=M, env=ENV, capture_output=True, text=True)
            return p.returncode, (p.stdout + p.stderr).strip().split("\n")[-1][:150]
        clean = demo()
        f = M + "/" + b["file"]
        s = open(f).read()
        ok = True
        for old, new in b["sub"]:
            if s.count(old) < 1:
                print(b["id"], "NOT FOUND", old); ok = False
            k = b.get("nth", 0)
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        if not ok:
            continue
        open(f, "w").write(s)
        open(D + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=M, capture_output=True, text=True).stdout)
        bug = demo()
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + M + "/junit.xml"],
                           cwd=M, env=ENV, capture_output=True, text=True)
        tests = p.stdout.strip().split("\n")[-1]
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", M + "/results.json", "junit:" + M + "/junit.xml"], capture_output=True)
        lost = stable - set(json.load(open(M + "/results.json"))["passed"])
        good = clean[0] == 0 and bug[0] != 0 and not lost
        chk = subprocess.run(["./check.sh", b["property"]], cwd=ROOT, env=dict(ENV, PYCONFORM_REPO=M), capture_output=True, text=True).stdout.strip().split("\n")[-1]
        print("%-28s %s | clean %s | bug %s | %s | %s" % (b["id"], "ok" if good else "BAD", clean, bug, tests[:32], chk), flush=True)
        if not good:
            shutil.rmtree(D)
    finally:
        shutil.rmtree(M)
