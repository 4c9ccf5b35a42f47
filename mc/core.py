"""
Shared machinery of the checks: exploration bookkeeping, evidence, replay files, known findings.

Every check enumerates a finite space completely (no sampling, no randomness), runs the real code of
/repo on each element, and compares with an oracle.  A case is reported with Check.fail(key, ...): the
key names the failing input; keys listed in known_findings.jsonl are reported as KNOWN-FINDING.
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYCONFORM_REPO", "/repo")


def setup_environment():
    os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
    os.environ["TZ"] = "UTC"
    sys.dont_write_bytecode = True
    # never trust byte code beside the sources: it is matched to them by size and second of change only
    import cf_units, netCDF4, numpy, numpy.ma, ply.lex, ply.yacc, multiprocessing.pool, unittest, ctypes, xml.etree.ElementTree  # noqa: E401,F401
    from asaptools import partition, simplecomm  # noqa: F401
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-byte-code-here")
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    # PLY rewrites its table file next to the grammar when the grammar changed: never write into /repo
    import ply.yacc
    for cls in ("LRGeneratedTable",):
        getattr(ply.yacc, cls).write_table = lambda self, *a, **k: None


setup_environment()


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [jsonable(v) for v in x]
        return repr(x)


class Check(object):
    """One run of one check."""

    MAX_REPORT = 200

    def __init__(self, pid, level, rule, assumptions=(), argv=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.bulk_nontrivial = 0
        self.transitions = 0
        self.states = set()
        self.samples = []
        self.failures = []
        self.nfail = 0
        self.known_hit = {}
        self.outcomes = {}
        self.counts = {}
        self.exhaustive = True
        self._tmp = None
        self.known = {}
        path = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                rec = json.loads(line)
                if rec.get("property") == pid:
                    self.known[rec["key"]] = rec["what"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- scratch ---------------------------------------------------------------------------
    def scratch(self):
        if self._tmp is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
            self._tmp = tempfile.mkdtemp(prefix="verif_{}_".format(self.pid), dir=base)
        return self._tmp

    # -- bookkeeping -----------------------------------------------------------------------
    def ran(self, case, outcome=None, nontrivial=True):
        """Record one executed case."""
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
            self.nontrivial.add(h)
        if len(self.samples) < 3 or (len(self.samples) < 8 and self.evaluations in (10, 100, 1000, 10000, 100000)):
            self.samples.append({"case": jsonable(case), "outcome": repr(outcome)[:200]})
        if outcome is not None:
            o = repr(outcome)[:80]
            if len(self.outcomes) < 50000:
                self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def bulk(self, cases, nontrivial, samples=(), outcomes=0):
        """Record cases executed by a worker (distinct by construction of the enumeration)."""
        self.evaluations += cases
        self.bulk_nontrivial += nontrivial
        if outcomes:
            self.count("distinct outcomes in workers", outcomes)
        for s in samples:
            if len(self.samples) < 8:
                self.samples.append(jsonable(s))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def fail(self, key, what, case):
        """Report a violation.  `key` identifies the failing input / history."""
        key = str(key)
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.nfail += 1
        if len(self.failures) < self.MAX_REPORT:
            self.failures.append({"key": key, "what": str(what)[:2000], "case": jsonable(case)})

    def nstates(self):
        return self.states if isinstance(self.states, int) else len(self.states)

    # -- end -------------------------------------------------------------------------------
    def coverage(self):
        cov = {
            "rule": self.rule,
            "samples": self.samples or [{"case": "none"}],
            "exhaustive": bool(self.exhaustive),
            "distinct_outcomes": len(self.outcomes),
            "counts": self.counts,
        }
        if self.level == "model_checking":
            cov["states"] = self.nstates()
            cov["transitions"] = self.transitions
            cov["traces_validated_against_impl"] = self.evaluations
        else:
            cov["evaluations"] = self.evaluations
            cov["distinct_nontrivial"] = len(self.nontrivial) + self.bulk_nontrivial
            if self.states:
                cov["states"] = self.nstates()
            if self.transitions:
                cov["transitions"] = self.transitions
        return cov

    def finish(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.coverage(),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": self.nfail,
        }
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1, sort_keys=True)
        for key in sorted(self.known_hit):
            print("KNOWN-FINDING: property={} {} [{}]".format(self.pid, self.known[key], key))
        print("{} tier={} cases={} distinct={} states={} transitions={} outcomes={} wall={:.1f}s".format(
            self.pid, self.tier, self.evaluations, len(self.nontrivial) + self.bulk_nontrivial,
            self.nstates(), self.transitions, len(self.outcomes), time.time() - self.t0))
        if self.nfail:
            rdir = os.path.join(evdir, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "failures": self.failures, "total": self.nfail,
                           "how": "python -m mc.run {} (exploration is deterministic)".format(self.pid)}, f, indent=1)
            for v in self.failures[:5]:
                print("  {}: {}\n     case: {}".format(v["key"], v["what"][:600], json.dumps(v["case"])[:600]))
            print("VIOLATION property={} replay={}".format(self.pid, os.path.relpath(path, VERIF)))
            sys.stdout.flush()
            return 1
        print("OK property={}".format(self.pid))
        sys.stdout.flush()
        return 0


def watchdog(seconds):
    """the quick exploration takes a small fraction of this: an execution of the code under test does not end"""
    import signal

    def ring(signum, frame):
        raise TimeoutError("an execution of the code under test did not end within %d s" % seconds)

    signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)


def run_check(module):
    """Run one check module: it defines PID, LEVEL, RULE and explore(check)."""
    chk = Check(module.PID, module.LEVEL, module.RULE, getattr(module, "ASSUMPTIONS", ()))
    try:
        module.explore(chk)
    except BaseException as err:  # the code under test could not even be driven: that is a failure of it
        if isinstance(err, KeyboardInterrupt):
            raise
        chk.exhaustive = False
        chk.fail("uncaught:" + type(err).__name__, traceback.format_exc()[-1800:], {"exception": repr(err)})
    return chk.finish()


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).hexdigest()
