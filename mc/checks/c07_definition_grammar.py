"""C07: a definition string is read according to the documented grammar."""
from itertools import product

from mc import par
from mc.refparse import impl_outcome, outcome

PID = "C07"
LEVEL = "exploration"
RULE = ("all token sequences up to the length bound over an 18-token alphabet, all character strings up to the bound "
        "over a lexical alphabet, all operator chains / sign / bracket placements up to 3 (4) operators over variable and "
        "constant operands, all call and subscript shapes up to 3 items, numbers of all sizes, all texts up to 5 characters of 8; compared with an independent reader; "
        "non-trivial = accepted by the reference")
ASSUMPTIONS = ["an argument list or definition starting with a bare comma is not specified and is left out"]

TOKENS = ["a", "2", "1.5", "'s'", "(", ")", "[", "]", ",", ":", "=", "+", "-", "*", "/", "**", "<", "=="]
CHARS = ["a", "1", ".", "e", "+", "-", "*", "=", "<", "'", "(", ")", " ", "_"]
BIN = ["+", "-", "*", "/", "**", "<", ">=", "=="]


def run(strings):
    n = nt = 0
    fails, outs, samples = [], set(), []
    for s in strings:
        want = outcome(s)
        got = impl_outcome(s)
        n += 1
        if want != "rejected":
            nt += 1
            outs.add(repr(want))
            if len(samples) < 1:
                samples.append({"case": s, "tree": want})
        if got != want and len(fails) < 20:
            fails.append((s, "grammar gives %r, parser gives %r" % (want, got)))
    return n, nt, fails, len(outs), samples


def tokens_job(job):
    first, n = job
    def gen():
        for rest in product(TOKENS, repeat=n - len(first)):
            seq = first + rest
            if any(seq[i] == "(" and seq[i + 1] == "," for i in range(len(seq) - 1)):
                continue
            yield " ".join(seq)
    return run(gen())


def chars_job(job):
    first, n = job
    return run(first + "".join(r) for r in product(CHARS, repeat=n - 1))


def brackets(k):
    """all ways of putting one bracket pair around a contiguous run of >= 2 of k operands (or none)"""
    yield None
    for i in range(k):
        for j in range(i + 1, k):
            if (i, j) != (0, k - 1):
                yield (i, j)


def chain_job(job):
    ops, operandsets = job
    k = len(ops) + 1
    def gen():
        for operands in product(operandsets, repeat=k):
            for signs in product(["", "-"], repeat=k):
                for br in brackets(k):
                    parts = []
                    for i in range(k):
                        t = signs[i] + operands[i]
                        if br and br[0] == i:
                            t = "(" + t
                        if br and br[1] == i:
                            t = t + ")"
                        parts.append(t)
                    s = parts[0]
                    for op, t in zip(ops, parts[1:]):
                        s += op + t
                    yield s
    return run(gen())


def call_job(maxargs):
    items = ["a", "2", "'s'", "\"q\\\"t\"", "k=1", "k='z'", "m=a", "f(b)", "a+1", "-a", "a[0]", "a=="]
    def gen():
        for n in range(0, maxargs + 1):
            for combo in product(items, repeat=n):
                yield "f(" + ",".join(combo) + ")"
                if n <= 2:
                    yield "2*f( " + " , ".join(combo) + " )-b"
    return run(gen())


def subs_job(first):
    part = ["", "1", "-1", "b", "2-1"]
    subs = [a for a in part] + [a + ":" + b for a in part for b in part] + [a + ":" + b + ":" + c for a in part for b in part for c in part]
    def gen():
        for s in subs:
            if first == 0:
                yield "x[%s]" % s
                yield "f(x[%s],k=y[%s])" % (s, s)
                yield "-x[%s]**2" % s
            if first == 1:
                for t in subs:
                    yield "x[%s,%s]" % (s, t)
            if first == 2:
                for t in subs[:12]:
                    for u in subs[:12]:
                        yield "x[%s,%s,%s]" % (s, t, u)
    return run(gen())


NUMBERS = ["0", "12", "007", "1.", ".5", "1.25", "1e3", "1E3", "1e+3", "1e-3", "1.5e2", ".5e1", "1.e2", "12.50", "1_0", "1e", "1.2.3", "0x1"]


def misc_job(_):
    def gen():
        for a in NUMBERS:
            for b in NUMBERS:
                for op in BIN:
                    yield a + op + b
                    yield "v" + op + a + op + b
            yield a
            yield "-" + a
            yield "x[" + a + "]"
            yield "f(" + a + ",'" + a + "')"
        for s in ["'a b'", '"a\'b"', "'a\\'b'", '""', "'days since 1-1-1'", "'m/s'", "'a,b'", "'('"]:
            yield "f(x," + s + ")"
            yield "f(x,u=" + s + ",v=" + s + ")"
            yield s
            yield "x[" + s + "]"
            yield "x+" + s
    return run(gen())


def numbers_job(_):
    """numbers of every length and size, alone and where they are used"""
    def gen():
        whole = sorted({abs(2 ** k + i) for k in range(0, 81) for i in (-1, 0, 1)} | {10 ** k + i for k in range(25) for i in (-1, 0, 1)}
                       | {int("123456789" * k) for k in range(1, 5)})
        digits = ["", "0", "1", "9", "00", "05", "10", "99", "123", "9007199254740993", "0000000000000000000001"]
        exps = ["", "e0", "E5", "e-5", "e+05", "e22", "e-22", "e300", "e-300", "e309", "e-330"]
        texts = [str(i) for i in whole] + [a + "." + b + e for a in digits for b in digits for e in exps] + [a + e for a in digits for e in exps]
        texts += ["0." + "1" * k for k in range(1, 30)] + ["%r" % (1 / k) for k in range(1, 200)]
        for t in texts:
            yield t
            yield "x+" + t
            yield "f(" + t + ",k=" + t + ")"
            yield "x[" + t + ":" + t + "]"
            yield t + "-1"
    return run(gen())


def strings_job(first):
    """every text between quotes up to the length bound"""
    chars = ["'", '"', "\\", "a", " ", "0", "+", ")"]
    def gen():
        for n in range(5):
            for rest in product(chars, repeat=n):
                t = first + "".join(rest)
                for q in "'\"":
                    yield "f(" + q + t + q + ")"
                    if n < 3:
                        yield "f(x, k=" + q + t + q + ")+" + q
    return run(gen())


def dispatch(job):
    return job[0](job[1])


def explore(chk):
    jobs = []
    tl = 5 if chk.thorough else 4
    for n in range(1, tl + 1):
        if n == 1:
            jobs.append((tokens_job, ((), 1)))
        else:
            pre = 2 if n >= 4 else 1
            jobs += [(tokens_job, (f, n)) for f in product(TOKENS, repeat=pre)]
    cl = 5 if chk.thorough else 4
    for n in range(1, cl + 1):
        jobs += [(chars_job, (c, n)) for c in CHARS]
    for k in (1, 2, 3):
        for ops in product(BIN, repeat=k):
            jobs.append((chain_job, (ops, ["a", "2"] if k == 3 else ["a", "2", "1.5"])))
    if chk.thorough:
        for ops in product(["+", "-", "*", "**", "<"], repeat=4):
            jobs.append((chain_job, (ops, ["a", "3"])))
    jobs += [(call_job, 3), (misc_job, 0)] + [(subs_job, i) for i in range(3)] + [(numbers_job, 0)] + [(strings_job, c) for c in "'\"\\a "]
    for job, (st, res) in zip(jobs, par.pmap(dispatch, jobs, chunksize=4)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job)[:200]})
            continue
        n, nt, fails, nout, samples = res
        chk.bulk(n, nt, samples[:1] if chk.evaluations % 7 == 0 else [], nout)
        chk.count(job[0].__name__, n)
        for key, what in fails:
            chk.fail(key, what, {"definition": key})
