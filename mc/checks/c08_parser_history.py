"""C08: reading a definition does not depend on what was read before; the text form reads back the same."""
from itertools import product

from mc import par
from mc.refparse import canon_impl, impl_outcome, outcome

PID = "C08"
LEVEL = "exploration"
RULE = ("every sequence up to length 3 (4) over a menu of valid and invalid definitions, the result trees being scribbled "
        "on between calls (compared with a fresh reading), and text round trips of every operator / call / subscript "
        "shape without quoted strings; non-trivial = sequences of two or more with at least one valid member")

MENU = ["a", "f()", "f(x)", "g(k=1)", "a[0]", "a[1:,:2]", "-a**2", "1+2*3", "a+", "f(", "'s'", "f('s',k='t')", "a b", "$", "(a-b)-c", ""]


def scribble(t):
    from pyconform.parsing import FuncType, OpType, VarType

    if isinstance(t, OpType):
        [scribble(x) for x in t.args]
        t.args.append("junk")
    elif isinstance(t, FuncType):
        [scribble(x) for x in t.args]
        [scribble(x) for x in t.kwds.values()]
        t.args.append("junk")
        t.kwds["junk"] = 1
    elif isinstance(t, VarType):
        t.ind.append("junk")


def read(s):
    from pyconform.parsing import parse_definition

    try:
        t = parse_definition(s)
    except Exception:
        return "rejected"
    c = canon_impl(t)
    scribble(t)
    return c


def hist_job(first):
    depth, first = first
    fails, n, nt = [], 0, 0
    for rest in product(MENU, repeat=depth - 1):
        seq = (first,) + rest
        got = [read(s) for s in seq]
        want = [outcome(s) for s in seq]
        n += 1
        nt += any(w != "rejected" for w in want)
        if got != want and len(fails) < 10:
            fails.append((" ; ".join(seq), "read one after the other gives %r, each alone %r" % (got, want)))
    return n, nt, fails


def texts():
    ops = ["+", "-", "*", "/", "**", "<", ">=", "=="]
    for k in (1, 2, 3):
        for o in product(ops, repeat=k):
            for c in ("b", "2", "1.5"):
                for signs in product(["", "-"], repeat=min(k, 2)):
                    s = "v"
                    for i, op in enumerate(o):
                        s += op + (signs[i] if i < len(signs) else "") + (c if i % 2 == 0 else "w")
                    yield s
                    yield "(v" + s[1:] + ")" + o[0] + "-z"
                    if k > 1:
                        yield "v" + o[0] + "(w" + o[1] + c + ")"
    args = ["a", "2", "0", "1e-07", "-1.5", "f(b)", "a+1", "x[0]"]
    for n in range(3):
        for p in product(args, repeat=n):
            for m in range(3):
                for q in product(args[:6], repeat=m):
                    yield "f(" + ",".join(list(p) + ["k%d=%s" % (i, x) for i, x in enumerate(q)]) + ")"
    part = ["", "1", "-1", "b"]
    for a, b, c in product(part, repeat=3):
        yield "x[%s:%s:%s]" % (a, b, c)
        yield "x[%s:%s,0,%s:]" % (a, b, c)


def explore(chk):
    depth = 4 if chk.thorough else 3
    jobs = [(d, f) for d in range(1, depth + 1) for f in MENU]
    for job, (st, res) in zip(jobs, par.pmap(hist_job, jobs)):
        if st == "err":
            chk.fail("crash", res, {"job": repr(job)})
            continue
        n, nt, fails = res
        chk.bulk(n, nt if job[0] > 1 else 0)
        for k, w in fails:
            chk.fail(k, w, {"sequence": k})
    chk.samples.append({"case": " ; ".join(MENU[2:6])})
    from pyconform.parsing import parse_definition

    for s in texts():
        t = parse_definition(s)
        text = str(t)
        back = impl_outcome(text)
        if "True" in text or "False" in text:
            continue
        chk.ran(("text", s), text)
        if back != canon_impl(t):
            chk.fail("text:" + s, "prints as %r, which reads back as %r instead of %r" % (text, back, canon_impl(t)), {"definition": s})
