"""C32: text variables are written letter by letter, whatever the lengths, layout, selections and chunks."""
import os
from collections import OrderedDict
from itertools import permutations, product

import numpy

from mc import e2e, par

PID = "C32"
LEVEL = "exploration"
RULE = ("texts (all triples from a menu of empty, one-letter, equal and longer texts, with blanks) x source (file variable with spare letters, data of the "
        "specification, both sharing one string dimension) x zero to two other dimensions x selections in the definition x every assignment of chunk "
        "sizes to all dimensions including the string dimension; and char arrays: all lengths, paddings, transpositions, selections, refused operations; "
        "decoded texts compared with what was put in; non-trivial = texts of different length")

MENU = ["", "a", "bc", "d e", "efgh"]


def letters(texts, width):
    return numpy.array([list(t.ljust(width, "\0")) for t in texts], dtype="S1")


def decode(raw):
    """texts of a char array over all but the last dimension"""
    flat = raw.reshape(-1, raw.shape[-1])
    return [numpy.ascontiguousarray(row).tobytes().decode().rstrip("\0") for row in flat]


def job(item):
    d, texts, spare, thorough = item
    work = os.path.join(d, "w%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    inp, out = os.path.join(work, "in.nc"), os.path.join(work, "out.nc")
    longest = max(len(t) for t in texts)
    width = max(longest + spare, 1)
    fails, n, nt = [], 0, 0
    two = [texts, texts[::-1]]
    vs = OrderedDict([("c", e2e.Var(("x", "l"), letters(texts, width), {}, "S1")), ("s", e2e.Var(("l",), letters(texts[:1], width)[0], {}, "S1")),
                      ("cc", e2e.Var(("y", "x", "l"), numpy.array([letters(t, width) for t in two]), {}, "S1")), ("k", e2e.Var(("x",), [1., 2., 3.], {"units": "1"})),
                      ("m", e2e.Var(("y",), [1., 2.], {"units": "1"}))])
    e2e.write_file(inp, vs, {"x": 3, "y": 2, "l": width})

    def data(tt):
        return list(tt)

    dlen = max(longest, 1)
    # name -> (definition, dims, texts in order, needed letters)
    sources = OrderedDict([
        ("file", ("c", ("X", "L"), texts, width)), ("file reversed", ("c[::-1]", ("X", "L"), texts[::-1], width)), ("file scalar", ("s", ("L",), texts[:1], width)),
        ("file one", ("c[1]", ("L",), texts[1:2], width)), ("file 2d", ("cc", ("Y", "X", "L"), texts + texts[::-1], width)),
        ("file 2d turned", ("cc", ("X", "Y", "L"), [t for p in zip(texts, texts[::-1]) for t in p], width)), ("file part", ("cc[1]", ("X", "L"), texts[::-1], width)),
        ("data", (data(texts), ("X", "L"), texts, dlen)), ("data 2d", ([data(texts), data(texts[::-1])], ("Y", "X", "L"), texts + texts[::-1], dlen)),
        ("data one", ([texts[2]], ("Z", "L"), texts[2:], max(len(texts[2]), 1)))])
    for name, second in [(k, None) for k in sources] + [("file", "data one"), ("file 2d", "data one"), ("data one", "file"), ("file reversed", "long"), ("file scalar", "long"), ("file", "long data")]:
        spec = OrderedDict()
        text, dims, want, need = sources[name]
        decl = OrderedDict([("V", (text, dims, want))])
        if second in sources:
            t2, d2, w2, n2 = sources[second]
            decl["W"] = (t2, d2, w2)
            need = max(need, n2)
        elif second:
            long_ = "x" * (width + 2)
            decl["W"] = ([long_, "y"], ("Z", "L"), [long_, "y"])
            need = width + 2
        for v, (t, dd, _) in decl.items():
            kw = dict(filename=out, metavars=[x for x in decl if x != "V"] + ["KX", "KY"]) if v == "V" else {}
            spec[v] = e2e.outvar(dd, t, "char", **kw)
        spec["KX"] = e2e.outvar(["X"], "k", attrs={"units": "1"})
        spec["KY"] = e2e.outvar(["Y"], "m", attrs={"units": "1"})
        alld = sorted({x for _, dd, _ in decl.values() for x in dd} & {"X", "Y", "L"})
        sizes = {"X": [None, 1, 2], "Y": [None, 1], "L": [None, 1, 2, 3]}
        if not thorough and longest < 3:
            sizes["L"] = [None, 2]
        mapped = [x for x in alld if x != "L" or any(isinstance(t, str) for t, _, _ in decl.values())]
        for combo in product(*[sizes[x] for x in mapped]):
            n += 1
            nt += len(set(map(len, texts))) > 1
            chunks = {x: c for x, c in zip(mapped, combo) if c}
            key = "%r spare %d: %s with %s chunks %s" % (texts, spare, name, second, chunks)
            try:
                e2e.run([inp], spec, chunks=dict(chunks))
                r = e2e.read_file(out)
                os.unlink(out)
            except Exception as err:
                fails.append((key, "refused: %r" % err))
                for f in os.listdir(work):
                    if f != "in.nc":
                        os.unlink(os.path.join(work, f))
                continue
            for v, (t, dd, want) in decl.items():
                rec = r["vars"][v]
                if rec["dims"] != dd or rec["dtype"] != "|S1":
                    fails.append((key, "%s has dimensions %r, type %s" % (v, rec["dims"], rec["dtype"])))
                elif decode(rec["raw"]) != list(want):
                    fails.append((key, "%s holds %r instead of %r" % (v, decode(rec["raw"]), want)))
            if r["dims"]["L"][0] != need:
                fails.append((key, "string length %d instead of %d" % (r["dims"]["L"][0], need)))
        if len(fails) > 20:
            break
    return n, nt, fails


def arrays(chk):
    from pyconform.physarray import CharArray, PhysArray
    for texts in [list(t) for k in (1, 2, 3) for t in product(MENU, repeat=k)]:
        longest = max(max(len(t) for t in texts), 1)
        for make in (CharArray, PhysArray):
            key = "%s of %r" % (make.__name__, texts)
            if longest == 1:
                a = make(letters(texts, 1), name="n", dimensions=("x", "l"))  # single characters: string length 1 given explicitly
            else:
                a = make(texts, name="n", dimensions=("x", "l"))
            bad = None
            if not isinstance(a, CharArray) or a.shape != (len(texts), longest) or a.dimensions != ("x", "l") or a.name != "n":
                bad = "%r with shape %r" % (type(a), a.shape)
            elif decode(numpy.ma.filled(a, b"")) != texts:
                bad = "holds %r" % decode(numpy.ma.filled(a, b""))
            chk.ran(key, bad)
            if bad:
                chk.fail(key, bad, {"case": key})
                continue
            for width in range(0, longest + 4):
                s = a.stretch(width)
                ok = isinstance(s, CharArray) and s.shape == (len(texts), max(width, longest)) and decode(numpy.ma.filled(s, b"")) == texts and s.dimensions == ("x", "l") and s.name == "n"
                chk.ran((key, width), ok)
                if not ok or a.shape != (len(texts), longest):
                    chk.fail("%s to %d" % (key, width), "%r %r" % (s.shape, decode(numpy.ma.filled(s, b""))), {"case": key})
            for i in range(len(texts)):
                p = a[i]
                if decode(numpy.ma.filled(p, b"").reshape(1, -1)) != [texts[i]] or p.dimensions != ("l",):
                    chk.fail("%s item %d" % (key, i), "%r %r" % (p, p.dimensions), {"case": key})
                q = a[{"x": slice(i, i + 1)}]
                if decode(numpy.ma.filled(q, b"")) != [texts[i]] or q.dimensions != ("x", "l"):
                    chk.fail("%s part %d" % (key, i), "%r %r" % (q, q.dimensions), {"case": key})
            refused = []
            for what, act in [("units", lambda: setattr(a, "units", "m")), ("positive", lambda: setattr(a, "positive", "up")), ("convert", lambda: a.convert("m")),
                              ("transposed letters", lambda: a.transpose("l", "x"))]:
                try:
                    act()
                except Exception:
                    refused.append(what)
            chk.ran((key, "refused"), tuple(refused))
            if len(refused) != 4 or decode(numpy.ma.filled(a, b"")) != texts or a.positive is not None:
                chk.fail("%s refusals" % key, "only %r refused" % refused, {"case": key})


def explore(chk):
    d = chk.scratch()
    items = []
    for texts in product(MENU if chk.thorough else [MENU[i] for i in (0, 1, 3, 4)], repeat=3):
        for spare in (0, 1, 2) if chk.thorough else ((0, 2)[len(texts[0]) % 2],):
            items.append((d, list(texts), spare, chk.thorough))
    for item, (st, res) in zip(items, par.pmap(job, items, chunksize=2)):
        if st == "err":
            chk.fail("crash", res, {"item": repr(item[1:])})
            continue
        n, nt, fails = res
        chk.bulk(n, nt, [{"case": repr(item[1:3]), "cases": n}])
        for k, w in fails:
            chk.fail(k, w, {"case": k})
    arrays(chk)
