"""
Reference reader of variable definitions, written from the grammar in words (independent of PLY):

tokens: unsigned ints and floats, names, quoted strings (the text between the quotes, verbatim), operators
== < > <= >= + - * / **, brackets.  Binary operators associate to the left; from loosest to tightest:
==, comparisons, + -, * /, sign, **.  Operators applied to numbers only are evaluated.  A call takes
positional arguments followed by keyword arguments; strings occur only as arguments; subscripts apply to
variable names only and hold comma separated expressions or slices.
"""
import re


class Reject(Exception):
    pass


NUMF = re.compile(r"(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+")
NUMI = re.compile(r"\d+")
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
OPS = ["**", "==", "<=", ">=", "*", "/", "+", "-", "<", ">", "=", ",", ":", "(", ")", "[", "]"]


def lex(s):
    i, out = 0, []
    while i < len(s):
        c = s[i]
        if c in " \t":
            i += 1
            continue
        m = NUMF.match(s, i)
        if m:
            out.append(("num", float(m.group())))
            i = m.end()
            continue
        m = NUMI.match(s, i)
        if m:
            out.append(("num", int(m.group())))
            i = m.end()
            continue
        if c in "\"'":
            j = i + 1
            while j < len(s) and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            if j >= len(s):
                raise Reject("open string")
            out.append(("str", s[i + 1:j]))
            i = j + 1
            continue
        m = NAME.match(s, i)
        if m:
            out.append(("name", m.group()))
            i = m.end()
            continue
        for op in OPS:
            if s.startswith(op, i):
                out.append((op, op))
                i += len(op)
                break
        else:
            raise Reject("bad character")
    return out


BP = {"==": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "**": 6}
SIGN = 5
FOLD = {
    "**": lambda a, b: a ** b, "-": lambda a, b: a - b, "+": lambda a, b: a + b, "*": lambda a, b: a * b,
    "/": lambda a, b: a / b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b,
    ">=": lambda a, b: a >= b, "==": lambda a, b: a == b,
}


class Parser(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def take(self, kind):
        if self.peek() != kind:
            raise Reject("expected %s at %d" % (kind, self.i))
        self.i += 1
        return self.t[self.i - 1][1]

    def expr(self, minbp=0):
        k = self.peek()
        if k in ("+", "-"):
            self.i += 1
            x = self.expr(SIGN)
            if k == "-":
                x = ("op", "-", [x]) if isinstance(x, tuple) else -x
        elif k == "num":
            x = self.take("num")
        elif k == "(":
            self.i += 1
            x = self.expr()
            self.take(")")
        elif k == "name":
            name = self.take("name")
            if self.peek() == "(":
                self.i += 1
                x = self.call(name)
            elif self.peek() == "[":
                self.i += 1
                x = self.subscript(name)
            else:
                x = ("var", name, [])
        else:
            raise Reject("expected operand at %d" % self.i)
        while True:
            op = self.peek()
            if op not in BP or BP[op] <= minbp:
                return x
            self.i += 1
            y = self.expr(BP[op])
            if isinstance(x, tuple) or isinstance(y, tuple):
                x = ("op", op, [x, y])
            else:
                x = FOLD[op](x, y)

    def arg(self):
        return self.take("str") if self.peek() == "str" else self.expr()

    def call(self, name):
        args, kwds = [], {}
        if self.peek() == ")":
            self.i += 1
            return ("call", name, args, kwds)
        while True:
            if self.peek() == "name" and self.peek(1) == "=":
                k = self.take("name")
                self.i += 1
                kwds[k] = self.arg()
            else:
                if kwds:
                    raise Reject("positional argument after keyword")
                args.append(self.arg())
            if self.peek() == ",":
                self.i += 1
            else:
                self.take(")")
                return ("call", name, args, kwds)

    def subscript(self, name):
        ind = []
        while True:
            parts, colons = [None], 0
            while True:
                if self.peek() == ":":
                    self.i += 1
                    colons += 1
                    parts.append(None)
                elif self.peek() in (",", "]", None):
                    break
                elif parts[-1] is None:
                    parts[-1] = self.expr()
                else:
                    raise Reject("garbage in subscript")
            if colons > 2 or (colons == 0 and parts[0] is None):
                raise Reject("bad subscript")
            ind.append(parts[0] if colons == 0 else ("slice", parts))
            if self.peek() == ",":
                self.i += 1
            else:
                self.take("]")
                return ("var", name, ind)


def canon_ref(x):
    if isinstance(x, tuple):
        if x[0] == "op":
            return ["op", x[1]] + [canon_ref(a) for a in x[2]]
        if x[0] == "call":
            return ["call", x[1], [canon_ref(a) for a in x[2]], sorted([k, canon_ref(v)] for k, v in x[3].items())]
        if x[0] == "var":
            return ["var", x[1]] + [canon_ref(a) for a in x[2]]
        if x[0] == "slice":
            p = list(x[1]) + [None] * (3 - len(x[1]))
            return ["slice"] + [canon_ref(a) for a in p]
    return repr(x)


def parse(s):
    p = Parser(lex(s))
    x = p.expr()
    if p.i != len(p.t):
        raise Reject("trailing tokens")
    return canon_ref(x)


def outcome(s):
    """canonical tree, or 'rejected' (also when folding constants fails, e.g. division by zero)"""
    try:
        return parse(s)
    except (Reject, ArithmeticError, TypeError, ValueError):
        return "rejected"


def canon_impl(x):
    from pyconform.parsing import FuncType, OpType, VarType

    if isinstance(x, OpType):
        return ["op", x.key] + [canon_impl(a) for a in x.args]
    if isinstance(x, FuncType):
        return ["call", x.key, [canon_impl(a) for a in x.args], sorted([k, canon_impl(v)] for k, v in x.kwds.items())]
    if isinstance(x, VarType):
        return ["var", x.key] + [canon_impl(a) for a in x.ind]
    if isinstance(x, slice):
        return ["slice"] + [canon_impl(a) for a in (x.start, x.stop, x.step)]
    return repr(x)


def impl_outcome(s):
    from pyconform.parsing import parse_definition

    try:
        t = parse_definition(s)
    except Exception:
        return "rejected"
    return canon_impl(t)
