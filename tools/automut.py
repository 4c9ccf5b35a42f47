"""automut.py OUT FILE N [CHECKS]: mutate FILE of /repo at N evenly spread places (one small change each), drop the mutants the stable tests find,
and run the checks against the others until one reports a violation.  Survivors are listed in OUT."""
import ast, json, os, shutil, subprocess, sys, tempfile, copy
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMPI_MCA_ess_singleton_isolated="1", OMPI_ALLOW_RUN_AS_ROOT="1",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
CMP2 = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def mutants(src):
    tree = ast.parse(src)
    out = []

    def put(node, new, what):
        seg = ast.get_source_segment(src, node)
        if seg is None:
            return
        lines = src.split("\n")
        off = lambda l, c: sum(len(x.encode()) + 1 for x in lines[:l - 1]) + c
        b = src.encode()
        i, j = off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)
        text = new if isinstance(new, str) else ast.unparse(new)
        if isinstance(new, ast.expr) and not isinstance(new, (ast.Constant, ast.Name)):
            text = "(" + text + ")"
        m = (b[:i] + text.encode() + b[j:]).decode()
        try:
            if ast.dump(ast.parse(m)) != ast.dump(tree):
                out.append((node.lineno, what, seg.split("\n")[0][:70] + " => " + text.split("\n")[0][:70], m))
        except SyntaxError:
            pass

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                doc.add(id(c))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for table in (CMP, CMP2):
                if type(n.ops[0]) in table:
                    c = copy.deepcopy(n); c.ops = [table[type(n.ops[0])]()]
                    put(n, c, "compare")
        elif isinstance(n, ast.BoolOp):
            c = copy.deepcopy(n); c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, c, "bool")
            for k in range(len(n.values)):
                c = copy.deepcopy(n); del c.values[k]
                put(n, c if len(c.values) > 1 else c.values[0], "drop operand")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            c = copy.deepcopy(n); c.op = OPS[type(n.op)]()
            put(n, c, "arith")
        elif isinstance(n, ast.UnaryOp):
            put(n, copy.deepcopy(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, ast.Constant(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                put(n, ast.Constant(n.value + 1), "const")
                if n.value > 1:
                    put(n, ast.Constant(n.value - 1), "const")
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and len(n.value) < 20 and n.value and "{" not in n.value:
                put(n, ast.Constant(n.value + "x"), "text")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, ast.UnaryOp(ast.Not(), copy.deepcopy(n.test)), "negate")
            if isinstance(n, ast.If):
                put(n.test, ast.Constant(False), "never")
                put(n.test, ast.Constant(True), "always")
        elif isinstance(n, ast.IfExp):
            put(n, copy.deepcopy(n.body), "then"); put(n, copy.deepcopy(n.orelse), "else")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "drop statement")
        elif isinstance(n, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(n, part) is not None:
                    c = copy.deepcopy(n); setattr(c, part, None)
                    put(n, ast.unparse(c), "slice")
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    c = copy.deepcopy(n); del c.keywords[k]
                    put(n, ast.unparse(c), "drop keyword")
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if f in ("sorted", "tuple", "list", "abs", "set", "float", "int", "str", "copy", "filled", "reversed", "squeeze") and (len(n.args) == 1 or f == "copy" and not n.args):
                put(n, copy.deepcopy(n.args[0] if n.args and isinstance(n.func, ast.Name) else n.func.value if isinstance(n.func, ast.Attribute) else n.args[0]), "unwrap")
            if f in ("min", "max", "any", "all", "first", "append", "maximum", "minimum", "argmin", "argmax", "zeros", "ones"):
                other = {"min": "max", "max": "min", "any": "all", "all": "any", "maximum": "minimum", "minimum": "maximum", "argmin": "argmax", "argmax": "argmin",
                         "zeros": "ones", "ones": "zeros"}.get(f)
                if other:
                    c = copy.deepcopy(n)
                    if isinstance(c.func, ast.Name): c.func.id = other
                    else: c.func.attr = other
                    put(n, ast.unparse(c), "swap")
    seen, res = set(), []
    for m in sorted(out, key=lambda m: m[0]):
        if m[3] not in seen:
            seen.add(m[3]); res.append(m)
    return res


def where(src, line):
    best = ""
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            best = best + "." + n.name
    return best.strip(".")


def copyrepo():
    d = tempfile.mkdtemp(prefix="automut.", dir="/dev/shm")
    for x in os.listdir("/repo"):
        if x not in (".git",):
            subprocess.check_call(["cp", "-a", "/repo/" + x, d])
    return d


def tested(job):
    d, path, m = job
    with open(os.path.join(d, path), "w") as f:
        f.write(m[3])
    r = os.path.join(d, "junit.xml")
    o = os.path.join(d, "out.json")
    for x in (r, o):
        if os.path.exists(x): os.remove(x)
    try:
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=100", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                    "--junitxml=" + r], cwd=d, env=ENV, capture_output=True, timeout=200)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + r], cwd=d, capture_output=True)
        res = json.load(open(o))
    except Exception as e:
        return False
    return STABLE <= set(res.get("passed", []))


def checked(d, path, m, checks):
    with open(os.path.join(d, path), "w") as f:
        f.write(m[3])
    for c in checks:
        try:
            p = subprocess.run(["./check.sh", c], cwd="/tmp/vm", env=dict(ENV, PYCONFORM_REPO=d), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return c + " TIMEOUT"
        if "VIOLATION" in p.stdout or p.returncode not in (0,):
            return c
    return None


if __name__ == "__main__":
    outp, path, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    checks = sys.argv[4].split()
    lo, hi = (int(x) for x in sys.argv[5].split("-")) if len(sys.argv) > 5 else (0, 10 ** 9)
    shutil.rmtree("/tmp/vm", ignore_errors=True) if False else None
    if not os.path.exists("/tmp/vm"):
        subprocess.check_call(["cp", "-a", "/verif", "/tmp/vm"])
    src = open("/repo/" + path).read()
    ms = [m for m in mutants(src) if lo <= m[0] <= hi]
    pick = ms if len(ms) <= n else [ms[int(i * len(ms) / n)] for i in range(n)]
    print(path, len(ms), "mutants,", len(pick), "picked", flush=True)
    dirs = [copyrepo() for _ in range(8)]
    try:
        import queue
        q = queue.Queue()
        [q.put(d) for d in dirs]

        def one(m):
            d = q.get()
            try:
                return tested((d, path, m))
            finally:
                q.put(d)
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(one, pick))
        alive = [m for m, a in zip(pick, ok) if a]
        print(path, len(alive), "pass the tests", flush=True)

        def two(m):
            d = q.get()
            try:
                return checked(d, path, m, checks)
            finally:
                q.put(d)
        with ThreadPoolExecutor(3) as ex:
            for m, k in zip(alive, ex.map(two, alive)):
                line = "%s:%d %s [%s] %s | %s" % (path, m[0], where(src, m[0]), m[1], m[2], "killed by " + k if k else "SURVIVED")
                print(line, flush=True)
                open(outp, "a").write(line + "\n")
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
