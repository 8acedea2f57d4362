"""mutants.py [--list] [--only FILE-substring] [--workers N]: systematic small mutations of the
library.  Those the repository's tests do not notice are run against the checks; survivors
are printed, to be judged by hand (equivalent, excluded input, or a gap of the generator)."""
import ast, concurrent.futures as cf, copy, json, os, shutil, subprocess, sys

REPO = "/repo"
OUT = "/tmp/mutants"
CHECKS = [tuple([x.split(":")[0], int(x.split(":")[1])]) for x in os.environ.get("CHECKS", "").split()] or [("C01", 2500), ("C03", 500), ("C02", 500), ("C04", 500), ("C11", 500), ("C13", 300), ("C15", 300),
          ("C12", 60), ("C08", 200), ("C07", 200), ("C10", 200), ("C06", 100)]


def files():
    for d, _, fs in os.walk(REPO + "/pytiled_parser"):
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("version.py", "__pyinstaller.py"):
                yield os.path.relpath(os.path.join(d, f), REPO)


def sites(tree):
    """(description, function that mutates a fresh copy's node) for every mutation."""
    nodes = [n for n in ast.walk(tree)]
    out = []

    def parents():
        p = {}
        for n in nodes:
            for c in ast.iter_child_nodes(n):
                p[id(c)] = n
        return p
    par = parents()

    def skip(n):
        # annotations, class bodies of TypedDicts, docstrings, imports
        m = n
        while id(m) in par:
            q = par[id(m)]
            if isinstance(q, ast.AnnAssign) and q.annotation is m:
                return True
            if isinstance(q, (ast.FunctionDef,)) and (q.returns is m):
                return True
            if isinstance(q, ast.arg) and q.annotation is m:
                return True
            if isinstance(q, ast.ClassDef) and any("Dict" in ast.dump(b) for b in q.bases):
                return True
            if isinstance(q, ast.Call) and getattr(q.func, "id", "") in ("cast", "TypeVar", "TypedDict"):
                return True
            if isinstance(q, ast.Assign) and getattr(q.targets[0], "attr", "") == "__doc__":
                return True
            if isinstance(q, ast.If) and getattr(q.test, "id", "") == "TYPE_CHECKING":
                return True
            if isinstance(q, ast.Raise):
                return True
            m = q
        return False
    for i, n in enumerate(nodes):
        if skip(n):
            continue
        line = getattr(n, "lineno", 0)

        def add(what, fn, i=i, line=line):
            out.append((line, what, i, fn))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            if isinstance(op, ast.IsNot):
                add("truthy instead of is not None", lambda x: x.left)
                add("is None", lambda x: ast.Compare(x.left, [ast.Is()], x.comparators))
            elif isinstance(op, ast.Is):
                add("is not", lambda x: ast.Compare(x.left, [ast.IsNot()], x.comparators))
                add("not truthy instead of is None", lambda x: ast.UnaryOp(ast.Not(), x.left))
            elif isinstance(op, ast.Eq):
                add("!=", lambda x: ast.Compare(x.left, [ast.NotEq()], x.comparators))
            elif isinstance(op, ast.NotEq):
                add("==", lambda x: ast.Compare(x.left, [ast.Eq()], x.comparators))
            elif isinstance(op, ast.In):
                add("not in", lambda x: ast.Compare(x.left, [ast.NotIn()], x.comparators))
            elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                new = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(op)]
                add("off by one " + new.__name__, lambda x, new=new: ast.Compare(x.left, [new()], x.comparators))
        elif isinstance(n, ast.BoolOp):
            add("and<->or", lambda x: ast.BoolOp(ast.Or() if isinstance(x.op, ast.And) else ast.And(), x.values))
            for k in range(len(n.values)):
                add("drop operand %d" % k, lambda x, k=k: x.values[1 - k] if len(x.values) == 2 else ast.BoolOp(
                    x.op, x.values[:k] + x.values[k + 1:]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("drop not", lambda x: x.operand)
        elif isinstance(n, ast.BinOp):
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult,
                   ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr}.get(type(n.op))
            if new:
                add("operator " + new.__name__, lambda x, new=new: ast.BinOp(x.left, new(), x.right))
            if isinstance(n.op, ast.Div):
                add("right operand only", lambda x: x.right)
        elif isinstance(n, ast.Constant) and not isinstance(par.get(id(n)), ast.Expr):
            v = n.value
            if isinstance(v, bool):
                add("constant %r" % (not v), lambda x: ast.Constant(not x.value))
            elif isinstance(v, (int, float)):
                add("constant +1", lambda x: ast.Constant(x.value + 1))
            elif isinstance(v, str):
                add("constant %r" % (v + "_"), lambda x: ast.Constant(x.value + "_"))
            elif v is None and isinstance(par.get(id(n)), (ast.Return,)):
                pass
        elif isinstance(n, (ast.If, ast.IfExp)):
            add("condition true", lambda x: (setattr(x, "test", ast.Constant(True)), x)[1])
            add("condition false", lambda x: (setattr(x, "test", ast.Constant(False)), x)[1])
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(par.get(id(n)), (ast.Module, ast.ClassDef)) or getattr(n, "value", 1) is None:
                continue
            add("statement dropped", lambda x: ast.Pass())
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("float", "int", "str", "list", "dict", "tuple", "resolve", "absolute", "strip", "deepcopy"):
                add("call of %s dropped" % name, lambda x: x.args[0] if x.args else x.func.value)
            if name == "float":
                add("float->int", lambda x: ast.Call(ast.Name("int", ast.Load()), [x], []))
            if name == "append":
                add("append->insert(0)", lambda x: ast.Call(ast.Attribute(x.func.value, "insert", ast.Load()),
                                                            [ast.Constant(0)] + x.args, []))
            for k, kw in enumerate(n.keywords):
                if kw.arg and name != "define" and not isinstance(par.get(id(n)), ast.ClassDef):
                    add("keyword %s dropped" % kw.arg,
                        lambda x, k=k: (setattr(x, "keywords", x.keywords[:k] + x.keywords[k + 1:]), x)[1])
            if name == "get" and len(n.args) == 2:
                add("default of get dropped", lambda x: (setattr(x, "args", x.args[:1]), x)[1])
        elif isinstance(n, ast.For):
            add("first item only", lambda x: (x.body.append(ast.Break()), x)[1])
            add("last item skipped", lambda x: (setattr(x, "iter", ast.Subscript(
                ast.Call(ast.Name("list", ast.Load()), [x.iter], []),
                ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())), x)[1])
        elif isinstance(n, ast.Break):
            add("break->pass", lambda x: ast.Pass())
    return out


class Put(ast.NodeTransformer):
    def __init__(self, target, fn):
        self.t, self.fn = target, fn

    def generic_visit(self, node):
        if node is self.t:
            return self.fn(node)
        return super().generic_visit(node)

    visit = generic_visit


def mutants():
    for f in files():
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        for line, what, i, fn in sites(tree):
            yield f, line, what, i, fn


def source(f, i, fn):
    tree = ast.parse(open(os.path.join(REPO, f)).read())
    node = list(ast.walk(tree))[i]
    new = Put(node, fn).visit(tree)
    ast.fix_missing_locations(new)
    return ast.unparse(new) + "\n"


def run(job):
    k, f, line, what, text = job
    w = "%s/w%d" % (OUT, k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call("cp -a /repo/pytiled_parser /repo/tests /repo/pyproject.toml %s/ 2>/dev/null; true" % w, shell=True)
    open(os.path.join(w, f), "w").write(text)
    res = None
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                           cwd=w, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=w), timeout=120)
        if p.returncode:
            res = "tests"
        else:
            p = subprocess.run([os.environ.get("HUNT", "/verif") + "/check", "hunt"] + ["%s:%d" % x for x in CHECKS],
                               capture_output=True, text=True, timeout=1800,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_WORKERS="1"))
            if p.returncode == 1:
                res = p.stdout.split()[0]
            elif p.returncode:
                res = "odd " + (p.stdout + p.stderr)[-300:]
    except subprocess.TimeoutExpired:
        res = "timeout"
    shutil.rmtree(w, ignore_errors=True)
    return f, line, what, res


def main(argv):
    skip = argv[argv.index("--skip") + 1] if "--skip" in argv else None
    only = argv[argv.index("--only") + 1] if "--only" in argv else ""
    nw = int(argv[argv.index("--workers") + 1]) if "--workers" in argv else 8
    jobs = []
    for f, line, what, i, fn in mutants():
        if only not in f or skip and skip in f:
            continue
        t = source(f, i, fn)
        try:
            compile(t, f, "exec")
        except SyntaxError:
            continue
        jobs.append((len(jobs), f, line, what, t))
    print(len(jobs), "mutants", flush=True)
    if "--list" in argv:
        for k, f, line, what, t in jobs:
            print(f, line, what)
        return
    count = {}
    with cf.ThreadPoolExecutor(nw) as ex:
        for fut in cf.as_completed([ex.submit(run, j) for j in jobs]):
            f, line, what, res = fut.result()
            count[res if res and len(res) < 8 else "odd" if res else None] = count.get(res, 0) + 1
            if res != "tests":
                print("%-9s %s:%d %s" % (res or "SURVIVES", f, line, what), flush=True)
    print(count)


if __name__ == "__main__":
    main(sys.argv[1:])
