"""Mutation survey: how many small syntactic changes of /repo/src that pass the tests do the checks notice?

Only a development aid (no check uses it).  Works in scratch copies.

    mutate.py OUT.jsonl [--stride N] [--only FILE-SUBSTRING] [--survivors IN.jsonl]

With a stride, every N-th case of each space is run (a cheap first pass); survivors of that pass are
run again without a stride by passing its output as --survivors.
"""
import ast, copy, json, os, queue, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/compas_cem/"
MAP = [
    ("equilibrium/force.py", "C01 C02 C03 C18 C04 C19 C10 C05"),
    ("equilibrium/force_numpy.py", "C01 C02 C03 C16 C04 C19 C10 C05 C14"),
    ("diagrams/topology/topology.py", "C06 C09 C07 C08 C21 C12 C01 C10 C11"),
    ("diagrams/topology/mesh_mixins.py", "C20"),
    ("diagrams/", "C11 C21 C12 C08 C03 C05 C10"),
    ("elements/", "C10 C11 C12 C21 C03 C23"),
    ("loads/", "C10 C11 C12 C21 C23"),
    ("supports/", "C10 C11 C12 C21 C23"),
    ("optimization/constraints/", "C17 C13 C16 C14 C23"),
    ("optimization/parameters/", "C13 C15 C16 C14 C23"),
    ("optimization/", "C14 C15 C16 C17 C23 C11"),
    ("plotters/", "C22"),
    ("viewers/", "C22"),
    ("ghpython/artists", "C22 C23"),
    ("ghpython/", "C23"),
    ("data", "C12 C13"),
    ("", "C01 C12 C13 C21 C22 C23"),
]
SKIP = ("plotters/proxy.py", "constraints/mesh.py", "ghpython/install", "ghpython/uninstall", "components/__init__", "__main__")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def skip_func(n):
    return isinstance(n, (ast.FunctionDef,)) and n.name in ("__repr__", "__str__")


def mutants(src):
    """Yields (line, description, new source)."""
    tree = ast.parse(src)
    nodes = []

    def walk(n, parent, field, idx):
        if skip_func(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            if isinstance(n, (ast.Raise, ast.Assert)):
                nodes.append((n, parent, field, idx))
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            return
        nodes.append((n, parent, field, idx))
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, n, f, i)
            elif isinstance(v, ast.AST):
                walk(v, n, f, None)
    walk(tree, None, None, None)

    def emit(n, desc):
        return (getattr(n, "lineno", 0), desc, ast.unparse(tree))

    for n, par, f, i in nodes:
        def put(new):
            if i is None:
                setattr(par, f, new)
            else:
                getattr(par, f)[i] = new
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            old = n.ops[0]
            n.ops[0] = CMP[type(old)]()
            yield emit(n, "cmp %s" % type(old).__name__)
            n.ops[0] = old
            if isinstance(old, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                n.ops[0] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(old)]()
                yield emit(n, "cmp reverse")
                n.ops[0] = old
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            old = n.op
            n.op = BIN[type(old)]()
            yield emit(n, "op %s" % type(old).__name__)
            n.op = old
        elif isinstance(n, ast.BoolOp):
            old = n.op
            n.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            yield emit(n, "bool")
            n.op = old
            if f != "test" or True:
                for v in n.values:
                    put(v)
                    yield emit(n, "bool operand only: " + ast.unparse(v)[:40])
                    put(n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n.operand)
            yield emit(n, "drop unary")
            put(n)
        elif isinstance(n, ast.Constant) and par is not None and not isinstance(par, ast.JoinedStr):
            old = n.value
            if isinstance(old, bool):
                n.value = not old
            elif isinstance(old, int):
                n.value = old + 1
            elif isinstance(old, float):
                n.value = old * 1.5 + 0.1
            else:
                continue
            yield emit(n, "const %r -> %r" % (old, n.value))
            n.value = old
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            old = n.test
            for val in (True, False):
                n.test = ast.Constant(val)
                yield emit(n, "test %s" % val)
            n.test = old
        if isinstance(n, ast.stmt) and par is not None and f in ("body", "orelse") and isinstance(i, int):
            drop = isinstance(n, (ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Assert, ast.Delete)) or \
                (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)) or \
                (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or \
                (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name))
            if drop and not isinstance(par, (ast.Module, ast.ClassDef)):
                put(ast.Pass())
                yield emit(n, "delete: " + ast.unparse(n)[:60])
                put(n)
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                old = n.value
                n.value = ast.Constant(None)
                yield emit(n, "return None")
                n.value = old
        if isinstance(n, ast.Call):
            for j in range(len(n.keywords)):
                k = n.keywords.pop(j)
                yield emit(n, "drop kw %s" % k.arg)
                n.keywords.insert(j, k)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                n.args[0], n.args[1] = n.args[1], n.args[0]
                yield emit(n, "swap args of " + ast.unparse(n.func)[:30])
                n.args[0], n.args[1] = n.args[1], n.args[0]
            if len(n.args) >= 1 and isinstance(n.func, ast.Name) and n.func.id in ("abs", "list", "float", "sorted", "reversed", "tuple", "set", "fabs", "enumerate"):
                put(n.args[0])
                yield emit(n, "unwrap %s" % n.func.id)
                put(n)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


class Lane(object):
    def __init__(self, root, i, stride, jobs):
        self.dir = os.path.join(root, str(i))
        self.repo, self.verif = self.dir + "/repo", self.dir + "/verif"
        os.makedirs(self.dir)
        sh("cp -a /repo %s" % self.repo)
        os.makedirs(self.verif)
        sh("cp -a check setup mc checks known_findings.json %s/" % self.verif, cwd=V)
        sh("sed -i 's#/repo/src#%s/src#g' check mc/main.py" % self.repo, cwd=self.verif)
        sh("sed -i 's#if i % n != w:#if i % (n * {0}) != w * {0}:#' mc/core.py".format(stride), cwd=self.verif)
        sh("sed -i 's#^CASE_TIMEOUT = 120#CASE_TIMEOUT = 40#' mc/core.py", cwd=self.verif)
        self.env = dict(os.environ, PYTHONPATH=self.repo + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", VERIF_JOBS=str(jobs), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def main():
    out = sys.argv[1]
    opt = {}
    a = sys.argv[2:]
    while a:
        opt[a[0].lstrip("-")] = a[1]
        a = a[2:]
    stride = int(opt.get("stride", 1))
    jobs = int(opt.get("jobs", 1))
    only = opt.get("only", "")
    skip = int(opt.get("every", 1))
    todo = []
    if "survivors" in opt:
        for ln in open(opt["survivors"]):
            d = json.loads(ln)
            if d["result"] == "SURVIVED" and only in d["file"]:
                todo.append(d)
    else:
        files = sh("git -C /repo ls-files src").stdout.split()
        for f in files:
            if not f.endswith(".py") or only not in f or any(s in f for s in SKIP):
                continue
            src = open("/repo/" + f).read()
            base = ast.unparse(ast.parse(src))
            for k, (line, desc, new) in enumerate(mutants(src)):
                text = src.splitlines()[line - 1] if line else ""
                dull = "print(" in text or "__all__" in text or "verbose" in text or desc == "swap args of msg.format" or \
                    any(desc == "swap args of " + c for c in ("add_vectors", "distance_point_point", "dot_vectors", "isinstance"))
                if new != base and not dull:
                    todo.append({"file": f, "k": k, "line": line, "desc": desc})
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["k"]) for d in map(json.loads, open(out))}
    todo = [d for d in todo if (d["file"], d["k"]) not in done][::skip]
    print(len(todo), "mutants", flush=True)
    if "list" in opt:
        return
    root = tempfile.mkdtemp(prefix="mutate_")
    lock = threading.Lock()
    lanes = queue.Queue()
    nl = int(opt.get("lanes", 8))
    for i in range(nl):
        lanes.put(Lane(root, i, stride, jobs))

    def job(d):
        lane = lanes.get()
        try:
            path = os.path.join(lane.repo, d["file"])
            src = open("/repo/" + d["file"]).read()
            new = next(m for k, m in enumerate(mutants(src)) if k == d["k"])[2]
            open(path, "w").write(new)
            d = {x: d[x] for x in ("file", "k", "line", "desc")}
            rel = d["file"][len(SRC):]
            try:
                t = sh("timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider", cwd=lane.repo, env=lane.env)
                if " passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout.splitlines()[-1]:
                    d["result"] = "tests"
                else:
                    checks = next(c for p, c in MAP if rel.startswith(p)).split()
                    d["result"] = "SURVIVED"
                    for c in checks:
                        r = sh("timeout 900 ./check %s quick" % c, cwd=lane.verif, env=lane.env)
                        if r.returncode != 0:
                            d["result"] = c if r.returncode == 1 else "%s:exit %d" % (c, r.returncode)
                            break
            finally:
                open(path, "w").write(src)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(d) + "\n")
        except Exception as e:
            print("ERR", d, repr(e)[:300], flush=True)
        finally:
            lanes.put(lane)
    try:
        with ThreadPoolExecutor(nl) as ex:
            list(ex.map(job, todo))
    finally:
        shutil.rmtree(root)


main()
