"""Systematic small changes of the code under test, to see which the checks notice.

  mutate.py FILE COUNT SEED CHECKS[,..]   e.g. dataflow/optimizer.py 100 1 p14,p13,p15
Works on copies of the package under /tmp/mut; survivors are written to /tmp/mut/survivors.txt.
"""
import ast, copy, difflib, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def points(tree):
    """(description, function that changes the tree in place) for every place, as (index, kind, arg)"""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((i, "cmp", None))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(n.right, ast.Constant) & (getattr(n.right, "value", 0).__class__ is str):
            out.append((i, "bin", None))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", None))
            for k in range(len(n.values)):
                out.append((i, "drop", k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "not", None))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, "true", None))
            if not isinstance(n, ast.While):
                out.append((i, "false", None))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((i, "num", 1))
            out.append((i, "num", -1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, "flip", None))
        elif isinstance(n, ast.Call) and len(n.args) > 1:
            for k in range(len(n.args) - 1):
                out.append((i, "swap", k))
        elif isinstance(n, ast.Tuple) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            out.append((i, "dropelt", random.randrange(len(n.elts))))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break, ast.Raise)) or \
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                        out.append((i, "del-" + f, k))
    return out


def apply(tree, p):
    i, kind, k = p
    n = list(ast.walk(tree))[i]
    if kind == "cmp":
        n.ops = [CMP[type(n.ops[0])]()]
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop":
        del n.values[k]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind == "not":
        n.op = ast.Not()
        n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
    elif kind == "num":
        n.value += k
    elif kind == "flip":
        n.value = not n.value
    elif kind == "swap":
        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
    elif kind == "dropelt":
        del n.elts[k]
    else:
        getattr(n, kind[4:])[k] = ast.Pass()


def one(job):
    num, rel, src, p, checks, base = job
    tree = ast.parse(src)
    before = ast.unparse(tree)
    try:
        apply(tree, p)
        after = ast.unparse(ast.fix_missing_locations(tree))
        compile(after, rel, "exec")
    except Exception:
        return "invalid", "", ""
    if after == before:
        return "same", "", ""
    diff = "".join(difflib.unified_diff(before.splitlines(1), after.splitlines(1), rel, rel, n=2))
    d = os.path.join(base, "m%d" % num)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    shutil.copytree("/repo/pyverilog", d + "/repo/pyverilog", ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/repo/pyverilog/" + rel, "w").write(after)
    tmp = d + "/tmp"
    os.makedirs(tmp)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_OUT=d + "/out", VERIF_JOBS="1", VERIF_FAILFAST="1", VERIF_CPU_LIMIT="20",
               VERIF_WALL_CAP=os.environ.get("MUT_CAP", "25"), TMPDIR=tmp)
    res = "survived"
    for c in checks:
        try:
            q = subprocess.run([PY, "-W", "ignore", V + "/checks/%s.py" % c], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, text=True)
            if q.returncode == 1:
                k = [l for l in q.stdout.splitlines() if l.startswith("---")]
                res = "killed %s %s" % (c, k[0][:60] if k else "")
                break
            if q.returncode == 2:
                res = "error %s %s" % (c, q.stdout[-300:])
        except subprocess.TimeoutExpired:
            res = "timeout " + c
            break
    shutil.rmtree(d, ignore_errors=True)
    return res, diff, ""


def main():
    rel, count, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    only = sys.argv[5] if len(sys.argv) > 5 else None
    src = open("/repo/pyverilog/" + rel).read()
    random.seed(seed)
    tree = ast.parse(src)
    ps = points(tree)
    if only:
        # the functions named
        keep = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name in only.split(","):
                keep |= {id(x) for x in ast.walk(n)}
        nodes = list(ast.walk(tree))
        ps = [p for p in ps if id(nodes[p[0]]) in keep]
    random.shuffle(ps)
    if os.environ.get("MUT_RERUN"):
        # the places a survivors file lists
        ps = [ast.literal_eval(l[4:l.index(")") + 1]) for l in open(os.environ["MUT_RERUN"]) if l.startswith("=== (")]
        seed += 1000
    base = "/tmp/mut"
    os.makedirs(base, exist_ok=True)
    t0 = time.time()
    tally = {}
    tag = rel.replace("/", "_")
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex, open("%s/survivors_%s_%d.txt" % (base, tag, seed), "w") as f:
        jobs = [(hash((rel, seed)) % 10**6 * 1000 + i, rel, src, p, checks, base) for i, p in enumerate(ps[:count])]
        for (res, diff, _), j in zip(ex.map(one, jobs), jobs):
            k = res.split()[0]
            tally[k] = tally.get(k, 0) + 1
            if k in ("survived", "error"):
                f.write("=== %s %s\n%s\n" % (j[3], res, diff))
                f.flush()
    print(rel, "points", len(ps), tally, "%.0f s" % (time.time() - t0))


if __name__ == "__main__":
    main()
