#!/usr/bin/env python3
"""rand.py PID[,PID] file[:func,func] N SEED: random mutants; prints those no check reports"""
import ast, concurrent.futures, copy, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SKIPF = ("__str__", "__repr__", "visualize", "plot_label", "log", "vue", "_repr_mimebundle_")


def sites(tree, only):
    """(description, apply(tree copy)) for each possible mutation, by node path"""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in SKIPF or only and fn.name not in only:
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.FunctionDef) and n is not fn:
                continue
            ln = getattr(n, "lineno", 0)
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out += [(fn.name, ln, n, "const+1"), (fn.name, ln, n, "const0")]
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((fn.name, ln, n, "notbool"))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                out.append((fn.name, ln, n, "binop"))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                out += [(fn.name, ln, n, "cmp"), (fn.name, ln, n, "neg")]
            elif isinstance(n, ast.BoolOp):
                out += [(fn.name, ln, n, "andor"), (fn.name, ln, n, "drop")]
            elif isinstance(n, ast.UnaryOp):
                out.append((fn.name, ln, n, "unary"))
            elif isinstance(n, ast.Call) and len(n.args) >= 2:
                out.append((fn.name, ln, n, "swapargs"))
            elif isinstance(n, ast.Call) and n.keywords:
                out.append((fn.name, ln, n, "dropkw"))
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                out.append((fn.name, ln, n, "slice"))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                if isinstance(n, ast.Expr) and "log" in ast.unparse(n)[:4]:
                    continue
                out.append((fn.name, ln, n, "delete"))
            elif isinstance(n, ast.If):
                out += [(fn.name, ln, n, "iftrue"), (fn.name, ln, n, "iffalse")]
            elif isinstance(n, ast.Attribute) and n.attr in ("nx", "ny", "nz", "x", "y", "z", "vx", "vy", "vz"):
                out.append((fn.name, ln, n, "axis"))
    return out


def mutate(n, kind, rnd):
    if kind == "const+1":
        n.value += 1
    elif kind == "const0":
        n.value = 0 if n.value else 2
    elif kind == "notbool":
        n.value = not n.value
    elif kind == "binop":
        n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]()
    elif kind == "cmp":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
             ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops = [m[type(n.ops[0])]()]
    elif kind == "neg":
        m = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
             ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops = [m[type(n.ops[0])]()]
    elif kind == "andor":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop":
        n.values = n.values[:-1] if rnd.random() < .5 else n.values[1:]
        if len(n.values) == 1:
            n.values = n.values * 2
    elif kind == "unary":
        if isinstance(n.op, ast.USub):
            n.op = ast.UAdd()
        elif isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "swapargs":
        k = rnd.randrange(len(n.args) - 1)
        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
    elif kind == "dropkw":
        n.keywords = n.keywords[:-1]
    elif kind == "slice":
        s = n.slice
        if s.lower is not None and (s.upper is None or rnd.random() < .5):
            s.lower = None
        elif s.upper is not None:
            s.upper = None
        else:
            s.lower = ast.Constant(1)
    elif kind == "axis":
        n.attr = n.attr[:-1] + {"x": "y", "y": "x", "z": "y"}[n.attr[-1]]
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.Constant(kind == "iftrue")


def main():
    pids = sys.argv[1].split(",")
    rel, _, fns = sys.argv[2].partition(":")
    N, seed = int(sys.argv[3]), sys.argv[4]
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    src = open("/repo/pylbm/" + rel).read()
    tree = ast.parse(src)
    ss = sites(tree, fns.split(",") if fns else None)
    rnd = random.Random(seed + rel)
    rnd.shuffle(ss)
    base = ast.unparse(tree)
    jobs = []
    for fname, ln, node, kind in ss:
        if len(jobs) >= N:
            break
        node_id = [k for k, x in enumerate(ast.walk(tree)) if x is node][0]
        t = copy.deepcopy(tree)
        x = list(ast.walk(t))[node_id]
        if kind == "delete":
            for p in ast.walk(t):
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(p, f, None)
                    if isinstance(b, list) and any(y is x for y in b):
                        b[[y is x for y in b].index(True)] = ast.Pass()
        else:
            mutate(x, kind, rnd)
        ast.fix_missing_locations(t)
        new = ast.unparse(t)
        if new == base:
            continue
        a, b = base.splitlines(), new.splitlines()
        import difflib
        d = [l for l in difflib.unified_diff(a, b, n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        jobs.append((fname, ln, kind, new, d))

    def one(j):
        d = tempfile.mkdtemp(prefix="rand", dir="/tmp")
        try:
            shutil.copytree("/repo/pylbm", d + "/pylbm", ignore=shutil.ignore_patterns("__pycache__"))
            open(d + "/pylbm/" + rel, "w").write(j[3])
            for pid in pids:
                try:
                    r = subprocess.run([ROOT + "/check", pid], env=dict(os.environ, PYLBM_REPO=d), capture_output=True, text=True, timeout=800)
                    if r.returncode == 1:
                        return pid
                    if r.returncode != 0:
                        return "RC%d %s" % (r.returncode, pid)
                except subprocess.TimeoutExpired:
                    return "TIMEOUT " + pid
            return None
        finally:
            shutil.rmtree(d)

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, jobs))
    for j, r in zip(jobs, res):
        if r is None or " " in r:
            print("SURVIVES" if r is None else r, rel, j[0], j[1], j[2], "\n    " + "\n    ".join(x[:150] for x in j[4][:4]))
    print("%s %s: %d mutants, %d survive" % (sys.argv[1], rel, len(jobs), sum(r is None for r in res)))


if __name__ == "__main__":
    main()
