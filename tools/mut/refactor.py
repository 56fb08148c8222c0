#!/usr/bin/env python3
"""refactor.py SEED KIND[,KIND] OUTDIR [P]: a copy of /repo/pylbm rewritten without changing what it does"""
import ast, builtins, copy, os, random, shutil, sys

SKIP = ("viewer", "__init__.py", "options.py", "generator/printing")


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def simple_fn(f):
    """no nested scopes that capture, no introspection"""
    for x in ast.walk(f):
        if x is f:
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Lambda)):
            return False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec", "super", "dir"):
            return False
    return True


class Base(ast.NodeTransformer):
    def __init__(self, rnd, p):
        self.rnd, self.p, self.k, self.count = rnd, p, 0, 0
        self.extra = []

    def hit(self):
        r = self.rnd.random() < self.p
        self.count += r
        return r

    def new(self, base="tmp"):
        self.k += 1
        return "%s_%d" % (base, self.k)


class Rename(Base):
    def visit_FunctionDef(self, f):
        if not simple_fn(f):
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        if f.args.vararg:
            params.add(f.args.vararg.arg)
        if f.args.kwarg:
            params.add(f.args.kwarg.arg)
        imported = {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        handlers = {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler)}
        loc = sorted(stores(f) - params - imported - handlers)
        m = {v: self.new("v_" + v) for v in loc if self.hit()}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return f


class Negate(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.hit():
            n.test = ast.UnaryOp(ast.Not(), n.test) if not (isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not)) else n.test.operand
            n.body, n.orelse = n.orelse, n.body
        return n


class Flip(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in o and not has(n, ast.Call) and self.hit():
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [o[type(n.ops[0])]()]
        return n


class Block(Base):
    """statement level transformations"""

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.Module, ast.ClassDef)):
            return n
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for k, s in enumerate(b):
                    out += self.stmt(s, b[k + 1:])
                setattr(n, f, out)
        return n


class Temp(Block):
    def stmt(self, s, rest):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)) and self.hit():
            t = self.new()
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)) and self.hit():
            t = self.new()
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        c = s.value if isinstance(s, (ast.Assign, ast.Expr)) else None
        if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], (ast.BinOp, ast.Call, ast.List, ast.Subscript)) and isinstance(
                c.func, (ast.Name, ast.Attribute)) and not has(c.func, ast.Call) and self.hit():
            t = self.new("arg")
            a = ast.Assign([ast.Name(t, ast.Store())], c.args[0])
            c.args[0] = ast.Name(t, ast.Load())
            return [a, s]
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and self.hit():
            t = self.new("cond")
            a = ast.Assign([ast.Name(t, ast.Store())], s.test)
            s.test = ast.Name(t, ast.Load())
            return [a, s]
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name) and self.hit():
            t = self.new("seq")
            a = ast.Assign([ast.Name(t, ast.Store())], s.iter)
            s.iter = ast.Name(t, ast.Load())
            return [a, s]
        return [s]


class Loop(Block):
    """comprehension -> loop"""

    def stmt(self, s, rest):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(
                s.value.generators) == 1 and not s.value.generators[0].is_async and self.hit():
            c = s.value
            if has(c.elt if isinstance(c, ast.ListComp) else c.value, ast.Lambda):
                return [s]
            m = {v: self.new("c_" + v) for v in stores(c)}
            g = c.generators[0]
            inner = [c.elt] if isinstance(c, ast.ListComp) else [c.key, c.value]
            for root in inner + g.ifs + [g.target]:
                for x in ast.walk(root):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
            t = self.new("acc")
            if isinstance(c, ast.ListComp):
                add = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [c.elt], []))
                init = ast.List([], ast.Load())
            else:
                add = ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), c.key, ast.Store())], c.value)
                init = ast.Dict([], [])
            body = [add]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            s.value = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, []), s]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and self.hit():
            v = s.value
            return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
        return [s]


class Else(Base):
    """if c: ...return; rest  ->  if c: ...return else: rest; and continue likewise"""

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For)):
            b = n.body
            for k, s in enumerate(b[:-1]):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and self.hit():
                    s.orelse = b[k + 1:]
                    n.body = b[:k + 1]
                    break
        return n


class Extract(Base):
    """the value of an assignment or a return computed by a new function of the module"""

    def visit_FunctionDef(self, f):
        if not simple_fn(f):
            return f
        loc = stores(f) | {a.arg for a in f.args.args + f.args.kwonlyargs}
        if f.args.vararg:
            loc.add(f.args.vararg.arg)
        if f.args.kwarg:
            loc.add(f.args.kwarg.arg)
        loc |= {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for s in ast.walk(f):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp, ast.Subscript)) and not has(
                    s.value, ast.NamedExpr, ast.Yield, ast.Await) and not any(
                    isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(s.value)) and self.hit():
                bound = stores(s.value)
                use = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & loc - bound)
                if bound & {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and not any(x is y for y in ast.walk(s.value))}:
                    continue
                h = self.new("_part_of_" + f.name.strip("_"))
                self.extra.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in use], None, [], [], None, []),
                                                  [ast.Return(s.value)], [], None))
                s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
        return f


class Method(Base):
    """a run of simple statements of a method moved to a new method"""

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" and not f.decorator_list and simple_fn(f) and f.name != "__getattr__":
                new = self.split(f)
                if new is not None:
                    out.append(new)
        c.body = out
        return c

    def split(self, f):
        loc = stores(f) | {a.arg for a in f.args.args + f.args.kwonlyargs}
        loc |= {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        if f.args.vararg or f.args.kwarg or len(f.body) < 3 or not self.hit():
            return None
        n = len(f.body)
        i = self.rnd.randrange(0, n - 1)
        j = self.rnd.randrange(i + 1, n + 1)
        blk = f.body[i:j]
        if i == 0 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            blk = f.body[1:j]
            i = 1
            if not blk:
                return None
        if any(has(s, ast.Return, ast.Import, ast.ImportFrom, ast.Delete) for s in blk):
            return None
        inside = lambda ss: {x.id for s in ss for x in ast.walk(s) if isinstance(x, ast.Name)}
        before = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for s in f.body[:i]:
            before |= stores(s) | {(a.asname or a.name).split(".")[0] for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        wr = set().union(*[stores(s) for s in blk])
        use = sorted(inside(blk) & before - {"self"})
        outs = sorted(wr & inside(f.body[j:]))
        if any(o not in before and not any(isinstance(s, ast.Assign) and o in stores(s) for s in blk) for o in outs):
            return None
        # variables of before may be unbound on some path: only those assigned at the top level
        top = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for s in f.body[:i]:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Import, ast.ImportFrom)):
                top |= stores(s) | ({(a.asname or a.name).split(".")[0] for a in s.names} if hasattr(s, "names") else set())
        if not set(use) <= top:
            return None
        name = self.new("_step_of_" + f.name.strip("_"))
        ret = ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()) if outs else None
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
        if not outs:
            st = ast.Expr(call)
        elif len(outs) == 1:
            st = ast.Assign([ast.Name(outs[0], ast.Store())], call)
        else:
            st = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)
        f.body = f.body[:i] + [st] + f.body[j:]
        return ast.FunctionDef(name, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in use], None, [], [], None, []),
                               blk + ([ast.Return(ret)] if ret is not None else []), [], None)


KINDS = dict(rename=Rename, negate=Negate, flip=Flip, temp=Temp, loop=Loop, els=Else, extract=Extract, method=Method)


def main():
    seed, kinds, out = sys.argv[1:4]
    p = float(sys.argv[4]) if len(sys.argv) > 4 else 0.3
    only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree("/repo/pylbm", out + "/pylbm", ignore=shutil.ignore_patterns("__pycache__"))
    total = 0
    for base, _, files in os.walk(out + "/pylbm"):
        for f in sorted(files):
            path = os.path.join(base, f)
            rel = os.path.relpath(path, out + "/pylbm")
            if not f.endswith(".py") or any(s in rel for s in SKIP) or only and rel not in only:
                continue
            tree = ast.parse(open(path).read())
            extra = []
            for k in kinds.split(","):
                t = KINDS[k](random.Random("%s %s %s" % (seed, k, rel)), p)
                tree = t.visit(tree)
                extra += t.extra
                total += t.count
            tree.body += extra
            ast.fix_missing_locations(tree)
            open(path, "w").write(ast.unparse(tree) + "\n")
    print("%d changes" % total)


if __name__ == "__main__":
    main()
