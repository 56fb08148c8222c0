"""Abstract interpretation with sympy matrices and symbols.

Matrices of known shape hold terms; products, inverses and substitutions are
carried out on the terms (exact algebra of sa/alg.py), never on objects of the
program.  Rewriting calls (expand, factor, simplify, ...) keep the value."""
import ast

import numpy as np
import sympy

from .alg import alg, zero
from .interp import (Ref, ListC, Tup, T, BM, IterV, DictC, ClassV, const, cval, is_const, ext, NONE, TRUE, FALSE, Bottom, Unknown)
from .nd import NdInterp, NdC, obj
from .terms import walk

KEEP = {"expand", "together", "factor", "nsimplify", "simplify", "cancel", "ratsimp", "as_immutable", "as_mutable",
        "doit", "evalf_", "radsimp", "collect", "as_explicit"}
MATS = ("mat", "vec", "msym")
NAMES = ("Matrix", "MutableDenseMatrix", "ImmutableMatrix", "MutableMatrix", "ImmutableDenseMatrix", "SparseMatrix")


def symbol(name):
    return T("symbol", name)


def fun(name, *args):
    """uninterpreted function of symbolic arguments"""
    return T("fun", name, *args)


def substitute(t, old, new, memo=None):
    """structural substitution, parents rebuilt"""
    if memo is None:
        memo = {}
    if t is old:
        return new
    if t in memo:
        return memo[t]
    if not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    # the label of an index is not a part of the expressions which use it
    args = tuple(substitute(a, old, new, memo) if isinstance(a, T) and not (i == 0 and t.op == "idx") else a
                 for i, a in enumerate(t.args))
    r = t if all(x is y for x, y in zip(args, t.args)) else T(t.op, *args)
    memo[t] = r
    return r


_back = {}


def leaf(t):
    """uninterpreted functions are compared modulo the algebra of their arguments"""
    if t.op == "fun":
        return sympy.Function("F_" + str(t.args[0]))(*[sympy.expand(value(a)) for a in t.args[1:]])
    if t.op == "symbol":
        s = sympy.Symbol("S_" + t.args[0])
        _back[s] = t
        return s
    if t.op == "sx":
        return t.args[0]
    return None


def value(t):
    return alg(t, leaf)


def same(a, b):
    return zero(value(a) - value(b))


def from_sympy(e):
    """term of an algebraic expression"""
    if e.is_Integer:
        return const(int(e))
    return T("sx", e)


class SymInterp(NdInterp):
    # ---- symbols -----------------------------------------------------
    def x_str(self, args, kwargs, st, node):
        if args and isinstance(args[0], T) and args[0].op == "symbol":
            return const(args[0].args[0])
        if args and isinstance(args[0], T) and args[0].op == "idx":
            return const(args[0].args[0].args[0])
        return super().x_str(args, kwargs, st, node)

    def load_attr(self, v, name, st, node):
        if isinstance(v, T) and v.op == "symbol" and name in ("name", "free_symbols"):
            if name == "name":
                return const(v.args[0])
        if isinstance(v, T) and v.op == "idx":
            if name in ("label", "lower", "upper", "start", "stop"):
                return v.args[{"label": 0, "lower": 1, "start": 1, "upper": 2, "stop": 2}[name]]
            if name == "name":
                return const(v.args[0].args[0])
            if name == "range":
                return Tup(v.args[1:])
        if isinstance(v, T) and v.op == "ibase":
            if name == "label":
                return symbol(v.args[0])
            if name == "name":
                return const(v.args[0])
            if name == "shape":
                return Tup(v.args[1:])
            if name == "rank":
                return const(len(v.args) - 1)
        if isinstance(v, T) and v.op == "at":
            if name == "indices":
                return Tup(v.args[1:])
            if name == "base":
                return v.args[0]
            if name == "rank":
                return const(len(v.args) - 1)
            if name == "args":
                return Tup(v.args)
        if isinstance(v, T) and v.op == "eqn" and name in ("lhs", "rhs"):
            return v.args[0 if name == "lhs" else 1]
        if isinstance(v, T) and v.op == "ent" and name in ("i", "j"):
            return v.args[1] if name == "i" else const(0)
        c = self.nd(v, st)
        if c is not None and c.dtype in MATS:
            if name == "shape":
                return Tup([const(int(n)) for n in c.pos.shape])
            if name in ("rows", "cols"):
                return const(int(c.pos.shape[0 if name == "rows" else 1]))
            if name == "T":
                return self.alloc(st, NdC(c.buf, c.pos.T, "mat"))
            if name == "is_square":
                return const(c.pos.shape[0] == c.pos.shape[1])
        return super().load_attr(v, name, st, node)

    def x_sympy_Integer(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        return t if is_const(t) else None

    x_sympy_S = x_sympy_sympify = x_sympy_Integer

    def x_sympy_flatten(self, args, kwargs, st, node):
        def go(v):
            if self.nd(v, st) is not None:
                return [v]
            q = v if isinstance(v, T) else self.cell(v, st) if isinstance(v, Ref) else v
            if isinstance(q, T) and q.op not in ("list", "tuple"):
                return [v]
            if isinstance(q, (ListC, Tup, T)):
                x = self.concrete_seq(v, st)
                if x is not None:
                    return [z for y in x for z in go(y)]
                raise Unknown()
            return [v]
        if len(args) == 1 and not kwargs:
            return self.newlist(st, go(args[0]))

    def x_sympy_Rational(self, args, kwargs, st, node):
        ts = [self.freeze(a, st) for a in args]
        if len(ts) == 2:
            return T("bin", "/", *ts)
        return ts[0]

    def x_sympy_simplify(self, args, kwargs, st, node):
        return args[0]

    def x_sympy_Idx(self, args, kwargs, st, node):
        lab = self.freeze(args[0], st)
        if is_const(lab) and isinstance(cval(lab), str):
            lab = symbol(cval(lab))
        rg = args[1] if len(args) > 1 else kwargs.get("range", NONE)
        if rg is NONE:
            return T("idx", lab, NONE, NONE)
        s = None if isinstance(rg, T) and rg.op != "tuple" else self.concrete_seq(rg, st)
        if isinstance(rg, T) and rg.op == "tuple":
            s = list(rg.args)
        if s is None:
            # an integer range n stands for 0 .. n - 1
            return T("idx", lab, const(0), T("bin", "-", self.freeze(rg, st), const(1)))
        if len(s) != 2:
            raise Bottom()
        return T("idx", lab, *[self.freeze(x, st) for x in s])

    def x_sympy_IndexedBase(self, args, kwargs, st, node):
        nm = self.freeze(args[0], st)
        if nm.op == "symbol":
            nm = const(nm.args[0])
        sh = args[1] if len(args) > 1 else kwargs.get("shape", NONE)
        s = [] if sh is NONE else self.concrete_seq(sh, st)
        if s is None or not is_const(nm):
            return None
        return T("ibase", cval(nm), *[self.freeze(x, st) for x in s])

    def x_sympy_Indexed(self, args, kwargs, st, node):
        b = self.freeze(args[0], st)
        if b.op == "ibase":
            return T("at", b, *[self.freeze(x, st) for x in args[1:]])

    x_sympy_expand = x_sympy_factor = x_sympy_together = x_sympy_nsimplify = x_sympy_simplify

    def x_sympy_Eq(self, args, kwargs, st, node):
        return T("eqn", self.freeze(args[0], st), self.freeze(args[1], st))

    x_sympy_Equality = x_sympy_core_relational_Eq = x_sympy_Eq

    # ---- matrices ----------------------------------------------------
    def mat(self, a, st, kind="mat"):
        a = np.asarray(a, dtype=object)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        return self.nd_new(a, st, kind)

    def is_mat(self, v, st):
        c = self.nd(v, st)
        return c is not None and c.dtype in MATS

    def arr2(self, v, st):
        a = self.as_nd(v, st)
        if a is None:
            return None
        return a.reshape(-1, 1) if a.ndim == 1 else a

    def x_sympy_Matrix(self, args, kwargs, st, node):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, (Ref, Tup, IterV)):
                s = None if self.nd(v, st) is not None else self.concrete_seq(v, st)
                if s is not None and s and any(self.is_mat(x, st) for x in s):
                    return self.mat(np.vstack([self.arr2(x, st) for x in s]), st)
            a = self.arr2(v, st)
            return None if a is None else self.mat(a, st)
        if len(args) == 3:
            r, c = (cval(self.freeze(x, st)) for x in args[:2])
            if isinstance(args[2], (Ref, Tup)) and self.nd(args[2], st) is None and self.concrete_seq(args[2], st) is not None:
                return self.mat(obj(self.concrete_seq(args[2], st), (r, c)), st)
            if self.as_nd(args[2], st) is not None and self.as_nd(args[2], st).size == r * c:
                return self.mat(self.as_nd(args[2], st).reshape(r, c), st)
            return self.mat(obj([self.freeze(self.apply(args[2], [const(i), const(j)], {}, st, node), st)
                                 for i in range(r) for j in range(c)], (r, c)), st)

    def x_sympy_zeros(self, args, kwargs, st, node, f=lambda i, j: 0):
        n = [cval(self.freeze(x, st)) for x in args]
        r, c = (n[0], n[0]) if len(n) == 1 else n[:2]
        return self.mat(obj([const(f(i, j)) for i in range(r) for j in range(c)], (r, c)), st)

    def x_sympy_ones(self, args, kwargs, st, node):
        return self.x_sympy_zeros(args, kwargs, st, node, lambda i, j: 1)

    def x_sympy_eye(self, args, kwargs, st, node):
        return self.x_sympy_zeros(args, kwargs, st, node, lambda i, j: int(i == j))

    def x_sympy_diag(self, args, kwargs, st, node):
        bl = [self.arr2(x, st) if not isinstance(x, T) else obj([x], (1, 1)) for x in args]
        n, m = sum(b.shape[0] for b in bl), sum(b.shape[1] for b in bl)
        out = obj([const(0)] * (n * m), (n, m))
        i = j = 0
        for b in bl:
            out[i:i + b.shape[0], j:j + b.shape[1]] = b
            i, j = i + b.shape[0], j + b.shape[1]
        return self.mat(out, st)

    def x_sympy_MatrixSymbol(self, args, kwargs, st, node):
        n = cval(self.freeze(args[1], st))
        nm = cval(self.freeze(args[0], st))
        m = cval(self.freeze(args[2], st)) if len(args) > 2 else 1
        if m != 1 or not isinstance(n, int):
            return None
        return self.mat(obj([T("ent", nm, const(i)) for i in range(n)], (n, 1)), st, "msym")

    def external(self, name, args, kwargs, st, node):
        last = name.rsplit(".", 1)[-1]
        if name.startswith("sympy."):
            if last in NAMES:
                name = "sympy.Matrix"
            elif last in ("hstack", "vstack") and name.split(".")[-2] in NAMES:
                bl = [self.arr2(x, st) for x in args]
                if all(b is not None for b in bl):
                    return self.mat((np.hstack if last == "hstack" else np.vstack)(bl), st)
            elif last in ("zeros", "eye", "ones", "diag", "Eq", "Matrix", "MatrixSymbol", "Idx", "IndexedBase", "Indexed", "Symbol",
                          "symbols", "Integer", "Rational", "expand",
                          "factor", "simplify", "together", "nsimplify"):
                name = "sympy." + last
            if name in ("sympy.sqrt", "sympy.cos", "sympy.sin", "sympy.exp", "sympy.Abs"):
                return fun(last, *[self.freeze(a, st) for a in args])
            h = getattr(self, "x_" + name.replace(".", "_"), None)
            if h is not None:
                try:
                    r = h(args, kwargs, st, node)
                except (Unknown, ValueError, TypeError, IndexError):
                    r = None
                if r is not None:
                    return r
        return super().external(name, args, kwargs, st, node)

    def instantiate(self, cv, args, kwargs, st, node):
        if cv.ci.name == "SymbolicVector":
            a = self.as_nd(args[0], st) if len(args) == 1 else None
            if a is not None:
                return self.mat(a.reshape(-1, 1), st, "vec")
        return super().instantiate(cv, args, kwargs, st, node)

    def x_isinstance(self, args, kwargs, st, node):
        names = self._classnames(args[1], st)
        v = args[0]
        if names is not None and not any(n.startswith("#") for n in names):
            last = {n.rsplit(".", 1)[-1] for n in names}
            c = self.nd(v, st)
            if c is not None and c.dtype in MATS:
                if "Matrix" in last or "MatrixBase" in last or "MutableDenseMatrix" in last:
                    return const(c.dtype in ("mat", "vec"))
                return const(("SymbolicVector" in last and c.dtype == "vec") or ("MatrixSymbol" in last and c.dtype == "msym"))
            if isinstance(v, T) and v.op == "eqn":
                return const(bool(last & {"Eq", "Equality", "Relational", "Basic", "Boolean"}))
            if isinstance(v, T) and v.op in ("symbol", "fun", "bin", "neg", "sx", "ent", "at", "idx", "ibase"):
                k = {"Expr", "Basic"} | {"symbol": {"Symbol"}, "idx": {"Idx"}, "at": {"Indexed"}, "ibase": {"IndexedBase"}}.get(v.op, set())
                return const(bool(k & last))
        return super().x_isinstance(args, kwargs, st, node)

    def concrete_seq(self, v, st):
        c = self.nd(v, st)
        if c is not None and c.dtype in MATS:
            return list(self.nd_read(c, st).reshape(-1))
        return super().concrete_seq(v, st)

    def load_item(self, v, key, st, node):
        if isinstance(v, T) and v.op == "ibase":
            s = self.concrete_seq(key, st) if not isinstance(key, T) or key.op in ("tuple", "list") else None
            if s is None and isinstance(key, T):
                s = list(key.args) if key.op in ("tuple", "list") else [key]
            if s is not None:
                if len(v.args) > 1 and len(s) != len(v.args) - 1:
                    raise Bottom()
                return T("at", v, *[self.freeze(x, st) for x in s])
        c = self.nd(v, st)
        if c is not None and c.dtype in MATS:
            try:
                k = self.key_of(key, st)
            except Unknown:
                return super().load_item(v, key, st, node)
            if not isinstance(k, tuple):
                p = c.pos.reshape(-1)
                try:
                    q = p[k]
                except IndexError:
                    raise Bottom()
                if isinstance(q, np.ndarray):
                    if c.dtype == "msym":
                        return self.alloc(st, NdC(c.buf, q.reshape(-1, 1), "msym"))
                    return self.newlist(st, list(self.nd_read(NdC(c.buf, q), st)))
                return self.nd_read(NdC(c.buf, np.asarray(q)), st).reshape(-1)[0]
            try:
                rows = np.arange(c.pos.shape[0])[k[0]] if not isinstance(k[0], (list, np.ndarray)) else np.array(k[0], dtype=int)
                cols = np.arange(c.pos.shape[1])[k[1]] if not isinstance(k[1], (list, np.ndarray)) else np.array(k[1], dtype=int)
            except IndexError:
                raise Bottom()
            if not isinstance(rows, np.ndarray) and not isinstance(cols, np.ndarray):
                return self.nd_read(NdC(c.buf, c.pos[rows, cols].reshape(())), st).reshape(-1)[0]
            p = c.pos[np.ix_(np.atleast_1d(rows), np.atleast_1d(cols))]
            return self.nd_new(self.nd_read(NdC(c.buf, p), st), st, "mat")
        return super().load_item(v, key, st, node)

    def store_item(self, v, key, val, st, node):
        c = self.nd(v, st)
        if c is not None and c.dtype in MATS:
            try:
                k = self.key_of(key, st)
            except Unknown:
                return super().store_item(v, key, val, st, node)
            if isinstance(k, tuple):
                rows = np.atleast_1d(np.arange(c.pos.shape[0])[k[0]])
                cols = np.atleast_1d(np.arange(c.pos.shape[1])[k[1]])
                p = c.pos[np.ix_(rows, cols)]
            else:
                p = np.atleast_1d(c.pos.reshape(-1)[k])
            a = self.as_nd(val, st)
            if a is None:
                a = obj([self.freeze(val, st)], ())
            if a.size == 1:
                a = np.broadcast_to(a.reshape(()), p.shape)
            elif a.size == p.size:
                a = a.reshape(p.shape)
            else:
                raise Bottom()
            self.nd_write(c, p, a, st)
            return
        return super().store_item(v, key, val, st, node)

    # ---- arithmetic --------------------------------------------------
    def v_binop(self, op, a, b, st):
        ma, mb = self.is_mat(a, st), self.is_mat(b, st)
        if ma or mb:
            ka, kb = (self.nd(a, st).dtype if ma else None), (self.nd(b, st).dtype if mb else None)
            x, y = self.as_nd(a, st), self.as_nd(b, st)
            if x is not None and y is not None:
                vec = "vec" if "vec" in (ka, kb) else "mat"
                if op in ("*", "@") and ma and mb:
                    cw = "vec" in (ka, kb) and ka in ("vec", "msym") and kb in ("vec", "msym") and op == "*"
                    if cw:
                        if x.size != y.size:
                            raise Bottom()
                        return self.mat(obj([self.binop("*", p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))], x.shape), st, "vec")
                    if x.shape[1] != y.shape[0]:
                        raise Bottom()
                    return self.mat(self.dot2(x, y), st)
                if op in ("+", "-") and ma and mb:
                    if x.shape != y.shape:
                        raise Bottom()
                    return self.mat(obj([self.binop(op, p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))], x.shape), st, vec)
                if x.size == 1 and not ma or y.size == 1 and not mb:
                    if op in ("+", "-") and vec != "vec" or op == "/" and not ma:
                        raise Bottom()
                    xs, ys = np.broadcast_arrays(x.reshape(()) if not ma else x, y.reshape(()) if not mb else y)
                    return self.mat(obj([self.binop(op, p, q) for p, q in zip(xs.reshape(-1), ys.reshape(-1))], xs.shape), st, vec)
        return super().v_binop(op, a, b, st)

    def dot2(self, x, y):
        out = []
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                acc = const(0)
                for k in range(x.shape[1]):
                    p, q = x[i, k], y[k, j]
                    if p is const(0) or q is const(0):
                        continue
                    t = q if p is const(1) else p if q is const(1) else self.binop("*", p, q)
                    acc = t if acc is const(0) else self.binop("+", acc, t)
                out.append(acc)
        return obj(out, (x.shape[0], y.shape[1]))

    def inplace(self, op, cur, rhs, st, node):
        if self.is_mat(cur, st):
            return self.v_binop(op, cur, rhs, st)
        return super().inplace(op, cur, rhs, st, node)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.USub):
            v = self.eval(e.operand, st)
            c = self.nd(v, st)
            if c is not None and c.dtype in MATS:
                return self.mat(self.map1(lambda x: self.binop("*", const(-1), x), self.nd_read(c, st), st), st, c.dtype)
        return super().e_UnaryOp(e, st)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Eq, ast.NotEq)) and (self.is_mat(a, st) or self.is_mat(b, st)):
            x, y = self.as_nd(a, st), self.as_nd(b, st)
            r = x is not None and y is not None and x.shape == y.shape and all(
                p is q or same(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1)))
            return const(r == isinstance(op, ast.Eq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, T) and isinstance(b, T) and (
                a.op in ("symbol", "fun", "ent", "at", "idx") or b.op in ("symbol", "fun", "ent", "at", "idx")):
            # structural equality of expressions
            return const((a is b) == isinstance(op, ast.Eq))
        return super().compare(op, a, b, st)

    def copyval(self, v, st, node, deep):
        c = self.nd(v, st)
        if c is not None:
            return self.nd_new(self.nd_read(c, st), st, c.dtype)
        return super().copyval(v, st, node, deep)

    # ---- methods -----------------------------------------------------
    EXPR = ("symbol", "fun", "bin", "neg", "const", "sx", "ent", "at", "idx")

    def list_method(self, v, c, name, args, kwargs, st, node):
        if name in ("index", "count") and c.concrete() and len(args) == 1:
            t = self.freeze(args[0], st)
            vs = [self.freeze(s[1], st) for s in c.segs]
            if t.op in self.EXPR and all(x.op in self.EXPR for x in vs) and any(x.op != "const" for x in vs + [t]):
                hit = [i for i, x in enumerate(vs) if x is t or same(x, t)]
                if name == "count":
                    return const(len(hit))
                if not hit:
                    raise Bottom()
                return const(hit[0])
        return super().list_method(v, c, name, args, kwargs, st, node)

    def pairs(self, args, st):
        """[(old, new)] of the arguments of subs"""
        if len(args) == 2:
            prs = [tuple(args)]
        else:
            a = args[0]
            if isinstance(a, Ref) and isinstance(self.cell(a, st), DictC):
                d = self.cell(a, st)
                if getattr(d, "base", None) is not None:
                    return None
                prs = list(d.items)
            else:
                s = self.concrete_seq(a, st)
                if s is None:
                    return None
                prs = []
                for x in s:
                    y = self.concrete_seq(x, st) if not isinstance(x, T) else (list(x.args) if x.op == "tuple" else None)
                    if y is None or len(y) != 2:
                        return None
                    prs.append(tuple(y))
        out = []
        for o, n in prs:
            o, n = self.freeze(o, st), self.freeze(n, st)
            if is_const(o) and isinstance(cval(o), str):
                o = symbol(cval(o))
            if is_const(n) and isinstance(cval(n), str):
                n = symbol(cval(n))
            out.append((o, n))
        return out

    def subs1(self, t, prs, simul=False):
        if simul:
            tmp = [T("tmp", i) for i in range(len(prs))]
            for (o, _), x in zip(prs, tmp):
                t = substitute(t, o, x)
            for (_, n), x in zip(prs, tmp):
                t = substitute(t, x, n)
            return t
        for o, n in prs:
            t = substitute(t, o, n)
        return t

    def method(self, bm, args, kwargs, st, node):
        v, name = bm.recv, bm.name
        c = self.nd(v, st)
        if c is not None and c.dtype in MATS:
            try:
                r = self.mat_method(v, c, name, args, kwargs, st, node)
            except (Unknown, ValueError, TypeError, IndexError):
                r = None
            if r is not None:
                return r
        elif isinstance(v, T) and v.op in ("symbol", "fun", "bin", "neg", "const", "sx", "ent", "at", "idx", "item", "sym"):
            if name in ("__str__", "__repr__") and not args and not is_const(v):
                return T("fmt", v)
            if name in ("atoms", "free_symbols") and not is_const(v):
                a = [self.freeze(x, st) for x in args]
                if all(x.op in ("ext", "classref") for x in a):
                    k = {x.args[0].rsplit(".", 1)[-1] for x in a}
                    ops = {"Symbol": "symbol", "Indexed": "at", "IndexedBase": "ibase", "Idx": "idx"}
                    if k <= set(ops):
                        out = []
                        for x in walk(v):
                            if x.op in {ops[y] for y in k} and x not in out:
                                out.append(x)
                        return self.newlist(st, out)
            if name in KEEP and not (is_const(v) and isinstance(cval(v), str)):
                return v
            if name in ("subs", "xreplace") and args:
                prs = self.pairs(args, st)
                if prs is not None:
                    sim = kwargs.get("simultaneous")
                    return self.subs1(v, prs, name == "xreplace" or (sim is not None and self.truth(sim, st) is True))
        return super().method(bm, args, kwargs, st, node)

    def mat_method(self, v, c, name, args, kwargs, st, node):
        A = lambda: self.nd_read(c, st)
        n = lambda x: cval(self.freeze(x, st))
        if name in ("row_swap", "col_swap"):
            i, j = n(args[0]), n(args[1])
            a = A().copy()
            if name == "row_swap":
                a[[i, j]] = a[[j, i]]
            else:
                a[:, [i, j]] = a[:, [j, i]]
            self.nd_write(c, c.pos, a, st)
            return NONE
        if name == "simplify":
            return NONE if c.dtype != "msym" else v
        if name in KEEP:
            return self.nd_new(A(), st, c.dtype)
        if name in ("subs", "xreplace"):
            prs = self.pairs(args, st)
            if prs is None:
                return None
            sim = kwargs.get("simultaneous")
            sim = name == "xreplace" or (sim is not None and self.truth(sim, st) is True)
            return self.mat(self.map1(lambda t: self.subs1(t, prs, sim), A(), st), st, c.dtype if c.dtype != "msym" else "mat")
        if name in ("inv", "inverse_ADJ", "inverse_GE", "inverse_LU"):
            a = A()
            m = sympy.Matrix(a.shape[0], a.shape[1], [value(t) for t in a.reshape(-1)])
            try:
                m = m.inv(method="LU")
            except Exception:
                raise Bottom()
            return self.mat(obj([from_sympy(sympy.cancel(e)) for e in m], a.shape), st)
        if name == "copy":
            return self.nd_new(A(), st, c.dtype)
        if name == "transpose":
            return self.alloc(st, NdC(c.buf, c.pos.T, "mat"))
        if name in ("row", "col"):
            k = n(args[0])
            a = A()
            return self.mat(a[k:k + 1] if name == "row" else a[:, k:k + 1], st)
        if name == "extract":
            r, q = self.ints(args[0], st), self.ints(args[1], st)
            return self.mat(A()[np.ix_(r, q)], st)
        if name in ("row_join", "col_join"):
            b = self.arr2(args[0], st)
            return self.mat((np.hstack if name == "row_join" else np.vstack)([A(), b]), st)
        if name in ("permute_rows", "permuteFwd", "permute", "permute_cols"):
            p = list(self.ints(args[0], st))
            a = A()
            return self.mat(a[:, p] if name == "permute_cols" else a[p], st, c.dtype)
        if name == "applyfunc":
            return self.mat(self.map1(lambda t: self.freeze(self.apply(args[0], [t], {}, st, node), st), A(), st), st, c.dtype)
        if name in ("multiply_elementwise", "hadamard_product"):
            b = self.arr2(args[0], st)
            return self.mat(obj([self.binop("*", p, q) for p, q in zip(A().reshape(-1), b.reshape(-1))], c.pos.shape), st)
        if name == "multiply":
            return self.v_binop("*", v, args[0], st)
        if name in ("tolist", "flat"):
            a = A()
            if name == "flat":
                return self.newlist(st, list(a.reshape(-1)))
            return self.newlist(st, [self.newlist(st, list(r)) for r in a])
        if name == "reshape":
            return self.mat(A().reshape([n(x) for x in args]), st)
        return None
