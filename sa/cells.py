"""Abstract interpretation over sign cells.

Entries stay terms over symbols; each symbol has a rational witness.  A
comparison of terms is decided at the witness (exactly, with rationals) and
recorded: the terms obtained are the values of the code on the whole cell of
the parameter space where these comparisons keep their results.  `near` tells
if another point of the space is in the cell."""
import ast
import fractions
import math

import numpy as np

from .interp import T, const, cval, is_const, ext, Tup, Ref, NONE, TRUE, FALSE, Unknown
from .nd import NdInterp, obj

F = fractions.Fraction
FUN1 = {"sqrt": None, "abs": abs, "fabs": abs, "absolute": abs}


INF = ext("numpy.inf")


class NoValue(Exception):
    pass


def root(x):
    if isinstance(x, F):
        if x < 0:
            raise NoValue()
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return F(n, d)
    if x < 0:
        raise NoValue()
    return math.sqrt(x)


def evaluate(t, env, memo):
    """value of a term at a point"""
    k = id(t)
    if k in memo:
        return memo[k][0]
    v = _ev(t, env, memo)
    if v != v:
        raise NoValue()
    memo[k] = (v, t)
    return v


def _ev(t, env, memo):
    ev = lambda x: evaluate(x, env, memo)
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return F(v)
        if isinstance(v, float) and v == v:
            return F(v) if abs(v) != math.inf else v
        raise NoValue()
    if t in env:
        return env[t]
    if t is INF:
        return math.inf
    if t.op == "neg":
        return -ev(t.args[0])
    if t.op == "bin":
        op, a, b = t.args[0], ev(t.args[1]), ev(t.args[2])
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise NoValue()
            return a / b
        if op == "**":
            if isinstance(b, F) and b.denominator == 1:
                if a == 0 and b < 0:
                    raise NoValue()
                return a ** int(b)
            if b == F(1, 2):
                return root(a)
        raise NoValue()
    if t.op == "call" and t.args[0].op == "ext":
        n = t.args[0].args[0].rsplit(".", 1)[-1]
        if n == "sqrt":
            return root(ev(t.args[1]))
        if n in FUN1:
            return abs(ev(t.args[1]))
        if n in ("min", "max", "minimum", "maximum"):
            xs = t.args[1:]
            if len(xs) == 1 and xs[0].op in ("list", "tuple"):
                xs = xs[0].args
            return (min if n.startswith("min") else max)(ev(x) for x in xs)
        if n == "float":
            return ev(t.args[1])
    if t.op in ("<", "=="):
        a, b = ev(t.args[0]), ev(t.args[1])
        return a < b if t.op == "<" else a == b
    if t.op == "not":
        return not ev(t.args[0])
    if t.op in ("and", "or"):
        return (all if t.op == "and" else any)(bool(ev(x)) for x in t.args)
    raise NoValue()


class CellInterp(NdInterp):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.env = {}         # symbol -> rational
        self.memo = {}
        self.cell_ = {}       # condition -> result, on this cell
        self.decide = self.at_witness

    def at_witness(self, t):
        if t.op not in ("<", "==", "not", "and", "or"):
            return None
        try:
            r = bool(evaluate(t, self.env, self.memo))
        except NoValue:
            return None
        self.cell_[t] = r
        return r

    def near(self, env):
        """is the point in the cell"""
        memo = {}
        try:
            return all(bool(evaluate(t, env, memo)) == r for t, r in self.cell_.items())
        except NoValue:
            return False

    def lt(self, a, b):
        t = T("<", a, b)
        r = self.at_witness(t)
        if r is None:
            raise Unknown()
        return r

    # ---- functions
    def pick(self, name, xs):
        best = xs[0]
        for x in xs[1:]:
            if x is best:
                continue
            if (self.lt(x, best) if name == "min" else self.lt(best, x)):
                best = x
        return best

    def reduce(self, name, a, ax, st):
        if name in ("min", "max"):
            try:
                if ax is None:
                    return self.pick(name, a.reshape(-1).tolist())
                b = np.moveaxis(a, ax, -1)
                return self.nd_new(obj([self.pick(name, r) for r in b.reshape(-1, b.shape[-1]).tolist()], b.shape[:-1]), st) \
                    if b.shape[:-1] else self.pick(name, b.tolist())
            except Unknown:
                pass
        return super().reduce(name, a, ax, st)

    def _pair(self, name, args, st):
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        if x is None or y is None:
            return None
        x, y = np.broadcast_arrays(x, y)
        r = obj([self.pick(name, [p, q]) for p, q in zip(x.reshape(-1).tolist(), y.reshape(-1).tolist())], x.shape)
        return self.nd_new(r, st) if r.ndim else r.reshape(-1)[0]

    def f_minmax(self, name, args, kwargs, st):
        xs = self.concrete_seq(args[0], st) if len(args) == 1 else list(args)
        if xs is None or kwargs:
            return None
        return self.pick(name, [self.freeze(x, st) for x in xs])

    def x_min(self, args, kwargs, st, node):
        try:
            r = self.f_minmax("min", args, kwargs, st)
        except Unknown:
            r = None
        return r if r is not None else super().x_min(args, kwargs, st, node)

    def x_max(self, args, kwargs, st, node):
        try:
            r = self.f_minmax("max", args, kwargs, st)
        except Unknown:
            r = None
        return r if r is not None else super().x_max(args, kwargs, st, node)

    def scalar(self, v, st):
        c = self.nd(v, st)
        return None if c is not None else self.freeze(v, st)

    def _map(self, f, args, st):
        c = self.nd(args[0], st)
        if c is None:
            t = self.freeze(args[0], st)
            if t.op in ("list", "tuple"):
                a = self.as_nd(args[0], st)
                return None if a is None else self.nd_new(self.map1(f, a, st), st)
            return f(t)
        return self.nd_new(self.map1(f, self.nd_read(c, st), st), st)

    def sqrt(self, t):
        if is_const(t):
            try:
                r = root(F(cval(t)))
            except NoValue:
                return T("call", ext("numpy.sqrt"), t)
            return const(int(r) if isinstance(r, F) and r.denominator == 1 else float(r))
        return T("call", ext("numpy.sqrt"), t)

    def n_sqrt(self, args, kwargs, st):
        return self._map(self.sqrt, args, st)

    def n_square(self, args, kwargs, st):
        return self._map(lambda t: self.binop("*", t, t), args, st)

    def abs1(self, t):
        if is_const(t):
            return const(abs(cval(t)))
        r = self.at_witness(T("<", t, const(0)))
        if r is None:
            raise Unknown()
        return self.binop("*", const(-1), t) if r else t

    def n_abs(self, args, kwargs, st):
        return self._map(self.abs1, args, st)

    n_absolute = n_fabs = n_abs

    def x_abs(self, args, kwargs, st, node):
        try:
            return self.n_abs(args, {}, st)
        except Unknown:
            return super().x_abs(args, kwargs, st, node)

    def sign1(self, t):
        if self.truth(T("<", t, const(0)) if not is_const(t) else const(cval(t) < 0), None):
            return const(-1)
        z = self.truth(T("==", t, const(0)), None) if not is_const(t) else cval(t) == 0
        return const(0) if z else const(1)

    def n_sign(self, args, kwargs, st):
        return self._map(self.sign1, args, st)

    def n_hypot(self, args, kwargs, st):
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        x, y = np.broadcast_arrays(x, y)
        r = obj([self.sqrt(self.binop("+", self.binop("*", p, p), self.binop("*", q, q))) for p, q in zip(
            x.reshape(-1).tolist(), y.reshape(-1).tolist())], x.shape)
        return self.nd_new(r, st) if r.ndim else r.reshape(-1)[0]

    def sumsq(self, xs):
        acc = None
        for x in xs:
            s = self.binop("*", x, x)
            acc = s if acc is None else self.binop("+", acc, s)
        return acc if acc is not None else const(0)

    def n_linalg_norm(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or len(args) > 1 or set(kwargs) - {"axis"}:
            return None
        ax = self._axis(args, kwargs, 2, None)
        if ax is None:
            return self.sqrt(self.sumsq(a.reshape(-1).tolist()))
        b = np.moveaxis(a, ax, -1)
        return self.nd_new(obj([self.sqrt(self.sumsq(r)) for r in b.reshape(-1, b.shape[-1]).tolist()], b.shape[:-1]), st)

    def det(self, m):
        if len(m) == 1:
            return m[0][0]
        acc = None
        for j in range(len(m)):
            if is_const(m[0][j]) and cval(m[0][j]) == 0:
                continue
            t = self.binop("*", m[0][j], self.det([r[:j] + r[j + 1:] for r in m[1:]]))
            if j % 2:
                t = self.binop("*", const(-1), t)
            acc = t if acc is None else self.binop("+", acc, t)
        return acc if acc is not None else const(0)

    def n_linalg_det(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        return None if a is None or a.ndim != 2 else self.det(a.tolist())

    def n_linalg_inv(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or a.ndim != 2 or a.shape[0] != a.shape[1]:
            return None
        m, n = a.tolist(), a.shape[0]
        d = self.det(m)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = self.det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) if n > 1 else const(1)
                if (i + j) % 2:
                    c = self.binop("*", const(-1), c)
                out[i, j] = self.binop("/", c, d)
        return self.nd_new(out, st)

    def n_cross(self, args, kwargs, st):
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        if x is None or y is None or x.shape != (3,) or y.shape != (3,):
            return None
        b = self.binop
        r = [b("-", b("*", x[(i + 1) % 3], y[(i + 2) % 3]), b("*", x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)]
        return self.nd_new(obj(r), st)

    def _arg(self, name, args, kwargs, st):
        a = self.as_nd(args[0], st)
        ax = self._axis(args, kwargs, 1, None)
        if a is None:
            return None

        def best(xs):
            k = 0
            for i, x in enumerate(xs):
                if i and (self.lt(x, xs[k]) if name == "min" else self.lt(xs[k], x)):
                    k = i
            return const(k)
        if ax is None:
            return best(a.reshape(-1).tolist())
        b = np.moveaxis(a, ax, -1)
        return self.nd_new(obj([best(r) for r in b.reshape(-1, b.shape[-1]).tolist()], b.shape[:-1]), st, "int64")

    def n_argmin(self, args, kwargs, st):
        return self._arg("min", args, kwargs, st)

    def n_argmax(self, args, kwargs, st):
        return self._arg("max", args, kwargs, st)

    def n_linalg_solve(self, args, kwargs, st):
        i = self.n_linalg_inv(args[:1], {}, st)
        r = None if i is None else self.nd_dot(i, args[1], st)
        return None if r is None else self.nd_new(r, st)

    def _is(self, f, args, st):
        def one(t):
            if t is INF:
                return const(f(math.inf))
            if is_const(t):
                return const(f(cval(t)))
            return const(f(0.))
        return self._map(one, args, st)

    def n_isinf(self, args, kwargs, st):
        return self._is(math.isinf, args, st)

    def n_isfinite(self, args, kwargs, st):
        return self._is(math.isfinite, args, st)

    def n_isnan(self, args, kwargs, st):
        return self._is(math.isnan, args, st)

    def n_allclose(self, args, kwargs, st):
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        if x is None or y is None:
            return None
        x, y = np.broadcast_arrays(x, y)
        try:
            return const(all(abs(evaluate(p, self.env, self.memo) - evaluate(q, self.env, self.memo)) < 1e-9 for p, q in zip(
                x.reshape(-1).tolist(), y.reshape(-1).tolist())))
        except NoValue:
            return None
