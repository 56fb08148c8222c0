"""Analyses of a scheme: amplification matrix, verdict of stability, equivalent equations.

The scheme is built by the interpreted `Scheme`, its equilibria being rational
functions of the conserved moments with symbolic coefficients; then `Stability`
and `EquivalentEquation` are interpreted, derivatives taken in the algebra of
the terms, and the matrices compared with those of the linearised scheme."""
import cmath
import fractions
import itertools
import random

import mpmath
import numpy as np
import sympy

from sa.common import *
from sa.terms import *
from sa.alg import zero
from sa.interp import DictC, InstC, State, Tup, Unknown
from sa.nd import obj
from sa.rule import ref
from sa.symx import SymInterp, symbol, fun, value, from_sympy
from rules.schm import Model, P1, P2, P3, V1, V2, V3, LA, U, X, B, mono, entries, vector

STA = "pylbm.analysis.stability."
EQE = "pylbm.analysis.equivalent_equation."


class AnaInterp(SymInterp):
    """derivatives"""

    def external(self, name, args, kwargs, st, node):
        if name in ("sympy.Function", "sympy.diff") or name.rsplit(".", 1)[-1] == "Derivative" and name.startswith("sympy."):
            a = [self.freeze(x, st) for x in args]
            if name == "sympy.Function":
                return T("fclass", cval(a[0]))
            e = value(a[0])
            for x in a[1:]:
                e = sympy.diff(e, value(x))
            return from_sympy(e)
        if name == "sympy.diag" and len(args) == 1 and "unpack" in kwargs and self.truth(kwargs["unpack"], st) is True:
            s = self.concrete_seq(args[0], st)
            if s is not None:
                return super().external(name, s, {}, st, node)
        return super().external(name, args, kwargs, st, node)

    def apply(self, f, args, kwargs, st, node):
        if isinstance(f, T) and f.op == "fclass":
            return fun(f.args[0], *[self.freeze(a, st) for a in args])
        return super().apply(f, args, kwargs, st, node)

    def subs1(self, t, prs, simul=False):
        if any(x.op == "sx" for x in walk(t)):
            e = value(t).subs([(value(o), value(n)) for o, n in prs], simultaneous=simul)
            return from_sympy(e.doit())
        return super().subs1(t, prs, simul)

    def mat_method(self, v, c, name, args, kwargs, st, node):
        if name == "jacobian":
            xs = [value(self.freeze(x, st)) for x in self.concrete_seq(args[0], st)]
            a = self.nd_read(c, st).reshape(-1)
            return self.mat(obj([from_sympy(sympy.diff(value(e), x)) for e in a for x in xs], (a.size, len(xs))), st)
        if name in ("diff",):
            xs = [value(self.freeze(x, st)) for x in args]
            return self.mat(self.map1(lambda e: from_sympy(sympy.diff(value(e), *xs)), self.nd_read(c, st), st), st)
        return super().mat_method(v, c, name, args, kwargs, st, node)

    def method(self, bm, args, kwargs, st, node):
        v, name = bm.recv, bm.name
        if isinstance(v, T) and name == "coeff" and len(args) == 1:
            return from_sympy(sympy.expand(value(v)).coeff(value(self.freeze(args[0], st))))
        if isinstance(v, T) and name == "diff" and args:
            return from_sympy(sympy.diff(value(v), *[value(self.freeze(x, st)) for x in args]))
        return super().method(bm, args, kwargs, st, node)


def equilibria(m, kind=0):
    """rational functions of the conserved moments with symbolic coefficients"""
    syms = [c for c, _ in m.consm]
    at = {r: c for c, r in m.consm}
    out = []
    for r in range(m.n):
        if r in at:
            out.append(at[r])
            continue
        e = symbol("k%d" % r)
        for i, c in enumerate(syms):
            e = B("+", e, B("*", symbol("a%d_%d" % (r, i)), c))
        if kind:
            e = B("+", e, B("/", B("*", symbol("b%d" % r), B("*", syms[-1], syms[-1])), syms[0]) if len(syms) > 1 else B(
                "*", symbol("b%d" % r), B("*", syms[0], syms[0])))
        out.append(e)
    return out


def models(rel=True):
    P5 = [mono(0), mono(1), mono(2), mono(3), mono(4)]
    V5 = [(0,), (1,), (-1,), (2,), (-2,)]
    q2 = [(1,), (-1,)]
    c0, c1, c2 = symbol("c0_0"), symbol("c0_1"), symbol("c0_2")
    out = [
        Model("D1Q2", 1, [q2], [[mono(0), mono(1)]], [[0]]),
        Model("D1Q3 last conserved", 1, [V1], [P1], [[2]]),
        Model("D1Q3 two conserved", 1, [V1], [P1], [[0, 1]]),
        Model("D1Q3 two conserved, swapped", 1, [V1], [P1], [[2, 0]], la=const(2)),
        Model("D1Q2+D1Q3", 1, [q2, [(0,), (2,), (-2,)]], [[mono(0), mono(1)], P1], [[0], [1]]),
        Model("D2Q4", 2, [V2[1:]], [[P2[k] for k in (0, 1, 2, 4)]], [[0]]),
        Model("D2Q5 three conserved", 2, [V2], [P2], [[0, 1, 2]], la=const(1)),
        Model("D3Q6", 3, [V3[1:]], [[P3[k] for k in (0, 1, 2, 3, 5, 6)]], [[0]], la=const(1)),
    ]
    if rel:
        out += [
            Model("D1Q3 constant relative velocity", 1, [V1], [P1], [[0, 1]], rel=[symbol("w")]),
            Model("D1Q3 relative velocity", 1, [V1], [P1], [[0, 1]], rel=[B("/", B("*", symbol("w"), c1), c0)], la=const(1)),
            Model("D1Q5 relative velocity", 1, [V5], [P5], [[0, 1]], rel=[B("/", c1, c0)], la=const(1)),
            Model("D1Q3 mixed polynomials, relative velocity", 1, [V1], [[mono(0), B("+", mono(1), mono(2)), mono(2)]], [[0]], rel=[symbol("w")],
                  la=const(1)),
            Model("D2Q5 relative velocity", 2, [V2], [P2], [[0]], rel=[symbol("w"), B("*", symbol("w2"), c0)], la=const(1)),
            Model("D2Q5 relative velocity, three conserved", 2, [V2], [P2], [[0, 1, 2]], rel=[symbol("w"), symbol("w2")], la=const(1)),
        ]
    return out


class Linear:
    """the scheme linearised around a state, rows in the order of the declaration"""

    def __init__(self, m, eq):
        self.m = m
        self.cons = [value(c) for c, _ in m.consm]
        self.E = sympy.zeros(m.n, m.n)
        for i in range(m.n):
            for c, r in m.consm:
                self.E[i, r] = sympy.diff(value(eq[i]), value(c))
        self.EQ = sympy.Matrix([value(e) for e in eq])
        self.M = m.blocks()
        self.I = self.M.inv()
        self.S = sympy.diag(*[value(x) for x in m.s])
        self.N = sympy.eye(m.n) - self.S
        if m.rel is not None:
            T_ = m.blocks(True) * self.I
            T_ = T_.subs({value(U[d]): value(m.rel[d]) for d in range(m.dim)}, simultaneous=True)
            self.N = T_.inv() * self.N * T_
        # m* = N m + (1 - N) EQ(W)
        self.R = self.I * (self.N + (sympy.eye(m.n) - self.N) * self.E) * self.M

    def flux(self, d):
        return self.M * sympy.diag(*[value(self.m.la) * v[d] for w in self.m.vel for v in w]) * self.I


def check(ck):
    ck.rule("matrix", "relax_mat_f is the derivative of the distributions after the relaxation with respect to those before, at an equilibrium "
            "state, relative velocity included")
    ck.rule("velocities", "velocities holds the components of the velocities, in the order of the distributions")
    ck.rule("flux", "coeff_order1[d] is the flux along the axis d of the conserved moments at the equilibrium")
    ck.rule("diffusion", "coeff_order2[d][i] is the matrix of the second order term of the Taylor expansion of the scheme: flux along d of the "
            "moments out of equilibrium, produced by the gradient along i, times 1 / s - 1 / 2")
    for m in models():
        for kind in (0, 1):
            if kind and m.n > 4 and m.rel is None:
                continue
            stability(ck, m, kind)
    for m in models():
        for kind in (0, 1):
            equivalent(ck, m, kind)
    ck.rule("characteristic polynomial", "algo_cohn_schur builds the coefficients, in ascending order, of a non zero multiple of the characteristic "
            "polynomial of a matrix with symbolic entries, and answers the pair (simple von Neumann, von Neumann)")
    ck.rule("criterion", "each of is_S, is_svN, is_vN, the calls it makes to these being answered by the definition, answers by the definition: all "
            "the roots inside the unit circle / inside or on it, those on it simple / inside or on it")
    ck.rule("scale", "the comparisons of the criteria do not depend on the scale of the polynomial, or every polynomial they are asked about is scaled")
    ck.rule("spectrum", "eigenvalues computes, for each wave vector of the grid, the eigenvalues of relax_mat_f (linearization state, parameters "
            "and extra parameters substituted) times the diagonal of exp(i v.xi), and answers the wave vectors and the eigenvalues")
    ck.rule("verdict", "is_stable_l2 is 0 if the polynomial is simple von Neumann for all the wave vectors, 2 if it is not von Neumann for one of "
            "them, 1 otherwise")
    for n in range(1, 5):
        polynomial(ck, n)
    for f in CRITERIA:
        for n in range(1, 5):
            criterion(ck, f, n)
    for dim in (1, 2):
        spectrum(ck, dim)
    for w in itertools.product(((1, 1), (0, 1), (0, 0)), repeat=3):
        verdict(ck, w)
    ck.need(290)


CRITERIA = ("is_S", "is_svN", "is_vN")
EPS = mpmath.mpf(10) ** -40


def recorded(name):
    return lambda i, s, recv, a: T("rec", name, *[i.freeze(x, s) for x in i.concrete_seq(a[0], s)])


def polynomial(ck, n):
    fi = ck.prog.func(STA + "algo_cohn_schur")
    it = AnaInterp(ck.prog)
    it.no_exc = True
    it.stop = it.stop | set(CRITERIA)
    for g in CRITERIA:
        it.opaque_calls[g] = recorded(g)
    st = State()
    G = [[symbol("g%d_%d" % (i, j)) for j in range(n)] for i in range(n)]
    r = it.run(fi, [it.nd_new(obj([x for w in G for x in w], (n, n)), st, "complex")], {}, st)
    ck.use(it)
    v = None if r.val is None else it.concrete_seq(r.val, r.st)
    v = v and [it.freeze(x, r.st) for x in v]
    if not ck.obl("characteristic polynomial", "answer, %dx%d" % (n, n), v is not None and [x.args[0] for x in v if x.op == "rec"] == [
            "is_svN", "is_vN"], fi, "the answer is %s" % (v and [show(x)[:200] for x in v])):
        return
    z = sympy.Symbol("z")
    want = sympy.Matrix([[z if i == j else 0 for j in range(n)] for i in range(n)]) - sympy.Matrix([[value(x) for x in w] for w in G])
    want = sympy.Poly(want.det(method="berkowitz"), z).all_coeffs()[::-1]
    for x in v:
        got = [value(y) for y in x.args[1:]]
        ok = len(got) == n + 1 and not zero(got[-1]) and all(zero(got[-1] * b - a) for a, b in zip(got, want))
        ck.obl("characteristic polynomial", "%s, %dx%d" % (x.args[0], n, n), ok, fi, "coefficients %s" % [str(y)[:80] for y in got])


class Numeric:
    """value of a term at a polynomial"""

    def __init__(self, env, answer):
        self.env, self.answer = env, answer

    def __call__(self, t):
        v = self.ev(t)
        return v

    def near(self, a, b, tol=EPS):
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def ev(self, t):
        if not isinstance(t, T):
            raise Unknown("value")
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            if isinstance(v, bool) or v is None:
                return v
            if isinstance(v, (int, float, complex)):
                return mpmath.mpmathify(v)
            if isinstance(v, fractions.Fraction):
                return mpmath.mpf(v.numerator) / v.denominator
        if op == "symbol":
            return self.env[a[0]]
        if op == "ext" and a[0] in ("numpy.pi", "math.pi", "sympy.pi"):
            return +mpmath.pi
        if op == "sym" and a[0].endswith("j"):
            return mpmath.mpmathify(complex(a[0]))
        if op == "bin":
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] in "+-*/" or a[0] == "**":
                return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** y}[a[0]]()
        if op == "neg":
            return -self.ev(a[0])
        if op in ("list", "tuple"):
            return [self.ev(x) for x in a]
        if op == "nd":
            return [self.ev(x) for x in a[1:]]
        if op == "rec":
            return self.answer(a[0], [self.ev(x) for x in a[1:]])
        if op == "phi":
            return self.ev(a[1] if self.true(a[0]) else a[2])
        if op in ("and", "or"):
            v = [self.true(x) for x in a]
            return all(v) if op == "and" else any(v)
        if op == "not":
            return not self.true(a[0])
        if op in ("<", "<=", "==", "!="):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, bool) or isinstance(y, bool):
                raise Unknown("comparison")
            e = self.near(x, y)
            return not e and x < y if op == "<" else e or x < y if op == "<=" else e if op == "==" else not e
        if op == "call":
            f = a[0]
            if f.op == "attr" and f.args[1] in ("max", "min", "sum", "conjugate", "conj", "copy") and len(a) == 1:
                n, x = f.args[1], [self.ev(f.args[0])]
            elif f.op == "ext" and not any(y.op == "kw" for y in a[1:]):
                n, x = f.args[0].rsplit(".", 1)[-1], [self.ev(y) for y in a[1:]]
            else:
                raise Unknown("call")
            lift = lambda g: [g(y) for y in x[0]] if isinstance(x[0], list) else g(x[0])
            if n in ("abs", "absolute", "fabs"):
                return lift(abs)
            if n in ("conj", "conjugate"):
                return lift(mpmath.conj)
            if n in ("sqrt",):
                return lift(mpmath.sqrt)
            if n in ("real", "imag"):
                return lift(mpmath.re if n == "real" else mpmath.im)
            if n in ("max", "min", "amax", "amin", "maximum", "minimum"):
                s = x[0] if len(x) == 1 else x
                return (max if "max" in n else min)(s)
            if n in ("exp", "cos", "sin"):
                return lift(getattr(mpmath, n))
            if n in ("sum", "fsum"):
                return mpmath.fsum(x[0])
            if n in ("bool", "float", "complex", "asarray", "array", "list", "tuple", "bool_", "copy"):
                return x[0]
            if n in ("all", "any"):
                return (all if n == "all" else any)(x[0])
        if op == "attr" and a[1] in ("real", "imag"):
            return (mpmath.re if a[1] == "real" else mpmath.im)(self.ev(a[0]))
        raise Unknown("value of %s" % show(t)[:80])

    def true(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        raise Unknown("condition")


def degree(t, bad):
    """degree of homogeneity in the coefficients; None: any"""
    op, a = t.op, t.args
    one = lambda xs, what: _same([degree(x, bad) for x in xs], what, bad, t)
    if op == "const":
        return None if isinstance(a[0], bool) or a[0] == 0 else 0
    if op == "symbol":
        return 1
    if op == "bin":
        if a[0] in ("+", "-"):
            return one(a[1:], "sum")
        x, y = degree(a[1], bad), degree(a[2], bad)
        if a[0] == "*":
            return None if x is None or y is None else x + y
        if a[0] == "/":
            return None if x is None else x - (y or 0)
        if a[0] == "**" and is_const(a[2]):
            return None if x is None else x * cval(a[2])
    if op in ("list", "tuple"):
        return one(a, "list")
    if op == "nd":
        return one(a[1:], "array")
    if op in ("neg",):
        return degree(a[0], bad)
    if op in ("<", "<=", "==", "!="):
        one(a, "comparison")
        return None
    if op in ("and", "or", "not"):
        for x in a:
            degree(x, bad)
        return None
    if op == "phi":
        degree(a[0], bad)
        return one(a[1:], "alternative")
    if op == "rec":
        one(a[1:], "polynomial")
        return None
    if op == "attr" and a[1] in ("real", "imag"):
        return degree(a[0], bad)
    if op == "call":
        f = a[0]
        xs = list(a[1:]) if f.op == "ext" else [f.args[0]] + list(a[1:])
        n = f.args[0].rsplit(".", 1)[-1] if f.op == "ext" else f.args[1]
        if n in ("sqrt",):
            d = degree(xs[0], bad)
            return None if d is None else fractions.Fraction(d, 2)
        if n in ("isclose", "allclose"):
            d = one(xs, "comparison")
            if d:
                bad.append("absolute tolerance of %s" % n)
            return None
        return one(xs, n)
    bad.append("not decided: %s" % show(t)[:80])
    return None


def _same(ds, what, bad, t):
    s = {d for d in ds if d is not None}
    if len(s) > 1:
        bad.append("%s of quantities of degrees %s: %s" % (what, sorted(s), show(t)[:160]))
    return s.pop() if len(s) == 1 else None


def roots_of(p):
    p = list(p)
    top = max(abs(x) for x in p)
    while len(p) > 1 and abs(p[-1]) <= EPS * top:
        p.pop()
    low = 0
    while len(p) > 1 and abs(p[0]) <= EPS * top:
        p.pop(0)
        low += 1
    r = [mpmath.mpf(0)] * low
    if len(p) > 1:
        r += mpmath.polyroots(p[::-1], maxsteps=400, extraprec=400, error=False)
    return r


def definition(f, r):
    """by the roots; the multiple ones are known to 1e-12 or so only"""
    big = mpmath.mpf(10) ** -9
    m = [abs(x) for x in r]
    if f == "is_S":
        return all(x < 1 - big for x in m)
    if any(x > 1 + big for x in m):
        return False
    on = [x for x in r if abs(abs(x) - 1) <= big]
    return f == "is_vN" or all(abs(x - y) > big for x, y in itertools.combinations(on, 2))


def samples(n):
    """roots: inside, on, outside the circle, simple or double"""
    g = random.Random(100 + n)
    q = lambda lo, hi: mpmath.mpf(g.randint(lo, hi)) / 1000 * mpmath.expj(mpmath.mpf(g.randint(0, 6282)) / 1000)
    unit = lambda: mpmath.expj(mpmath.mpf(g.randint(0, 6282)) / 1000)
    out = []
    for kinds in itertools.combinations_with_replacement("iozu", n):
        for _ in range(2):
            r = [q(100, 900) if k == "i" else q(1100, 2000) if k == "o" else mpmath.mpf(0) if k == "z" else unit() for k in kinds]
            out.append(r)
            two = [k for k in range(n) if kinds[k] == "u"]
            if len(two) > 1:
                out.append([r[two[0]] if k == two[1] else x for k, x in enumerate(r)])
            a = [k for k in range(n) if kinds[k] in "io"]
            if len(a) > 1:
                # a pair symmetric with respect to the circle
                out.append([1 / mpmath.conj(r[a[0]]) if k == a[1] else x for k, x in enumerate(r)])
    return out


def criterion(ck, f, n):
    fi = ck.prog.func(STA + f)
    it = AnaInterp(ck.prog)
    it.no_exc = True
    it.stop = it.stop | set(CRITERIA)
    for g in CRITERIA:
        it.opaque_calls[g] = recorded(g)
    st = State()
    r = it.run(fi, [it.newlist(st, [symbol("p%d" % k) for k in range(n + 1)])], {}, st)
    ck.use(it)
    name = "%s, degree %d" % (f, n)
    t = None if r.val is None else it.freeze(r.val, r.st)
    if not ck.obl("criterion", name + " formula", t is not None, fi, "an exception is raised, or a step is not decided, on the way"):
        return
    bad = []
    degree(t, bad)
    asked = [x for x in walk(t) if x.op == "rec"]
    d = []
    scaled = [degree(y, d) for x in asked for y in x.args[1:]]
    if bad and asked and not d and all(x in (0, None) for x in scaled):
        bad = []
    ck.obl("scale", name, not bad, fi, "; ".join(bad[:2]))
    old, mpmath.mp.dps = mpmath.mp.dps, 80
    wrong, undecided = [], None
    try:
        for roots in samples(n):
            p = [mpmath.mpf(1)]
            for x in roots:
                p = [a - x * b for a, b in zip([mpmath.mpf(0)] + p, p + [mpmath.mpf(0)])]
            for scale in (1, mpmath.mpc(3, 4) / 7):
                env = {"p%d" % k: c * scale for k, c in enumerate(p)}
                try:
                    got = Numeric(env, lambda g, q: definition(g, roots_of(q)))(t)
                except (Unknown, ZeroDivisionError, TypeError, mpmath.NoConvergence) as e:
                    undecided = "%s" % (e,)
                    break
                if got is not definition(f, roots):
                    wrong.append(([complex(x) for x in roots], got))
    finally:
        mpmath.mp.dps = old
    ck.obl("criterion", name, undecided is None and not wrong, fi, "not decided: %s" % undecided if undecided else "roots %s: answer %s (%d cases)" % (
        wrong[0] + (len(wrong),) if wrong else (0, 0, 0)))


class SpecInterp(AnaInterp):
    """the matrices whose eigenvalues are asked for; the answers of algo_cohn_schur"""

    def external(self, name, args, kwargs, st, node):
        if name in ("numpy.exp", "numpy.cos", "numpy.sin", "numpy.conjugate", "numpy.conj") and len(args) == 1 and not kwargs:
            a = self.as_nd(args[0], st) if not isinstance(args[0], T) or args[0].op == "nd" else None
            if a is not None:
                return self.nd_new(self.map1(lambda x: T("call", ext(name), x), a, st), st)
        if name in ("numpy.sqrt", "math.sqrt", "math.isqrt") and len(args) == 1 and isinstance(args[0], T) and is_const(args[0]):
            return const(cval(args[0]) ** 0.5 if name != "math.isqrt" else int(cval(args[0]) ** 0.5))
        if name in ("numpy.linalg.eig", "numpy.linalg.eigvals", "scipy.linalg.eig", "scipy.linalg.eigvals") and len(args) == 1 and not kwargs:
            a = self.as_nd(args[0], st)
            if a is not None and a.ndim == 2:
                self.asked.append(a)
                k, n = len(self.asked) - 1, a.shape[0]
                w = self.nd_new(obj([symbol("eig%d_%d" % (k, i)) for i in range(n)], (n,)), st, "complex")
                if name.endswith("vals"):
                    return w
                return Tup([w, self.nd_new(obj([symbol("vec%d_%d_%d" % (k, i, j)) for i in range(n) for j in range(n)], (n, n)), st, "complex")])
        return super().external(name, args, kwargs, st, node)


def eigenvalues(ck, dim, R, vel, cons, param, w, n_wv, extra, answers):
    fi = ck.prog.func(STA + "Stability.eigenvalues")
    it = SpecInterp(ck.prog)
    it.asked, it.tested = [], []
    it.no_exc = True
    it.stop = it.stop | {"algo_cohn_schur", "print_progress"}
    st = State()

    def schur(i, s, recv, a):
        m = i.as_nd(a[0], s)
        i.tested.append(m)
        return Tup([const(bool(x)) for x in answers(len(i.tested) - 1)])

    it.opaque_calls["algo_cohn_schur"] = schur
    n = len(vel)
    me = it.alloc(st, InstC(ck.prog.cls(STA + "Stability"), {
        "nvtot": const(n), "dim": const(dim), "verbose": FALSE, "is_stable_l2": TRUE,
        "consm": it.newlist(st, cons), "param": it.alloc(st, DictC(param)),
        "relax_mat_f": it.mat(obj([x for y in R for x in y], (n, n)), st),
        "velocities": it.nd_new(obj([const(float(x)) for v in vel for x in v], (n, dim)), st, "float")}))
    args = [me, it.newlist(st, w), const(n_wv)]
    args.append(NONE if extra is None else it.alloc(st, DictC(extra)))
    r = it.run(fi, args[1:], {}, st, selfv=me)
    ck.use(it)
    return fi, it, me, r


def spectrum(ck, dim):
    vel = [(0,), (1,), (-2,)] if dim == 1 else [(1, 0), (0, -1), (2, 1)]
    n, n_wv = 3, (5, 11)[dim - 1]
    c, a, b, d = symbol("c"), symbol("a"), symbol("b"), symbol("d")
    R = [[B("+", symbol("r%d%d" % (i, j)), B("*", B("+", B("*", c, a), d), const(i + 2 * j))) for j in range(n)] for i in range(n)]
    # a is a parameter whose value holds another one, d is an extra parameter
    param = [(a, B("*", const(2), b)), (b, const(0.75))]
    for extra in ([(d, symbol("dd"))], None):
        name = "dimension %d%s" % (dim, "" if extra else ", no extra parameter")
        fi, it, me, r = eigenvalues(ck, dim, R, vel, [c], param, [symbol("c0")], n_wv, extra, lambda k: (1, 1))
        res = None if r.val is None else it.concrete_seq(r.val, r.st)
        xi, eigs = (it.as_nd(x, r.st) for x in res) if res is not None and len(res) == 2 else (None, None)
        side = n_wv if dim == 1 else int(n_wv ** 0.5)
        num = side ** dim
        if not ck.obl("spectrum", name + " shapes", xi is not None and eigs is not None and xi.shape == (dim, num) and eigs.shape == (num, n), fi,
                      "wave vectors %s, eigenvalues %s" % (getattr(xi, "shape", None), getattr(eigs, "shape", None))):
            continue
        g = random.Random(7)
        env = {s.args[0]: mpmath.mpf(g.random()) for y in R for x in y for s in walk(x) if s.op == "symbol"}
        env.update(c0=mpmath.mpf("0.3"), dd=mpmath.mpf("0.7"))
        num_ = lambda t: Numeric(env, None)(t)
        try:
            got = sorted(tuple(float(num_(xi[d, k])) for d in range(dim)) for k in range(num))
            grid = sorted(itertools.product([2 * cmath.pi * k / side for k in range(side)], repeat=dim))
            ok = all(abs(x - y) < 1e-9 for p, q in zip(got, grid) for x, y in zip(p, q))
            ck.obl("spectrum", name + " grid", ok, fi, "wave vectors %s" % (got[:4],))
            wrong = []
            for k in range(num):
                rows = {cmath_row(eigs[k])}
                ask = rows.pop()
                if ask is None or ask >= len(it.asked):
                    wrong.append("the row %d of the eigenvalues holds %s" % (k, show(eigs[k][0])[:80]))
                    continue
                x = [num_(xi[d, k]) for d in range(dim)]
                full = dict(env, c=env["c0"], a=mpmath.mpf(1.5), b=mpmath.mpf(0.75))
                if extra:
                    full["d"] = env["dd"]
                ref_ = [[Numeric(full, None)(R[i][j]) for j in range(n)] for i in range(n)]
                ph = [mpmath.expj(sum(v[d] * x[d] for d in range(dim))) for v in vel]
                for what, data in (("eigenvalues", it.asked[ask]), ("criterion", it.tested[ask] if ask < len(it.tested) else None)):
                    if data is None or data.shape != (n, n):
                        wrong.append("%s: matrix %s" % (what, None if data is None else data.shape))
                        continue
                    v = [[num_(data[i, j]) for j in range(n)] for i in range(n)]
                    if not any(all(abs(v[i][j] - ref_[i][j] * (p[j] if col else p[i])) < 1e-9 for i in range(n) for j in range(n))
                               for p in (ph, [mpmath.conj(y) for y in ph]) for col in (True, False)):
                        wrong.append("%s: matrix of the wave vector %s" % (what, [float(y) for y in x]))
            ck.obl("spectrum", name, not wrong and len(it.asked) == num == len(it.tested), fi, "%d matrices for %d wave vectors; %s" % (
                len(it.asked), num, wrong[:2]))
        except (Unknown, TypeError, ZeroDivisionError) as e:
            ck.obl("spectrum", name, False, fi, "not decided: %s" % (e,))


def cmath_row(row):
    """index of the request whose answer is in the row"""
    s = [x.args[0] if x.op == "symbol" else "" for x in row]
    k = s[0][3:].split("_")[0] if s[0].startswith("eig") else None
    return int(k) if k is not None and s == ["eig%s_%d" % (k, i) for i in range(len(s))] else None


def verdict(ck, w):
    R = [[symbol("r%d%d" % (i, j)) for j in range(2)] for i in range(2)]
    fi, it, me, r = eigenvalues(ck, 1, R, [(1,), (-1,)], [symbol("c")], [], [const(0)], 3, None, lambda k: w[k % 3])
    v = None if r.val is None else it.freeze(it.load_attr(me, "is_stable_l2", r.st, None), r.st)
    want = 2 if not all(y for _, y in w) else 0 if all(x for x, _ in w) else 1
    ck.obl("verdict", "simple and von Neumann %s" % (w,), v is not None and is_const(v) and cval(v) == want, fi, "is_stable_l2 is %s, required %d" % (
        v if v is None else show(v)[:100], want))


def build(ck, m, kind, cls, it=None):
    it = it or AnaInterp(ck.prog, inline_classes={"pylbm.scheme.Scheme", cls})
    it.no_exc = True
    st = State()
    m.EQ = equilibria(m, kind)
    d = m.build(ck, it, st)
    it.on_new["Stencil"] = lambda i, s, t, a, k: m.stencil(i, s, t)
    it.opaque_calls["get_all_velocities"] = m.velocities
    it.stop = it.stop | {"__str__", "validate"}
    c = ck.prog.cls(cls)
    src = ("def drive(d):\n    from pylbm.scheme import Scheme\n    s = Scheme(d, check_inverse=False, need_validation=False)\n"
           "    return %s(s), s.EQ, s.M\n" % c.name)
    r = it.run(ref(ck.prog, c.module, src), [d], {}, st)
    ck.use(it)
    return it, r, c


def stability(ck, m, kind):
    fi = ck.prog.func(STA + "Stability.__init__")
    name = "%s %s" % (m.name, ("affine", "nonlinear")[kind])
    it, r, c = build(ck, m, kind, STA + "Stability")
    if r.val is None:
        ck.obl("matrix", name, False, fi, "an exception is raised, or a step is not decided, on the way")
        return
    me = it.concrete_seq(r.val, r.st)[0]
    lin = Linear(m, m.EQ)
    get = lambda n: entries(it.freeze(it.load_attr(me, n, r.st, None), r.st))
    R = get("relax_mat_f")
    if not ck.obl("matrix", name + " shape", R is not None and R.shape == (m.n, m.n), fi, "relax_mat_f has shape %s" % (
            None if R is None else R.shape,)):
        return
    bad = [(i, j) for i in range(m.n) for j in range(m.n) if not zero(value(R[i, j]) - lin.R[i, j])]
    ck.obl("matrix", name, not bad, fi, "%d entries differ, entry %s: %s, required %s" % (
        len(bad), bad and bad[0], bad and str(value(R[bad[0]]))[:200], bad and str(lin.R[bad[0]])[:200]))
    v = get("velocities")
    want = [c for w in m.vel for x in w for c in x]
    ck.obl("velocities", name, v is not None and v.shape == (m.n, m.dim) and [float(cval(x)) for x in v.reshape(-1)] == want, fi,
           "velocities %s" % (v if v is None else [show(x) for x in v.reshape(-1)],))


def equivalent(ck, m, kind):
    fi = ck.prog.func(EQE + "EquivalentEquation.__init__")
    name = "%s %s" % (m.name, ("affine", "nonlinear")[kind])
    it, r, c = build(ck, m, kind, EQE + "EquivalentEquation")
    if r.val is None:
        ck.obl("flux", name, False, fi, "an exception is raised, or a step is not decided, on the way")
        return
    me = it.concrete_seq(r.val, r.st)[0]
    lin = Linear(m, m.EQ)
    attr = lambda n: it.load_attr(me, n, r.st, None)
    cons = [value(x) for x in it.concrete_seq(attr("consm"), r.st)]
    if not ck.obl("flux", name + " conserved moments", sorted(map(str, cons)) == sorted(map(str, lin.cons)), fi, "consm %s" % cons):
        return
    rows = [m.consm[lin.cons.index(x)][1] for x in cons]
    rest = [i for i in range(m.n) if i not in rows]
    K = [lin.flux(d) for d in range(m.dim)]
    nc = len(rows)
    E = lin.E.extract(rest, rows)
    # m* - m = -(1 - N) (m - EQ), whose conserved components are zero
    sig = (sympy.eye(m.n) - lin.N).extract(rest, rest).applyfunc(sympy.cancel).inv() - sympy.eye(len(rest)) / 2
    blk = lambda d: (K[d].extract(rows, rows), K[d].extract(rows, rest), K[d].extract(rest, rows), K[d].extract(rest, rest))
    o1 = it.concrete_seq(attr("coeff_order1"), r.st)
    ok = ck.obl("flux", name + " axes", len(o1) == m.dim, fi, "%d fluxes in dimension %d" % (len(o1), m.dim))
    for d in range(m.dim if ok else 0):
        got = entries(it.freeze(o1[d], r.st))
        want = (K[d] * lin.EQ).extract(rows, [0])
        good = got is not None and got.size == nc and all(zero(value(x) - y) for x, y in zip(got.reshape(-1), want))
        ck.obl("flux", "%s axis %d" % (name, d), good, fi, "%s, required %s" % (got is not None and [str(value(x))[:150] for x in got.reshape(-1)], list(want)))
    o2 = [it.concrete_seq(x, r.st) for x in it.concrete_seq(attr("coeff_order2"), r.st)]
    for d, i in itertools.product(range(m.dim), repeat=2):
        A, B_, C, D_ = blk(i)
        want = blk(d)[1] * sig * (-(C + D_ * E) + E * (A + B_ * E))
        got = entries(it.freeze(o2[d][i], r.st))
        bad = got is None or got.shape != want.shape or [(p, q) for p in range(nc) for q in range(nc) if not zero(value(got[p, q]) - want[p, q])]
        ck.obl("diffusion", "%s axes %d %d" % (name, d, i), not bad, fi, "entries %s: %s, required %s" % (
            bad, got is not None and bad is not True and bad and str(value(got[bad[0]]))[:200], bad and bad is not True and str(want[bad[0]])[:200]))
