"""Exact algebra on terms (commutative rings, exact rationals)."""
import fractions
import zlib

import sympy

from .terms import T, is_const, cval, show

_syms = {}


def atom(t):
    if t not in _syms:
        _syms[t] = sympy.Symbol("a%d" % len(_syms), real=True)
    return _syms[t]


def alg(t, leaf=None):
    """sympy expression of a term; anything that is not arithmetic is an atom"""
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool):
            return sympy.Integer(int(v))
        if isinstance(v, int):
            return sympy.Integer(v)
        if isinstance(v, float):
            f = fractions.Fraction(v)
            return sympy.Rational(f.numerator, f.denominator)
        if isinstance(v, fractions.Fraction):
            return sympy.Rational(v.numerator, v.denominator)
        return atom(t)
    if t.op == "bin":
        op, a, b = t.args
        if op in ("+", "-", "*", "/", "**"):
            x, y = alg(a, leaf), alg(b, leaf)
            return x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y if op == "/" else x ** y
        return atom(t)
    if t.op == "neg":
        return -alg(t.args[0], leaf)
    if t.op == "call" and t.args[0].op == "ext" and len(t.args) == 2:
        n = t.args[0].args[0]
        if n in ("int", "float", "numpy.float64", "numpy.double", "numpy.int32", "numpy.int64", "sympy.S", "sympy.sympify"):
            return alg(t.args[1], leaf)
        if n in ("abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs"):
            return sympy.Abs(alg(t.args[1], leaf))
        if n in ("numpy.sqrt", "math.sqrt", "sympy.sqrt"):
            return sympy.sqrt(alg(t.args[1], leaf))
        if n in ("numpy.negative",):
            return -alg(t.args[1], leaf)
    if t.op == "call" and t.args[0].op == "ext" and len(t.args) == 3:
        n = t.args[0].args[0].rsplit(".", 1)[-1]
        if n in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
            op = dict(add="+", subtract="-", multiply="*", divide="/", true_divide="/", power="**")[n]
            return alg(T("bin", op, t.args[1], t.args[2]), leaf)
    return atom(t)


class Undefined(Exception):
    pass


def number(*key):
    k = zlib.crc32(repr(key).encode())
    return fractions.Fraction(k % 89 + 7, (k // 89) % 53 + 11)


def at_point(e, memo):
    """value of an expression at a fixed point, functions being arbitrary"""
    if e in memo:
        return memo[e]
    if e.is_Rational:
        r = fractions.Fraction(int(e.p), int(e.q))
    elif e.is_Symbol:
        r = number(e.name)
    elif e.is_Add:
        r = sum((at_point(a, memo) for a in e.args), fractions.Fraction(0))
    elif e.is_Mul:
        r = fractions.Fraction(1)
        for a in e.args:
            r *= at_point(a, memo)
    elif e.is_Pow and e.exp.is_Integer:
        b, n = at_point(e.base, memo), int(e.exp)
        if (b == 0 and n < 0) or abs(n) > 50:
            raise Undefined()
        r = b ** n
    elif isinstance(e, sympy.core.function.AppliedUndef):
        r = number(e.func.__name__, *[str(at_point(a, memo)) for a in e.args])
    else:
        raise Undefined()
    memo[e] = r
    return r


def probe(e):
    """False when the expression is not zero at a point"""
    try:
        return at_point(e, {}) == 0
    except Undefined:
        return True


def zero(e):
    e = sympy.sympify(e)
    if not probe(e):
        return False
    e = sympy.expand(e)
    if e == 0:
        return True
    return sympy.cancel(e) == 0


def eq(a, b, leaf=None):
    return zero(alg(a, leaf) - alg(b, leaf))


def name(e):
    """readable form: atoms replaced by their terms"""
    s = sympy.sstr(e)
    inv = {v: k for k, v in _syms.items()}
    for v in sorted(getattr(e, "free_symbols", ()), key=lambda v: -len(v.name)):
        if v in inv:
            s = s.replace(v.name, show(inv[v])[:60])
    return s
