"""Abstract interpretation with integers that are polynomials of natural numbers.

The unknowns of `it.nat` are natural numbers; a value is a constant or a
polynomial of them (with at most one square root), and comparisons, abs, min,
max, the integer part, division and remainder are decided for *all* values of
the unknowns or left undecided."""
import ast
import itertools

import sympy

from .interp import T, const, cval, is_const, Unknown
from .symx import SymInterp

CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


class PolyInterp(SymInterp):
    def __init__(self, *a, nat=(), **kw):
        super().__init__(*a, **kw)
        self.nat = tuple(nat)
        self.undecided = []

    # ---- values --------------------------------------------------------
    def px(self, t):
        """sympy value of a term, None when it is not one"""
        if not isinstance(t, T):
            return None
        if t.op == "px":
            return t.args[0]
        if is_const(t):
            v = cval(t)
            if isinstance(v, (bool, int)):
                return sympy.Integer(int(v))
            if isinstance(v, float) and v == v and abs(v) < 1e15:
                return sympy.nsimplify(v, rational=True)
        return None

    def mk(self, e):
        e = sympy.expand(e)
        if e.is_Integer:
            return const(int(e))
        if e.is_Rational:
            return const(float(e))
        return T("px", e)

    def poly(self, t):
        return isinstance(t, T) and t.op == "px"

    # ---- signs -----------------------------------------------------------
    def sgn(self, e):
        """1, 0, -1, ">=", "<=" or None for all natural values of the unknowns"""
        e = sympy.expand(e)
        if e == 0:
            return 0
        r = self.root(e)
        if r is not None:
            a, b, p = r
            # a + b sqrt(p)
            sa, sb = self.sgn(a), self.sgn(b)
            pos, neg = (1, 0, ">="), (-1, 0, "<=")
            if sa in pos and sb in pos:
                return ">="
            if sa in neg and sb in neg:
                return "<="
            d = self.sgn(sympy.expand(b * b * p - a * a))  # |b| sqrt(p) - |a|
            if sa in neg and sb in pos:
                return {1: 1, 0: 0, -1: -1, ">=": ">=", "<=": "<="}.get(d)
            if sa in pos and sb in neg:
                return {1: -1, 0: 0, -1: 1, ">=": "<=", "<=": ">="}.get(d)
            return None
        if e.free_symbols - set(self.nat):
            return None
        if e.is_number:
            return 1 if e > 0 else -1
        try:
            c = sympy.Poly(e, *self.nat)
        except sympy.PolynomialError:
            return None
        k = c.coeff_monomial(1)
        cs = c.coeffs()
        if all(x >= 0 for x in cs):
            return 1 if k > 0 else ">="
        if all(x <= 0 for x in cs):
            return -1 if k < 0 else "<="
        return None

    def root(self, e):
        """(a, b, p) with e = a + b sqrt(p)"""
        rs = [x for x in sympy.preorder_traversal(e) if x.is_Pow and x.exp in (sympy.Rational(1, 2), sympy.Rational(-1, 2))]
        if not rs:
            return None
        p = rs[0].base
        s = sympy.sqrt(p)
        b = sympy.expand(e).coeff(s)
        a = sympy.expand(e - b * s)
        if a.has(s) or b.has(s):
            raise Unknown("several roots")
        return a, b, p

    def rel(self, op, x, y):
        s = self.sgn(x - y)
        if s is None:
            return None
        tab = {
            "<": {-1: True, 0: False, 1: False, ">=": False},
            "<=": {-1: True, 0: True, 1: False, "<=": True},
            ">": {-1: False, 0: False, 1: True, "<=": False},
            ">=": {-1: False, 0: True, 1: True, ">=": True},
            "==": {-1: False, 0: True, 1: False},
            "!=": {-1: True, 0: False, 1: True},
        }
        return tab[op].get(s)

    # ---- operations --------------------------------------------------------
    def truth(self, v, st):
        if self.poly(v):
            r = self.rel("!=", v.args[0], 0)
            if r is None:
                self.undecided.append(v)
            return r
        return super().truth(v, st)

    def compare(self, op, a, b, st):
        if type(op) in CMP and (self.poly(a) or self.poly(b)):
            x, y = self.px(a), self.px(b)
            if x is not None and y is not None:
                r = self.rel(CMP[type(op)], x, y)
                if r is not None:
                    return const(r)
                self.undecided.append((CMP[type(op)], x, y))
        if isinstance(op, (ast.Is, ast.IsNot)):
            for p, q in ((a, b), (b, a)):
                if self.poly(p) and is_const(q) and cval(q) is None:
                    return const(isinstance(op, ast.IsNot))
        return super().compare(op, a, b, st)

    def binop(self, op, a, b):
        if self.poly(a) or self.poly(b):
            x, y = self.px(a), self.px(b)
            if x is not None and y is not None:
                if op == "+":
                    return self.mk(x + y)
                if op == "-":
                    return self.mk(x - y)
                if op == "*":
                    return self.mk(x * y)
                if op == "**" and y.is_Integer and 0 <= y < 8:
                    return self.mk(x ** y)
                if op == "**" and y == sympy.Rational(1, 2):
                    return self.sqrt(x)
                if op == "/" and y.is_number and y != 0:
                    return self.mk(x / y)
                if op in ("//", "%") and y.is_Integer and y > 0:
                    q = self.floor(x / y)
                    if q is not None:
                        return self.mk(q) if op == "//" else self.mk(x - y * q)
        return super().binop(op, a, b)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.eval(e.operand, st)
            if self.poly(v):
                return self.mk(-v.args[0]) if isinstance(e.op, ast.USub) else v
        return super().e_UnaryOp(e, st)

    def sqrt(self, x):
        p = sympy.factor_list(sympy.expand(x))
        out, ok = sympy.sqrt(p[0]), sympy.sqrt(p[0]).is_Rational
        for f, k in p[1]:
            ok = ok and k % 2 == 0
            if ok:
                s = self.sgn(f)
                out = out * (f if s in (1, ">=", 0) else -f) ** (k // 2)
                ok = s is not None
        return self.mk(out) if ok else T("px", sympy.sqrt(sympy.expand(x)))

    def floor(self, e):
        """integer part from below, a polynomial, or None"""
        e = sympy.expand(e)
        if self.root(e) is None:
            if e.free_symbols - set(self.nat):
                return None
            q = sympy.Poly(e, *self.nat)
            k = q.coeff_monomial(1)
            rest = sympy.expand(e - k)
            if all(c.is_Integer for c in sympy.Poly(rest, *self.nat).coeffs()):
                return rest + sympy.floor(k)
        for cs in itertools.product((0, 1, 2), repeat=len(self.nat)):
            for c in (0, 1, 2, 3, -1, -2):
                k = sum((x * s for x, s in zip(cs, self.nat)), sympy.Integer(c))
                if self.rel(">=", e, k) and self.rel("<", e, k + 1):
                    return k
        return None

    def external(self, name, args, kwargs, st, node):
        if (args and name.rsplit(".", 1)[-1] in ("sqrt", "isqrt", "floor", "ceil", "trunc") and all(is_const(a) for a in args if isinstance(a, T)) \
                or any(self.poly(a) for a in args)) and all(self.px(a) is not None for a in args):
            last = name.rsplit(".", 1)[-1]
            v = [self.px(a) for a in args]
            r = None
            if last in ("abs", "absolute", "fabs") and len(v) == 1:
                s = self.sgn(v[0])
                r = v[0] if s in (1, ">=") else -v[0] if s in (-1, "<=") else None
            elif last == "sign" and len(v) == 1:
                s = self.sgn(v[0])
                r = sympy.Integer(s) if s in (1, -1, 0) else None
            elif last in ("max", "min", "maximum", "minimum", "amax", "amin") and len(v) > 1:
                r = v[0]
                for x in v[1:]:
                    g = self.rel(">=", r, x)
                    if g is None:
                        g2 = self.rel("<=", r, x)
                        g = None if g2 is None else not g2
                    if g is None:
                        r = None
                        break
                    r = r if g == ("max" in last) else x
            elif last in ("sqrt",) and len(v) == 1:
                return self.sqrt(v[0])
            elif last == "isqrt" and len(v) == 1:
                t = self.px(self.sqrt(v[0]))
                r = self.floor(t)
            elif last in ("int", "trunc", "fix", "int32", "int64") and len(v) == 1:
                s = self.sgn(v[0])
                if s in (1, 0, ">="):
                    r = self.floor(v[0])
                elif s in (-1, "<="):
                    r = self.floor(-v[0])
                    r = -r if r is not None else None
            elif last == "floor" and len(v) == 1:
                r = self.floor(v[0])
            elif last == "ceil" and len(v) == 1:
                r = self.floor(-v[0])
                r = -r if r is not None else None
            elif last == "divmod" and len(v) == 2:
                from .interp import Tup
                return Tup((self.binop("//", args[0], args[1]), self.binop("%", args[0], args[1])))
            elif last in ("float", "float64", "index"):
                r = v[0]
            if r is not None:
                return self.mk(r)
            self.undecided.append((name, v))
        return super().external(name, args, kwargs, st, node)
