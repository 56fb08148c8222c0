"""Normal forms for value terms: rational polynomials over canonical atoms,
canonical comparisons and boolean connectives, alpha-renamed binders, gated phi
terms lifted to the top.  Two terms with the same normal form denote the same
value; rules compare normal forms, never source text."""
import hashlib
from fractions import Fraction

from .terms import FALSE, NONE, T, TRUE, const, cval, ext, is_const, subst, walk

_keys = {}


def skey(t):
    """deterministic structural key"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(skey(x) for x in t) + ")"
        return type(t).__name__ + ":" + repr(t)
    k = _keys.get(t)
    if k is None:
        h = hashlib.sha1((t.op + "|" + "|".join(skey(a) for a in t.args)).encode())
        k = t.op[:4] + h.hexdigest()
        _keys[t] = k
    return k


ARITH = {
    "numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/",
    "numpy.true_divide": "/", "numpy.power": "**", "operator.add": "+", "operator.sub": "-",
    "operator.mul": "*", "operator.truediv": "/", "math.pow": "**", "pow": "**",
}
COMPARE = {
    "numpy.less": ("<", 0, 0), "numpy.greater": ("<", 1, 0),
    "numpy.less_equal": ("<", 1, 1), "numpy.greater_equal": ("<", 0, 1),
    "numpy.equal": ("==", 0, 0), "numpy.not_equal": ("==", 0, 1),
}
IDENT = {"numpy.asarray", "numpy.array", "numpy.asanyarray", "float", "numpy.float64",
         "numpy.ascontiguousarray", "sympy.Integer", "sympy.Float", "sympy.sympify",
         "sympy.S", "copy.copy", "copy.deepcopy", "numpy.copy"}
SAME = {"math.sqrt": "numpy.sqrt", "math.cos": "numpy.cos", "math.sin": "numpy.sin",
        "math.pi": "numpy.pi", "numpy.absolute": "abs", "numpy.abs": "abs",
        "numpy.fabs": "abs", "math.fabs": "abs", "sympy.Abs": "abs",
        "sympy.Eq": "sympy.Eq", "sympy.Equality": "sympy.Eq",
        "numpy.maximum": "max", "numpy.minimum": "min", "numpy.amax": "numpy.max",
        "numpy.amin": "numpy.min", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil",
        "numpy.concatenate": "numpy.concatenate"}
BOOLOPS = ("lt0", "eq0", "and", "or", "not", "==", "<", "is", "in", "isinstance", "truth")


class Normalizer:
    def __init__(self, comm=True, lift=True, ident=IDENT, hook=None):
        self.comm, self.lift, self.ident, self.hook = comm, lift, ident, hook
        self.memo = {}

    # ---- polynomials ---------------------------------------------------
    # poly: dict mono -> Fraction ; mono: tuple of (atom, exp:Fraction)
    def poly_const(self, c):
        c = Fraction(c)
        return {(): c} if c else {}

    def p_add(self, a, b, k=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + k * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def m_mul(self, m, n):
        if not self.comm:
            out = list(m)
            for a, e in n:
                if out and out[-1][0] is a:
                    ee = out[-1][1] + e
                    out.pop()
                    if ee:
                        out.append((a, ee))
                else:
                    out.append((a, e))
            return tuple(out)
        d = dict(m)
        for a, e in n:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return tuple(sorted(d.items(), key=lambda x: skey(x[0])))

    def p_mul(self, a, b):
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.m_mul(m, n)
                # merging half powers may produce polynomials in disguise: keep
                v = out.get(k, 0) + c * d
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        if self.comm:
            out = self.expand_pow(out)
        return out

    def expand_pow(self, p):
        """(poly-atom)^integer>=1 monomials back to polynomials"""
        again = {}
        changed = False
        for m, c in p.items():
            hit = None
            for a, e in m:
                if a.op == "poly" and e.denominator == 1 and e >= 1:
                    hit = (a, e)
                    break
            if hit is None:
                again = self.p_add(again, {m: c})
                continue
            changed = True
            rest = tuple(x for x in m if x[0] is not hit[0])
            q = {rest: c}
            base = dict(hit[0].args[0])
            for _ in range(int(hit[1])):
                q2 = {}
                for m1, c1 in q.items():
                    for m2, c2 in base.items():
                        q2 = self.p_add(q2, {self.m_mul(m1, m2): c1 * c2})
                q = q2
            again = self.p_add(again, q)
        return self.expand_pow(again) if changed else again

    def to_poly(self, t):
        """normalised term -> poly"""
        if t.op == "poly":
            return dict(t.args[0])
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return self.poly_const(Fraction(v))
        return {((t, Fraction(1)),): Fraction(1)}

    def from_poly(self, p):
        if not p:
            return const(0)
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                if c.denominator == 1:
                    return const(int(c))
                return T("poly", (((), c),))
            if len(m) == 1 and c == 1 and m[0][1] == 1:
                return m[0][0]
        items = tuple(sorted(p.items(), key=lambda x: skey(tuple(
            (a, str(e)) for a, e in x[0]))))
        return T("poly", items)

    def p_pow(self, p, e):
        """p ** e for rational e"""
        if e == 0:
            return self.poly_const(1)
        if e.denominator == 1 and e > 0 and (len(p) <= 1 or e <= 4):
            out = self.poly_const(1)
            for _ in range(int(e)):
                out = self.p_mul(out, p)
            return out
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1 or c == 1 or (c > 0 and self._root(c, e) is not None):
                cc = c ** int(e) if e.denominator == 1 else self._root(c, e)
                if e.denominator == 1 or all(ex.denominator == 1 and ex == 1 for _, ex in m):
                    return {tuple((a, ex * e) for a, ex in m): Fraction(cc)}
        if not p:
            return {((T("zeropow", str(e)), Fraction(1)),): Fraction(1)}
        # scale so that the leading coefficient is 1
        items = sorted(p.items(), key=lambda x: skey(tuple((a, str(ee)) for a, ee in x[0])))
        lead = items[0][1]
        if e.denominator == 1 or (lead > 0 and self._root(lead, e) is not None):
            q = {m: c / lead for m, c in p.items()}
            cc = lead ** int(e) if e.denominator == 1 else self._root(lead, e)
            return {((self.atom_poly(q), e),): Fraction(cc)}
        return {((self.atom_poly(p), e),): Fraction(1)}

    def _root(self, c, e):
        import math
        if e == Fraction(1, 2) or e == Fraction(-1, 2):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                r = Fraction(n, d)
                return r if e > 0 else 1 / r
        return None

    def atom_poly(self, p):
        items = tuple(sorted(p.items(), key=lambda x: skey(tuple(
            (a, str(e)) for a, e in x[0]))))
        return T("poly", items)

    # ---- main -----------------------------------------------------------
    def __call__(self, t):
        return self.n(t, ())

    def n(self, t, env):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.n(x, env) for x in t)
            return t
        key = (t, env)
        r = self.memo.get(key)
        if r is None:
            r = self._n(t, env)
            self.memo[key] = r
        return r

    def idx(self, lid, env):
        for k, e in enumerate(reversed(env)):
            if e == lid:
                return k
        return None

    def _n(self, t, env):
        op, a = t.op, t.args
        if op == "const":
            v = cval(t)
            if isinstance(v, float) and v == v and abs(v) != float("inf"):
                f = Fraction(v)
                if f.denominator == 1:
                    return const(int(f))
                return T("poly", (((), f),))
            return t
        if op in ("sym", "symbol", "funcref", "classref", "modref"):
            return t
        if op == "ext":
            return ext(SAME.get(a[0], a[0]))
        if op == "bv":
            k = self.idx(a[0], env)
            return t if k is None else T("bv", "B%d" % k)
        if op == "mu":
            k = self.idx(a[0], env)
            return T("mu", "B%s" % k, self.n(a[2], env) if isinstance(a[2], T) else None)
        if op == "car":
            return T("car", self.n(a[1], env) if isinstance(a[1], T) else None,
                     self.n(a[2], env + (a[0],)), self.n(a[3], env))
        if op == "after" and a[0] in ("row_swap", "col_swap") and len(a) == 4:
            r, x, y = [self.n(z, env) for z in a[1:]]
            x, y = sorted((x, y), key=skey)
            if a[0] == "row_swap" and r.op == "after" and r.args[0] == "col_swap":
                # exchanges of rows and of columns commute
                return T("after", "col_swap", T("after", "row_swap", r.args[1], x, y), *r.args[2:])
            return T("after", a[0], r, x, y)
        if op in ("comp", "compif", "compseg", "last", "fold", "dictcomp"):
            return self.binder(t, env)
        if op == "lam":
            lid, cnt, body = a
            e2 = env + tuple(lid * 1000 + k for k in range(cnt))
            return T("lam", cnt, self.n(body, e2))
        if op in ("anyret", "brk", "anybreak"):
            return T(op, *[self.n(x, env) for x in a[1:]])
        if op == "while":
            return T("while", self.n(a[1], env + (a[0],)) if isinstance(a[1], T) else None)
        if op == "bin":
            return self.arith(a[0], self.n(a[1], env), self.n(a[2], env))
        if op == "neg":
            return self.lifted(lambda x: self.from_poly(
                self.p_mul(self.poly_const(-1), self.to_poly(x))), self.n(a[0], env))
        if op == "<":
            return self.less(self.n(a[0], env), self.n(a[1], env))
        if op == "==":
            return self.equal(self.n(a[0], env), self.n(a[1], env))
        if op == "not":
            return self.neg(self.n(a[0], env))
        if op in ("and", "or"):
            return self.junction(op, [self.n(x, env) for x in a])
        if op == "phi":
            return self.phi(self.n(a[0], env), self.n(a[1], env), self.n(a[2], env))
        if op == "elemof":
            return self.item(self.n(a[0], env), self.n(a[1], env))
        if op == "item":
            return self.item(self.n(a[0], env), self.n(a[1], env))
        if op in ("tuple", "list", "segs"):
            return self.seq([self.n(x, env) for x in a])
        if op == "len":
            return self.length(self.n(a[0], env))
        if op == "call":
            return self.call(t, env)
        if op == "dict":
            return T("dict", *sorted((self.n(x, env) for x in a), key=skey))
        if op == "set":
            return T("set", *sorted(set(self.n(x, env) for x in a), key=skey))
        if op == "truth":
            return T("truth", self.n(a[0], env))
        new = [self.n(x, env) if isinstance(x, (T, tuple)) else x for x in a]
        if op in ("attr",):
            return self.lifted(lambda x: T("attr", x, a[1]), new[0])
        return T(op, *new)

    def binder(self, t, env):
        op, a = t.op, t.args
        lid, dom = a[0], a[1]
        rest = a[2:]
        if dom is not None and isinstance(dom, T) and dom.op == "range" and len(dom.args) == 2:
            lo, hi = dom.args
            if not (is_const(lo) and cval(lo) == 0):
                bv = T("bv", lid)
                m = {bv: T("bin", "+", bv, lo)}
                rest = tuple(subst(x, m) for x in rest)
                dom = T("range", const(0), T("bin", "-", hi, lo))
        d = self.n(dom, env + (lid,) if isinstance(dom, T) and dom.op == "while" else env) \
            if isinstance(dom, T) else dom
        e2 = env + (lid,)
        if op == "fold":
            return T("fold", d, self.n(rest[0], env), self.n(rest[1], e2))
        if op == "last":
            return T("last", d, self.n(rest[0], e2))
        if op == "comp":
            b = self.n(rest[0], e2)
            # [x[i] for i in range(len(x))] == x
            if b.op == "item" and b.args[1] is T("bv", "B0") and d.op == "range" and \
                    d.args[0] is const(0) and d.args[1] is T("len", b.args[0]) and \
                    not any(x is T("bv", "B0") for x in walk(b.args[0])):
                return b.args[0]
            return T("comp", d, b)
        return T(op, d, *[self.n(x, e2) for x in rest])

    def seq(self, xs):
        if len(xs) == 1 and xs[0].op == "splat":
            return xs[0].args[0]
        return T("seq", *xs)

    def length(self, x):
        if x.op == "comp" and x.args[0].op == "range" and x.args[0].args[0] is const(0):
            return x.args[0].args[1]
        if x.op == "seq" and not any(y.op in ("splat", "splatphi") for y in x.args):
            return const(len(x.args))
        return T("len", x)

    def item(self, x, k):
        if x.op == "seq" and is_const(k) and isinstance(cval(k), int) and not any(
                y.op in ("splat", "splatphi") for y in x.args):
            if -len(x.args) <= cval(k) < len(x.args):
                return x.args[cval(k)]
        if x.op == "phi":
            return self.phi(x.args[0], self.item(x.args[1], k), self.item(x.args[2], k))
        if k.op == "phi" and self.lift:
            return self.phi(k.args[0], self.item(x, k.args[1]), self.item(x, k.args[2]))
        return T("item", x, k)

    # phi lifting ----------------------------------------------------------
    def lifted(self, f, *xs):
        if self.lift:
            conds = [x.args[0] for x in xs if x.op == "phi"]
            if conds:
                c = min(conds, key=skey)
                ya = [x.args[1] if x.op == "phi" and x.args[0] is c else x for x in xs]
                yb = [x.args[2] if x.op == "phi" and x.args[0] is c else x for x in xs]
                return self.phi(c, self.lifted(f, *ya), self.lifted(f, *yb))
        return f(*xs)

    def phi(self, c, a, b):
        if is_const(c):
            return a if cval(c) else b
        if c.op == "not":
            return self.phi(c.args[0], b, a)
        if a.op == "phi" and a.args[0] is c:
            a = a.args[1]
        if b.op == "phi" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return self.neg(c)
        return T("phi", c, a, b)

    def arith(self, op, x, y):
        if op in ("+", "-", "*", "/", "**"):
            return self.lifted(lambda p, q: self._arith(op, p, q), x, y)
        if op in ("&", "|") and x.op in BOOLOPS and y.op in BOOLOPS:
            return self.junction("and" if op == "&" else "or", [x, y])
        if op in ("&", "|", "^"):
            x, y = sorted((x, y), key=skey)
        if op == "%" or op == "//":
            if is_const(x) and is_const(y) and cval(y):
                return const(cval(x) % cval(y) if op == "%" else cval(x) // cval(y))
        return self.lifted(lambda p, q: T("bin", op, p, q), x, y)

    def _arith(self, op, x, y):
        if op in ("+", "*") and (x.op in ("seq", "comp", "compif") or y.op in ("seq", "comp", "compif")):
            if op == "+":
                if x.op in ("comp", "compif", "seq") and y.op in ("comp", "compif", "seq"):
                    xs = x.args if x.op == "seq" else (T("splat", x),)
                    ys = y.args if y.op == "seq" else (T("splat", y),)
                    return T("seq", *(tuple(xs) + tuple(ys)))
        if is_const(x) and isinstance(cval(x), str) or is_const(y) and isinstance(cval(y), str) \
                or x.op == "fmt" or y.op == "fmt":
            return T("bin", op, x, y)
        p, q = self.to_poly(x), self.to_poly(y)
        if op == "+":
            return self.from_poly(self.p_add(p, q))
        if op == "-":
            return self.from_poly(self.p_add(p, q, -1))
        if op == "*":
            return self.from_poly(self.p_mul(p, q))
        if op == "/":
            if not q:
                return T("bin", "/", x, y)
            return self.from_poly(self.p_mul(p, self.p_pow(q, Fraction(-1))))
        if op == "**":
            if not q:
                return const(1)
            if len(q) == 1 and () in q and abs(q[()]) <= 8:
                return self.from_poly(self.p_pow(p, q[()]))
            return T("bin", "**", x, y)

    def less(self, x, y):
        def f(p, q):
            d = self.p_add(self.to_poly(p), self.to_poly(q), -1)
            if not d:
                return FALSE
            if len(d) == 1 and () in d:
                return const(d[()] < 0)
            items = sorted(d.items(), key=lambda z: skey(tuple((a, str(e)) for a, e in z[0])))
            k = abs(items[0][1])
            return T("lt0", self.from_poly({m: c / k for m, c in d.items()}))
        return self.lifted(f, x, y)

    def equal(self, x, y):
        def f(p, q):
            if p is q:
                return TRUE
            for z in (p, q):
                if (is_const(z) and isinstance(cval(z), (str, bool, bytes, type(None)))) or \
                        z.op in ("fmt", "ext", "seq", "dict", "classref", "symbol"):
                    p, q = sorted((p, q), key=skey)
                    if is_const(p) and is_const(q):
                        return const(cval(p) == cval(q))
                    return T("==", p, q)
            d = self.p_add(self.to_poly(p), self.to_poly(q), -1)
            if not d:
                return TRUE
            if len(d) == 1 and () in d:
                return FALSE
            items = sorted(d.items(), key=lambda z: skey(tuple((a, str(e)) for a, e in z[0])))
            k = items[0][1]
            return T("eq0", self.from_poly({m: c / k for m, c in d.items()}))
        return self.lifted(f, x, y)

    def neg(self, x):
        if is_const(x):
            return const(not cval(x))
        if x.op == "not":
            return x.args[0]
        if x.op in ("and", "or"):
            return self.junction("or" if x.op == "and" else "and", [self.neg(y) for y in x.args])
        if x.op == "phi":
            return self.phi(x.args[0], self.neg(x.args[1]), self.neg(x.args[2]))
        return T("not", x)

    def junction(self, op, xs):
        out = []
        for x in xs:
            if is_const(x) and isinstance(cval(x), bool):
                if cval(x) is (op == "or"):
                    return const(op == "or")
                continue
            for y in (x.args if x.op == op else (x,)):
                if y not in out:
                    out.append(y)
        for y in out:
            if self.neg(y) in out:
                return const(op == "or")
        if not out:
            return const(op == "and")
        if len(out) == 1:
            return out[0]
        return T(op, *sorted(out, key=skey))

    def call(self, t, env):
        fn = t.args[0]
        args = [self.n(x, env) for x in t.args[1:]]
        pos = [x for x in args if x.op != "kw"]
        kws = [x for x in args if x.op == "kw"]
        if self.hook is not None:
            r = self.hook(self, fn, pos, kws, env)
            if r is not None:
                return r
        if fn.op == "ext":
            name = SAME.get(fn.args[0], fn.args[0])
            if name in self.ident and pos:
                return pos[0]
            if name in ARITH and len(pos) == 2 and not kws:
                return self.arith(ARITH[name], pos[0], pos[1])
            if name == "numpy.negative" and len(pos) == 1:
                return self.arith("*", const(-1), pos[0])
            if name == "numpy.square" and len(pos) == 1:
                return self.arith("**", pos[0], const(2))
            if name == "numpy.hypot" and len(pos) == 2:
                s = self.arith("+", self.arith("**", pos[0], const(2)),
                               self.arith("**", pos[1], const(2)))
                return self.lifted(lambda x: self.from_poly(
                    self.p_pow(self.to_poly(x), Fraction(1, 2))), s)
            if name in ("numpy.sqrt", "sympy.sqrt") and len(pos) == 1:
                return self.lifted(lambda x: self.from_poly(
                    self.p_pow(self.to_poly(x), Fraction(1, 2))), pos[0])
            if name == "sympy.Rational" and len(pos) == 2:
                return self.arith("/", pos[0], pos[1])
            if name in ("numpy.logical_and", "numpy.logical_or") and len(pos) == 2:
                return self.junction("and" if name.endswith("and") else "or", pos)
            if name in ("numpy.logical_not",) and len(pos) == 1:
                return self.neg(pos[0])
            if name == "numpy.invert" and len(pos) == 1 and pos[0].op in BOOLOPS:
                return self.neg(pos[0])
            if name in COMPARE and len(pos) == 2:
                o, sw, ng = COMPARE[name]
                x, y = (pos[1], pos[0]) if sw else pos
                r = self.less(x, y) if o == "<" else self.equal(x, y)
                return self.neg(r) if ng else r
            if name in ("max", "min") and len(pos) >= 2:
                xs = []
                for p in pos:
                    if p.op == "call" and p.args[0] is ext(name):
                        xs.extend(p.args[1:])
                    else:
                        xs.append(p)
                pos = sorted(set(xs), key=skey)
                if len(pos) == 1:
                    return pos[0]
            return T("call", ext(name), *(pos + sorted(kws, key=skey)))
        f = self.n(fn, env)
        out = pos + sorted(kws, key=skey)
        return T("call", f, *out)


def norm(t, comm=True, **kw):
    return Normalizer(comm=comm, **kw)(t)


def same(a, b, comm=True, **kw):
    n = Normalizer(comm=comm, **kw)
    return n(a) is n(b)


def nshow(t, depth=0):
    """readable rendering of a normal form"""
    if not isinstance(t, T):
        return repr(t)
    if depth > 10:
        return "…"
    d = depth + 1
    if t.op == "poly":
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                s = nshow(a, d)
                if a.op == "poly":
                    s = "(%s)" % s
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            if c != 1 or not fs:
                fs.insert(0, str(c) if c > 0 or not fs else "(%s)" % c)
            out.append("*".join(fs))
        return " + ".join(out)
    if t.op == "lt0":
        return "(%s < 0)" % nshow(t.args[0], d)
    if t.op == "eq0":
        return "(%s == 0)" % nshow(t.args[0], d)
    if t.op == "phi":
        return "(%s if %s else %s)" % (nshow(t.args[1], d), nshow(t.args[0], d), nshow(t.args[2], d))
    if t.op == "attr":
        return "%s.%s" % (nshow(t.args[0], d), t.args[1])
    if t.op == "item":
        return "%s[%s]" % (nshow(t.args[0], d), nshow(t.args[1], d))
    if t.op == "call":
        return "%s(%s)" % (nshow(t.args[0], d), ", ".join(nshow(x, d) for x in t.args[1:]))
    if t.op == "seq":
        return "[%s]" % ", ".join(nshow(x, d) for x in t.args)
    if t.op in ("sym", "ext", "symbol"):
        return str(t.args[0])
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "kw":
        return "%s=%s" % (t.args[0], nshow(t.args[1], d))
    return "%s{%s}" % (t.op, ", ".join(nshow(x, d) for x in t.args))
