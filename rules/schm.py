"""Model schemes: Scheme.__init__ evaluated on dictionaries whose polynomials are
given and whose equilibria, rates, velocities are symbols (C04, C23)."""
import itertools

import numpy as np
import sympy

from sa.common import *
from sa.terms import *
from sa.interp import ListC, Tup, State, DictC, Ref
from sa.nd import obj
from sa.symx import SymInterp, symbol, fun, value, same, from_sympy
from sa.rule import ref

S = sym("self")
SCH = "pylbm.scheme.Scheme"
X, Y, Z, LA = symbol("X"), symbol("Y"), symbol("Z"), symbol("LA")
U = tuple(symbol("rel_u" + c) for c in "xyz")


def B(op, a, b):
    return T("bin", op, a, b)


def mono(*e):
    """X^a Y^b Z^c"""
    out = None
    for v, k in zip((X, Y, Z), e):
        for _ in range(k):
            out = v if out is None else B("*", out, v)
    return const(1) if out is None else out


class Model:
    """vel: per scheme list of velocities; poly: per scheme list of terms;
    cons: per scheme list of row positions of its conserved moments (in the
    order in which they are declared)"""

    def __init__(self, name, dim, vel, poly, cons, la=LA, rel=None, given=None, params=(), single=False, feq=False, coords=None):
        self.name, self.dim, self.vel, self.poly, self.cons = name, dim, vel, poly, cons
        self.la, self.rel, self.given, self.params, self.single, self.feq = la, rel, given, params, single, feq
        self.coords = coords
        self.nv = [len(v) for v in vel]
        self.ptr = [0]
        for n in self.nv:
            self.ptr.append(self.ptr[-1] + n)
        self.n = self.ptr[-1]
        # declared order of the conserved moments, global rows
        self.consm = []
        for k, c in enumerate(cons):
            for i in c:
                self.consm.append((symbol("c%d_%d" % (k, i)), self.ptr[k] + i))
        syms = [c for c, _ in self.consm]
        at = {r: c for c, r in self.consm}
        self.EQ = [at.get(r) or fun("eq%d" % r, *syms) for r in range(self.n)]
        self.s = [symbol("s%d" % r) for r in range(self.n)]

    # ---- oracle --------------------------------------------------------
    def blocks(self, shift=False):
        """block diagonal matrix of the polynomials at the velocities"""
        m = sympy.zeros(self.n, self.n)
        if self.given is not None:
            return sympy.Matrix(self.n, self.n, [value(t) for r in self.given for t in r])
        xs = self.coords or (X, Y, Z)
        for k, v in enumerate(self.vel):
            for i, p in enumerate(self.poly[k]):
                e = value(p)
                for j, c in enumerate(v):
                    sub = {value(xs[d]): c[d] * value(self.la) - (value(U[d]) if shift else 0) for d in range(self.dim)}
                    m[self.ptr[k] + i, self.ptr[k] + j] = e.subs(sub, simultaneous=True)
        return m

    def order(self, final_eq):
        """row permutation: old row of every new row, from the equilibria"""
        key = {value(t): r for r, t in enumerate(self.EQ)}
        return [key.get(value(t), key.get(sympy.expand(value(t)))) for t in final_eq]

    # ---- evaluation ------------------------------------------------------
    sources = None

    def has_source(self, k):
        """one scheme out of two, so that the positions matter"""
        return k < max(1, len(self.vel) - 1) if len(self.name) % 2 else k == len(self.vel) - 1

    def build(self, ck, it, st):
        L = lambda xs: it.newlist(st, list(xs))
        D = lambda prs: it.alloc(st, DictC([(const(k), v) for k, v in prs]))
        schemes = []
        for k in range(len(self.vel)):
            rows = range(self.ptr[k], self.ptr[k + 1])
            d = [("velocities", L([const(i) for i in range(self.nv[k])]))]
            mine = [symbol("c%d_%d" % (k, i)) for i in self.cons[k]]
            if mine:
                d.append(("conserved_moments", mine[0] if self.single and len(mine) == 1 else L(mine)))
            if self.given is not None:
                d.append(("M", L([L(r) for r in self.given])))
            else:
                d.append(("polynomials", L(self.poly[k])))
            d.append(("relaxation_parameters", L([self.s[r] for r in rows])))
            if self.feq:
                d.append(("feq", Tup([ext("user.feq%d" % k), Tup([symbol("a%d_%d" % (k, i)) for i in range(k + 1)])])))
            else:
                d.append(("equilibrium", L([self.EQ[r] for r in rows])))
            if self.sources and self.has_source(k):
                d.append(("source_terms", it.alloc(st, DictC(list(self.sources[k])))))
            schemes.append(D(d))
        par = [(p, v) for p, v in self.params]
        if self.coords:
            par += [(const("space_" + c), v) for c, v in zip("xyz", self.coords)]
        top = [("dim", const(self.dim)), ("scheme_velocity", self.la), ("schemes", L(schemes)),
               ("parameters", it.alloc(st, DictC(par)))]
        if self.rel is not None:
            top.append(("relative_velocity", L(self.rel)))
        return D(top)

    def velocities(self, it, st, recv, args, kwargs):
        """Stencil.get_all_velocities (its own contract)"""
        a = list(args) + list(kwargs.values())
        k = cval(it.freeze(a[0], st)) if a else None
        vs = [v for w in self.vel for v in w] if k is None else self.vel[k]
        return it.nd_new(obj([const(c) for v in vs for c in v], (len(vs), self.dim)), st, "int64")

    def stencil(self, it, st, t):
        vs = []
        for k, v in enumerate(self.vel):
            row = []
            for c in v:
                o = T("velocity", *[const(x) for x in c])
                st.over[(o, "v")] = it.newlist(st, [const(x) for x in c])
                for d, n in enumerate(("vx", "vy", "vz")):
                    st.over[(o, n)] = const(c[d]) if d < self.dim else NONE
                row.append(o)
            vs.append(it.newlist(st, row))
        st.over[(t, "v")] = it.newlist(st, vs)
        st.over[(t, "nv")] = it.newlist(st, [const(n) for n in self.nv])
        st.over[(t, "nv_ptr")] = it.nd_new(obj([const(n) for n in self.ptr]), st, "int64")
        st.over[(t, "nstencils")] = const(len(self.vel))
        st.over[(t, "dim")] = const(self.dim)

    def feq_call(self, it, name, args, kwargs, st, node):
        """the user's equilibrium distribution: invM times the equilibria"""
        if not name.startswith("user.feq"):
            return None
        k = int(name[8:])
        a = it.as_nd(args[0], st)
        got = None if a is None else [[cval(x) for x in r] for r in a.reshape(a.shape[0], -1)]
        self.asked.append((k, got, [show(it.freeze(x, st)) for x in args[1:]]))
        sl = slice(self.ptr[k], self.ptr[k + 1])
        m = self.blocks()[sl, sl].inv()
        e = m * sympy.Matrix([value(t) for t in self.EQ[sl]])
        return it.mat(obj([from_sympy(sympy.expand(x)) for x in e], (self.nv[k], 1)), st)

    def run(self, ck, check_inverse=FALSE):
        it = SymInterp(ck.prog)
        it.no_exc = True
        st = State()
        d = self.build(ck, it, st)
        it.on_new["Stencil"] = lambda i, s, t, a, k: self.stencil(i, s, t)
        it.opaque_calls["get_all_velocities"] = self.velocities
        it.stop = it.stop | {"__str__", "validate"}
        self.asked = []
        if self.feq:
            it.ext_hook = self.feq_call
        r = it.run(ck.prog.func(SCH + ".__init__"), [d, check_inverse, FALSE], {}, st)
        ck.use(it)
        return r


def entries(t, shape=None):
    """object array of the entries of a matrix term, or None"""
    if t is None or t.op != "nd":
        return None
    shp = tuple(cval(x) for x in t.args[0].args)
    a = np.empty(len(t.args) - 1, dtype=object)
    for i, x in enumerate(t.args[1:]):
        a[i] = x
    return a.reshape(shp)


def vector(t):
    a = entries(t)
    return None if a is None else list(a.reshape(-1))


V1 = [(0,), (1,), (-1,)]
V2 = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)]
V3 = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
P1 = [mono(0), mono(1), B("/", mono(2), const(2))]
P2 = [mono(0), mono(1), mono(0, 1), B("+", mono(2), mono(0, 2)), B("-", mono(2), mono(0, 2))]
P3 = [mono(0), mono(1), mono(0, 1), mono(0, 0, 1), B("+", B("+", mono(2), mono(0, 2)), mono(0, 0, 2)),
      B("-", mono(2), mono(0, 2)), B("-", mono(2), mono(0, 0, 2))]


def models():
    out = [
        Model("D1Q3 one conserved", 1, [V1], [P1], [[0]]),
        Model("D1Q3 single symbol", 1, [V1], [P1], [[2]], single=True),
        Model("D1Q2+D1Q3 single symbols", 1, [[(1,), (-1,)], [(0,), (2,), (-2,)]], [[mono(0), mono(1)], P1], [[1], [2]], single=True),
        Model("D1Q2+D1Q3 vectorial", 1, [[(1,), (-1,)], [(0,), (2,), (-2,)]], [[mono(0), mono(1)], P1], [[0], [0]]),
        Model("D2Q5 three conserved", 2, [V2], [P2], [[0, 1, 2]]),
        Model("D2Q4+D2Q5", 2, [[(2, 0), (0, 1), (-1, 0), (0, -3)], V2],
              [[mono(0), mono(1), mono(0, 1), B("-", mono(2), mono(0, 2))], P2], [[0], [0]]),
        Model("D2Q5 numerical velocity", 2, [V2], [P2], [[0]], la=const(2)),
        Model("D3Q7", 3, [V3], [P3], [[0]]),
        Model("D1Q3 renamed coordinate", 1, [V1], [[const(1), symbol("pos"), B("*", symbol("pos"), symbol("pos"))]], [[0]],
              coords=[symbol("pos"), Y, Z]),
        Model("D3Q7 renamed coordinates", 3, [V3], [[const(1)] + [symbol(c) for c in ("p1", "p2", "p3")] + [
            B("+", B("*", symbol("p%d" % i), symbol("p%d" % i)), B("*", const(i), B("*", symbol("p3"), symbol("p3"))))
            for i in (1, 2, 3)]], [[0]], la=const(1), coords=[symbol("p1"), symbol("p2"), symbol("p3")]),
        Model("D1Q3 relative velocity", 1, [V1], [P1], [[0, 1]], rel=[fun("u", symbol("c0_0"), symbol("c0_1"))]),
        Model("D2Q5 relative velocity", 2, [V2], [P2], [[0, 1, 2]],
              rel=[fun("ux", symbol("c0_0"), symbol("c0_1")), fun("uy", symbol("c0_0"), symbol("c0_2"))]),
        Model("D1Q3 given distributions", 1, [V1], [P1], [[1]], feq=True),
        Model("D1Q2+D1Q3 given distributions", 1, [[(1,), (-1,)], [(0,), (2,), (-2,)]], [[mono(0), mono(1)], P1], [[0], [2]], feq=True),
        Model("D1Q3 parameter in the polynomials", 1, [V1], [[mono(0), B("*", symbol("al"), mono(1)),
              B("-", mono(2), B("*", symbol("be"), B("*", LA, LA)))]], [[0]]),
        Model("D1Q3 relative velocity, numerical", 1, [V1], [P1], [[0, 1]], la=const(3), rel=[fun("u", symbol("c0_0"), symbol("c0_1"))]),
        Model("D3Q7 relative velocity", 3, [V3], [P3], [[0, 1, 2, 3]], la=const(1), rel=[symbol("w1"), symbol("w2"), const(0)]),
        Model("D1Q2+D1Q3 relative velocity", 1, [[(1,), (-1,)], V1], [[mono(0), mono(1)], P1], [[0], [0]], rel=[symbol("c0_0")]),
        Model("D1Q3 given matrix", 1, [V1], None, [[1]], given=[[const(1), const(1), const(1)], [const(0), LA, B("*", const(-1), LA)],
                                                                 [const(0), LA, LA]]),
    ]
    return out


def permuted():
    """all places of the conserved moments in small systems"""
    for n in (1, 2, 3):
        for c in itertools.permutations(range(3), n):
            yield Model("D1Q3 %s" % (list(c),), 1, [V1], [P1], [list(c)], la=const(1))
    for c in itertools.permutations(range(5), 3):
        yield Model("D2Q5 %s" % (list(c),), 2, [V2], [P2], [list(c)], la=const(1))
    q2, q3 = [(1,), (-1,)], V1
    for a in (0, 1):
        for n in (1, 2):
            for b in itertools.permutations(range(3), n):
                yield Model("D1Q2+D1Q3 %s %s" % ([a], list(b)), 1, [q2, q3], [[mono(0), mono(1)], P1], [[a], list(b)], la=const(1))
    for b in itertools.permutations(range(3), 2):
        yield Model("D1Q2+D1Q3 [] %s" % (list(b),), 1, [q2, q3], [[mono(0), mono(1)], P1], [[], list(b)], la=const(1))
    for b in itertools.permutations(range(3), 2):
        yield Model("D1Q3 relative velocity %s" % (list(b),), 1, [V1], [P1], [list(b)],
                    rel=[fun("u", symbol("c0_0"), symbol("c0_1"))])
        yield Model("given matrix %s" % (list(b),), 1, [V1], None, [list(b)],
                    given=[[symbol("M%d%d" % (i, j)) for j in range(3)] for i in range(3)])
