"""Formulas of the boundary conditions."""
import fractions
import itertools

import numpy as np

from sa import alg
from sa.common import *
from sa.terms import *
from sa.interp import ListC, Tup, State, DictC, Ref, flat
from sa.nd import NdInterp, obj
from sa.program import AnalysisBroken
from sa.rule import ref

BASE = "pylbm.boundary.BoundaryMethod"

# schemes of the configurations: list of lists of velocities, per dimension
SCHEMES = {
    1: [[(0,), (1,), (-1,)], [(1,), (-1,), (2,), (-2,)]],
    2: [[(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (-1, -1), (1, -1)],
        [(1, 0), (0, 1), (-1, 0), (0, -1)]],
    3: [[(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)],
        [(1, 1, 1), (-1, -1, -1), (0, 2, -1), (0, -2, 1)]],
}
DIST = [fractions.Fraction(*x) for x in ((1, 8), (7, 16), (9, 16), (1, 1))]


class Conf:
    """stencil tables and columns of one configuration"""

    def __init__(self, dim, zero=False):
        self.dim = dim
        self.v, self.symk = [], []
        for sc in SCHEMES[dim]:
            off = len(self.v)
            self.v += sc
            self.symk += [off + sc.index(tuple(-c for c in v)) for v in sc]
        self.nv = len(self.v)
        self.ptr = list(np.cumsum([0] + [len(s) for s in SCHEMES[dim]]))
        self.cols = [(k, i) for k in range(self.nv) if any(self.v[k]) for i in range(len(DIST))]
        self.n = len(self.cols)
        self.s = [sym("s%d" % c) for c in range(self.n)]
        self.x = [[sym("x%d_%d" % (c, d)) for d in range(dim)] for c in range(self.n)]
        self.val = {self.s[c]: DIST[self.cols[c][1]] for c in range(self.n)}
        self.feq = [[sym("feq%d_%d" % (k, c)) for c in range(self.n)] for k in range(self.nv)]

    def stub(self, it, st):
        """the stencil, as opaque object with known tables"""
        S = sym("stencil")
        st.over[(S, "nv_ptr")] = it.nd_new(obj([const(int(x)) for x in self.ptr]), st, "int64")
        st.over[(S, "dim")] = const(self.dim)
        it.opaque_calls["get_symmetric"] = lambda i, s: i.nd_new(obj([const(k) for k in self.symk]), s, "int64")
        it.opaque_calls["get_all_velocities"] = lambda i, s: i.nd_new(
            obj([const(int(c)) for v in self.v for c in v], (self.nv, self.dim)), s, "int64")
        return S


def decide_with(vals):
    def decide(t):
        t0 = t
        neg = False
        while t.op == "not":
            t, neg = t.args[0], not neg
        if t.op in ("<", "==") and len(t.args) == 2:
            op, a, b = t.op, t.args[0], t.args[1]
        elif t.op == "cmp" and len(t.args) == 3:
            op, a, b = t.args
        else:
            return None
        x, y = number(a, vals), number(b, vals)
        if x is None or y is None:
            return None
        r = {"lt": x < y, "<": x < y, "le": x <= y, "<=": x <= y, "gt": x > y, ">": x > y, "ge": x >= y, ">=": x >= y,
             "eq": x == y, "==": x == y, "ne": x != y, "!=": x != y}[op]
        return r != neg
    return decide


def number(t, vals):
    if t in vals:
        return fractions.Fraction(vals[t])
    if is_const(t):
        v = cval(t)
        return fractions.Fraction(v) if isinstance(v, (int, float, fractions.Fraction)) and not isinstance(v, bool) else None
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "/"):
        x, y = number(t.args[1], vals), number(t.args[2], vals)
        if x is None or y is None:
            return None
        op = t.args[0]
        return x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else (x / y if y else None)
    if t.op == "neg":
        x = number(t.args[0], vals)
        return None if x is None else -x
    if t.op == "poly":
        return None
    return None


def check(ck):
    p = ck.prog
    ck.rule("formula", "for every boundary method, dimension, velocity and distance (below and above one half): "
            "the value stored in the ghost point is the published formula, in terms of the populations of the "
            "fluid points along the velocity and of the equilibrium on the border")
    ck.rule("consistent", "a uniform state equal to the prescribed equilibrium is left unchanged by every method "
            "that prescribes a value")
    ck.rule("target", "every method stores at its own (velocity, ghost point) and nowhere else, with the storage "
            "order it was given")
    ck.rule("alias", "a population further than the first fluid point is read from a copy taken before the update")
    ck.rule("routine", "the routine a method calls is the one it generated, and no two methods that generate "
            "different code share a routine name")
    base = p.cls(BASE)
    names = {}
    for ci in sorted(p.subclasses(base), key=lambda c: c.qual):
        for dim in (1, 2, 3):
            if ci.name in ("NeumannY",) and dim < 2 or ci.name == "NeumannZ" and dim < 3:
                continue
            for order in orders(dim, ck.tier):
                one(ck, ci, dim, order, names)
    for n, cs in sorted(names.items()):
        kinds = {k for k in cs.values()}
        ck.obl("routine", "name %s" % n, len(kinds) == 1, "boundary.py",
               "methods %s generate different code under the name %s" % (", ".join(sorted(cs)), n))
    ck.need(150)


def orders(dim, tier):
    a = list(range(dim + 1))
    out = [a, a[1:] + [0]]
    if tier == "thorough":
        out = [list(o) for o in itertools.permutations(a)]
    return out


def one(ck, ci, dim, order, names):
    C = Conf(dim)
    it = NdInterp(ck.prog, stop={"indexed"}, inline_classes={c.qual for c in ck.prog.subclasses(ck.prog.cls(BASE))})
    st = State()
    it.decide = decide_with(C.val)
    S = C.stub(it, st)
    G, FF = sym("generator"), sym("ff")
    st.over[(G, "backend")] = const("CYTHON")
    st.over[(FF, "nspace")] = it.newlist(st, [sym("n%d" % i) for i in range(dim)])
    k = obj([const(kk) for kk, _ in C.cols])
    istore = it.nd_new(np.concatenate([k[None, :], obj([C.x[c][d] for d in range(dim) for c in range(C.n)], (dim, C.n))]), st, "int64")
    args = dict(
        istore=istore,
        ilabel=it.nd_new(obj([const(7)] * C.n), st, "int64"),
        distance=it.nd_new(obj(C.s), st),
        normal=it.nd_new(obj([sym("nrm%d_%d" % (c, d)) for c in range(C.n) for d in range(dim)], (C.n, dim)), st),
        stencil=S, nspace=sym("nspace"), generator=G, ff=FF,
        sorder=it.newlist(st, [const(o) for o in order]),
        feq=it.nd_new(obj([C.feq[a][c] for a in range(C.nv) for c in range(C.n)], (C.nv, C.n)), st))
    for n, v in (("value_bc", const(None)), ("time_bc", FALSE)):
        args[n] = it.alloc(st, DictC([(const(7), v)]))
    src = """
        def drive(istore, ilabel, distance, normal, stencil, value_bc, time_bc, nspace, generator, sorder, feq, ff):
            b = %s(istore, ilabel, distance, normal, stencil, value_bc, time_bc, nspace, generator)
            b.set_iload()
            b.generate(sorder)
            b.feq[:] = feq
            b.fix_iload()
            b.set_rhs()
            return b, b._get_args(ff), b.function
    """ % ci.name
    fi = ref(ck.prog, ci.module, src)
    r = it.run(fi, [], args, st)
    ck.use(it)
    gen = ck.prog.method(ci, "generate")
    lab = "%s %dd order %s" % (ci.name, dim, "".join(map(str, order)))
    where = gen
    routines = [ev for ev in flat(r.trace) if ev.kind == "call" and ev.name == "add_routine"]
    if len(routines) != 1 or r.val is None:
        ck.obl("routine", lab, False, where, "%d routines generated" % len(routines))
        return
    rt = routines[0].args[0]
    if rt.op not in ("tuple", "list") or len(rt.args) != 2 or not is_const(rt.args[0]):
        ck.obl("routine", lab, False, where, "routine %s" % show(rt)[:200])
        return
    rname, loop = cval(rt.args[0]), rt.args[1]
    inst, largs, fn = r.val.vals
    fnt = it.freeze(fn, st)
    ck.obl("routine", lab, fnt is attr(attr(G, "module"), rname), where,
           "generates %s, calls %s" % (rname, show(fnt)[:100]))
    names.setdefault(rname, {}).setdefault(ci.name, None)
    body = routine_body(loop)
    names[rname][ci.name] = gen.qual if body is None else (body[1], body[2], len(body))
    if body is None:
        ck.obl("target", lab, False, where, "loop not understood: %s" % show(loop)[:300])
        return
    idx, lhs, rhs = body
    d = it.cell(largs, st)
    loc = {cval(a): b for a, b in d.items}
    K = Kernel(ck, it, st, C, loc, idx, order, FF)
    fxs = [strip(x) for x in (it.freeze(loc.get(n, NONE), st) for n in ("f", "fcopy"))]
    known = None
    bad = {"target": [], "formula": [], "consistent": [], "alias": []}
    for c in range(C.n):
        kk, si = C.cols[c]
        what = "velocity %s, distance %s" % (C.v[kk], DIST[si])
        try:
            tgt = K.access(lhs, c)
            val = K.value(rhs, c)
        except Lost as e:
            bad["target"].append("%s: %s" % (what, e))
            continue
        own = (kk, tuple(alg.alg(x) for x in C.x[c]))
        if tgt[0] != "f" or tgt[1:] != own:
            bad["target"].append("%s: stores velocity %s of %s at (%s)" % (what, tgt[1], tgt[0], ", ".join(alg.name(x) for x in tgt[2])))
        first = tuple(alg.alg(x) + v for x, v in zip(C.x[c], C.v[kk]))
        for nm, kl, pos in K.loads:
            if nm == "f" and pos != first and ci.name not in ("NeumannX", "NeumannY", "NeumannZ"):
                bad["alias"].append("%s: reads velocity %s from the array being written, beyond the first fluid point" % (what, kl))
        want = oracle(ci, C, c, K)
        if want is not None and not alg.zero(val - want) and deviant(ci, C, c, K, val, want):
            known = known or "%s: stores %s, required %s" % (what, K.show(val), K.show(want))
            continue
        if want is not None and not alg.zero(val - want):
            bad["formula"].append("%s: stores %s, required %s" % (what, K.show(val), K.show(want)))
        if K.uses_rhs and want is not None:
            sub = {}
            for (kl, pos), s_ in K.cells.items():
                sub[s_] = alg.alg(C.feq[kl][c])
            e = val.xreplace(sub)
            if not alg.zero(e - alg.alg(C.feq[kk][c])):
                bad["consistent"].append("%s: the state becomes %s" % (what, K.show(e)))
    if known:
        ck.obl("formula", "BouzidiAntiBounceBack-near-sign", False, where, known)
    for rule in ("target", "formula", "alias") + (("consistent",) if K.uses_rhs else ()):
        b = bad[rule]
        wh = where if rule != "formula" else ck.prog.method(ci, "set_iload")
        ck.obl(rule, lab, not b, wh, "; ".join(b[:3])[:900])


class Lost(Exception):
    pass


COPIES = ("numpy.copy", "numpy.array", "copy.copy", "copy.deepcopy")


def strip(t):
    """the array a copy was taken of"""
    while t.op == "call":
        if t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "__copy__"):
            t = t.args[0].args[0]
        elif t.args[0].op == "ext" and t.args[0].args[0] in COPIES:
            t = t.args[1]
        else:
            break
    return t


def routine_body(loop):
    """(index, lhs, rhs) of For(idx, Eq(lhs, rhs))"""
    if not (loop.op == "call" and loop.args[0].op == "classref" and loop.args[0].args[0].endswith(".For") and len(loop.args) == 3):
        return None
    idx, e = loop.args[1:]
    if e.op == "kw":
        e = e.args[1]
    if e.op in ("list", "tuple") and len(e.args) == 1:
        e = e.args[0]
    if e.op == "call" and e.args[0].op == "ext" and e.args[0].args[0] in ("sympy.Eq", "sympy.Equality") and len(e.args) == 3:
        return idx, e.args[1], e.args[2]
    return None


class Kernel:
    """evaluation of the generated routine on one column"""

    def __init__(self, ck, it, st, C, loc, idx, order, FF):
        self.ck, self.it, self.st, self.C, self.loc, self.idx, self.order = ck, it, st, C, loc, idx, order
        self.FF = FF
        self.cells = {}
        self.names = {}
        self.uses_rhs = False

    def base(self, t):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith("IndexedBase"):
            n = t.args[1]
            if n.op == "symbol":
                return n.args[0]
            if is_const(n):
                return cval(n)
        return None

    def table(self, t, c):
        """entry of a one or two dimensional argument"""
        if t.op != "item":
            return None
        n = self.base(t.args[0])
        if n is None:
            return None
        if n not in self.loc:
            raise Lost("no argument %s for the routine" % n)
        key = t.args[1].args if t.args[1].op in ("tuple", "list") else (t.args[1],)
        if key[0] is not self.idx:
            raise Lost("index %s" % show(t)[:100])
        a = self.it.as_nd(self.loc[n], self.st)
        if a is None or not all(is_const(x) for x in key[1:]):
            raise Lost("argument %s not understood" % n)
        try:
            v = a[(c,) + tuple(cval(x) for x in key[1:])]
        except IndexError:
            raise Lost("argument %s has shape %s" % (n, a.shape))
        if not isinstance(v, T):
            raise Lost("argument %s has shape %s" % (n, a.shape))
        if v is sym("#uninit"):
            raise Lost("argument %s is not initialised" % n)
        return v

    def access(self, t, c):
        """(array, velocity, position) of an indexed() call"""
        if not (t.op == "call" and t.args[0].op == "funcref" and t.args[0].args[0].endswith(".indexed")):
            raise Lost("%s is not an access to the distribution functions" % show(t)[:100])
        names = ["name", "shape", "index", "velocities", "velocities_index", "priority"]
        kw = {}
        for n, a in zip(names, [x for x in t.args[1:] if x.op != "kw"]):
            kw[n] = a
        for x in t.args[1:]:
            if x.op == "kw":
                kw[x.args[0]] = x.args[1]
        if "index" not in kw or kw["index"].op not in ("list", "tuple"):
            raise Lost("no index")
        for n in ("velocities", "velocities_index"):
            if kw.get(n, NONE) is not NONE:
                raise Lost("shifted access")
        pr = kw.get("priority", NONE)
        pr = [cval(x) for x in pr.args] if pr.op in ("list", "tuple") else list(range(self.C.dim + 1))
        if pr != list(self.order):
            raise Lost("storage order %s instead of %s" % (pr, self.order))
        ind = [self.table(x, c) for x in kw["index"].args]
        if len(ind) != self.C.dim + 1 or any(x is None for x in ind) or not is_const(ind[0]):
            raise Lost("index %s" % [x and show(x)[:40] for x in ind])
        nm = kw["name"]
        nm = nm.args[0] if nm.op == "symbol" else cval(nm)
        a = self.it.freeze(self.loc.get(nm, NONE), self.st)
        core = strip(a)
        if core is not attr(self.FF, "array"):
            raise Lost("argument %s is not the array of the distribution functions" % nm)
        nm = "f" if core is a and not self.copied(nm) else "copy"
        return (nm, cval(ind[0]), tuple(alg.alg(x) for x in ind[1:]))

    def copied(self, nm):
        v = self.loc.get(nm)
        return isinstance(v, Ref)

    def value(self, t, c):
        self.loads = []
        self.uses_rhs = False

        def leaf(x):
            if x.op == "call" and x.args[0].op == "funcref":
                a = self.access(x, c)
                self.loads.append(a)
                return self.cell(a[1], a[2])
            e = self.table(x, c) if x.op == "item" else None
            if e is not None:
                if self.base(x.args[0]) == "rhs":
                    self.uses_rhs = True
                return alg.alg(e)
            return None
        return alg.alg(t, leaf)

    def cell(self, k, pos):
        import sympy
        if not 0 <= k < self.C.nv:
            raise Lost("velocity index %s" % k)
        if (k, pos) not in self.cells:
            s = sympy.Symbol("f_%d_%d" % (k, len(self.cells)), real=True)
            self.cells[(k, pos)] = s
            self.names[s] = (k, pos)
        return self.cells[(k, pos)]

    def show(self, e):
        s = alg.name(e)
        for k, v in sorted(self.names.items(), key=lambda p: -len(p[0].name)):
            if k.name in s:
                s = s.replace(k.name, "f[%d](%s)" % (v[0], ", ".join(alg.name(x) for x in v[1])))
        return s[:250]


def deviant(ci, C, c, K, val, want):
    """the recorded finding, and nothing else"""
    kk, si = C.cols[c]
    if ci.name != "BouzidiAntiBounceBack" or DIST[si] >= fractions.Fraction(1, 2):
        return False
    second = K.cell(C.symk[kk], tuple(alg.alg(a) + 2 * b for a, b in zip(C.x[c], C.v[kk])))
    return alg.zero(val - want - 2 * (1 - 2 * alg.alg(C.s[c])) * second)


def oracle(ci, C, c, K):
    kk, si = C.cols[c]
    v = C.v[kk]
    ks = C.symk[kk]
    x = [alg.alg(a) for a in C.x[c]]
    at = lambda n: tuple(a + n * b for a, b in zip(x, v))
    s = alg.alg(C.s[c])
    fk, fs = alg.alg(C.feq[kk][c]), alg.alg(C.feq[ks][c])
    near = DIST[si] < fractions.Fraction(1, 2)
    n = ci.name
    if n == "BounceBack":
        return K.cell(ks, at(1)) + fk - fs
    if n == "AntiBounceBack":
        return -K.cell(ks, at(1)) + fk + fs
    if n in ("BouzidiBounceBack", "BouzidiAntiBounceBack"):
        sg = 1 if n == "BouzidiBounceBack" else -1
        d = fk - fs if sg > 0 else fk + fs
        if near:
            return sg * (2 * s * K.cell(ks, at(1)) + (1 - 2 * s) * K.cell(ks, at(2))) + d
        return (sg * K.cell(ks, at(1)) + d) / (2 * s) + (1 - 1 / (2 * s)) * K.cell(kk, at(1))
    if n == "Neumann":
        return K.cell(kk, at(1))
    if n in ("NeumannX", "NeumannY", "NeumannZ"):
        d = "XYZ".index(n[-1])
        return K.cell(kk, tuple(a + (b if i == d else 0) for i, (a, b) in enumerate(zip(x, v))))
    return None
