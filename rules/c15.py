"""Numbering of the velocities and tables of the stencils."""
import itertools
import sys

import sympy

from sa.common import *
from sa.terms import *
from sa.interp import Bottom, StepStop, ClassV, Ref, ListC, Tup, IterV, State, BM, NONE, ItemProp
from sa.nd import obj
from sa.poly import PolyInterp
from sa.rule import ref

U, W = sympy.symbols("u w")
VEL = "pylbm.stencil.Velocity"
STE = "pylbm.stencil.Stencil"


# ---- the convention ---------------------------------------------------------
def octants():
    """one representative per kind of velocity of the plane, for all the natural numbers u, w"""
    j = 1 + U
    n = j + 1 + W
    for r, c in enumerate([(n, 0), (0, n), (-n, 0), (0, -n), (n, n), (-n, n), (-n, -n), (n, -n)]):
        yield c, (2 * n - 1) ** 2 + r
    for r, c in enumerate([(j, 0), (0, j), (-j, 0), (0, -j), (j, j), (-j, j), (-j, -j), (j, -j)]):
        yield c, (2 * j - 1) ** 2 + r
    for r, c in enumerate([(n, j), (j, n), (-j, n), (-n, j), (-n, -j), (-j, -n), (j, -n), (n, -j)]):
        yield c, (2 * n - 1) ** 2 + 8 * j + r
    yield (sympy.Integer(0), sympy.Integer(0)), sympy.Integer(0)


def line():
    n = 1 + U
    yield (n,), 2 * n - 1
    yield (-n,), 2 * n
    yield (sympy.Integer(0),), sympy.Integer(0)


def space(kmax):
    """numbering of the space: shells, then decreasing magnitudes, permutations in increasing order, + before -"""
    for k in range(kmax + 1):
        for i in range(k + 1):
            for j in range(i + 1):
                for p in sorted(set(itertools.permutations((k, i, j)))):
                    for s in itertools.product(*[(1, -1) if x else (1,) for x in p]):
                        yield tuple(a * b for a, b in zip(p, s))


def number(v):
    if len(v) == 1:
        return 2 * abs(v[0]) - (1 if v[0] > 0 else 0)
    if len(v) == 2:
        a, b = v
        n, j = max(abs(a), abs(b)), min(abs(a), abs(b))
        if n == 0:
            return 0
        if j == 0:
            l = [(n, 0), (0, n), (-n, 0), (0, -n)]
            return (2 * n - 1) ** 2 + l.index((a, b))
        if j == n:
            l = [(n, n), (-n, n), (-n, -n), (n, -n)]
            return (2 * n - 1) ** 2 + 4 + l.index((a, b))
        l = [(n, j), (j, n), (-j, n), (-n, j), (-n, -j), (-j, -n), (j, -n), (n, -j)]
        return (2 * n - 1) ** 2 + 8 * j + l.index((a, b))
    return SPACE.index(tuple(v))


SPACE = list(space(3))
PLANE = {number((a, b)): (a, b) for a in range(-4, 5) for b in range(-4, 5)}


def coords(dim, num):
    if dim == 1:
        return ((num + 1) // 2 if num % 2 else -(num // 2),)
    return PLANE[num] if dim == 2 else SPACE[num]


def mirror(v, axis):
    return tuple(-x if axis is None or i != axis else x for i, x in enumerate(v))


# ---- velocities --------------------------------------------------------------
def runv(ck, src, args, cache, nat=(U, W)):
    cls = ck.prog.cls(VEL)
    it = PolyInterp(ck.prog, nat=nat)
    it.no_exc = True
    it.eager_gen = True
    it.gen_cache = cache
    it.unroll = 4000
    it.inline_classes = set(it.inline_classes) | {VEL}
    it.max_steps = 60000
    try:
        r = it.run(ref(ck.prog, cls.module, src), [it.mk(sympy.sympify(a)) if not isinstance(a, T) else a for a in args], {}, State())
    except StepStop:
        return None, it
    ck.use(it)
    if r.val is None:
        return None, it
    v = r.value
    xs = v.args if isinstance(v, T) and v.op in ("tuple", "list") else (v,)
    return [it.px(x) if not (is_const(x) and cval(x) is None) else None for x in xs], it


def velocities(ck):
    setn, setc = ck.prog.func(VEL + "._set_num"), ck.prog.func(VEL + "._set_coord")
    sym = ck.prog.func(VEL + ".get_symmetric")
    xyz = ("x", "y", "z")
    cache = {}

    def same(got, want):
        return got is not None and len(got) == len(want) and all(
            g is not None and sympy.expand(g - w) == 0 for g, w in zip(got, want))

    def show_(g):
        return "nothing" if g is None else "(%s)" % ", ".join(str(x) for x in g)

    def one(dim, c, num, kinds=("number", "coordinates", "symmetric")):
        name = "%dD (%s)" % (dim, ", ".join(str(x) for x in c))
        p = "abc"[:dim]
        kw = ", ".join("v%s=%s" % (xyz[i], p[i]) for i in range(dim))
        tup = lambda o: ", ".join("%s.v%s" % (o, xyz[i]) for i in range(dim))
        if "number" in kinds:
            got, it = runv(ck, "def drive(%s):\n    v = Velocity(%s)\n    return (v.num, v.dim, %s)\n" % (", ".join(p), kw, tup("v")), c, cache)
            ck.obl("number", name, same(got, (num, dim) + tuple(c)), setn,
                   "number, dimension and coordinates %s, required %s %s" % (show_(got), show_((num, dim) + tuple(c)), it.undecided[:2] or ""))
        if "coordinates" in kinds:
            got, it = runv(ck, "def drive(n):\n    v = Velocity(dim=%d, num=n)\n    return (v.num, v.dim, %s)\n" % (dim, tup("v")), (num,), cache)
            ck.obl("coordinates", name, same(got, (num, dim) + tuple(c)), setc,
                   "number, dimension and coordinates %s, required %s %s" % (show_(got), show_((num, dim) + tuple(c)), it.undecided[:2] or ""))
        if "symmetric" in kinds:
            for ax in (None,) + tuple(range(dim)):
                want = mirror(c, ax)
                got, it = runv(ck, "def drive(%s):\n    v = Velocity(%s).get_symmetric(%s)\n    return (v.dim, %s)\n" % (
                    ", ".join(p), kw, ax, tup("v")), c, cache)
                ck.obl("symmetric", "%s axis %s" % (name, ax), same(got, (dim,) + want), sym,
                       "dimension and coordinates %s, required %s" % (show_(got), show_((dim,) + want)))

    for c, num in line():
        one(1, c, num)
    for c, num in octants():
        one(2, c, num)
    first = len(ck.findings)
    for num, c in enumerate(SPACE):
        if len(ck.findings) > first + 5:
            break
        kinds = ("number", "coordinates") if num < 125 or num % 31 == 0 else ()
        one(3, c, num, kinds + (("symmetric",) if num < 27 or num in (27, 60, 124) else ()))
    for dim, v in ((1, (2,)), (2, (2, -1)), (3, (1, 0, -1))):
        p = "abc"[:dim]
        kw = ", ".join("v%s=%s" % (xyz[i], p[i]) for i in range(dim))
        got, it = runv(ck, "def drive(%s):\n    v = Velocity(%s)\n    return (v.v[0], v.v[-1], len(v.v), v.v_full[0], v.v_full[1], v.v_full[2])\n" % (
            ", ".join(p), kw), v, cache)
        f = (v + (0, 0))[:3]
        ck.obl("coordinates", "%dD v, v_full" % dim, same(got, (v[0], v[-1], dim) + f), ck.prog.func(VEL + ".v_full") or setc,
               "found %s, required %s" % (show_(got), show_((v[0], v[-1], dim) + f)))
        for ax in (dim, -1):
            got, it = runv(ck, "def drive(%s):\n    v = Velocity(%s).get_symmetric(%d)\n    return v.dim\n" % (", ".join(p), kw, ax), v, cache)
            ck.obl("symmetric", "%dD axis %d is refused" % (dim, ax), got is None, sym, "returns %s" % show_(got))


# ---- stencils -----------------------------------------------------------------
class VelMixin:
    """velocities are abstract: a term with its coordinates (the numbering is decided apart)"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.me = sym("stencil")
        self.items = []

    def vel(self, v):
        return T("vel", *v)

    def instantiate(self, cv, args, kwargs, st, node):
        if cv.ci.name == "Velocity":
            fi = self.prog.method(cv.ci, "__init__")
            names = [a.arg for a in fi.node.args.args[1:]]
            kw = dict(zip(names, args), **kwargs)
            g = lambda n: None if n not in kw or kw[n] is NONE else cval(kw[n])
            v = [g("v" + x) for x in "xyz" if g("v" + x) is not None]
            d = g("dim") or len(v)
            if g("num") is not None and not v:
                return self.vel(coords(d, g("num")))
            if len(v) == d:
                return self.vel(v)
            raise Bottom()
        return super().instantiate(cv, args, kwargs, st, node)

    def load_attr(self, v, name, st, node):
        if isinstance(v, T) and v.op == "vel":
            c = v.args
            if name in ("vx", "vy", "vz"):
                i = "xyz".index(name[1])
                return const(c[i]) if i < len(c) else NONE
            if name == "num":
                return const(number(c))
            if name == "dim":
                return const(len(c))
            if name in ("v", "v_full"):
                return self.newlist(st, [const(x) for x in (c if name == "v" else (tuple(c) + (0, 0))[:3])])
            if name == "get_symmetric":
                return BM(v, name)
        if isinstance(v, T) and v is self.me and name in ("append", "extend"):
            return BM(v, name)
        return super().load_attr(v, name, st, node)

    def method(self, bm, args, kwargs, st, node):
        if isinstance(bm.recv, T) and bm.recv.op == "vel" and bm.name == "get_symmetric":
            a = args[0] if args else kwargs.get("axis", NONE)
            ax = None if a is NONE else cval(a)
            if ax is not None and not 0 <= ax < len(bm.recv.args):
                raise Bottom()
            return self.vel(mirror(bm.recv.args, ax))
        if bm.recv is self.me and bm.name == "append":
            self.items.append(args[0])
            return NONE
        if bm.recv is self.me and bm.name == "extend":
            self.items.extend(self.concrete_seq(args[0], st))
            return NONE
        if bm.name == "#vectorized":
            a = self.as_nd(args[0], st)
            return self.nd_new(obj([self.freeze(self.apply(bm.recv, [x], {}, st, node), st) for x in a.reshape(-1)], a.shape), st)
        return super().method(bm, args, kwargs, st, node)

    def load_item(self, v, key, st, node):
        if v is self.me and is_const(key):
            return self.items[cval(key)]
        return super().load_item(v, key, st, node)

    def concrete_seq(self, v, st):
        if v is self.me:
            return list(self.items)
        return super().concrete_seq(v, st)

    def external(self, name, args, kwargs, st, node):
        if name == "numpy.vectorize":
            return BM(args[0], "#vectorized")
        if name == "len" and args and args[0] is self.me:
            return const(len(self.items))
        return super().external(name, args, kwargs, st, node)


class StInterp(VelMixin, PolyInterp):
    pass


MODELS = [
    (1, [[0, 1, 2]]),
    (1, [[0, 2], [4]]),
    (1, [[2, 0, 1], [1, 2], [0, 3, 4, 1, 2]]),
    (2, [list(range(9))]),
    (2, [[0, 1, 2, 3, 4], [0, 5, 6, 7, 8, 9], [4, 3, 1, 2]]),
    (2, [[17, 22, 1, 0], [3, 21, 18]]),
    (3, [[0] + list(range(1, 7)), [3, 8, 0, 26]]),
    (2, [[1, 3], [2, 4, 0], [5, 6, 7, 8]]),
]


def stencils(ck):
    cls = ck.prog.cls(STE)
    init = ck.prog.func(STE + ".__init__")
    where = lambda n: ck.prog.func(STE + "." + n) or init

    def run(dim, vels, expr, *more):
        it = StInterp(ck.prog)
        it.no_exc = True
        it.types[it.me] = cls
        it.inline_classes = set(it.inline_classes) | {"pylbm.stencil.OneStencil", STE}
        st = State()
        vs = ", ".join("{'velocities': %r}" % (v,) for v in vels)
        src = "def drive(s):\n    s.__init__({'dim': %d, 'schemes': [%s]}, need_validation=False)\n    return %s\n" % (dim, vs, expr)
        r = it.run(ref(ck.prog, cls.module, src), [it.me], {}, st)
        ck.use(it)
        return plain(r.value) if r.val is not None else "fails"

    for dim, vels in MODELS:
        name = "%dD %s" % (dim, vels)
        uniq = sorted(set(x for v in vels for x in v))
        uc = [coords(dim, n) for n in uniq]
        al = [coords(dim, n) for v in vels for n in v]
        ptr = [0]
        for v in vels:
            ptr.append(ptr[-1] + len(v))

        def obl(what, expr, want, fn, norm=lambda x: x):
            got = run(dim, vels, expr)
            try:
                ok = norm(got) == norm(want)
            except Exception:
                ok = False
            ck.obl("tables", "%s %s" % (name, what), ok, where(fn), "%s is %s, required %s" % (expr, got, want))

        obl("dim", "s.dim", dim, "extract_dim")
        obl("nstencils", "(s.nstencils, len(s))", [len(vels), len(vels)], "__init__")
        obl("unum", "s.unum", uniq, "unum")
        obl("unvtot", "s.unvtot", len(uniq), "unvtot")
        for k, v in enumerate(vels):
            obl("num %d" % k, "s.num[%d]" % k, list(v), "num")
            obl("one num %d" % k, "s[%d].num" % k, list(v), "num")
            for i in range(dim):
                x = "xyz"[i]
                c = [coords(dim, n)[i] for n in v]
                obl("v%s %d" % (x, k), "s.v%s[%d]" % (x, k), c, "v" + x)
                obl("one v%s %d" % (x, k), "s[%d].v%s" % (k, x), c, "v" + x)
            obl("velocities %d" % k, "[(w.num, w.dim) for w in s.v[%d]]" % k, [[n, dim] for n in v], "__init__")
            obl("all velocities %d" % k, "s.get_all_velocities(%d)" % k, [list(coords(dim, n)) for n in v], "get_all_velocities")
            obl("all velocities %d by name" % k, "s.get_all_velocities(scheme_id=%d)" % k, [list(coords(dim, n)) for n in v], "get_all_velocities")
        for i in range(dim):
            x = "xyz"[i]
            obl("uv" + x, "s.uv" + x, [c[i] for c in uc], "uv" + x)
        obl("nv", "s.nv", [len(v) for v in vels], "__init__")
        obl("nv_ptr", "s.nv_ptr", ptr, "__init__")
        obl("vmax", "s.vmax", [max(abs(c[i]) for c in uc) for i in range(dim)], "vmax")
        obl("vmax_full", "s.vmax_full", [max(abs(c[i]) for c in uc) if i < dim else 0 for i in range(3)], "vmax_full")
        obl("vmin", "s.vmin", [min(c[i] for c in uc) for i in range(dim)], "vmin")
        obl("num2index", "s.num2index", [n for v in vels for n in v], "__init__")
        for n in uniq:
            obl("unum2index %d" % n, "s.unum2index[%d]" % n, uniq.index(n), "__init__")
        obl("all velocities", "s.get_all_velocities()", [list(c) for c in al], "get_all_velocities")
        full = all(number(mirror(coords(dim, n), None)) in v for v in vels for n in v)
        if True:
            obl("is_symmetric", "s.is_symmetric()", full, "is_symmetric")
        for ax in (None,) + tuple(range(dim)):
            want, closed = [], True
            for k, v in enumerate(vels):
                for n in v:
                    m = number(mirror(coords(dim, n), ax))
                    closed = closed and m in v
                    want.append(ptr[k] + v.index(m) if m in v else None)
            if closed:
                obl("get_symmetric axis %s" % ax, "s.get_symmetric(%s)" % ("" if ax is None else ax), want, "get_symmetric")


def plots(ck):
    """visualize: each figure shows the velocities asked for with their own numbers"""
    cls = ck.prog.cls(STE)
    vis = ck.prog.func(STE + ".visualize")
    for dim, vels in MODELS[1:6]:
        uniq = sorted(set(x for v in vels for x in v))
        for what, kw, want in [("all", "", vels), ("unique", ", unique_velocities=True", [uniq])] + [
                ("k=%s" % k, ", k=%s" % k, [vels[i] for i in ([k] if isinstance(k, int) else k)])
                for k in ([0, 1, [1]] if len(vels) == 2 else [0, 1, 2, [2, 0]] if len(vels) == 3 else [0])]:
            it = StInterp(ck.prog)
            it.no_exc = True
            it.types[it.me] = cls
            it.inline_classes = set(it.inline_classes) | {"pylbm.stencil.OneStencil", STE}
            seen = []

            def text(it, st, recv, args, kwargs):
                a = list(args) + [kwargs[n] for n in ("text", "pos") if n in kwargs]
                seen.append((plain(it.freeze(recv, st)), plain(it.freeze(a[0], st)), plain(it.freeze(a[1], st))))
                return NONE
            it.opaque_calls["text"] = text
            vs = ", ".join("{'velocities': %r}" % (v,) for v in vels)
            src = "def drive(s, v):\n    s.__init__({'dim': %d, 'schemes': [%s]}, need_validation=False)\n    return s.visualize(v%s)\n" % (dim, vs, kw)
            r = it.run(ref(ck.prog, cls.module, src), [it.me, sym("viewer")], {}, State())
            ck.use(it)
            names = [n for _, n, _ in seen]
            pos = [p for _, _, p in seen]
            fill = [[list(coords(dim, n)) + ([0] if dim == 1 else []) for n in v] for v in want]
            ck.obl("plots", "%dD %s %s" % (dim, vels, what), r.val is not None and names == [[str(n) for n in v] for v in want]
                   and pos == fill and len(set(v for v, _, _ in seen)) == len(want), vis,
                   "labels %s at %s, required %s at %s" % (names, pos, want, fill))


def plain(t):
    if is_const(t):
        v = cval(t)
        return int(v) if isinstance(v, float) and v == int(v) else v
    if t.op == "nd":
        shape = [cval(x) for x in t.args[0].args]
        xs = [plain(x) for x in t.args[1:]]

        def build(sh, xs):
            if not sh:
                return xs[0]
            n = len(xs) // sh[0] if sh[0] else 0
            return [build(sh[1:], xs[i * n:(i + 1) * n]) for i in range(sh[0])]
        return build(shape, xs)
    if t.op in ("tuple", "list"):
        return [plain(x) for x in t.args]
    return "?" + show(t)[:120]


def check(ck):
    ck.rule("number", "the number of a velocity is the one of the convention: 0, 1, -1, 2, -2... on the line; in the plane, rings "
            "of increasing maximum norm n starting at (2n-1)^2 with the axes, the diagonals, then groups of eight (1D and 2D: for "
            "all the velocities at once, polynomials in two natural unknowns; 3D: shells 0 to 3)")
    ck.rule("coordinates", "a velocity built with its number has the coordinates whose number it is (same unknowns)")
    ck.rule("symmetric", "the symmetric of a velocity has all its coordinates opposite, except the one of the axis given; an axis "
            "outside of the dimension is refused")
    ck.rule("tables", "every table of a stencil (numbers, coordinates, unique velocities, pointers, extrema, symmetric indices) "
            "is the one of the velocities given for each scheme, in the order given")
    ck.rule("plots", "the figures of the velocities show those of the stencils asked for, or the unique ones, each at its "
            "coordinates with its own number")
    sys.setrecursionlimit(10000)
    velocities(ck)
    stencils(ck)
    plots(ck)
    ck.assumptions += ["numpy's union1d, searchsorted, vectorize, indexing"]
    ck.findings or ck.need(800)
