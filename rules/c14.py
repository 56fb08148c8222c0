"""Domains.

`Domain` is interpreted on finite configurations: box, labels, velocities,
elements (in order), slice of the box owned by the process.  The elements are
opaque: they answer with the true geometry at the coordinates they are given,
the distances being symbols with a witness (`sa/cells.py`), so that the arrays
obtained are compared entry by entry with what the geometry requires."""
import fractions
import itertools
import math

import numpy as np

from sa.common import *
from sa.terms import *
from sa.interp import State, Tup, Bottom
from sa.nd import obj
from sa.rule import ref
from sa.cells import CellInterp, NoValue, evaluate
from sa.symx import symbol
from rules.c15 import VelMixin
from rules.c13 import circle, triangle, parallelogram, block, cyl, disk

F = fractions.Fraction
D = "pylbm.domain.Domain."
EPS = 1e-9
DX = 0.25
ORG = (0.5, -0.75, 0.25)


class DomInterp(VelMixin, CellInterp):
    """the stencil is a list with attributes"""

    def instantiate(self, cv, args, kwargs, st, node):
        if cv.ci.name == "Stencil":
            self.apply(self.load_attr(self.me, "__init__", st, node), args, kwargs, st, node)
            return self.me
        return super().instantiate(cv, args, kwargs, st, node)


# ---- what is required ---------------------------------------------------------
class Truth:
    """elements: (geometry, isfluid) in order; everything in units of the space step from the corner of the box"""

    def __init__(self, dim, size, labels, elements):
        self.dim, self.size, self.labels, self.elements = dim, size, labels, elements

    def inside(self, p, n=None):
        ok = all(0 < p[d] < self.size[d] for d in range(self.dim))
        for g, fluid in self.elements[:n]:
            lev = g.inside(p)
            if abs(lev) < EPS:
                return None
            if lev < 0:
                ok = fluid
        return ok and all(0 < p[d] < self.size[d] for d in range(self.dim))

    def hits(self, x, v, n):
        out = []
        for d in range(self.dim):
            if v[d]:
                t = ((self.size[d] if v[d] > 0 else 0) - x[d]) / v[d]
                if 0 < t <= 1:
                    nv = np.zeros(self.dim)
                    nv[d] = np.sign(v[d])
                    out.append((t, self.labels[2 * d + (v[d] > 0)], nv, None))
        for k, (g, fluid) in enumerate(self.elements[:n]):
            for h in g.hits(x, v):
                if h is None:
                    return None
                if 0 < h[0] <= 1 + EPS:
                    nv = h[2] / math.sqrt(h[2] @ h[2])
                    out.append((h[0], h[1], nv if nv @ v > 0 else -nv, k))
        return sorted(out, key=lambda h: h[0])

    def exit(self, x, v, n=None):
        """None: not decided here (the path crosses several borders in one step); []: stays in the fluid; else the borders of the exit"""
        if n is None:
            for k in range(len(self.elements)):
                if self.inside(x, k) and self.exit(x, v, k) is None:
                    return None
        end = self.inside(x + v, n)
        if end is None:
            return None
        hits = self.hits(x, v, n)
        if hits is None:
            return None
        ts = [0.] + [h[0] for h in hits] + [1.]
        state = [self.inside(x + v * (a + b) / 2, n) for a, b in zip(ts, ts[1:]) if b - a > EPS]
        if None in state:
            return None
        if all(state):
            return [] if end else None
        if end or not hits or state[0] is False or any(state[state.index(False):]):
            return None
        cuts = [b for a, b in zip(ts, ts[1:]) if b - a > EPS]
        out = cuts[state.index(False) - 1]
        first = [h for h in hits if abs(h[0] - out) < EPS]
        for h in hits:
            # a border met before is hidden by a fluid part added later
            if h[0] < out - EPS and (h[3] is None or not any(f and g.inside(x + h[0] * v) < -EPS for g, f in self.elements[h[3] + 1:n])):
                return None
        solid = [h for h in first if h[3] is None or self.elements[h[3]][1] or self.elements[h[3]][0].inside(x + v) < 0]
        if len(solid) != len(first):
            return None
        walls = [h for h in hits if h[1] != -1 and h[1] != -2]
        if -1 in [h[1] for h in hits] or -2 in [h[1] for h in hits]:
            if any(h[3] is not None for h in hits):
                return None
            if not walls:
                per = [h for h in hits if h[1] == -1]
                return [h for h in per if h[0] - per[0][0] < EPS] if per else []
            return [h for h in walls if h[0] - walls[0][0] < EPS]
        return first


def A(*xs):
    return tuple(float(x) for x in xs)


def disc(x, y, r, label=10):
    return circle(A(x, y), (float(r),), [label])


def quad(p, a, b, label=20):
    return parallelogram(A(*p), A(*a), A(*b), [label + i for i in range(4)])


def tri_(p, a, b, label=30):
    return triangle(A(*p), A(*a), A(*b), [label + i for i in range(3)])


def ball(c, r, label=10):
    return circle(A(*c), (float(r),), [label])


def brick(p, a, b, c, label=40):
    return block(A(*p), A(*a), A(*b), A(*c), [label + i for i in range(6)])


def pipe(c, a, b, w, label=50):
    return cyl(disk)(A(*c), A(*a), A(*b), A(*w), [label + i for i in range(3)])


Q5, Q9, Q13, Q25 = [list(range(n)) for n in (5, 9, 13, 25)]
ALL = quad((-.3, -.4), (12.7, 0), (0, 12.8), 60)
CASES = [
    # name, size, velocities, elements (solid unless fluid)
    ("circle", (7, 7), [Q9], [(disc(3.6, 3.4, 2.1), False)]),
    ("circle, two schemes", (6, 7), [Q5, [0, 5, 10, 14]], [(disc(3.2, 3.9, 1.7), False)]),
    ("circle across the border", (7, 6), [Q9], [(disc(.9, 2.8, 1.9), False)]),
    ("parallelogram", (8, 7), [Q13], [(quad((2.2, 1.7), (3.1, .4), (-.3, 3.3)), False)]),
    ("parallelogram over a corner", (6, 6), [Q9], [(quad((3.3, 3.7), (5.1, .2), (.3, 4.6)), False)]),
    ("triangle", (7, 8), [Q9], [(tri_((1.7, 1.6), (4.2, .3), (.4, 4.7)), False)]),
    ("two solids", (9, 7), [Q9], [(disc(2.6, 3.4, 1.6), False), (tri_((5.4, 1.7), (2.2, .6), (-.4, 3.7)), False)]),
    ("overlapping solids", (8, 8), [Q9], [(disc(3.1, 3.4, 2.1), False), (quad((3.7, 2.2), (2.9, .3), (.2, 3.1)), False)]),
    ("fluid hole", (7, 7), [Q9], [(ALL, False), (disc(3.6, 3.4, 2.3), True)]),
    ("fluid hole, fast", (8, 7), [Q25], [(ALL, False), (quad((1.6, 1.3), (4.8, .3), (.3, 4.1)), True)]),
    ("fluid hole over two solids", (9, 8), [Q9], [(quad((1.2, 1.3), (3.4, 0), (0, 5.3)), False), (disc(6.3, 4.2, 2.2), False),
                                              (disc(4.2, 4.1, 2.1, 70), True)]),
    ("fluid across the border", (7, 8), [Q9], [(ALL, False), (disc(1.2, 4.3, 2.6), True)]),
    ("fluid channel", (7, 8), [Q9], [(ALL, False), (quad((-1.2, 2.3), (10.3, .4), (-.2, 3.1)), True)]),
    ("two fluids", (9, 8), [Q9], [(ALL, False), (disc(3.2, 3.4, 2.2), True), (quad((4.1, 2.7), (3.1, .2), (.1, 3.2)), True)]),
    ("second fluid larger", (9, 9), [Q13], [(ALL, False), (disc(4.4, 4.3, 2.2), True), (disc(4.7, 4.4, 2.9, 70), True)]),
    ("solid in fluid in solid", (11, 11), [Q9], [(ALL, False), (quad((1.3, 1.4), (8.1, .2), (.1, 8.3)), True), (disc(5.6, 5.3, 1.9), False)]),
    ("adjacent solids", (9, 9), [Q25], [(quad((1.4, 1.3), (2.9, 0), (0, 6.2)), False), (disc(5.8, 4.6, 2.2), False),
                                       (quad((2.8, 3.3), (3.1, 0), (0, 2.6), 80), True)]),
    ("ball", (6, 6, 5), [list(range(19))], [(ball((2.8, 3.1, 2.4), 1.6), False)]),
    ("brick across", (5, 4, 5), [list(range(27))], [(brick((-.7, 1.2, 1.3), (3.1, .2, 0), (.1, 1.7, .2), (0, -.1, 2.4)), False)]),
    ("pipe in brick", (5, 5, 5), [list(range(7)) + [9, 16, 20, 26]], [
        (brick((-.6, -.7, .4), (7.1, 0, 0), (0, 7.3, 0), (0, 0, 4.3)), False),
        (pipe((2.4, 2.6, 2.7), (1.6, 0, 0), (0, 1.7, 0), (0, 0, 3.6)), True)]),
]


def check(ck):
    ck.rule("arrays", "the arrays of a domain have one entry per unique velocity (but in_or_out) and point, ghost points included")
    ck.rule("fluid", "a point is marked fluid exactly when it is in the box and the last element which contains it, if any, is a fluid part")
    ck.rule("distance", "for a fluid point and a velocity whose displacement of one step leaves the fluid, the distance is the fraction of the "
            "displacement made when the border is reached (walls of the box and elements alike; a periodic border hides no wall, an "
            "interface is no border); every other entry is the mark of no border")
    ck.rule("flag", "there the flag is the label of the border reached; every other entry is the mark of no border")
    ck.rule("normal", "there the normal is the unit normal of the border reached, directed out of the fluid; outside of the fluid it is zero")
    for labels in ((0, 1), (-1, 1), (2, -1), (-1, -1)):
        for vels in ([[0, 1, 2]], [[1, 2, 5, 6]], [[0, 1, 2], [3, 4]]):
            one(ck, "1d box", 1, (4,), labels, vels, [])
    box2 = [(0, 1, 2, 3), (-1, -1, 0, 1), (0, 1, -1, -1), (-1, 1, 0, -1), (4, -1, -1, 5), (-1, -1, -1, -1)]
    for n, labels in enumerate(box2):
        for vels in ([Q9], [Q25]) if n < 4 else ([Q13],):
            one(ck, "2d box", 2, (4, 5), labels, vels, [])
    one(ck, "2d box", 2, (3, 4), (0, 1, 2, 3), [[1, 3, 5]], [])
    one(ck, "2d box without velocity along y", 2, (4, 3), (0, 1, 2, 3), [[0, 1, 3]], [])
    for labels in ((0, 1, 2, 3, 4, 5), (-1, -1, 0, 1, 2, 3), (0, 1, -1, -1, 2, -1)):
        one(ck, "3d box", 3, (3, 2, 4), labels, [list(range(27))], [])
    one(ck, "3d box", 3, (4, 3, 3), (0, 1, 2, 3, 4, 5), [list(range(7)) + list(range(27, 33))], [])
    # the part of a process
    for dim in (1, 2, 3):
        size = (7, 6, 5)[:dim]
        for n, combo in enumerate(itertools.product(range(4), repeat=dim)):
            if dim == 3 and n % 7:
                continue
            reg = [((0, s), (0, 3), (2, s), (1, 4))[c] for c, s in zip(combo, size)]
            one(ck, "part", dim, size, tuple(range(2 * dim)), [[[0, 1, 2, 3, 4], Q9, list(range(19))][dim - 1]], [], reg)
    for name, size, vels, els in CASES:
        dim = len(size)
        one(ck, name, dim, size, tuple(range(2 * dim)), vels, els)
    for name, size, vels, els in CASES[:3] + CASES[6:8] + CASES[10:16]:
        for reg in ([(0, 4), (0, size[1])], [(3, size[0]), (2, size[1])], [(2, 5), (0, 4)], [(3, 6), (4, size[1])]):
            one(ck, name + ", part", 2, size, tuple(range(4)), vels, els, reg)
    # an element out of the part of the process, or which only touches its ghost points
    for fluid in (False, True):
        for c in ((1.4, 1.3, .8), (7.6, 1.7, 1.1), (4.6, 6.7, .9), (7.2, 6.9, 1.2)):
            for reg in ([(0, 4), (0, 4)], [(5, 9), (0, 4)], [(2, 6), (4, 8)], [(6, 9), (0, 8)]):
                one(ck, "%s %s, part" % ("fluid" if fluid else "solid", c), 2, (9, 8), tuple(range(4)), [Q13], ([(ALL, False)] if fluid else []) + [
                    (disc(*c), fluid)], reg)
    ck.need(650)


def one(ck, name, dim, size, labels, vels, els, region=None):
    Model(ck, name, dim, size, labels, vels, els, region).run()


class Model:
    def __init__(self, ck, name, dim, size, labels, vels, els, region):
        self.__dict__.update(locals())
        self.reg = region or [(0, s) for s in size]
        lab = list(labels)
        for d, (a, b) in enumerate(self.reg):
            if a != 0:
                lab[2 * d] = -2
            if b != size[d]:
                lab[2 * d + 1] = -2
        self.name = "%s %s labels %s velocities %s%s" % (name, "x".join(map(str, size)), ",".join(map(str, labels)), "+".join(
            str(len(v)) for v in vels), "" if region is None else " slices %s" % (region,))
        # the local fluid: displacements which leave the part of the process through an interface meet no border
        self.truth = Truth(dim, size, labels, els)
        self.local = lab

    # ---- opaque elements
    def unit(self, xs):
        return np.array([(float(x) - ORG[d]) / DX for d, x in enumerate(xs)])

    def numbers(self, it, v, st):
        a = it.as_nd(v, st)
        if a is None:
            raise Bottom()
        return [float(evaluate(x, it.env, it.memo)) for x in a.reshape(-1).tolist()], a.shape

    def points(self, it, grid, st):
        axes = [self.numbers(it, g, st) for g in it.concrete_seq(grid, st)]
        shape = np.broadcast_shapes(*[s for _, s in axes])
        full = [np.broadcast_to(np.array(a).reshape(s), shape) for a, s in axes]
        return shape, {k: self.unit([f[k] for f in full]) for k in np.ndindex(*shape)}

    def element(self, recv):
        return int(recv.args[0][4:])

    def get_bounds(self, it, st, recv, args):
        lo, hi = self.els[self.element(recv)][0].corners()
        mk = lambda q: it.nd_new(obj([const(float(x * DX + ORG[d])) for d, x in enumerate(q)]), st, "float64")
        return Tup([mk(lo), mk(hi)])

    def point_inside(self, it, st, recv, args):
        g = self.els[self.element(recv)][0]
        shape, pts = self.points(it, args[0], st)
        return it.nd_new(obj([const(bool(g.inside(pts[k]) <= 0)) for k in np.ndindex(*shape)], shape), st, "bool")

    def distance(self, it, st, recv, args, kwargs):
        e = self.element(recv)
        g = self.els[e][0]
        pos = dict(zip(("coords", "v", "dmax", "normal"), args))
        pos.update(kwargs)
        shape, pts = self.points(it, pos["coords"], st)
        v = np.array(self.numbers(it, pos["v"], st)[0]) / DX
        dmax = pos.get("dmax", NONE)
        dmax = math.inf if dmax is NONE else float(evaluate(it.freeze(dmax, st), it.env, it.memo))
        al, lb, nv = [], [], []
        for k in np.ndindex(*shape):
            hits = [h for h in g.hits(pts[k], v) if h is not None and 0 < h[0] <= dmax]
            if not hits:
                al.append(const(-1.))
                lb.append(const(-1))
                nv += [const(0.)] * self.dim
                continue
            h = min(hits, key=lambda q: q[0])
            s = symbol("a_%d_%s_%s" % (e, "_".join("%g" % x for x in pts[k]), "_".join("%g" % x for x in v)))
            it.env[s] = F(h[0])
            n = h[2] / math.sqrt(h[2] @ h[2])
            n = -n if n @ v > 0 else n
            al.append(s)
            lb.append(const(h[1]))
            nv += [const(float(x)) for x in n]
        asked = "normal" in pos and it.truth(it.freeze(pos["normal"], st), st)
        mk = lambda xs, sh, t: it.nd_new(obj(xs, sh), st, t)
        return Tup([mk(al, shape, "float64"), mk(lb, shape, "int64"), mk(nv, shape + (self.dim,), "float64") if asked else NONE])

    def run(self):
        ck, p, dim = self.ck, self.ck.prog, self.dim
        it = DomInterp(p, inline_classes={"*"})
        it.no_exc = True
        it.types[it.me] = p.cls("pylbm.stencil.Stencil")
        it.stop |= {"__str__", "__repr__", "get_region", "construct_mpi_topology", "get_bounds_of_element"}
        st = State()
        lst = lambda xs: it.newlist(st, xs)

        def region(i, s, recv, args, kwargs):
            return i.newlist(s, [i.newlist(s, [const(a), const(b)]) for a, b in self.reg])
        it.opaque_calls = {"get_region": region, "point_inside": lambda i, s, recv, a: self.point_inside(i, s, recv, a),
                           "construct_mpi_topology": lambda i, s: NONE, "get_bounds": lambda i, s, recv, a: self.get_bounds(i, s, recv, a),
                           "distance": lambda i, s, recv, a, kw: self.distance(i, s, recv, a, kw)}
        els = []
        for k, (g, fluid) in enumerate(self.els):
            e = sym("elem%d" % k)
            st.over[(e, "isfluid")] = const(fluid)
            st.over[(e, "dim")] = const(dim)
            els.append(e)
        box = "{%s, 'label': labels}" % ", ".join("'%s': [%r, %r]" % ("xyz"[d], ORG[d], ORG[d] + DX * self.size[d]) for d in range(dim))
        src = "def build(labels, vels, elements):\n    s = [{'velocities': v} for v in vels]\n"
        src += "    d = Domain({'box': %s, 'space_step': %r, 'schemes': s, 'elements': elements}, need_validation=False)\n" % (box, DX)
        src += "    u = [[%s] for k in range(d.stencil.unvtot)]\n" % ", ".join("d.stencil.unique_velocities[k].v" + c for c in "xyz"[:dim])
        src += "    return d.in_or_out, d.distance, d.flag, d.normal, u, d.valin, d.valout\n"
        cls = p.cls(D[:-1])
        r = it.run(ref(p, cls.module, src), [lst([const(x) for x in self.labels]), lst([lst([const(x) for x in v]) for v in self.vels]),
                                            lst(els)], {}, st)
        ck.use(it)
        self.r = r
        fi = p.func(D + "__init__")
        if r.val is None:
            ck.obl("arrays", self.name, False, fi, "an exception is raised, or a step is not decided, on the way")
            return
        res = it.concrete_seq(r.val, r.st)
        ioo, dist, flag, normal = [it.as_nd(x, r.st) for x in res[:4]]

        def val(t):
            try:
                return float(evaluate(t, it.env, it.memo))
            except NoValue:
                return None
        vels = [[val(it.freeze(x, r.st)) for x in it.concrete_seq(u, r.st)] for u in it.concrete_seq(res[4], r.st)]
        valin, valout = [val(it.freeze(x, r.st)) for x in res[5:7]]
        vm = [int(max(abs(v[d]) for v in vels)) for d in range(dim)]
        shape = tuple(b - a + 2 * m for (a, b), m in zip(self.reg, vm))
        want = [shape, (len(vels),) + shape, (len(vels),) + shape, (len(vels),) + shape + (dim,)]
        got = [None if a is None else a.shape for a in (ioo, dist, flag, normal)]
        if not ck.obl("arrays", self.name, want == got, fi, "shapes %s, required %s" % (got, want)):
            return
        self.count = 0
        bad = {}
        for i in np.ndindex(*shape):
            g = [self.reg[d][0] + i[d] - vm[d] for d in range(dim)]
            x = np.array([q + .5 for q in g])
            own = all(self.reg[d][0] <= g[d] < self.reg[d][1] for d in range(dim))
            f = self.truth.inside(x) and own
            at = "at the point %s" % (tuple(g),)
            w = val(ioo[i])
            if w != (valin if f else valout):
                bad.setdefault("fluid", "%s %s, required %s" % (w, at, valin if f else valout))
            for k, u in enumerate(vels):
                v = np.array(u)
                t, l, n = val(dist[(k,) + i]), val(flag[(k,) + i]), [val(y) for y in normal[(k,) + i]]
                to = at + " along %s" % (tuple(int(y) for y in u),)
                first = [] if not f or not v.any() else self.exits(x, v)
                if first is None:
                    continue
                self.count += 1
                if not first:
                    for nm, y in (("distance", t), ("flag", l)):
                        if y != valin:
                            bad.setdefault(nm, "%s %s, which reaches no border" % (y, to))
                    if not f and any(y != 0 for y in n):
                        bad.setdefault("normal", "%s %s, out of the fluid" % (n, to))
                    continue
                h = first[0]
                if t is None or abs(t - h[0]) > 1e-8:
                    bad.setdefault("distance", "%s %s, required %s" % (t, to, round(h[0], 6)))
                    continue
                ok = [q for q in first if q[1] == l]
                if not ok:
                    bad.setdefault("flag", "%s %s, required %s" % (l, to, h[1]))
                    continue
                if None in n or all(np.abs(np.array(n) - q[2]).max() > 1e-8 for q in ok):
                    bad.setdefault("normal", "%s %s, required %s" % (n, to, [round(y, 6) for y in ok[0][2]]))
        for rule in ("fluid", "distance", "flag", "normal"):
            ck.obl(rule, self.name, rule not in bad, fi, bad.get(rule, ""))

    def exits(self, x, v):
        """borders met; the interfaces of the part of the process are no border"""
        dim = self.dim
        old = self.truth.labels
        self.truth.labels = self.local
        try:
            return self.truth.exit(x, v)
        finally:
            self.truth.labels = old
