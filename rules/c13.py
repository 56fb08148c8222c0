"""Geometric elements.

Each element is built and asked over a small sparse grid; the coordinates of
its points, its parameters and the velocity are symbols.  The values obtained
are terms, valid on the cell of the parameter space where the comparisons made
on the way keep their results (`sa/cells.py`); they are compared with an
independent description of the borders at points of that cell."""
import fractions
import math
import random

import numpy as np

from sa.common import *
from sa.terms import *
from sa.interp import State, Tup, flat
from sa.nd import obj
from sa.rule import ref
from sa.cells import CellInterp, NoValue, evaluate
from sa.symx import symbol

F = fractions.Fraction
MOD = "pylbm.elements."
EPS = 1e-9


# ---- description of the elements ---------------------------------------------
def mat(cols):
    return np.array(cols, dtype=float).T


class Quadric:
    """image of the unit ball by A"""

    def __init__(self, c, axes, label):
        self.c, self.A, self.label = np.array(c, float), mat(axes), label[0]
        self.iA = np.linalg.inv(self.A)

    def level(self, q):
        w = self.iA @ (q - self.c)
        return w @ w - 1

    def inside(self, q):
        return self.level(q)

    def hits(self, q, v):
        w, z = self.iA @ (q - self.c), self.iA @ v
        a, b, c = z @ z, 2 * w @ z, w @ w - 1
        d = b * b - 4 * a * c
        if a == 0:
            return
        if abs(d) < EPS * a * a:
            yield None
            return
        if d < 0:
            return
        for s in (-1, 1):
            t = (-b + s * math.sqrt(d)) / (2 * a)
            yield t, self.label, self.iA.T @ (w + t * z)

    def corners(self):
        r = np.sqrt((self.A ** 2).sum(axis=1))
        return self.c - r, self.c + r


class Polygon:
    """edges p + s d, 0 <= s <= 1, with their labels; the polygon is convex"""

    def __init__(self, pts, edges, label):
        self.pts = [np.array(p, float) for p in pts]
        self.edges = [(self.pts[a], self.pts[b], label[k]) for k, (a, b) in enumerate(edges)]
        self.mid = sum(self.pts) / len(self.pts)

    def inside(self, q):
        worst = -math.inf
        for a, b, _ in self.edges:
            n = np.array([b[1] - a[1], a[0] - b[0]])
            n = n / math.hypot(*n)
            if n @ (self.mid - a) > 0:
                n = -n
            worst = max(worst, n @ (q - a))
        return worst

    def hits(self, q, v):
        for a, b, l in self.edges:
            d = b - a
            det = v[1] * d[0] - v[0] * d[1]
            if abs(det) < EPS:
                continue
            c = a - q
            t = (c[1] * d[0] - c[0] * d[1]) / det
            s = (c[1] * v[0] - c[0] * v[1]) / det
            if abs(s) < EPS or abs(s - 1) < EPS:
                yield None
            elif 0 < s < 1:
                yield t, l, np.array([d[1], -d[0]])

    def corners(self):
        return np.min(self.pts, axis=0), np.max(self.pts, axis=0)


class Prism:
    """base (in the plane of v1, v2) x [-1, 1] w"""

    def __init__(self, c, axes, base, label):
        self.c, self.A = np.array(c, float), mat(axes)
        self.iA = np.linalg.inv(self.A)
        self.base = base(label[:-2])
        self.label = label

    def inside(self, q):
        w = self.iA @ (q - self.c)
        return max(self.base.inside(w[:2]), abs(w[2]) - 1)

    def hits(self, q, v):
        w, z = self.iA @ (q - self.c), self.iA @ v
        if abs(z[0]) + abs(z[1]) > EPS:
            for h in self.base.hits(w[:2], z[:2]):
                if h is None:
                    yield None
                    continue
                t, l, n = h
                k = abs(w[2] + t * z[2]) - 1
                if abs(k) < EPS:
                    yield None
                elif k < 0:
                    yield t, l, self.iA.T @ np.array([n[0], n[1], 0.])
        if abs(z[2]) > EPS:
            for side, l in ((-1, self.label[-2]), (1, self.label[-1])):
                t = (side - w[2]) / z[2]
                k = self.base.inside(w[:2] + t * z[:2])
                if abs(k) < EPS:
                    yield None
                elif k < 0:
                    yield t, l, self.iA.T @ np.array([0., 0., 1.])

    def corners(self):
        if isinstance(self.base, Polygon):
            pts = [self.c + self.A @ np.array([p[0], p[1], s]) for p in self.base.pts for s in (-1, 1)]
            return np.min(pts, axis=0), np.max(pts, axis=0)
        r = np.sqrt((self.A[:, :2] ** 2).sum(axis=1)) + abs(self.A[:, 2])
        return self.c - r, self.c + r


def disk(label):
    return Quadric([0, 0], [[1, 0], [0, 1]], label)


def tri(label):
    return Polygon([(0, 0), (1, 0), (0, 1)], [(0, 1), (0, 2), (1, 2)], label)


def square(label):
    return Polygon([(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 1), (0, 3), (1, 2), (3, 2)], label)


def circle(c, r, label):
    n = len(c)
    return Quadric(c, [[r[0] if i == j else 0 for i in range(n)] for j in range(n)], label)


def triangle(p, a, b, label):
    p, a, b = np.array(p), np.array(a), np.array(b)
    return Polygon([p, p + a, p + b], [(0, 1), (0, 2), (1, 2)], label)


def parallelogram(p, a, b, label):
    p, a, b = np.array(p), np.array(a), np.array(b)
    return Polygon([p, p + a, p + a + b, p + b], [(0, 1), (0, 3), (3, 2), (1, 2)], label)


def cyl(base):
    return lambda c, a, b, w, label: Prism(c, [a, b, w], base, label)


def block(p, a, b, c, label):
    c = np.array(c) / 2
    return Prism(np.array(p) + c, [a, b, c], square, label)


def quadric(c, *rest):
    return Quadric(c, rest[:-1], rest[-1])


# class, module, dimension, number of borders, model, list of parameters (vectors or (radius,))
C, S = F(3, 5), F(4, 5)
AX2 = [[(F(5, 4), 0), (0, F(2, 3))], [(0, F(5, 4)), (F(2, 3), 0)], [(C * F(3, 2), S * F(3, 2)), (-S * F(2, 3), C * F(2, 3))]]
FREE2 = [[(F(3, 2), 0), (0, F(4, 3))], [(0, F(3, 2)), (F(5, 3), 0)], [(F(3, 2), F(1, 3)), (F(-1, 4), F(5, 4))],
         [(F(-3, 2), F(1, 5)), (F(1, 4), F(-7, 5))]]
ROT3 = [(C, S, 0), (-S, C, 0), (0, 0, 1)]
ROTB = [(F(2, 3), F(2, 3), F(1, 3)), (F(-2, 3), F(1, 3), F(2, 3)), (F(1, 3), F(-2, 3), F(2, 3))]


def scaled(rows, *f):
    return [tuple(x * k for x in r) for r, k in zip(rows, f)]


UNIT = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
ORTHO = [scaled(UNIT, F(5, 4), F(4, 5), F(3, 2)), scaled(ROT3, F(5, 4), F(3, 4), F(7, 5)), scaled(ROTB, F(6, 5), F(4, 5), F(3, 2))]
ROUND = [scaled(UNIT, F(5, 4), F(5, 4), F(4, 5)), scaled(ROTB, F(4, 5), F(4, 5), F(3, 2)),
         scaled(ROT3[:2], F(6, 5), F(6, 5)) + [(F(1, 3), F(1, 5), F(7, 6))]]
FREE3 = [scaled(UNIT, F(3, 2), F(5, 4), F(4, 5)), [(F(3, 2), F(1, 4), 0), (F(-1, 5), F(4, 3), F(1, 6)), (F(1, 3), F(1, 7), F(6, 5))],
         [(0, 0, F(3, 2)), (F(4, 3), 0, 0), (0, F(5, 4), 0)]]
C2, C3 = (F(1, 7), F(-1, 11)), (F(1, 7), F(-1, 11), F(1, 13))
P2, P3 = (F(-4, 7), F(-6, 11)), (F(-4, 7), F(-6, 11), F(-1, 13))
ELEMENTS = [
    ("Circle", "circle", 2, 1, circle, [[C2, (F(5, 4),)], [C2, (F(1, 2),)]]),
    ("Ellipse", "ellipse", 2, 1, quadric, [[C2] + a for a in AX2]),
    ("Triangle", "triangle", 2, 3, triangle, [[P2] + a for a in FREE2]),
    ("Parallelogram", "parallelogram", 2, 4, parallelogram, [[P2] + a for a in FREE2]),
    ("Sphere", "sphere", 3, 1, circle, [[C3, (F(5, 4),)]]),
    ("Ellipsoid", "ellipsoid", 3, 1, quadric, [[C3] + a for a in ORTHO]),
    ("CylinderCircle", "cylinder", 3, 3, cyl(disk), [[C3] + a for a in ROUND]),
    ("CylinderEllipse", "cylinder", 3, 3, cyl(disk), [[C3] + a for a in ORTHO]),
    ("CylinderTriangle", "cylinder", 3, 5, cyl(tri), [[P3] + a for a in FREE3]),
    ("Parallelepiped", "cylinder", 3, 6, cyl, [[P3] + a for a in FREE3]),
]
GRID = {2: [(F(-8, 5), F(-3, 7), F(2, 9), F(16, 15)), (F(-9, 5), F(-1, 3), F(3, 10), F(13, 11))],
        3: [(F(-8, 5), F(1, 5), F(13, 11)), (F(-7, 5), F(-1, 6), F(10, 9)), (F(-15, 11), F(1, 8), F(9, 7))]}


def velocities(dim):
    s = F(9, 8)
    if dim == 2:
        for v in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1), (2, 1), (-1, 2)):
            yield tuple(s * x for x in v)
    else:
        for v in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (-1, 0, 1), (0, -1, -1), (1, -1, 1),
                  (-1, -1, -1), (2, 1, -1)):
            yield tuple(s * x for x in v)


def check(ck):
    ck.rule("inside", "point_inside is true exactly at the points of the element, its border included")
    ck.rule("distance", "where the half line from the point along v meets the border at most dmax further (dmax None: no limit), the "
            "distance is the number of v up to the nearest point of the border; elsewhere it is not positive")
    ck.rule("label", "where a border is reached, the label is the one given to this border (one integer: to all of them)")
    ck.rule("normal", "where a border is reached, the normal asked is the unit vector orthogonal to it there, opposed to v")
    ck.rule("bounds", "get_bounds encloses the element; the coordinates given are not changed")
    for name, mod, dim, nb, model, params in ELEMENTS:
        for k, par in enumerate(params):
            model = block if name == "Parallelepiped" else model
            one(ck, name, mod, dim, nb, model, par, k)
            around(ck, name, mod, dim, nb, model, par, k)
            if k == 0 or name in ("Triangle", "Parallelogram", "CylinderTriangle", "Parallelepiped"):
                border(ck, name, mod, dim, par, k)
    ck.need(3000)


def one(ck, name, mod, dim, nb, model, par, k):
    labels = [list(range(11, 11 + nb)), 7]
    for n, v in enumerate(velocities(dim)):
        for thin in [None] + ([()] if n % 5 == 0 else []) + [(n % dim,), tuple(d for d in range(dim) if d != n % dim)] * (n % 5 == 1):
            m = Model(ck, name, mod, dim, nb, model, par, k, v, labels[(n + k) % 3 == 0], [F(1), None, F(7, 10)][(n + k) % 3],
                      n % 4 != 3, thin)
            m.run()


def border_points(name, par):
    """points of the border"""
    c = [F(float(x)) if name in ROUNDED else x for x in par[0]]
    ax = [[F(float(y)) for y in x] for x in par[1:]] if name in ROUNDED else par[1:]
    at = lambda *ks: tuple(x + sum(k * a[i] for k, a in zip(ks, ax)) for i, x in enumerate(c))
    if name == "Circle":
        return [(c[0] + s * x * ax[0][0], c[1] + t * y * ax[0][0]) for x, y in ((1, 0), (0, 1), (C, S)) for s in (1, -1) for t in (1, -1)]
    if name == "Sphere":
        return [tuple(p + s * q * ax[0][0] for p, q in zip(c, u)) for u in UNIT + ROTB for s in (1, -1)]
    if name in ("Ellipse", "Ellipsoid"):
        n = len(ax)
        return [at(*[s * (i == j) for j in range(n)]) for i in range(n) for s in (1, -1)]
    h = F(1, 2)
    flat_ = {"Triangle": [(0, 0), (1, 0), (0, 1), (h, 0), (0, h), (h, h)],
             "Parallelogram": [(0, 0), (1, 0), (0, 1), (1, 1), (h, 0), (0, h), (h, 1), (1, h)]}
    flat_.update(CylinderTriangle=flat_["Triangle"], Parallelepiped=flat_["Parallelogram"])
    base = flat_.get(name, [(1, 0), (-1, 0), (0, 1), (0, -1), (-C, S)])
    if len(c) == 2:
        return [at(*u) for u in base]
    z = (0, 1, h) if name == "Parallelepiped" else (-1, 1, F(1, 3))
    return [at(u, w, k) for u, w in base for k in z] + [at(F(1, 4), F(1, 3), k) for k in z[:2]]


def around(ck, name, mod, dim, nb, model, par, k):
    """points close to the border, in all directions"""
    import itertools
    geo = model(*([tuple(float(x) for x in q) for q in par] + [[0] * nb]))
    if isinstance(geo, Polygon):
        pts = [a + s * (b - a) for a, b, _ in geo.edges for s in (0.2, 0.7)]
    else:
        n = 2 if isinstance(geo, Prism) else dim
        if isinstance(geo, Prism) and isinstance(geo.base, Polygon):
            dirs = [a + s * (b - a) for a, b, _ in geo.base.edges for s in (0.2, 0.7)]
        else:
            dirs = [np.array(u) / math.sqrt(sum(x * x for x in u)) for u in itertools.product((-1, 0, 1), repeat=n) if any(u)]
        if isinstance(geo, Prism):
            mid = geo.base.mid if isinstance(geo.base, Polygon) else np.zeros(2)
            dirs = [np.array([u[0], u[1], z]) for u in dirs for z in (-0.9, 0.4)] + [np.array([x[0], x[1], z]) for z in (
                -1, 1) for x in [mid + 0.6 * (u - mid) for u in dirs[::2]]]
        pts = [geo.c + geo.A @ u for u in dirs]
    for n, q in enumerate(pts):
        m = Model(ck, name, mod, dim, nb, None, par, k, [F(round(float(x), 3)) for x in q], 7, None, False)
        m.near_border(n, geo)


ROUNDED = ("Ellipse", "Ellipsoid", "CylinderEllipse", "CylinderCircle")


def border(ck, name, mod, dim, par, k):
    for n, q in enumerate(border_points(name, par)):
        if name in ROUNDED:
            par = [tuple(F(float(y)) for y in x) for x in par]
        m = Model(ck, name, mod, dim, 0, None, par, k, q, 7, None, False)
        m.at_border(n)


class Model:
    def __init__(self, ck, name, mod, dim, nb, model, par, k, v, label, dmax, normal, thin=None):
        self.__dict__.update(locals())
        self.cls = ck.prog.cls(MOD + mod + "." + name)

    def start(self):
        p = self.ck.prog
        it = CellInterp(p, inline_classes={"*"})
        it.stop |= {"__str__", "__repr__"}
        st = State()
        env = it.env

        def entry(name, x):
            if x == 0:
                return const(0)
            s = symbol(name)
            env[s] = F(x)
            return s
        vec = lambda name, xs: it.newlist(st, [entry("%s%d" % (name, i), x) for i, x in enumerate(xs)])
        args = []
        for i, x in enumerate(self.par):
            if self.name in ("Circle", "Sphere") and i == 1:
                args.append(entry("r", x[0]))
            elif self.name in ("Ellipse", "Ellipsoid", "CylinderEllipse", "CylinderCircle") and i:
                # vectors which must be orthogonal are numbers times a symbol
                s = entry("k" if self.name == "CylinderCircle" and i < 3 else "k%d" % i, F(1))
                args.append(it.newlist(st, [it.binop("*", s, const(float(y))) if y else const(0) for y in x]))
            else:
                args.append(vec("pabcd"[i], x))
        return it, st, entry, args

    def sides(self, values):
        """point_inside on the grid of these coordinates (two along each axis)"""
        ck, p, dim = self.ck, self.ck.prog, self.dim
        it, st, entry, args = self.start()
        grid = []
        for d in range(dim):
            xs = obj([entry("xyz"[d] + str(i), x) for i, x in enumerate(values[d])])
            grid.append(it.nd_new(xs.reshape([-1 if i == d else 1 for i in range(dim)]), st, "float64"))
        f = ref(p, self.cls.module, "def build(args, grid):\n    return %s(*args).point_inside(grid)\n" % self.name)
        r = it.run(f, [it.newlist(st, args), it.newlist(st, grid)], {}, st)
        ck.use(it)
        a = None if r.val is None else it.as_nd(r.val, r.st)
        if a is None or a.shape != (2,) * dim:
            return None
        return obj([cval(g) if is_const(g) else it.decide(g) for g in a.reshape(-1).tolist()], a.shape)

    def near_border(self, n, geo):
        ck, p, dim = self.ck, self.ck.prog, self.dim
        h = F(3, 100)
        vals = [(x - h, x + h) for x in self.v]
        a = self.sides(vals)
        bad = "the value is not decided" if a is None else None
        for k in np.ndindex(*(2,) * dim):
            x = np.array([float(vals[d][k[d]]) for d in range(dim)])
            lev = geo.inside(x)
            if bad is None and abs(lev) > EPS and a[k] is not (lev < 0) and a[k] != (lev < 0):
                bad = "%s at the point %s, required %s" % (a[k], [round(y, 4) for y in x], lev < 0)
        ck.obl("inside", "%s %d near the border %d" % (self.name, self.k, n), bad is None, p.method(self.cls, "point_inside"), str(bad))

    def at_border(self, n):
        ck, p, dim = self.ck, self.ck.prog, self.dim
        a = self.sides([(x + F(11 + d, 7), x) for d, x in enumerate(self.v)])
        ok = a is not None and a[(1,) * dim] is True
        ck.obl("inside", "%s %d border point %d" % (self.name, self.k, n), ok, p.method(self.cls, "point_inside"),
               "the point %s of the border is not inside" % (tuple(str(x) for x in self.v),))

    def run(self):
        ck, p, dim = self.ck, self.ck.prog, self.dim
        it, st, entry, args = self.start()
        env = it.env
        rnd = random.Random(3)
        GR = [xs[1:2] if self.thin is not None and d not in self.thin else xs for d, xs in enumerate(GRID[dim])]
        self.nopoint = self.thin == ()
        if self.nopoint:
            GR = [xs[:0] if d == dim - 1 else xs for d, xs in enumerate(GR)]
        vec = lambda name, xs: it.newlist(st, [entry("%s%d" % (name, i), x) for i, x in enumerate(xs)])
        grid = []
        for d in range(dim):
            xs = obj([entry("xyz"[d] + str(i), x) for i, x in enumerate(GR[d])])
            grid.append(it.nd_new(xs.reshape([-1 if i == d else 1 for i in range(dim)]), st, "float64"))
        v = it.nd_new(obj([entry("v%d" % d, x) for d, x in enumerate(self.v)]), st, "float64")
        lab = it.newlist(st, [const(x) for x in self.label]) if isinstance(self.label, list) else const(self.label)
        dmax = NONE if self.dmax is None else const(1.0) if self.dmax == 1 else entry("dmax", self.dmax)
        before = [it.freeze(x, st) for x in grid + [v]]
        src = "def build(args, label, grid, v, dmax, normal):\n    e = %s(*args, label=label)\n    i = e.point_inside(grid)\n" % self.name
        src += "    d = e.distance(grid, v, dmax, normal)\n    return i, d[0], d[1], d[2], e.get_bounds()\n"
        f = ref(p, self.cls.module, src)
        r = it.run(f, [it.newlist(st, args), lab, it.newlist(st, grid), v, dmax, const(self.normal)], {}, st)
        ck.use(it)
        self.it, self.st = it, r.st
        fi = p.method(self.cls, "distance")
        name = "%s %d along %s, dmax %s, label %s%s" % (
            self.name, self.k, ",".join(str(x / F(9, 8)) for x in self.v), self.dmax, self.label,
            "" if self.thin is None else " %s points" % "x".join(str(len(g)) for g in GR))
        if r.val is None:
            ck.obl("distance", name, False, fi, "an exception is raised, or a step is not decided, on the way: " + str(
                [e.kind for e in flat(r.trace)][-1:]))
            return
        res = [it.as_nd(x, r.st) for x in it.concrete_seq(r.val, r.st)]
        shape = tuple(len(g) for g in GR)
        want = [shape, shape, shape, shape + (dim,), (2, dim)]
        for n, (a, s) in enumerate(zip(res, want)):
            if n == 3 and not self.normal:
                continue
            rule = ("inside", "distance", "label", "normal", "bounds")[n]
            if not ck.obl(rule, name + " shape", a is not None and a.shape == s, fi, "array of shape %s, required %s" % (
                    None if a is None else a.shape, s)):
                return
        ck.obl("bounds", name + " arguments", [it.freeze(x, r.st) for x in grid + [v]] == before, fi, "the coordinates or the velocity change")
        points = [dict(env)]
        for k in range(2):
            e = {s: x * (1 + F(rnd.randint(-9, 9), 3000)) for s, x in env.items()}
            if it.near(e):
                points.append(e)
        bad = {}
        for e in points:
            self.compare(e, res, bad)
        for rule in ("inside", "distance", "label", "normal", "bounds"):
            if rule == "normal" and not self.normal:
                continue
            fj = p.method(self.cls, {"inside": "point_inside", "bounds": "get_bounds"}.get(rule, "distance"))
            ck.obl(rule, name, rule not in bad, fj, bad.get(rule, ""))

    def compare(self, e, res, bad):
        dim = self.dim
        memo = {}

        def val(t):
            try:
                return float(evaluate(t, e, memo))
            except NoValue:
                return None
        par = []
        for i, x in enumerate(self.par):
            if self.name in ("Circle", "Sphere") and i == 1:
                par.append((float(e[symbol("r")]),))
            elif self.name in ("Ellipse", "Ellipsoid", "CylinderEllipse", "CylinderCircle") and i:
                s = e[symbol("k" if self.name == "CylinderCircle" and i < 3 else "k%d" % i)]
                par.append(tuple(float(s * y) for y in x))
            else:
                par.append(tuple(float(e.get(symbol("pabcd"[i] + str(n)), 0)) if y else 0. for n, y in enumerate(x)))
        lab = self.label if isinstance(self.label, list) else [self.label] * self.nb
        geo = self.model(*(par + [lab]))
        v = np.array([float(e.get(symbol("v%d" % d), 0)) for d in range(dim)])
        dmax = math.inf if self.dmax is None else 1. if self.dmax == 1 else float(e[symbol("dmax")])
        ins, dist, lbl, nor, bnd = res
        for q in np.ndindex(*ins.shape):
            q = tuple(q)
            x = np.array([float(e[symbol("xyz"[d] + str(q[d]))]) for d in range(dim)])
            at = "at the point %s" % (tuple(round(y, 3) for y in x),)
            lev = geo.inside(x)
            if abs(lev) > EPS:
                w = lev < 0
                g = ins[q]
                g = cval(g) if is_const(g) else None if self.it.decide(g) is None else bool(evaluate(g, e, memo))
                if g != w:
                    bad.setdefault("inside", "%s %s, required %s" % (g, at, w))
            hits = list(geo.hits(x, v))
            if abs(lev) < EPS or None in hits:
                continue
            hits = sorted([h for h in hits if h[0] > 0 and h[0] <= dmax], key=lambda h: h[0])
            g = val(dist[q])
            if not hits:
                if g is None or g > 0:
                    bad.setdefault("distance", "%s %s, which does not reach the element" % (g, at))
                continue
            t, l, n = hits[0]
            if g is None or abs(g - t) > 1e-7:
                bad.setdefault("distance", "%s %s, required %s" % (g, at, round(t, 6)))
                continue
            near = [h for h in hits if h[0] - t < EPS]
            g = val(lbl[q])
            if g not in [h[1] for h in near]:
                bad.setdefault("label", "%s %s, required %s" % (g, at, l))
            if self.normal:
                g = [val(y) for y in nor[q]]
                ok = False
                for _, _, n in near:
                    n = n / math.sqrt(n @ n)
                    n = -n if n @ v > 0 else n
                    ok = ok or (None not in g and np.abs(np.array(g) - n).max() < 1e-7)
                if not ok:
                    bad.setdefault("normal", "%s %s, required %s" % (g, at, [round(y, 6) for y in n]))
        lo, hi = geo.corners()
        g = [[val(x) for x in r] for r in bnd.tolist()]
        if None in g[0] + g[1] or any(g[0][d] > lo[d] + 1e-7 or g[1][d] < hi[d] - 1e-7 for d in range(dim)):
            bad.setdefault("bounds", "box %s, the element spans %s" % (g, [list(lo), list(hi)]))
