"""Initial state.

`Simulation` is built over a model domain (ghost layers, coordinates = symbols),
its containers and arrays are interpreted with all their positions, the user's
functions and the kernels record the entries they are given, position by
position."""
import itertools

import numpy as np

from sa.common import *
from sa.terms import *
from sa.interp import BM, DictC, Func, Ref, State, Tup, Unknown, flat
from sa.nd import obj
from sa.rule import ref
from sa.symx import SymInterp, symbol

SIM = "pylbm.simulation.Simulation"
NV = 3
EXT = (5, 4, 3)
VMAX = (1, 1, 1)
RHO, Q = symbol("rho"), symbol("q")
PLACE = {RHO: 2, Q: 0}
NAMES = "xyz"


def check(ck):
    ck.rule("given", "when the equilibrium (the moments) is computed, each moment (distribution) of `init` has at every point, ghost "
            "points included, the value given: the constant, or the function of the coordinates of this point and of its further "
            "arguments; a component which is not in `init` is left")
    ck.rule("follow", "initialised by the moments: the equilibrium, then the distributions from the moments; by the distributions: "
            "the moments from the distributions; both buffers of distributions end with the same content, that of the kernels")
    ck.rule("nothing", "without initial condition, no kernel runs and no array changes; an unknown type of initialisation is refused")
    for back in ("NUMPY", "CYTHON"):
        for dim in (1, 2, 3):
            orders = list(itertools.permutations(range(dim + 1)))
            for o in [None] + (orders if dim < 3 else [orders[k] for k in (0, 5, 9, 14, 18, 23)]):
                for ty in (None, "moments", "distributions"):
                    for kinds in cases(ty):
                        one(ck, back, dim, o, ty, kinds)
            empty(ck, back, dim)
    ck.need(300)


KINDS = ("const", "fun", "first", "number", "args", "noargs", "lambda")


def cases(ty):
    keys = (RHO, Q) if ty != "distributions" else (const(0), const(1), const(2))
    out = [((keys[1], k), (keys[0], j)) for k, j in (("fun", "args"), ("args", "const"), ("const", "fun"), ("first", "number"),
                                                     ("noargs", "fun"), ("lambda", "args"))]
    out.append(((keys[0], "fun"),))
    if len(keys) == 3:
        out.append(((keys[2], "args"), (keys[0], "fun"), (keys[1], "const")))
    return out


class Model:
    def __init__(self, ck, back, dim, o):
        p = self.p = ck.prog
        self.dim = dim
        it = self.it = SymInterp(p, inline_classes={"Array", "SOA", "AOS", "NumpyContainer", "CythonContainer"})
        st = self.st = State()
        it.stop |= {"_set_subarray", "get_region", "call_function", "set_size", "set_queue", "validate", "generate", "compile",
                    "_get_algorithm", "__str__", "__repr__", "prepare_rhs", "set_rhs", "fix_iload", "set_iload", "move2gpu",
                    "allreduce"}
        self.topo = sym("topo")
        st.facts[T("is", self.topo, NONE)] = False
        oc = it.opaque_calls
        oc["get_region"] = lambda i, s: i.newlist(s, [i.newlist(s, [const(0), const(EXT[k])]) for k in range(dim)])
        oc["call_function"] = self.kernel
        oc["probe"] = self.probe
        self.S = sym("self")
        it.types[self.S] = p.cls(SIM)
        self.alg = sym("algorithm")
        it.types[self.alg] = p.cls("pylbm.algorithm.base.BaseAlgorithm")
        oc["_get_algorithm"] = lambda i, s: self.alg
        ext_ = [EXT[k] + 2 * VMAX[k] for k in range(dim)]
        self.ext = ext_

        def domain(i, s, t, a, k):
            s.over[(t, "dim")] = const(dim)
            s.over[(t, "mpi_topo")] = self.topo
            s.over[(t, "global_size")] = i.newlist(s, [const(n) for n in EXT[:dim]])
            s.over[(attr(t, "stencil"), "vmax")] = i.newlist(s, [const(n) for n in VMAX[:dim]])
            s.over[(t, "dx")] = const(0.25)
            for name, g in (("coords_halo", 0), ("coords", 1)):
                cs = [i.nd_new(obj([symbol(NAMES[d] + str(n)) for n in range(g, ext_[d] - g)]), s) for d in range(dim)]
                s.over[(t, name)] = i.newlist(s, cs)
                for d in range(dim):
                    s.over[(t, NAMES[d] + name[6:])] = cs[d]
            s.over[(t, "shape_in")] = Tup([const(n) for n in EXT[:dim]])
            s.over[(t, "shape_halo")] = Tup([const(n) for n in ext_])

        def scheme(i, s, t, a, k):
            s.over[(t, "dim")] = const(dim)
            s.over[(t, "la")] = const(2.0)
            s.over[(attr(t, "stencil"), "nv_ptr")] = i.nd_new(obj([const(0), const(NV)]), s, "int64")
            s.over[(t, "consm")] = i.alloc(s, DictC([(m, const(n)) for m, n in PLACE.items()]))
            s.over[(t, "param")] = i.alloc(s, DictC([]))

        def boundary(i, s, t, a, k):
            s.over[(t, "methods")] = i.newlist(s, [])

        def generator(i, s, t, a, k):
            s.over[(t, "backend")] = const(back)
        it.on_new.update(Domain=domain, Scheme=scheme, Boundary=boundary, Generator=generator)
        self.log = []
        self.counter = 0
        self.order = NONE if o is None else it.newlist(st, [const(x) for x in o])
        self.back = back

    def arrays(self, s):
        c = self.it.load_attr(self.S, "container", s, None)
        out = {}
        for n in ("m", "F", "Fnew"):
            a = self.it.load_attr(c, n, s, None)
            out[n] = (a, self.it.nd(self.it.load_attr(a, "swaparray", s, None), s))
        return out

    def snapshot(self, s):
        return {n: self.it.nd_read(c, s) for n, (a, c) in self.arrays(s).items()}

    def kernel(self, i, s, recv, args, kwargs):
        name = i.freeze(args[0], s)
        given = list(args[2:]) + [v for k, v in kwargs.items()]
        arrs = self.arrays(s)
        own = all(v is NONE or any(isinstance(v, Ref) and isinstance(a, Ref) and v.id == a.id for n, (a, c) in arrs.items() if n != "Fnew")
                  for v in given)
        self.log.append((cval(name) if is_const(name) else None, own and args[1] is self.S, self.snapshot(s)))
        target = {"equilibrium": "m", "f2m": "m", "m2f": "F"}.get(self.log[-1][0])
        if target:
            c = arrs[target][1]
            keep = list(PLACE.values()) if self.log[-1][0] == "equilibrium" else []
            old = i.nd_read(c, s)
            new = old.copy()
            self.counter += 1
            for q in np.ndindex(*new.shape):
                if q[0] not in keep:
                    new[q] = T("kernel", self.log[-1][0], const(self.counter), *[const(x) for x in q])
            i.nd_write(c, c.pos, new, s)
        return NONE

    def probe(self, i, s, recv, args, kwargs):
        """value of the user's function: term of the entries, broadcast"""
        kind = cval(args[0])
        xs = [i.as_nd(a, s) for a in args[1:1 + self.dim]]
        extra = [i.freeze(a, s) for a in args[1 + self.dim:]]
        if kind == "number":
            return T("u", kind, *extra)
        if kind == "first":
            xs = xs[:1]
        b = np.broadcast_arrays(*xs)
        out = np.empty(b[0].shape, dtype=object)
        for q in np.ndindex(*out.shape):
            out[q] = T("u", kind, *([x[q] for x in b] + extra))
        return i.nd_new(out, s)

    def run(self, ty, kinds, init=True):
        it, st = self.it, self.st
        p = self.p
        defs = {"fun": "f_fun", "first": "f_first", "number": "f_number", "args": "(f_args, (extra0, extra1))", "noargs": "(f_fun, ())",
                "lambda": "(lambda *c: probe('lambda', *c))", "const": "given"}
        src = "def build(self, sorder, probe, given, extra0, extra1, keys):\n"
        for k in ("fun", "first", "number", "args"):
            src += "    def f_%s(*c):\n        return probe('%s', *c)\n" % (k, k)
        src += "    dico = {%s}\n" % ", ".join(
            (["'inittype': '%s'" % ty] if ty else []) + ["'generator': '%s'" % self.back.lower()] + (["'init': {%s}" % ", ".join(
                "keys[%d]: %s" % (n, defs[kind]) for n, (key, kind) in enumerate(kinds))] if init else []))
        src += "    self.__init__(dico, sorder)\n"
        f = ref(p, p.func(SIM + ".__init__"), src)
        r = it.run(f, [self.order, sym("probe"), const(1.25), sym("e0"), sym("e1"), it.newlist(st, [k for k, _ in kinds])], {}, st,
                   selfv=self.S, cls=p.cls(SIM))
        return r


def where(p):
    return p.func(SIM + ".initialization")


def one(ck, back, dim, o, ty, kinds):
    p = ck.prog
    m = Model(ck, back, dim, o)
    r = m.run(ty, kinds)
    ck.use(m.it)
    name = "%s %dd order %s by %s: %s" % (back, dim, "default" if o is None else "".join(map(str, o)), ty or "default", ", ".join(
        "%s %s" % (show(k), kind) for k, kind in kinds))
    names = [n for n, _, _ in m.log]
    want = ["f2m"] if ty == "distributions" else ["equilibrium", "m2f"]
    if r.val is None:
        ck.obl("given", name, False, where(p), "the construction fails, or one of its steps is not decided; kernels run: %s" % names)
        return
    ck.obl("follow", name + " kernels", names == want and all(own for _, own, _ in m.log), where(p),
           "kernels run: %s, required %s, on the arrays of the simulation" % (names, want))
    if not m.log:
        return
    snap = m.log[0][2]["F" if ty == "distributions" else "m"]
    shape = (NV,) + tuple(m.ext)
    if not ck.obl("given", name + " shape", snap.shape == shape, where(p), "array of shape %s, required %s" % (snap.shape, shape)):
        return
    zero = const(0.0)
    given = {(cval(k) if is_const(k) else PLACE[k]): kind for k, kind in kinds}
    for c in range(NV):
        bad = None
        for q in np.ndindex(*m.ext):
            g = snap[(c,) + q]
            xs = [symbol(NAMES[d] + str(q[d])) for d in range(dim)]
            kind = given.get(c)
            w = {None: None, "const": const(1.25), "number": T("u", "number"), "first": T("u", "first", xs[0]) if xs else None,
                 "args": T("u", "args", *(xs + [sym("e0"), sym("e1")])), "noargs": T("u", "fun", *xs),
                 "fun": T("u", "fun", *xs), "lambda": T("u", "lambda", *xs)}[kind]
            if kind is None:
                if not is_const(g) or cval(g) != 0:
                    bad = "has the value %s at the point %s" % (show(g), q)
            elif g is not w:
                bad = "has the value %s at the point %s, required %s" % (show(g), q, show(w))
            if bad:
                break
        ck.obl("given", "%s component %d" % (name, c), bad is None, where(p), str(bad))
    last = m.snapshot(r.st)
    bad = None
    for c, q in itertools.product(range(NV), np.ndindex(*m.ext)):
        g, h, mm = last["F"][(c,) + q], last["Fnew"][(c,) + q], last["m"][(c,) + q]
        if g is not h:
            bad = "the two buffers differ, %s and %s, at the point %s" % (show(g), show(h), q)
        elif ty != "distributions" and (g.op != "kernel" or g.args[0] != "m2f"):
            bad = "the distributions are %s at the point %s after the initialisation" % (show(g), q)
        elif ty == "distributions" and (g is not snap[(c,) + q] or mm.op != "kernel"):
            bad = "the distributions are %s, the moments %s at the point %s after the initialisation" % (show(g), show(mm), q)
        elif ty != "distributions" and mm is not (snap[(c,) + q] if c in PLACE.values() else mm):
            bad = "the moments change after the equilibrium"
        if bad:
            break
    ck.obl("follow", name + " state", bad is None, where(p), str(bad))


def empty(ck, back, dim):
    p = ck.prog
    for ty in (None, "moments", "distributions"):
        m = Model(ck, back, dim, None)
        r = m.run(ty, (), init=False)
        ck.use(m.it)
        name = "%s %dd without init by %s" % (back, dim, ty)
        ok = r.val is not None and not m.log
        detail = "the construction fails" if r.val is None else "kernels run: %s" % [n for n, _, _ in m.log]
        if ok:
            bad = [n for n, a in m.snapshot(r.st).items() if any(not is_const(x) or cval(x) != 0 for x in a.reshape(-1).tolist())]
            ok, detail = not bad, "the arrays %s change" % bad
        ck.obl("nothing", name, ok, where(p), detail)
    for ty in ("moment", "Moments", "f"):
        m = Model(ck, back, dim, None)
        r = m.run(ty, ((RHO, "fun"),))
        ck.use(m.it)
        ck.obl("nothing", "%s %dd type %s" % (back, dim, ty), r.val is None and not m.log, where(p), "the type is accepted")
