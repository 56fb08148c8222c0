"""Storage order: arrays, logical view, kernels and container agree on the axes.

Sizes, ghost widths and velocities are numbers, all different (every axis is
recognised by its extent); the contents of the arrays and the values written
are symbols, one per stored position."""
import itertools

import numpy as np

from sa.common import *
from sa.terms import *
from sa.interp import ClassV, DictC, Ref, State, Tup, Unknown, flat
from sa.nd import obj
from sa.program import AnalysisBroken
from sa.rule import ref
from sa.symx import SymInterp, symbol, value

S = sym("self")
B = "pylbm.algorithm.base.BaseAlgorithm."
ARR = "pylbm.storage.Array"
AX = "xyz"
NV = 2
SIZE = (4, 5, 7)
VMAX = ((1, 1, 1), (1, 2, 3), (2, 1, 1))
REGION = ((1, 4), (2, 6), (0, 5))
NAMED = symbol("rho")


def orders():
    for dim in (1, 2, 3):
        for o in itertools.permutations(range(dim + 1)):
            yield dim, o


def lab(dim, o):
    return "%dd order %s" % (dim, "default" if o is None else "".join(map(str, o)))


def check(ck):
    ck.rule("storage", "for every dimension and every order: axis sorder[i] of the stored array has the extent of logical axis i "
            "(owned points plus the ghost layers of both sides); the array exchanged, given to the kernels, is the one seen "
            "through the logical view")
    ck.rule("access", "for every order: reading and writing by component or by the name of a conserved moment reaches the stored "
            "position of these logical indices; the inner part removes the ghost layers of each axis; the sizes announced are "
            "those of the logical axes")
    ck.rule("kernel", "for every order: component k of a symbolic array at the point (ix, iy, iz), shifted by the k-th velocity, "
            "is indexed with logical axis i at storage position sorder[i], and the index of an axis runs over the extent of this "
            "axis (without the ghost layers for the inner loops)")
    ck.rule("announced", "the simulation builds its container with the order of the caller, and its algorithm (the default one or the "
            "one of the dictionary) and its boundary methods with the order of the container")
    ck.rule("container", "all arrays of a container have the order the container announces to the kernels, given by the user or "
            "the default of the backend, and the conserved moments of the scheme")
    for dim, o in orders():
        for vm in VMAX:
            for topo in (False, True):
                storage(ck, dim, o, vm[:dim], topo)
        for vm in VMAX[1:]:
            for rng in ("full", "inner"):
                kernels(ck, dim, o, vm, rng)
    for cname in ("NumpyContainer", "CythonContainer"):
        for dim in (1, 2, 3):
            for o in [None] + list(itertools.permutations(range(dim + 1))):
                container(ck, cname, dim, o)
    announced(ck)
    ck.need(400)


def setup(ck, dim):
    it = SymInterp(ck.prog, inline_classes={"*"})
    st = State()
    it.stop |= {"_set_subarray", "get_region"}

    def region(i, s, recv, args):
        # the part of this rank, a function of the sizes of the whole domain
        n = numbers(i, s, i.newlist(s, list(args)))
        return i.newlist(s, [i.newlist(s, [const(REGION[k][0]), const(REGION[k][1] + n[k] - SIZE[k])]) for k in range(dim)])
    it.opaque_calls["get_region"] = region
    it.types[sym("topo")] = ck.prog.cls("pylbm.mpi_topology.MpiTopology")
    st.facts[T("is", sym("topo"), NONE)] = False
    return it, st


def arrays(it, st, v):
    """numpy array of terms of a value, None when unknown"""
    c = it.nd(v, st)
    if c is not None:
        return it.nd_read(c, st)
    return None


def numbers(it, st, v):
    xs = it.concrete_seq(v, st) if not (isinstance(v, T) and is_const(v)) else [v]
    if xs is None and it.nd(v, st) is not None:
        xs = it.nd_read(it.nd(v, st), st).reshape(-1).tolist()
    if xs is None:
        return None
    xs = [it.freeze(x, st) for x in xs]
    return [cval(x) for x in xs] if all(is_const(x) for x in xs) else None


def storage(ck, dim, o, vm, topo):
    p = ck.prog
    init = p.func(ARR + ".__init__")
    it, st = setup(ck, dim)
    ints = lambda xs: it.newlist(st, [const(x) for x in xs])
    name = "%s vmax %s%s" % (lab(dim, o), vm, " partitioned" if topo else "")
    ext = [REGION[i][1] - REGION[i][0] + 2 * vm[i] if topo else SIZE[i] + 2 * vm[i] for i in range(dim)]
    glob = [SIZE[i] if topo else ext[i] for i in range(dim)]
    logical = [NV] + ext
    stored = [None] * (dim + 1)
    for i in range(dim + 1):
        stored[o[i]] = logical[i]
    W = np.empty(tuple(ext), dtype=object)
    for q in np.ndindex(*ext):
        W[q] = sym("w" + "_".join(map(str, q)))
    src = '''
def uses(nv, size, vmax, order, topo, consm, named, new, fill):
    a = Array(nv, size, vmax, sorder=order, mpi_topo=topo)
    fill(a)
    a.set_conserved_moments(consm)
    read = [x.copy() for x in (a[0], a[1], a[named], a._in(0), a._in(1), a._in(named), a.swaparray, a[0:2], a[1:2])]
    sizes = [a.nv, a.nspace, a.shape, a.array.shape, a.array_cpu.shape]
    a[named] = new
    one = a.array.copy()
    a[0] = new
    two = a.array_cpu.copy()
    return read, sizes, one, two
'''
    stack = {}

    def fill(i, s, recv, args, kwargs):
        a = args[0]
        arr = i.load_attr(a, "array", s, None)
        c = i.nd(arr, s)
        P = np.empty(c.pos.shape, dtype=object)
        for q in np.ndindex(*c.pos.shape):
            P[q] = sym("p" + "_".join(map(str, q)))
        i.nd_write(c, c.pos, P, s)
        stack["P"] = P
        return NONE
    it.opaque_calls["fill"] = fill
    consm = it.alloc(st, DictC([(NAMED, const(1))]))
    r = it.run(ref(p, init.module, src), [const(NV), ints(glob), ints(vm), ints(o), sym("topo") if topo else NONE, consm, NAMED,
                                          it.nd_new(W, st), sym("fill")], {}, st)
    ck.use(it)
    ck.counts["arrays"] = ck.counts.get("arrays", 0) + 1
    if r.val is None or "P" not in stack:
        ck.obl("storage", name, False, init, "the construction of the array, or an access, fails")
        return
    read, sizes, one, two = it.concrete_seq(r.val, r.st)
    P = stack["P"]
    shapes = [numbers(it, r.st, x) for x in it.concrete_seq(sizes, r.st)]
    ok = tuple(P.shape) == tuple(stored)
    ck.obl("storage", name + " extents", ok and shapes[2:] == [stored] * 3, init, "stored shape %s, announced %s, required %s" % (
        P.shape, shapes[2:], stored))
    ck.obl("access", name + " sizes", shapes[0] == [NV] and shapes[1] == ext, p.func(ARR + ".nspace"),
           "components %s, sizes %s, required %s, %s" % (shapes[0], shapes[1], NV, ext))
    if not ok:
        return
    view = np.transpose(P, o)           # logical axes of the stored array
    inner = tuple(slice(v, n - v) for v, n in zip(vm, ext))
    want = [view[0], view[1], view[1], view[0][inner], view[1][inner], view[1][inner], view, view[0:2], view[1:2]]
    what = ["component 0", "component 1", "named", "inner component 0", "inner component 1", "inner named", "view", "all components",
            "slice"]
    for x, w, n in zip(it.concrete_seq(read, r.st), want, what):
        g = arrays(it, r.st, x)
        where = p.func(ARR + (".__init__" if n == "view" else "._in" if "inner" in n else ".__getitem__"))
        ck.obl("access", "%s %s" % (name, n), g is not None and g.shape == w.shape and bool(
            (g == w).all() if g.size else True), where, "gives %s" % ("an array of shape %s%s" % (g.shape, ", required %s" % (
                w.shape,) if g.shape != w.shape else " of other positions") if g is not None else show(it.freeze(x, r.st))[:200]))
    view1 = view.copy()
    view1[1] = W
    view2 = view1.copy()
    view2[0] = W
    back = np.argsort(o)
    for x, w, n in ((one, view1, "write named"), (two, view2, "write component")):
        g = arrays(it, r.st, x)
        w = np.transpose(w, back)
        ck.obl("access", "%s %s" % (name, n), g is not None and g.shape == w.shape and bool((g == w).all()), p.func(ARR + ".__setitem__"),
               "the stored array is %s" % (g.tolist() if g is not None else show(it.freeze(x, r.st)),)[:1])


VEL = [[1, -2, 3], [-3, 2, -1], [0, 0, 0]]


def kernels(ck, dim, o, vm, rng):
    p = ck.prog
    fi = p.func(B + "_get_indexed_on_velocities")
    it = SymInterp(p)
    st = State()
    ints = lambda xs: it.newlist(st, [const(x) for x in xs])
    st.over[(S, "dim")] = const(dim)
    st.over[(S, "sorder")] = ints(o)
    st.over[(S, "ns")] = const(3)
    st.over[(S, "vmax")] = ints(list(vm[:dim]) + [0] * (3 - dim))
    src = '''
def g(self, v):
    s = self._get_space_idx_%s()
    return (s, self._natural_order(s), self._get_indexed_on_range("f", s), self._get_indexed_on_velocities("f", s, v))
''' % rng
    vel = it.nd_new(obj([const(c) for v in VEL for c in v[:dim]], (3, dim)), st, "int64")
    r = it.run(ref(p, fi, src), [vel], {}, st, cls=p.cls(B[:-1]))
    ck.use(it)
    name = "%s vmax %s %s" % (lab(dim, o), vm[:dim], rng)
    if r.val is None:
        ck.obl("kernel", name, False, fi, "the indices are not computed")
        return
    loops, nat, onr, onv = it.concrete_seq(r.val, r.st)
    N = [value(symbol("n" + c)) for c in AX]

    def axis(t):
        """axis of a loop index over the extent required"""
        if t.op != "idx" or t.args[0].op != "symbol":
            return None
        for i in range(dim):
            lo, hi = (0, N[i]) if rng == "full" else (vm[i], N[i] - vm[i])
            if t.args[0].args[0] == "i%s_" % AX[i] and value(t.args[1]) == lo and (value(t.args[2]) - hi).expand() == 0:
                return i
        return None
    L = it.concrete_seq(loops, r.st)
    ck.obl("kernel", name + " loops", L is not None and sorted(axis(x) if axis(x) is not None else -1 for x in L) == list(range(dim)),
           p.func(B + "_get_space_idx_" + rng), "loops %s" % [show(x) for x in L or ()])
    L = it.concrete_seq(nat, r.st)
    ck.obl("kernel", name + " natural order", L is not None and [axis(x) for x in L] == list(range(dim)), p.func(B + "_natural_order"),
           "natural order %s" % [show(x) for x in L or ()])
    for what, v in (("range", onr), ("velocities", onv)):
        where = p.func(B + "_get_indexed_on_" + what)
        g = arrays(it, r.st, v)
        comp = g.reshape(-1).tolist() if g is not None else None
        if comp is None or len(comp) != 3:
            ck.obl("kernel", "%s on %s" % (name, what), False, where, "components %s" % show(it.freeze(v, r.st))[:300])
            continue
        for k, c in enumerate(comp):
            bad = None
            if c.op != "at" or c.args[0].op != "ibase" or c.args[0].args[0] != "f" or len(c.args) != dim + 2:
                bad = show(c)
            else:
                idx, shp = c.args[1:], c.args[0].args[1:]
                for i in range(dim + 1):
                    e = value_of(idx[o[i]], axis, dim)
                    w = {"n": k} if i == 0 else {i - 1: 1, "n": VEL[k][i - 1] if what == "velocities" else 0}
                    if e != {k_: v_ for k_, v_ in w.items() if v_}:
                        bad = "index %s at position %d" % (show(idx[o[i]]), o[i])
                    if (value(shp[o[i]]) - (3 if i == 0 else N[i - 1])).expand() != 0:
                        bad = "extent %s at position %d" % (show(shp[o[i]]), o[i])
            ck.obl("kernel", "%s component %d on %s" % (name, k, what), bad is None, where, str(bad))


def value_of(t, axis, dim):
    """linear form in the loop indices"""
    out = {}

    def go(t, s):
        if t.op == "idx":
            a = axis(t)
            out["?" if a is None else a] = out.get(a, 0) + s
        elif t.op == "bin" and t.args[0] in ("+", "-"):
            go(t.args[1], s)
            go(t.args[2], s if t.args[0] == "+" else -s)
        elif t.op == "neg":
            go(t.args[0], -s)
        elif is_const(t):
            out["n"] = out.get("n", 0) + s * cval(t)
        else:
            out["?"] = 1
    go(t, 1)
    return {k: v for k, v in out.items() if v}


def container(ck, cname, dim, o):
    p = ck.prog
    ci = p.cls("pylbm.container." + cname)
    init = p.method(ci, "__init__")
    it, st = setup(ck, dim)
    dom, sc = sym("domain"), sym("scheme")
    ints = lambda xs: it.newlist(st, [const(x) for x in xs])
    vm = VMAX[1][:dim]
    st.over[(dom, "dim")] = const(dim)
    st.over[(dom, "mpi_topo")] = sym("topo")
    st.over[(dom, "global_size")] = ints(SIZE[:dim])
    st.over[(attr(dom, "stencil"), "vmax")] = ints(vm)
    st.over[(attr(sc, "stencil"), "nv_ptr")] = it.nd_new(obj([const(0), const(NV)]), st, "int64")
    st.over[(sc, "consm")] = it.alloc(st, DictC([(NAMED, const(1))]))
    r = it.run(ref(p, init.module, '''
def mk(domain, scheme, o):
    c = %s(domain, scheme%s)
    return c.sorder, [c.m.array.shape, c.F.array.shape, c.Fnew.array.shape], [c.m.index, c.F.index, c.Fnew.index], [
        c.m.consm, c.F.consm, c.Fnew.consm]
''' % (cname, ", o" if o is not None else "")), [dom, sc, ints(o) if o is not None else NONE], {}, st)
    ck.use(it)
    name = "%s %s" % (cname, lab(dim, o))
    if r.val is None:
        ck.obl("container", name, False, init, "the construction fails")
        return
    ann, shapes, index, consm = it.concrete_seq(r.val, r.st)
    ann = numbers(it, r.st, ann)
    if not ck.obl("container", name + " announced", ann is not None and sorted(ann) == list(range(dim + 1)) and (
            o is None or ann == list(o)), init, "announced order %s" % ann):
        return
    logical = [NV] + [REGION[i][1] - REGION[i][0] + 2 * vm[i] for i in range(dim)]
    stored = [None] * (dim + 1)
    for i in range(dim + 1):
        stored[ann[i]] = logical[i]
    for a, sh, ix, cm in zip(("m", "F", "Fnew"), *[it.concrete_seq(x, r.st) for x in (shapes, index, consm)]):
        sh, ix = numbers(it, r.st, sh), numbers(it, r.st, ix)
        ck.obl("container", "%s array %s" % (name, a), sh == stored and ix == ann, init,
               "shape %s, order %s, the kernels use the order %s, shape %s" % (sh, ix, ann, stored))
        d = it.cell(cm, r.st) if isinstance(cm, Ref) else None
        ck.obl("container", "%s moments of %s" % (name, a), isinstance(d, DictC) and d.get(NAMED) is const(1), init,
               "conserved moments %s" % show(it.freeze(cm, r.st)))


def announced(ck):
    p = ck.prog
    sim = "pylbm.simulation.Simulation"
    fi = p.func(sim + ".__init__")
    for own in (False, True):
        for back in ("NUMPY", "CYTHON"):
            it = ck.interp(stop={"_initialize", "__str__", "generate", "compile", "allreduce", "set_size"})
            st = State()
            seen = {"container": [], "algo": [], "bc": []}
            ms = [sym("M0"), sym("M1")]

            def new(kind):
                return lambda i, s, t, a, k: (seen[kind].append((t, a, k)), s.over.update(
                    {(t, "methods"): i.newlist(s, ms)} if kind == "bc" else {(t, "backend"): const(back)} if kind == "gen" else {}))
            seen["gen"] = []
            it.on_new["Generator"] = new("gen")
            it.on_new["Boundary"] = new("bc")
            for c in ("NumpyContainer", "CythonContainer", "LoopyContainer"):
                it.on_new[c] = new("container")
            it.on_new["PullAlgorithm"] = new("algo")
            entries = [(const("generator"), const(back))]
            if own:
                entries.append((const("lbm_algorithm"), it.alloc(st, DictC([(const("name"), ClassV(p.cls("pylbm.algorithm.base.BaseAlgorithm")))]))))
                it.on_new["BaseAlgorithm"] = new("algo")
            dico = it.alloc(st, DictC(entries))
            r = it.run(fi, [dico], {"sorder": sym("given"), "initialize": FALSE}, st)
            ck.use(it)
            name = "%s algorithm, %s" % ("user" if own else "default", back)
            cont = r.attr("container") if r.val is not None else None
            if cont is None or len(seen["container"]) != 1 or len(seen["algo"]) != 1:
                ck.obl("announced", name, False, fi, "%d containers, %d algorithms are built" % (len(seen["container"]), len(seen["algo"])))
                continue
            ct, a, k = seen["container"][0]
            so = attr(cont, "sorder")
            ck.obl("announced", name + " container", cont is ct and arg(a, k, 2, "sorder") is sym("given"), fi,
                   "built with the order %s" % show(arg(a, k, 2, "sorder")))
            _, a, k = seen["algo"][0]
            ck.obl("announced", name, arg(a, k, 1, "sorder") is so, fi, "built with the order %s" % show(arg(a, k, 1, "sorder")))
            for m in ms:
                g = [ev for ev in flat(r.trace) if ev.kind == "call" and ev.name == "generate" and ev.recv is m]
                ck.obl("announced", "%s boundary %s" % (name, m.args[0]), len(g) == 1 and list(g[0].args) + list(
                    g[0].kwargs.values()) == [so], fi, "generated with the order %s" % [show(x)[:80] for e in g for x in e.args])


def arg(a, k, pos, name):
    return a[pos] if len(a) > pos else k.get(name, NONE)
