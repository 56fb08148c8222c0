"""MPI partition of the domain and coordinates."""
import itertools

from sa.common import *
from sa.terms import *
import sympy
from sa.interp import ListC, Tup, flat, lin_form, DictC, Unknown
from sa.nd import NdInterp, obj
from sa.rule import ref
from sa.symx import SymInterp, symbol, value
from sa.norm import Normalizer, nshow
from sa.program import AnalysisBroken

S = sym("self")
M = "pylbm.mpi_topology.MpiTopology."
D = "pylbm.domain.Domain."


def lst(it, st, xs):
    return it.alloc(st, ListC([("e", x) for x in xs]))


def seq(t):
    return list(t.args) if t is not None and t.op in ("list", "tuple", "seq") and not any(
        x.op in ("splat", "splatphi") for x in t.args) else None


def check(ck):
    ck.rule("cover", "for every number of processes P along an axis and every number of points n = P q + r "
            "(q symbolic): the bounds start at 0, end at n, never decrease, and two slices differ by at most "
            "one point")
    ck.rule("owner", "the process of coordinates c owns, along every axis d, the c[d]-th slice of the points "
            "of this axis cut in the number of processes of this axis")
    ck.rule("topology", "the Cartesian communicator has the split of the options or the one MPI computes for "
            "the size of the communicator given, and the periodicity given")
    ck.rule("coordinates", "along every axis the coordinates with ghost points are spaced by dx and the first "
            "owned point lies dx / 2 inside the slice; the inner coordinates are those without the ghost layers")
    ck.rule("size", "the global size is the length of the box divided by the space step")
    ck.rule("interface", "a side of the local box becomes an interface exactly if the local slice does not "
            "reach this side of the global box")
    cover(ck)
    owner(ck)
    topology(ck)
    coordinates(ck)
    interface(ck)
    ck.need(250)


PMAX = dict(quick=8, thorough=32)


def topo_state(it, P):
    st = State()
    it.opaque_calls = {"Get_topo": lambda i, s: Tup([lst(i, s, [const(x) for x in P]), NONE, NONE])}
    return st


def cover(ck):
    fi = ck.prog.func(M + "get_region_indices_")
    q = sym("q")
    for P in range(1, PMAX[ck.tier] + 1):
        for r in range(P):
            for ax in ((0, 1, 2) if P == 3 else (0,)):
                it = ck.interp()
                it.int_syms = {q}
                sizes = [5, 5, 5]
                sizes[ax] = P
                st = topo_state(it, sizes)
                n = T("bin", "+", T("bin", "*", const(P), q), const(r))
                res = it.run(fi, [n, const(ax)], {}, st)
                ck.use(it)
                name = "P=%d n=%dq+%d axis %d" % (P, P, r, ax)
                b = seq(res.value) or seq(Normalizer()(res.value))
                lf = [lin_form(x, {q}) for x in b] if b is not None else [None]
                if any(x is None for x in lf) or len(lf) != P + 1:
                    ck.obl("cover", name, False, fi, "bounds %s" % show(res.value)[:300])
                    continue
                c = [(x.get(q, 0), x.get(1, 0)) for x in lf]
                ok = c[0] == (0, 0) and c[-1] == (P, r) and all(
                    (c[i + 1][0] - c[i][0]) == 1 and 0 <= c[i + 1][1] - c[i][1] <= 1 for i in range(P))
                ck.obl("cover", name, ok, fi, "bounds %s" % ", ".join("%dq+%d" % x for x in c))


def owner(ck):
    """the slices of the axes are those of get_region_indices_ of the axis"""
    fi = ck.prog.func(M + "get_region")
    for dim in (1, 2, 3):
        for P in itertools.product((1, 2, 3), repeat=dim) if dim < 3 else [(2, 3, 4), (1, 2, 1), (3, 1, 2)]:
            for c in itertools.product(*[range(p) for p in P]):
                qs = [sym("q%d" % i) for i in range(dim)]
                it = ck.interp()
                it.int_syms = set(qs)
                st = topo_state(it, list(P) + [1] * 0)
                it.opaque_calls["Get_coords"] = lambda i, s, c=c: lst(i, s, [const(x) for x in c])
                n = [T("bin", "+", T("bin", "*", const(P[i]), qs[i]), const((i + 1) % P[i])) for i in range(dim)]
                res = it.run(fi, n + [NONE] * (3 - dim), {}, st)
                ck.use(it)
                v = Normalizer()(res.value)
                name = "grid %s coords %s" % (P, c)
                rows = seq(v)
                ok = rows is not None and len(rows) == dim and all(seq(x) is not None and len(seq(x)) == 2 for x in rows)
                det = "region %s" % nshow(v)[:300]
                if ok:
                    N = Normalizer()
                    for i in range(dim):
                        b = seq(N(slices(ck, P, n[i], i, set(qs))))
                        ok = ok and b is not None and len(b) == P[i] + 1 and seq(rows[i]) == [b[c[i]], b[c[i] + 1]]
                ck.obl("owner", name, ok, fi, det)


def slices(ck, P, n, axis, syms):
    it = ck.interp()
    it.int_syms = syms
    r = it.run(ck.prog.func(M + "get_region_indices_"), [n, const(axis)], {}, topo_state(it, list(P)))
    return r.value


def topology(ck):
    init = ck.prog.func(M + "__init__")
    for dim in (1, 2, 3):
        for np_ in itertools.product((1, 2), repeat=3):
            it = ck.interp(stop={"set_options"})
            st = State()
            for k, v in zip("xyz", np_):
                st.over[(S, "np" + k)] = const(v)
            it.opaque_calls = {"set_options": lambda i, s: NONE}
            r = it.run(init, [const(dim), sym("period"), sym("comm")], {}, st)
            ck.use(it)
            N = Normalizer()
            comm = sym("comm")
            if np_ == (1, 1, 1):
                cd = T("call", ext("mpi4py.MPI.Compute_dims"), T("call", attr(comm, "Get_size")), const(dim))
                want = [cd, item(cd, T("slice", NONE, const(dim), NONE))]
            else:
                want = [T("list", *[const(x) for x in np_[:dim]])]
            name = "%dd options %s" % (dim, "".join(map(str, np_)))
            got = N(r.attr("split"))
            ck.obl("topology", name + " split", any(got is N(w) for w in want), init, "split %s" % nshow(got)[:300])
            g = N(r.attr("cartcomm"))
            ok = g.op == "call" and g.args[0] is attr(comm, "Create_cart") and len(g.args) == 3 and any(
                g.args[1] is N(w) for w in want) and sym("period") in (g.args[2], g.args[2].args[-1])
            ck.obl("topology", name + " communicator", ok, init, "communicator %s" % nshow(g)[:300])
    options_(ck)
    communicator(ck)
    p = ck.prog
    it = ck.interp(stop={"_set_subarray"})
    st = State()
    topo = sym("topo")
    st.facts[T("is", topo, NONE)] = False
    it.opaque_calls = {"get_region": lambda i, s: lst(i, s, [lst(i, s, [sym("lo"), sym("hi")])])}
    a = p.func("pylbm.storage.Array.__init__")
    r = it.run(a, [sym("nv"), lst(it, st, [sym("g")]), Tup([sym("v")])],
               {"sorder": lst(it, st, [const(0), const(1)]), "mpi_topo": topo, "gpu_support": FALSE}, st,
               cls=p.cls("pylbm.storage.Array"))
    ck.use(it)
    region_args(ck, "Array", r, [sym("g")], a)
    ck.same("topology", "communicator of the exchanges", r.attr("comm"), attr(topo, "cartcomm"), a)


def options_(ck):
    """each number of processes asked for is the option of its axis"""
    fi = ck.prog.func(M + "set_options")
    for np_ in ((2, 3, 4), ("2", "3", "4"), (1, 1, 1)):
        it = ck.interp()
        st = State()
        o = sym("options")
        for k, v in zip("xyz", np_):
            st.over[(o, "np" + k)] = const(v)
        it.stop.add("options")
        it.opaque_calls = {"options": lambda i, s: o}
        r = it.run(fi, [], {}, st)
        ck.use(it)
        got = [r.attr("np" + k) for k in "xyz"]
        ck.obl("topology", "options %s" % (np_,), got == [const(int(v)) for v in np_], fi, "numbers of processes %s" % [show(x) for x in got])


def communicator(ck):
    """the topology of a domain: its dimension, periodic along all axes, on the communicator of the dictionary"""
    fi = ck.prog.func(D + "construct_mpi_topology")
    world = ext("mpi4py.MPI.COMM_WORLD")
    for dim in (1, 2, 3):
        for what in ("none", "given", "default"):
            it = NdInterp(ck.prog)
            st = State()
            st.over[(S, "dim")] = const(dim)
            d = NONE if what == "none" else it.alloc(st, DictC([(const("comm"), sym("comm"))] if what == "given" else []))
            made = []

            def new(i, s, obj_, args, kwargs):
                a = dict(zip(("dim", "period", "comm"), args))
                a.update(kwargs)
                made.append((obj_, {k: i.freeze(v, s) for k, v in a.items()}))
            it.on_new["MpiTopology"] = new
            r = it.run(fi, [d], {}, st)
            ck.use(it)
            want = {"none": world, "given": sym("comm"), "default": world}[what]
            ok = len(made) == 1
            det = "%d topologies" % len(made)
            if ok:
                o, a = made[0]
                per = a.get("period")
                xs = seq(per) if per is not None else None
                if per is not None and per.op == "nd":
                    xs = list(per.args[1:]) if len(per.args) > 1 else None
                comm = a.get("comm", world)
                ok = a.get("dim") is const(dim) and xs is not None and len(xs) == dim and all(
                    is_const(x) and bool(cval(x)) for x in xs) and comm is want and r.attr("mpi_topo") is o
                det = "topology of dimension %s, periods %s, communicator %s" % tuple(
                    show(a[k]) if a.get(k) is not None else "default" for k in ("dim", "period", "comm"))
            ck.obl("topology", "topology of a domain, %dd, communicator %s" % (dim, what), ok, fi, det)


SLICES = [(0, 3, 3), (0, 2, 5), (2, 4, 7), (4, 7, 7)]      # lo, hi, points of the axis


def coordinates(ck):
    """origin and space step are symbols, the numbers of points and the slice owned are enumerated"""
    fi = ck.prog.func(D + "create_coords")
    dx = symbol("dx")
    for dim in (1, 2, 3):
        for vm in [(1,) * dim, (2,) * dim] + ([(1, 2, 3)[:dim], (3, 1, 2)[:dim], (1, 0, 0)[:dim], (0, 2, 1)[:dim]] if dim > 1 else []):
            for k0 in range(len(SLICES)):
                sl = [SLICES[(k0 + k) % len(SLICES)] for k in range(dim)]
                it = SymInterp(ck.prog)
                st = State()
                org = [symbol("a%d" % k) for k in range(dim)]
                st.over[(S, "dim")] = const(dim)
                st.over[(S, "dx")] = dx
                st.over[(S, "global_size")] = lst(it, st, [])
                st.over[(S, "geom")] = sym("geom")
                st.over[(S, "mpi_topo")] = sym("topo")
                st.over[(S, "stencil")] = sym("stencil")
                st.over[(sym("geom"), "bounds")] = it.nd_new(obj([x for k in range(dim) for x in (
                    org[k], T("bin", "+", org[k], T("bin", "*", const(sl[k][2]), dx)))], (dim, 2)), st)
                st.over[(sym("stencil"), "vmax")] = it.newlist(st, [const(x) for x in vm])
                it.types[sym("topo")] = ck.prog.cls("pylbm.mpi_topology.MpiTopology")
                it.stop.add("get_region")
                asked = []

                def region(i, s, recv, args, kwargs):
                    asked.append([i.freeze(x, s) for x in args] + [i.freeze(kwargs[n]) for n in ("nx", "ny", "nz") if n in kwargs])
                    return i.newlist(s, [i.newlist(s, [const(x[0]), const(x[1])]) for x in sl])
                it.opaque_calls = {"get_region": region, "is_integer": lambda i, s: TRUE}
                names = ["coords_halo", "coords", "shape_halo", "shape_in", "global_size", "get_bounds_halo()", "get_bounds()"] + [
                    "xyz"[k] + h for k in range(dim) for h in ("", "_halo")]
                r = it.run(ref(ck.prog, fi, "def both(self):\n    self.create_coords()\n    return [%s]\n" % ", ".join(
                    "self." + n for n in names)), [], {}, st, cls=ck.prog.cls(D[:-1]))
                ck.use(it)
                name = "%dd vmax %s slices %s" % (dim, vm, [x[:2] for x in sl])
                if r.val is None:
                    ck.obl("coordinates", name, False, fi, "the construction of the coordinates fails")
                    continue
                got = dict(zip(names, it.concrete_seq(r.val, r.st)))
                nums = lambda v: [value(x) for x in flatseq(it, v, r.st)]

                def same(n, want, rule="coordinates", where=fi):
                    try:
                        g = nums(got[n])
                    except (TypeError, Unknown, AttributeError):
                        g = None
                    w = [sympy.expand(x) for x in want]
                    ck.obl(rule, "%s %s" % (name, n), g is not None and len(g) == len(w) and all(
                        sympy.expand(sympy.nsimplify(p - q, rational=True)) == 0 for p, q in zip(g, w)),
                        where, "%s is %s, required %s" % (n, [str(sympy.expand(x)) for x in g] if g is not None else show(
                            it.freeze(got[n], r.st))[:300], [str(x) for x in w]))
                dxs = value(dx)
                pos = lambda k, i: value(org[k]) + dxs * (2 * i + 1) / 2
                halo = [[pos(k, i) for i in range(sl[k][0] - vm[k], sl[k][1] + vm[k])] for k in range(dim)]
                inner = [[pos(k, i) for i in range(sl[k][0], sl[k][1])] for k in range(dim)]
                cat = lambda xs: [x for y in xs for x in y]
                P = lambda n: ck.prog.func(D + n)
                same("coords_halo", cat(halo))
                same("coords", cat(inner))
                same("shape_halo", [sympy.Integer(len(x)) for x in halo], where=P("shape_halo"))
                same("shape_in", [sympy.Integer(len(x)) for x in inner], where=P("shape_in"))
                same("get_bounds_halo()", [x[0] for x in halo] + [x[-1] for x in halo], where=P("get_bounds_halo"))
                same("get_bounds()", [x[0] for x in inner] + [x[-1] for x in inner], where=P("get_bounds"))
                for k in range(dim):
                    same("xyz"[k], inner[k], where=P("xyz"[k]))
                    same("xyz"[k] + "_halo", halo[k], where=P("xyz"[k] + "_halo"))
                size = [sympy.Integer(x[2]) for x in sl]
                same("global_size", size, "size")
                a = [[sympy.expand(sympy.cancel(value(strip(x)))) for x in q if x is not NONE] for q in asked]
                ck.obl("size", name + " partition", bool(a) and all(q == size for q in a), fi, "partition of %s" % a)


def flatseq(it, v, st):
    c = it.nd(v, st)
    if c is not None:
        return it.nd_read(c, st).reshape(-1).tolist()
    xs = it.concrete_seq(v, st)
    if xs is None:
        return [it.freeze(v, st)]
    return [y for x in xs for y in flatseq(it, x, st)] if not (isinstance(v, T) and is_const(v)) else [v]


def strip(t):
    while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("int", "round") and len(t.args) == 2:
        t = t.args[1]
    return t


def interface(ck):
    """for every combination of (reaches the low side, reaches the high side)"""
    fi = ck.prog.func(D + "__init__")
    for dim in (1, 2, 3):
        for combo in itertools.product((False, True), repeat=2 * dim):
            it = ck.interp(stop={"construct_mpi_topology", "create_coords", "__add_init", "__add_elem", "clean",
                                 "_Domain__add_init", "_Domain__add_elem", "info"})
            st = State()
            geom = T("call", T("classref", "pylbm.geometry.Geometry"), sym("dico"), T("kw", "need_validation", FALSE))
            st.over[(geom, "dim")] = const(dim)
            st.over[(geom, "box_label")] = lst(it, st, [sym("label%d" % i) for i in range(2 * dim)])
            st.over[(geom, "list_elem")] = lst(it, st, [])
            reg = []
            for i in range(dim):
                lo, hi = sym("lo%d" % i), sym("hi%d" % i)
                reg.append((const(0) if combo[2 * i] else const(3), const(9 + i) if combo[2 * i + 1] else const(8)))
            it.opaque_calls = {
                "get_region": lambda i, s: lst(i, s, [lst(i, s, list(x)) for x in reg]),
                "create_coords": lambda i, s: s.over.update({(S, "global_size"): lst(i, s, [const(9 + k) for k in range(dim)])}) or NONE}
            r = it.run(fi, [sym("dico"), FALSE], {}, st)
            ck.use(it)
            N = Normalizer()
            v = seq(N(r.attr("box_label")))
            region_args(ck, "Domain %s" % "".join("-x"[c] for c in combo), r, [const(9 + i) for i in range(dim)], fi)
            want = [sym("label%d" % i) if combo[i] else const(-2) for i in range(2 * dim)]
            ck.obl("interface", "%dd %s" % (dim, "".join("-x"[c] for c in combo)), v == want, fi,
                   "labels %s, required %s" % (nshow(N(r.attr("box_label")))[:300], [show(x) for x in want]))


def region_args(ck, name, r, want, where):
    """the partition is asked for the global size of the domain"""
    N = Normalizer()
    evs = [e for e in flat(r.trace) if e.kind in ("call", "enter") and e.name.rsplit(".", 1)[-1] == "get_region"]
    ok = bool(evs)
    det = "no partition"
    for e in evs:
        got = [strip(N(x)) for x in e.args] + [strip(N(e.kwargs[k])) for k in ("nx", "ny", "nz") if k in e.kwargs]
        while got and got[-1] is NONE:
            got.pop()
        if got != [N(w) for w in want]:
            ok, det = False, "partition of %s" % ", ".join(nshow(x) for x in got)
    ck.obl("size", "partition of the global size in " + name, ok, where, det)
