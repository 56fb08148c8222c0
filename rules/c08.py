"""Set-up of the boundary conditions: which points, which values, in which order."""
import fractions
import itertools

import numpy as np

from sa import alg
from sa.common import *
from sa.terms import *
from sa.interp import ListC, Tup, State, DictC, Ref, flat, ClassV
from sa.nd import NdInterp, obj
from sa.rule import ref
from sa.program import AnalysisBroken
from rules.c07 import Conf, SCHEMES

M = "pylbm.boundary."
FLUID = 999


def check(ck):
    ck.rule("points", "for every label with conditions, every scheme and every velocity of this scheme: exactly "
            "the points of the fluid whose link along the opposite velocity is cut by this label give a condition, "
            "at the point one step outside, with the distance and normal of that link, and with the method "
            "asked for this label and scheme; periodic and interface labels give none")
    ck.rule("value", "the populations prescribed on a label are those of the equilibrium of the moments its own "
            "function sets, evaluated at the intersection of the link with the border, with the additional "
            "arguments given; a label without function prescribes nothing")
    ck.rule("time", "a time dependent function is evaluated again with the time given, at the same points; the "
            "others keep their value")
    ck.rule("lifecycle", "every method is set up in the one valid order: load indices, code generation (before the "
            "module is compiled and after the algorithm is generated), then value, index layout, right hand side, "
            "transfer; the refresh recomputes the value before the right hand side and before the update")
    points(ck)
    values(ck)
    lifecycle(ck)
    ck.need(40)


# ---- points ----------------------------------------------------------
VEL = {
    1: [(0,), (1,), (-1,), (2,), (-2,)],
    2: [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1), (2, -1), (-2, 1)],
    3: [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, 0, -1), (-1, 0, 1)],
}
# schemes: indices in the list of the unique velocities
SCH = {1: [[0, 2, 1], [3, 4, 1, 2]], 2: [[0, 1, 2, 3, 4], [5, 6, 3, 1, 8, 7, 0]], 3: [[1, 2, 0], [6, 5, 4, 3, 0]]}
SHAPE = {1: (7,), 2: (5, 4), 3: (3, 3, 4)}


def flags(dim, variant):
    """a fixed pattern of labels on the links"""
    shp = (len(VEL[dim]),) + SHAPE[dim]
    out = np.full(shp, FLUID)
    labels = (5, 7, -1, -2, 3)
    for n, i in enumerate(np.ndindex(*shp)):
        h = (n * 7 + variant * 13 + sum(i)) % 11
        if any(VEL[dim][i[0]]) and h < 5:
            out[i] = labels[h]
    return out


class V:
    pass


def points(ck):
    p = ck.prog
    init = p.func(M + "Boundary.__init__")
    meth = [p.cls(M + n) for n in ("BounceBack", "BouzidiBounceBack", "Neumann", "AntiBounceBack")]
    for dim in (1, 2, 3):
        for variant in range(3 if ck.tier == "quick" else 8):
            it = NdInterp(p, inline_classes={M + "BoundaryVelocity"})
            st = State()
            vel, sch = VEL[dim], SCH[dim]
            num = [3 * i + 2 for i in range(len(vel))]       # numbers differ from indices
            uv = [sym("uv%d" % i) for i in range(len(vel))]
            symm = [vel.index(tuple(-c for c in v)) for v in vel]
            for i, u in enumerate(uv):
                st.over[(u, "v")] = it.newlist(st, [const(c) for c in vel[i]])
                st.over[(u, "num")] = const(num[i])
            it.opaque_calls["get_symmetric"] = lambda i, s, recv, args: uv[symm[uv.index(recv)]]
            S, D = sym("stencil"), sym("domain")
            ptr = [0] + list(np.cumsum([len(x) for x in sch]))
            st.over[(S, "unvtot")] = const(len(vel))
            st.over[(S, "unique_velocities")] = it.newlist(st, uv)
            st.over[(S, "unum2index")] = it.alloc(st, DictC([(const(n), const(i)) for i, n in enumerate(num)]))
            st.over[(S, "num")] = it.newlist(st, [it.nd_new(obj([const(num[i]) for i in x]), st, "int64") for x in sch])
            st.over[(S, "nv_ptr")] = it.nd_new(obj([const(int(x)) for x in ptr]), st, "int64")
            st.over[(S, "dim")] = const(dim)
            st.over[(D, "stencil")] = S
            st.over[(D, "dim")] = const(dim)
            fl = flags(dim, variant)
            st.over[(D, "flag")] = it.nd_new(obj([const(int(x)) for x in fl.reshape(-1)], fl.shape), st, "int64")
            dist = obj([sym("d%d" % i) for i in range(fl.size)], fl.shape)
            st.over[(D, "distance")] = it.nd_new(dist, st)
            nrm = obj([sym("n%d" % i) for i in range(fl.size * dim)], fl.shape + (dim,))
            st.over[(D, "normal")] = it.nd_new(nrm, st)
            # label 3 has conditions but its links may be absent; label 9 is never met
            labs = [-2, -1, 3, 5, 7, 9]
            it.opaque_calls["list_of_labels"] = lambda i, s: i.newlist(s, [const(x) for x in labs])
            conds = {3: [(0, 0)], 5: [(0, 0), (1, 1)], 7: [(0, 0), (1, 2)], 9: [(0, 3), (1, 3)]}
            if variant == 1:
                conds = {3: [(1, 2)], 5: [(1, 0), (0, 0)], 7: [(1, 1)], 9: [(0, 3)]}
            dico = {}
            for lab, cs in conds.items():
                its = [(const("method"), it.alloc(st, DictC([(const(a), ClassV(meth[b])) for a, b in cs])))]
                if lab != 5:
                    its.append((const("value"), sym("fun%d" % lab)))
                if lab == 7:
                    its.append((const("time_bc"), TRUE))
                dico[lab] = it.alloc(st, DictC(its))
            bcs = it.alloc(st, DictC([(const(a), b) for a, b in dico.items()]))
            r = it.run(init, [D, sym("generator"), it.alloc(st, DictC([(const("boundary_conditions"), bcs)]))], {}, st)
            ck.use(it)
            lab_ = "%dd pattern %d" % (dim, variant)
            got = {}
            ok = True
            det = []
            for ev in flat(r.trace):
                if ev.kind != "new" or ev.name not in {m.qual for m in meth}:
                    continue
                names = ["istore", "ilabel", "distance", "normal", "stencil", "value_bc", "time_bc", "nspace", "generator"]
                a = dict(zip(names, ev.args), **ev.kwargs)
                try:
                    rows = columns(a, dim)
                except (KeyError, ValueError, AssertionError):
                    ok = False
                    det.append("arguments of %s not understood" % ev.name)
                    continue
                if ev.name in got:
                    ok = False
                    det.append("two instances of %s" % ev.name)
                got.setdefault(ev.name, []).extend(rows)
                ts = [a.get("stencil") is S, a.get("generator") is sym("generator")]
                for nm, want in (("value_bc", {l: (NONE if l == 5 else sym("fun%d" % l)) for l in conds}),
                                 ("time_bc", {l: const(l == 7) for l in conds})):
                    d = a.get(nm)
                    have = {cval(x.args[0]): x.args[1] for x in d.args} if d is not None and d.op == "dict" else None
                    used = {c[2] for c in rows}
                    ts.append(have is not None and all(have.get(l) is want[l] for l in used))
                if not all(ts):
                    ok = False
                    det.append("%s: stencil, generator, values or time flags of the labels" % ev.name)
            want = {}
            for lab, cs in conds.items():
                for s_, m_ in cs:
                    for inum, u in enumerate(sch[s_]):
                        w = symm[u]
                        for x in np.ndindex(*SHAPE[dim]):
                            if fl[(w,) + x] == lab:
                                pos = tuple(a + b for a, b in zip(x, vel[w]))
                                want.setdefault(meth[m_].qual, []).append(
                                    (ptr[s_] + inum, pos, lab, dist[(w,) + x], tuple(nrm[(w,) + x])))
            key = lambda t: (t[0], t[1], t[2], t[3].args[0])
            for q in sorted(set(got) | set(want)):
                g, w = sorted(got.get(q, []), key=key), sorted(want.get(q, []), key=key)
                good = g == w
                d = ""
                if not good:
                    a, b = [x for x in g if x not in w][:1], [x for x in w if x not in g][:1]
                    d = "conditions %s found and not required, %s required and not found (%d / %d)" % (a, b, len(g), len(w))
                ck.obl("points", "%s %s" % (lab_, q.rsplit(".", 1)[-1]), good, init, d[:700])
            ck.obl("points", lab_ + " arguments", ok, init, "; ".join(det)[:600])
            m = r.attr("methods")
            ck.obl("points", lab_ + " methods", m.op == "list" and len(m.args) == len(want), init,
                   "the list of methods is %s" % show(m)[:200])


def columns(a, dim):
    def arr(t):
        assert t.op == "nd"
        return obj(list(t.args[1:]), tuple(cval(x) for x in t.args[0].args))
    i, l, d, n = [arr(a[k]) for k in ("istore", "ilabel", "distance", "normal")]
    assert i.shape[0] == dim + 1 and i.shape[1] == len(l) == len(d) == len(n)
    out = []
    for c in range(i.shape[1]):
        out.append((number(i[0, c]), tuple(number(x) for x in i[1:, c]), number(l[c]), d[c], tuple(n[c])))
    return out


def number(t):
    e = alg.alg(t)
    if not e.is_Rational:
        raise ValueError
    return int(e)


# ---- values ----------------------------------------------------------
def values(ck):
    p = ck.prog
    base = p.cls(M + "BoundaryMethod")
    for dim in (1, 2, 3):
        for cname in ("BounceBack",) if ck.tier == "quick" else [c.name for c in sorted(p.subclasses(base), key=lambda c: c.qual)]:
            value(ck, dim, p.cls(M + cname), None)
    for o in itertools.permutations(range(3)) if ck.tier == "thorough" else [(2, 0, 1)]:
        value(ck, 2, p.cls(M + "BounceBack"), list(o))


LABELS = (4, 6, 8, 9)     # plain function / none / function with arguments and time / time


def value(ck, dim, ci, order):
    C = Conf(dim)
    p = ck.prog
    it = NdInterp(p, inline_classes={c.qual for c in p.subclasses(p.cls(M + "BoundaryMethod"))})
    st = State()
    S = C.stub(it, st)
    sim, dom, cont = sym("sim"), sym("dom"), sym("cont")
    X = [sym("coords%d" % d) for d in range(dim)]
    order = order or list(range(dim + 1))
    for (o, n), v in {
        (sim, "container"): cont, (sim, "domain"): dom, (sim, "t"): sym("time"), (cont, "nv"): const(C.nv),
        (cont, "gpu_support"): FALSE, (dom, "dim"): const(dim), (dom, "dx"): sym("dx"),
        (sym("generator"), "backend"): const("NUMPY"),
        (cont, "sorder"): it.newlist(st, [const(x) for x in order]),
        (dom, "coords_halo"): it.newlist(st, X),
    }.items():
        st.over[(o, n)] = v
    for x in X:
        it.looks[x] = (None,)
    shapes = {}

    def new_array(i, s, t, args, kwargs):
        a = dict(zip(["nv", "gspace_size", "vmax", "sorder"], args), **kwargs)
        try:
            shapes[t] = (cval(a["nv"]),) + i.ints(a["gspace_size"], s)
        except Exception:
            shapes[t] = None
        s.over[(t, "#order")] = i.freeze(a.get("sorder", NONE), s)
        s.over[(t, "#state")] = T("uninit", t)

    it.on_new["Array"] = new_array
    state = lambda s, o: s.over.get((o, "#state"), T("unknown"))

    def m2f(i, s, recv, args):
        m, f = args[0], args[1] if len(args) > 1 else NONE
        s.over[(f, "#state")] = T("dist", state(s, m)) if recv is sim else T("unknown")
        if shapes.get(f):
            n = int(np.prod(shapes[f]))
            s.over[(f, "swaparray")] = i.nd_new(obj([item(state(s, f), const(j)) for j in range(n)], shapes[f]), s)
        return NONE

    def equilibrium(i, s, recv, args):
        s.over[(args[0], "#state")] = T("equilibrium", state(s, args[0])) if recv is sim else T("unknown")
        return NONE

    def consm(i, s, recv, args):
        s.over[(recv, "#consm")] = i.freeze(args[0], s)
        return NONE

    def fun(name):
        def f(i, s, recv, args):
            fa = [i.freeze(a, s) for a in args]
            ok = all(s.over.get((o, "#consm")) is attr(attr(sim, "scheme"), "consm") and
                     s.over.get((o, "#order")) is T("list", *[const(x) for x in order]) for o in fa[:2])
            for o in fa[:2]:
                s.over[(o, "#state")] = T("set", name, const(ok), const(o is fa[1]), T("tuple", *fa[2:]))
            return NONE
        return f
    it.opaque_calls.update({"m2f": m2f, "equilibrium": equilibrium, "set_conserved_moments": consm})
    for l in LABELS:
        it.opaque_calls["fun%d" % l] = fun("fun%d" % l)
    cl = [LABELS[(c * 3 + c // 5) % 4] for c in range(C.n)]
    k = obj([const(kk) for kk, _ in C.cols])
    istore = it.nd_new(np.concatenate([k[None, :], obj([C.x[c][d] for d in range(dim) for c in range(C.n)], (dim, C.n))]), st, "int64")
    extra = Tup([sym("a1"), sym("a2")])
    val = {4: sym("fun4"), 6: NONE, 8: Tup([sym("fun8"), extra]), 9: sym("fun9")}
    args = dict(
        istore=istore, ilabel=it.nd_new(obj([const(x) for x in cl]), st, "int64"),
        distance=it.nd_new(obj(C.s), st), normal=sym("normal"), stencil=S, nspace=sym("nspace"),
        generator=sym("generator"), sim=sim,
        value_bc=it.alloc(st, DictC([(const(l), val[l]) for l in LABELS])),
        time_bc=it.alloc(st, DictC([(const(l), const(l > 6)) for l in LABELS])))
    funs = {sym("fun%d" % u) for u in LABELS}

    def decide(t):
        if t.op == "not":
            x = decide(t.args[0])
            return None if x is None else not x
        if t.args and t.args[0] in funs:
            if t.op == "isinstance":
                return "Function" in show(t.args[1]) or "Callable" in show(t.args[1])
            if t.op == "is":
                return False
        if t.op == "call" and t.args[0] is ext("callable") and t.args[1] in funs:
            return True
        if t in funs:
            return True
        return None
    it.decide = decide
    src = """
        def drive(istore, ilabel, distance, normal, stencil, value_bc, time_bc, nspace, generator, sim):
            b = %s(istore, ilabel, distance, normal, stencil, value_bc, time_bc, nspace, generator)
            b.set_iload()
            b.prepare_rhs(sim)
            first = b.feq.copy()
            b.fix_iload()
            b.update_feq(sim)
            return first, b.feq
    """ % ci.name
    r = it.run(ref(p, ci.module, src), [], args, st)
    ck.use(it)
    lab = "%s %dd order %s" % (ci.name, dim, "".join(map(str, order)))
    prep, upd = p.method(ci, "prepare_rhs"), p.method(ci, "update_feq")
    if r.val is None or not isinstance(r.val, Tup):
        ck.obl("value", lab, False, prep, "the set-up does not return")
        return
    one, two = [it.as_nd(x, st) for x in r.val.vals]
    for rule, F, where in (("value", one, prep), ("time", two, upd)):
        for l in LABELS:
            cols = [c for c in range(C.n) if cl[c] == l]
            bad = None
            for j, c in enumerate(cols):
                for q in range(C.nv):
                    bad = bad or wrong(F[q, c], q, j, len(cols), l, cols, C, X, dim, rule, order)
            ck.obl(rule, "%s label %s" % (lab, {4: "with a function", 6: "without function", 8: "with arguments and time",
                                               9: "with time"}[l]), not bad, where, bad or "")


def wrong(t, q, j, n, l, cols, C, X, dim, rule, order):
    if l == 6:
        return None if t is const(0) or is_const(t) and cval(t) == 0 else "prescribes %s" % show(t)[:200]
    if not (t.op == "item" and t.args[0].op == "dist" and t.args[1] is const(q * n + j)):
        return "population %d of the point %d is %s" % (q, j, show(t)[:200])
    e = t.args[0].args[0]
    if e.op != "equilibrium":
        return "the populations are not those of the equilibrium (%s)" % show(e)[:200]
    v = e.args[0]
    if v.op != "set" or v.args[0] != "fun%d" % l:
        return "the moments are not set by the function of the label (%s)" % show(v)[:200]
    if v.args[1] is not TRUE:
        return "the arrays given to the function do not know the conserved moments or have another storage order"
    if v.args[2] is not TRUE:
        return "the equilibrium is taken of the first argument of the function"
    a = list(v.args[3].args)
    if l > 6:
        tm = a.pop(0) if a else None
        want = const(0) if rule == "value" else sym("time")
        if tm is not want and not (rule == "value" and tm is not None and (tm is sym("time") or is_const(tm) and cval(tm) == 0)):
            return "time %s" % show(tm)[:100]
    ex = a[dim:]
    if ex != ([sym("a1"), sym("a2")] if l == 8 else []):
        return "additional arguments %s" % [show(x) for x in ex]
    for d in range(dim):
        x = a[d]
        if x.op != "nd" or tuple(cval(s) for s in x.args[0].args) != (n,) + (1,) * (dim - 1):
            return "coordinate %d is %s" % (d, show(x)[:200])
        for i, c in enumerate(cols):
            kk = C.cols[c][0]
            w = T("bin", "+", item(X[d], C.x[c][d]), T("bin", "*", T("bin", "*", T("bin", "-", const(1), C.s[c]),
                                                                    const(C.v[kk][d])), sym("dx")))
            if not alg.eq(x.args[1 + i], w):
                return "coordinate %d of a link along %s is %s, required %s" % (
                    d, C.v[kk], alg.name(alg.alg(x.args[1 + i])), alg.name(alg.alg(w)))
    return None


# ---- life cycle ------------------------------------------------------
NAMES = ("set_iload", "generate", "compile", "prepare_rhs", "fix_iload", "set_rhs", "move2gpu", "update_feq", "update",
         "initialization")


def lifecycle(ck):
    p = ck.prog
    sim = "pylbm.simulation.Simulation."
    ms = [sym("M0"), sym("M1")]

    def runit(name, over=(), args=(), **kw):
        it = ck.interp(stop=set(kw.pop("stop", ())))
        st = State()
        it.on_new["Boundary"] = lambda i, s, t, a, k: s.over.update({(t, "methods"): i.newlist(s, ms)})
        st.over[(attr(sym("self"), "bc"), "methods")] = it.newlist(st, ms)
        fi = p.func(sim + name)
        r = it.run(fi, list(args), kw, st)
        ck.use(it)
        evs = []
        for ev in flat(r.trace):
            n = ev.name.rsplit(".", 1)[-1]
            if ev.kind in ("call", "enter") and n in NAMES:
                evs.append((n, ev))
        return fi, r, evs
    # construction
    fi, r, evs = runit("__init__", dico=sym("dico"), sorder=NONE, check_inverse=FALSE, initialize=FALSE,
                       stop=("_initialize", "_get_algorithm", "_get_container", "__str__", "Generator.compile"))
    gen = r.attr("generator")
    algo = r.attr("algo")
    cont = r.attr("container")
    names = [(n, ev.recv) for n, ev in evs]
    comp = [i for i, (n, o) in enumerate(names) if n == "compile" and o is gen]
    ag = [i for i, (n, o) in enumerate(names) if n == "generate" and o is algo]
    ck.obl("lifecycle", "compile once", len(comp) == 1, fi, "%d compilations" % len(comp))
    ck.obl("lifecycle", "algorithm generated", len(ag) == 1 and comp and ag[0] < comp[0], fi,
           "the algorithm is not generated once before the compilation")
    for m in ms:
        mine = [(i, n, ev) for i, (n, ev) in enumerate(evs) if ev.recv is m]
        seq = [n for _, n, _ in mine]
        ck.obl("lifecycle", "%s construction" % m.args[0], seq == ["set_iload", "generate"] and comp and mine[-1][0] < comp[0], fi,
               "calls %s, compilation %s" % (seq, "before" if comp and mine and mine[-1][0] > comp[0] else "after"))
        g = [ev for _, n, ev in mine if n == "generate"]
        so = attr(cont, "sorder")
        ck.obl("lifecycle", "%s storage order" % m.args[0], len(g) == 1 and list(g[0].args) + list(g[0].kwargs.values()) == [so], fi,
               "generated with the order %s" % (g and [show(x)[:80] for x in g[0].args]))
    # initialisation
    fi, r, evs = runit("_initialize", stop=("initialization",))
    first = [n for n, _ in evs][:1]
    ck.obl("lifecycle", "initial state first", first == ["initialization"], fi, "first call %s" % first)
    S = sym("self")
    for m in ms:
        mine = [ev for n, ev in evs if ev.recv is m]
        seq = [ev.name for ev in mine]
        # prepare_rhs reads istore by rows, set_rhs reads it by columns: fix_iload is between
        ck.obl("lifecycle", "%s initialisation" % m.args[0], seq == ["prepare_rhs", "fix_iload", "set_rhs", "move2gpu"] and
               list(mine[0].args) == [S], fi, "calls %s" % seq)
    ck.same("lifecycle", "initialised", r.attr("_need_init"), FALSE, fi)
    # refresh
    fi, r, evs = runit("_update_bc" if False else bc_update_name(p))
    for m in ms:
        mine = [ev for n, ev in evs if ev.recv is m]
        seq = [ev.name for ev in mine]
        ck.obl("lifecycle", "%s refresh" % m.args[0], seq[:2] == ["update_feq", "set_rhs"] and list(mine[0].args) == [S] and
               seq[2:] in ([], ["update"]), fi, "calls %s" % seq)


def bc_update_name(p):
    """the method of Simulation that refreshes the boundary values"""
    ci = p.cls("pylbm.simulation.Simulation")
    import ast
    for fi in ci.methods.values():
        if any(isinstance(n, ast.Attribute) and n.attr == "update_feq" for n in ast.walk(fi.node)):
            return fi.name
    raise AnalysisBroken("no method refreshes the boundary values")
