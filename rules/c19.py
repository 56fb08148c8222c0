"""Binding of the arguments of the generated kernels."""
import itertools

from sa.common import *
from sa.terms import *
from sa.interp import Interp, State, DictC, Ref, Tup, flat, ListC
from sa.nd import NdInterp
from sa.program import AnalysisBroken
from sa.rule import ref

ALG = "pylbm.algorithm.base.BaseAlgorithm"
BND = "pylbm.boundary.BoundaryMethod"
STO = "pylbm.storage.Array"


def check(ck):
    ck.rule("bound", "every parameter of a generated kernel is given the object of this simulation its name stands for: moments "
            "and distributions (those of the caller if he gives some), the array written by transport, the sizes of these "
            "arrays along each axis, the coordinates, time, time step, fluid mask, its fluid value, the extra parameters by name")
    ck.rule("exact", "a kernel is called once, with exactly the parameters it declares, whichever way the backend declares them")
    ck.rule("override", "a value given by the caller under the name of a parameter is the one the kernel receives")
    ck.rule("kernel", "the kernel called is the routine of this name in the module compiled for this simulation")
    ck.rule("boundary", "a boundary kernel receives the array to complete, its sizes, and the indices, right hand side, distances "
            "and number of links of this boundary condition")
    p = ck.prog
    base = p.cls(ALG)
    seen = set()
    for ci in [base] + sorted(p.subclasses(base), key=lambda c: c.qual):
        fs = (p.method(ci, "call_function"), p.method(ci, "_get_args"))
        if fs in seen:
            continue
        seen.add(fs)
        for dim, mu, fu, lp in itertools.product((1, 2, 3), (0, 1), (0, 1), (0, 1)):
            kernel(ck, ci, dim, mu, fu, lp)
    for dim, lp, nl in itertools.product((1, 2, 3), (0, 1), (0, 1, 2)):
        boundary(ck, dim, lp, nl)
    ck.need(200)


def setup(ck, params, lp, fn_term, cls):
    it = NdInterp(ck.prog, attr_types=SIM_ATTRS)
    st = State()
    called = []

    def declared(t):
        return t is fn_term or (isinstance(t, T) and t.op == "attr" and t.args[0] is fn_term)
    # loopy kernels know their arguments, the others are functions
    it.absent = lambda v, name: not lp and name in ("arg_dict", "args") and declared(v)
    st.over[(fn_term, "arg_dict")] = it.alloc(st, DictC([(const(n), sym("#arg")) for n in params]))

    def hook(i, name, args, kwargs, s, node):
        if name.startswith("inspect."):
            n = name.rsplit(".", 1)[-1]
            if args and i.freeze(args[0], s) is not fn_term:
                return None
            names = i.newlist(s, [const(x) for x in params])
            if n == "getfullargspec":
                t = T("argspec", fn_term)
                s.over[(t, "args")] = names
                return t
            if n == "signature":
                t = T("signature", fn_term)
                s.over[(t, "parameters")] = i.alloc(s, DictC([(const(x), sym("#arg")) for x in params]))
                return t
        return None
    it.ext_hook = hook
    it.types[sym("self")] = cls
    return it, st


def fn_calls(r, fn_term):
    """the calls of the kernel: list of dict name -> term"""
    out = []
    for ev in flat(r.trace):
        if ev.kind == "call" and ev.raw is not None:
            f = ev.raw[0]
            ft = ev.res.args[0] if ev.res is not None and ev.res.op == "call" else None
            if ft is fn_term:
                out.append((list(ev.args), dict(ev.kwargs)))
    return out


def kernel(ck, ci, dim, mu, fu, lp):
    p = ck.prog
    S, sim = sym("self"), sym("sim")
    G = attr(S, "generator")
    name = "some_kernel"
    fn = attr(attr(G, "module"), name)
    names = ["m", "f", "fnew", "t", "dt", "in_or_out", "valin", "LA", "lambda_", "extra"]
    names += ["nx", "ny", "nz"][:dim] + ["X", "Y", "Z"][:dim]
    it, st = setup(ck, names, lp, fn, ci)
    C, D = attr(sim, "container"), attr(sim, "domain")
    cm, cF, cN = attr(C, "m"), attr(C, "F"), attr(C, "Fnew")
    m_user = sym("m_user") if mu else NONE
    f_user = sym("f_user") if fu else NONE
    n0 = [sym("n%d" % d) for d in range(dim)]
    n1 = [sym("user_n%d" % d) for d in range(dim)] if mu else n0
    for o in (cm, cF, cN):
        st.over[(o, "nspace")] = it.newlist(st, n0)
    if mu:
        st.over[(m_user, "nspace")] = it.newlist(st, n1)
    if fu:
        st.over[(f_user, "nspace")] = it.newlist(st, n1)
    X = [sym("coord%d" % d) for d in range(dim)]
    st.over[(D, "coords")] = it.newlist(st, X)
    st.over[(D, "dim")] = const(dim)
    st.over[(sim, "dim")] = const(dim)
    st.over[(S, "dim")] = const(dim)
    st.over[(sim, "extra_parameters")] = it.alloc(st, DictC([(const("LA"), sym("val_LA")), (const("lambda"), sym("val_lambda"))]))
    fi = p.method(ci, "call_function")
    truth = {x for x in (m_user, f_user) if x is not NONE} | {sym("val_LA"), sym("val_lambda")}

    def decide(t):
        if t.op == "not":
            x = decide(t.args[0])
            return None if x is None else not x
        if t in truth:
            return True
        if t.op == "is" and t.args[1] is NONE and t.args[0] in truth:
            return False
        return None
    it.decide = decide
    args = [const(name), sim, m_user, f_user]
    r = it.run(fi, args, {"extra": sym("given"), "t": sym("other_t")} if not mu else {"extra": sym("given")}, st, S, ci)
    ck.use(it)
    lab = "%s %dd%s%s%s" % (ci.name, dim, " own moments" if mu else "", " own distributions" if fu else "", " declared" if lp else "")
    cs = fn_calls(r, fn)
    where = p.method(ci, "_get_args")
    every = [ev for ev in flat(r.trace) if ev.kind == "call" and ev.res is not None and ev.res.op == "call" and
             ev.res.args[0].op == "attr" and ev.res.args[0].args[0] is attr(G, "module")]
    ck.obl("kernel", lab, len(cs) == 1 and len(every) == 1, fi, "the kernel is called %d times" % len(cs))
    if len(cs) != 1:
        return
    pos, kw = cs[0]
    got = dict(zip(names, pos), **kw)
    extra = set(got) - set(names) - ({"queue"} if lp else set())
    ck.obl("exact", lab, not extra and set(names) <= set(got), p.func("pylbm.symbolic.call_genfunction"),
           "arguments %s too many, %s missing" % (sorted(extra), sorted(set(names) - set(got))))
    mm = m_user if mu else cm
    want = {
        "m": attr(mm, "array"), "f": attr(f_user if fu else cF, "array"), "fnew": attr(cN, "array"),
        "t": attr(sim, "t"), "dt": attr(sim, "dt"), "in_or_out": attr(D, "in_or_out"), "valin": attr(D, "valin"),
        "LA": sym("val_LA"), "lambda_": sym("val_lambda"),
    }
    for d in range(dim):
        want["n" + "xyz"[d]] = n1[d]
        want["XYZ"[d]] = X[d]
    over = {"extra": sym("given")}
    if not mu:
        over["t"] = sym("other_t")
    for n in names:
        rule = "override" if n in over else "bound"
        w = over.get(n, want.get(n))
        g = got.get(n)
        ck.obl(rule, "%s %s" % (lab, n), g is not None and alias(g) is w, where,
               "%s is bound to %s, required %s" % (n, "nothing" if g is None else show(g)[:200], show(w)[:100]))


def alias(t):
    return t


def boundary(ck, dim, lp, nl):
    p = ck.prog
    base = p.cls(BND)
    S, ff = sym("self"), sym("ff")
    fn = sym("kernel function")
    names = ["f", "istore", "rhs", "dist", "ncond", "extra"] + ["nx", "ny", "nz"][:dim] + ["iload%d" % i for i in range(nl)]
    it, st = setup(ck, names, lp, fn, base)
    st.over[(S, "function")] = fn
    n0 = [sym("n%d" % d) for d in range(dim)]
    st.over[(ff, "nspace")] = it.newlist(st, n0)
    il = [sym("load%d" % i) for i in range(nl)]
    st.over[(S, "iload")] = it.newlist(st, il)
    seen = set()
    for ci in [base] + sorted(p.subclasses(base), key=lambda c: c.qual):
        fs = (p.method(ci, "update"), p.method(ci, "_get_args"))
        if fs in seen or None in fs:
            continue
        seen.add(fs)
        it.types[S] = ci
        it.decide = lambda t: True if t.op == "hasattr" else None
        r = it.run(fs[0], [ff], {"extra": sym("given")}, st, S, ci)
        ck.use(it)
        lab = "%s %dd %d loads%s" % (ci.name, dim, nl, " declared" if lp else "")
        cs = fn_calls(r, fn)
        ck.obl("kernel", lab, len(cs) == 1, fs[0], "the kernel is called %d times" % len(cs))
        if len(cs) != 1:
            continue
        pos, kw = cs[0]
        got = dict(zip(names, pos), **kw)
        extra = set(got) - set(names) - ({"queue"} if lp else set())
        ck.obl("exact", lab, not extra, fs[0], "arguments %s too many" % sorted(extra))
        want = {"f": [attr(ff, "array")], "istore": [attr(S, "istore")], "rhs": [attr(S, "rhs")], "dist": [attr(S, "s")],
                "ncond": [item(attr(attr(S, "istore"), "shape"), const(0)), call(ext("len"), attr(S, "istore"))],
                "extra": [sym("given")]}
        for d in range(dim):
            want["n" + "xyz"[d]] = [n0[d]]
        for i in range(nl):
            want["iload%d" % i] = [il[i]]
        for n in names:
            g = got.get(n)
            ck.obl("boundary", "%s %s" % (lab, n), g in want[n], fs[1],
                   "%s is bound to %s, required %s" % (n, "nothing" if g is None else show(g)[:200], show(want[n][0])[:100]))
