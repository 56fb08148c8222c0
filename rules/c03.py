"""Kernels: what the generated code computes at every point."""
import itertools

from rules.kern import *

V1 = [(0,), (1,), (-2,)]
V2 = [(0, 0), (1, 0), (-1, 2), (0, -1)]
V3 = [(0, 0, 0), (1, 0, -1), (0, -2, 1), (0, 0, 3)]


def models():
    return [Kern("D1Q3", 1, V1, 1), Kern("D1Q3 two conserved", 1, V1, 2), Kern("D2Q4", 2, V2, 1), Kern("D3Q4", 3, V3, 2),
            Kern("D1Q2+D1Q2", 1, [(1,), (-1,), (2,), (-1,)], 2, ptr=[0, 2, 4])]


def special():
    """relaxation rates which depend on the conserved moments, relative velocity"""
    return [Kern("D1Q3 rates", 1, V1, 1, s_of_m=True), Kern("D2Q4 rates", 2, V2, 2, s_of_m=True)], \
        [Kern("D1Q3 relative", 1, V1, 1, rel=True), Kern("D1Q3 relative two conserved", 1, V1, 2, rel=True),
         Kern("D2Q4 relative", 2, V2, 2, rel=True), Kern("D1Q3 relative fixed", 1, V1, 1, rel=True, zero_s=True),
         Kern("D1Q3 relative rates", 1, V1, 2, rel=True, s_of_m=True), Kern("D3Q4 relative", 3, V3, 1, rel=True)]


def orders(dim):
    base = list(range(dim + 1))
    yield base
    yield base[1:] + [0] if dim == 1 else base[::-1]
    if dim > 1:
        yield [2, 0, 1] + base[3:]
        yield [1, 0] + base[2:]


def check(ck):
    ck.rule("kernels", "executed at a point, statement after statement: f2m gives m = M f, m2f f = invM m, transport the "
            "distributions of the points one velocity upstream, equilibrium m = eq(m), relaxation m + s (eq(m) - m); "
            "parameters of the scheme replaced by their values")
    ck.rule("step", "one_time_step gives the distributions invM (m + s (eq(m) - m)) with m the moments of the distributions arriving "
            "at the point, for every way to store the moments, to split the loops and to test fluid points")
    ck.rule("frame", "a kernel writes only its result (and the moments of the step) at the point of the loop, reads displaced "
            "points only of arrays it does not write, declares its temporaries, runs on the inner points (or on all for "
            "the local conversions)")
    ck.rule("guard", "with the fluid test, every write is done exactly on the points where in_or_out equals valin")
    ck.rule("generated", "each kernel is given to the code generator under its own name")
    classes = [ALG] + [c.qual for c in ck.prog.subclasses(ck.prog.cls(ALG))]
    for cls in classes:
        nm = cls.rsplit(".", 1)[-1]
        for k in models():
            for o in orders(k.dim):
                for ker in ("transport", "f2m", "m2f", "equilibrium", "relaxation"):
                    one(ck, cls, k, ker, o, "%s.%s %s order %s" % (nm, ker, k.name, o))
        for k in models()[:3]:
            for o in list(orders(k.dim))[:2]:
                for ml, sp, fl in itertools.product((False, True), repeat=3):
                    one(ck, cls, k, "one_time_step", o, "%s.one_time_step %s order %s m_local=%s split=%s check_isfluid=%s" % (
                        nm, k.name, o, ml, sp, fl), dict(m_local=ml, split=sp, check_isfluid=fl))
        one(ck, cls, models()[3], "one_time_step", [0, 1, 2, 3], nm + ".one_time_step D3Q4", {"m_local": True})
        one(ck, cls, models()[4], "one_time_step", [1, 0], nm + ".one_time_step D1Q2+D1Q2", {})
        rates, rel = special()
        for k in rates:
            o = list(orders(k.dim))[-1]
            one(ck, cls, k, "relaxation", o, "%s.relaxation %s order %s" % (nm, k.name, o))
        for k in rates + rel:
            o = list(orders(k.dim))[-1]
            for ml, sp in itertools.product((False, True), repeat=2):
                one(ck, cls, k, "one_time_step", o, "%s.one_time_step %s order %s m_local=%s split=%s" % (nm, k.name, o, ml, sp),
                    dict(m_local=ml, split=sp))
    generated(ck)
    ck.need(500)


def entry(r, key):
    """entry of the dictionary returned"""
    t = r.value
    if t is not None and t.op == "dict":
        for p in t.args:
            if p.args[0] is const(key):
                return p.args[1]
    return None


def one(ck, cls, k, ker, order, name, settings=None):
    inner = ker in ("transport", "one_time_step", "source_term")
    r, fi = k.code(ck, cls, ker, order, settings)
    code = entry(r, "code")
    rule = {"one_time_step": "step", "source_term": "half"}.get(ker, "kernels")
    if code is None:
        ck.obl(rule, name, False, fi, "no code is returned: %s" % (r.value is not None and show(r.value)[:300],))
        return
    m = Machine(k, order, inner)
    try:
        m.run(code)
    except KernError as e:
        ck.obl("frame", name, False, fi, str(e))
        return
    n = k.n
    o = k.oracle()
    z = (0,) * k.dim
    at = lambda a: [m.env.get(("at", a, i, z)) for i in range(n)]
    ini = lambda a: sympy.Matrix([m.init(("at", a, i, z)) for i in range(n)])
    place = {symbol(x): m.init(("at", x, None, z)) for x in COORD[:k.dim]}
    arr = sympy.Matrix([m.init(("at", "f", i, tuple(-c for c in k.vel[i]))) for i in range(n)])
    out, want = {
        "transport": ("fnew", lambda: arr), "f2m": ("m", lambda: o.moments(ini("f"))), "m2f": ("f", lambda: o.dist(ini("m"))),
        "equilibrium": ("m", lambda: o.equilibrium(ini("m"))), "relaxation": ("m", lambda: o.relax(ini("m"))),
        "one_time_step": ("fnew", lambda: o.step(arr, place)), "source_term": ("m", lambda: o.source(ini("m"), place))}[ker]
    want = want()
    got = at(out)
    # moments which are not written keep their value
    got = [ini(out)[i] if g is None else g for i, g in enumerate(got)]
    bad = [i for i in range(n) if not zero(got[i] - want[i])]
    ck.obl(rule, name, not bad, fi, "; ".join("component %d: %s, required %s" % (
        i, short(got[i]), short(want[i])) for i in bad[:2]))
    st = (settings or {})
    local = st.get("m_local") and not st.get("split")
    arrays = {l[1] for l in m.written if l[0] == "at"}
    ok = {out} | ({"m", "fnew"} if ker == "one_time_step" and not local else set())
    ck.obl("frame", name + " writes", arrays <= ok, fi, "%s is written" % ", ".join(sorted(arrays - ok)))
    # temporaries are declared
    lv = entry(r, "local_vars")
    dec = set()
    for x in walk(lv) if lv is not None else ():
        if x.op == "ent":
            dec.add(("ent", x.args[0]))
        if x.op == "symbol":
            dec.add(("symbol", x.args[0]))
    und = {l[:2] for l in m.written if l[0] != "at"} - dec
    ck.obl("frame", name + " temporaries", not und, fi, "%s is written but not declared" % sorted(und))
    guards = {g for _, g in m.guards}
    want_g = {frozenset([("at", "in_or_out", None, z), ("symbol", "valin")])} if st.get("check_isfluid") else {None}
    ck.obl("guard", name, guards == want_g, fi, "writes are done under the conditions %s" % guards)


def short(e):
    n = 0
    for _ in sympy.preorder_traversal(e):
        n += 1
        if n > 400:
            return "an expression of more than 400 nodes"
    s = str(e)
    return s if len(s) < 200 else s[:200] + "..."


def generated(ck):
    gen = ck.prog.func(ALG + ".generate")
    from sa.interp import flat
    names = ("transport", "f2m", "m2f", "relaxation", "equilibrium", "one_time_step")
    for cls in [ALG] + [c.qual for c in ck.prog.subclasses(ck.prog.cls(ALG))]:
        for src in (False, True):
            k = Kern("D1Q3", 1, V1, 1, src=[(0, [(symbol("c0"), symbol("c0"))])] if src else ())
            ci = ck.prog.cls(cls)
            it = k.interp(ck)
            st = State()
            sch = k.scheme(it, st)
            drv = ref(ck.prog, ci.module, "def drive(scheme, sorder, generator, settings):\n"
                      "    a = %s(scheme, sorder, generator, settings)\n    a.generate()\n" % ci.name)
            it.inline_classes = set(it.inline_classes) | {ci.qual}
            got = {}

            def add(i, s, recv, a, kw):
                x = i.freeze(a[0] if a else kw["name_expr"], s)
                got.setdefault(cval(x.args[0]), []).append((x.args[1], {q: i.freeze(v, s) for q, v in kw.items()}))
                return NONE
            it.opaque_calls["add_routine"] = add
            r = it.run(drv, [sch, it.newlist(st, [const(0), const(1)]), sym("generator"), it.alloc(st, DictC([]))], {}, st)
            ck.use(it)
            for m in names + (("source_term",) if src else ()):
                g = got.get(m, [])
                w, _ = k.code(ck, cls, m, [0, 1])
                code, lv = entry(w, "code"), entry(w, "local_vars")
                name = "%s %s%s" % (ci.name, m, " sources" if src else "")
                ok = len(g) == 1 and code is not None and g[0][0] is code
                ck.obl("generated", name, ok, gen, "routine %s is generated %d times, from %s" % (m, len(g), [show(x[0])[:60] for x in g]))
                if ok and lv is not None:
                    ck.obl("generated", name + " temporaries", g[0][1].get("local_vars") is lv, gen,
                           "temporaries of %s: %s, required %s" % (m, g[0][1].get("local_vars"), show(lv)))
