"""Conserved moments are moved in front consistently."""
from sa.common import *
from sa.terms import *
from rules.schm import *


def check(ck):
    ck.rule("permutation", "whatever the places of the conserved moments: the equilibria, the rates, the rows of the moment "
            "matrix, the columns of its inverse, the rows and columns of the shift matrices of the scheme built are those given, "
            "all in one order, each once")
    ck.rule("front", "the conserved moments occupy the first rows")
    ck.rule("index", "every conserved moment is recorded once, with the row where its equilibrium is the moment itself")
    ck.rule("unpermuted", "the copies kept under *_no_swap are in the order given by the user")
    init = ck.prog.func(SCH + ".__init__")
    per = ck.prog.func(SCH + "._permute_consm_in_front")
    for m in list(permuted()) + models():
        one(ck, m, init, per)
    ck.need(200)


def one(ck, m, init, fi):
    r = m.run(ck)
    if r.val is None:
        ck.obl("permutation", m.name, False, init, "the construction of the scheme fails")
        return
    eq = vector(r.attr("EQ"))
    o = m.order(eq) if eq is not None else None
    if not ck.obl("permutation", m.name + " EQ", o is not None and sorted(x if x is not None else -1 for x in o) == list(range(m.n)), fi,
                  "equilibria %s" % (eq and [show(t)[:30] for t in eq])):
        return
    M0 = m.blocks()
    I0 = M0.inv(method="LU").applyfunc(sympy.cancel) if m.given is None else None

    def mat(name, want, where=fi):
        a = entries(r.attr(name))
        ok = a is not None and a.shape == want.shape and all(
            sympy.cancel(value(a[i, j]) - want[i, j]) == 0 for i in range(m.n) for j in range(m.n))
        ck.obl("permutation", "%s %s" % (m.name, name), ok, where, "equilibria in the order %s, %s is %s, required %s" % (
            o, name, a is not None and [[str(value(x)) for x in y] for y in a], want.tolist()))
    s = vector(r.attr("s"))
    ck.obl("permutation", m.name + " s", s is not None and len(s) == m.n and all(
        same(x, m.s[o[i]]) for i, x in enumerate(s)), fi, "equilibria in the order %s, rates %s" % (o, s and [show(x) for x in s]))
    mat("M", M0.extract(o, list(range(m.n))))
    if I0 is not None:
        mat("invM", I0.extract(list(range(m.n)), o))
    else:
        # inverse of a given matrix: the product with M is the identity
        a, b = entries(r.attr("M")), entries(r.attr("invM"))
        ok = a is not None and b is not None
        if ok:
            p = sympy.Matrix(a.shape[0], a.shape[1], [value(x) for x in a.reshape(-1)]) * \
                sympy.Matrix(b.shape[0], b.shape[1], [value(x) for x in b.reshape(-1)])
            ok = p.applyfunc(sympy.cancel) == sympy.eye(m.n)
        ck.obl("permutation", m.name + " invM", ok, fi, "M times invM is not the identity")
    if m.rel is not None and I0 is not None:
        Tu = (m.blocks(True) * I0).applyfunc(sympy.cancel)
        mat("Tu", Tu.extract(o, o))
        back = {value(u): -value(u) for u in U}
        mat("Tmu", Tu.applyfunc(lambda e: e.subs(back, simultaneous=True)).extract(o, o))
    # recorded indices
    c = r.attr("consm")
    rec = {p.args[0]: p.args[1] for p in c.args} if c.op == "dict" else {}
    want = {k for k, _ in m.consm}
    ck.obl("index", m.name + " all", set(rec) == want and len(c.args) == len(want), fi,
           "recorded %s, declared %s" % (sorted(map(show, rec)), sorted(map(show, want))))
    bad = [(show(k), show(v)) for k, v in rec.items() if not (
        is_const(v) and isinstance(cval(v), int) and 0 <= cval(v) < m.n and same(eq[cval(v)], k))]
    ck.obl("index", m.name, not bad, fi, "recorded %s, equilibria %s" % (bad, [show(t)[:20] for t in eq]))
    front = [i for k in want for i, e in enumerate(eq) if same(e, k)]
    ck.obl("front", m.name, sorted(front) == list(range(len(want))), fi, "rows of the conserved moments: %s" % sorted(front))
    for n, w in (("EQ_no_swap", m.EQ), ("s_no_swap", m.s)):
        v = vector(r.attr(n))
        ck.obl("unpermuted", "%s %s" % (m.name, n), v is not None and len(v) == m.n and all(
            same(x, y) for x, y in zip(v, w)), init, "%s is %s" % (n, v and [show(x)[:30] for x in v]))
    for n, w in (("M_no_swap", M0), ("invM_no_swap", I0)):
        a = entries(r.attr(n))
        if w is not None:
            ck.obl("unpermuted", "%s %s" % (m.name, n), a is not None and a.shape == w.shape and all(
                sympy.cancel(value(a[i, j]) - w[i, j]) == 0 for i in range(m.n) for j in range(m.n)), init,
                "%s is not the matrix in the order given" % n)
