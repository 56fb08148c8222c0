"""Moment matrix, inverse, relative velocity and equilibria of a scheme."""
from sa.common import *
from sa.terms import *
from rules.schm import *


def check(ck):
    ck.rule("moments", "row i of the moment matrix of a scheme holds its i-th polynomial at the velocities of its stencil "
            "(velocity times scheme velocity along each coordinate, whatever the names of the coordinates); the moments of one "
            "scheme do not depend on the distributions of another")
    ck.rule("inverse", "invM is the inverse of M; a given matrix is used as it is")
    ck.rule("relative", "Tu M is the moment matrix of the velocities minus the relative velocity, Tmu the inverse of Tu "
            "(same matrix for the opposite relative velocity); without relative velocity both are the identity")
    ck.rule("equilibrium", "the equilibria are those given, or the moments of the distributions given as function of the "
            "velocities of the scheme and its own arguments")
    init = ck.prog.func(SCH + ".__init__")
    mk = ck.prog.func(SCH + "._create_moments_matrices")
    ge = ck.prog.func(SCH + "._get_equilibrium")
    for m in models():
        r = m.run(ck)
        if r.val is None:
            ck.obl("moments", m.name, False, init, "the construction of the scheme fails")
            continue
        get = lambda n: entries(r.attr(n))
        num = lambda a: sympy.Matrix(a.shape[0], a.shape[1], [value(x) for x in a.reshape(-1)])
        eqs = vector(r.attr("EQ"))
        o = m.order(eqs) if eqs else None
        ok = o is not None and None not in o and sorted(o) == list(range(m.n))
        if not ck.obl("equilibrium", m.name, ok, ge, "equilibria %s" % (eqs and [show(t)[:40] for t in eqs])):
            continue
        if m.feq:
            for k in range(len(m.vel)):
                want = ([list(v) for v in m.vel[k]], [show(symbol("a%d_%d" % (k, i))) for i in range(k + 1)])
                got = [(v, a) for kk, v, a in m.asked if kk == k]
                ck.obl("equilibrium", "%s arguments of scheme %d" % (m.name, k), bool(got) and all(g == want for g in got), ge,
                       "the function of scheme %d gets %s, required %s" % (k, got, want))
        mats = {n: get(n) for n in ("M", "invM", "Tu", "Tmu")}
        if any(a is None or a.shape != (m.n, m.n) for a in mats.values()):
            ck.obl("moments", m.name, False, mk, "matrices of shapes %s" % {n: a is not None and a.shape for n, a in mats.items()})
            continue
        M, I, Tu, Tmu = (num(mats[n]) for n in ("M", "invM", "Tu", "Tmu"))
        z = lambda A: A.applyfunc(sympy.cancel).is_zero_matrix is True
        # rows in the order of the scheme: the place of a row is the affair of C04,
        # so rows are found back by their equilibrium
        want = m.blocks()
        rows = lambda A: A.extract([o.index(i) for i in range(m.n)], list(range(m.n)))
        place = all(z(rows(M)[i, :] - want[i, :]) for i in range(m.n)) or rowset(M, want)
        ck.obl("moments", m.name, place, mk, "moment matrix %s, required %s" % (M.tolist(), want.tolist()))
        ck.obl("inverse", m.name, z(M * I - sympy.eye(m.n)), mk if m.given is None else init, "M times invM is %s" % (
            (M * I).applyfunc(sympy.cancel).tolist(),))
        if m.rel is None:
            for n in ("Tu", "Tmu"):
                ck.obl("relative", "%s %s" % (m.name, n), z(num(mats[n]) - sympy.eye(m.n)), mk if m.given is None else init,
                       "%s is %s without relative velocity" % (n, num(mats[n]).tolist()))
        else:
            w = m.blocks(True)
            ck.obl("relative", m.name + " Tu", rowset(Tu * M, w), mk,
                   "Tu M is %s, required the rows of %s" % ((Tu * M).applyfunc(sympy.cancel).tolist(), w.tolist()))
            ck.obl("relative", m.name + " Tmu", z(Tu * Tmu - sympy.eye(m.n)), mk, "Tu Tmu is %s" % (
                (Tu * Tmu).applyfunc(sympy.cancel).tolist(),))
    ck.need(60)


def rowset(A, W):
    """same rows up to their order"""
    a = [tuple(sympy.expand(sympy.cancel(x)) for x in A.row(i)) for i in range(A.shape[0])]
    w = [tuple(sympy.expand(sympy.cancel(x)) for x in W.row(i)) for i in range(W.shape[0])]
    return sorted(map(str, a)) == sorted(map(str, w))
