"""Source terms: half a step before the relaxation, half a step after, all evaluated
with the moments of the point."""
from rules.c03 import *

c = [symbol("c%d" % i) for i in range(3)]
t = symbol("t")


def models():
    """one source; number; all the moments, coupled; the time; the second scheme"""
    two = [(1,), (-1,), (2,), (-1,)]
    yield Kern("one moment", 1, V1, 1, src=[(0, [(c[0], B("*", PAR, c[0]))])])
    yield Kern("a number", 1, V1, 2, src=[(0, [(c[1], const(0.5))])])
    yield Kern("an integer", 2, V2, 1, src=[(0, [(c[0], const(3))])])
    yield Kern("coupled", 2, V2, 2, src=[(0, [(c[0], B("-", c[1], c[0])), (c[1], B("*", c[0], symbol("k")))])])
    yield Kern("time", 1, V1, 2, src=[(0, [(c[1], B("*", t, c[0]))])])
    yield Kern("second scheme", 1, two, 2, ptr=[0, 2, 4], src=[(1, [(c[1], B("*", c[0], c[1]))])])
    yield Kern("both schemes", 1, two, 2, ptr=[0, 2, 4], src=[(0, [(c[0], c[1])]), (1, [(c[1], B("+", c[0], t))])])
    yield Kern("three moments", 3, V3, 3, src=[(0, [(c[2], c[0]), (c[0], B("*", c[1], c[2]))])])


def coordinates():
    return Kern("coordinates", 2, V2, 1, src=[(0, [(c[0], B("*", symbol("Y"), c[0]))])])


def check(ck):
    ck.rule("half", "the kernel of the source terms adds dt/2 times the source to the moments it is given for, all the sources "
            "evaluated with the moments of the point before any of them changes, at the current time")
    ck.rule("step", "one_time_step applies the source terms to the moments of the arriving distributions, relaxes, and applies "
            "them again before the conversion to the distributions, whatever the settings")
    ck.rule("frame", "only the moments of the point of the loop are read and written; the temporaries are declared")
    ck.rule("guard", "with the fluid test the source terms act on the fluid points only")
    ck.rule("kernels", "the equilibrium and relaxation kernels ignore the source terms")
    ck.rule("given", "the source terms used are those of the dictionary of each scheme")
    for cls in [ALG] + [x.qual for x in ck.prog.subclasses(ck.prog.cls(ALG))]:
        nm = cls.rsplit(".", 1)[-1]
        for k in models():
            for o in orders(k.dim):
                one(ck, cls, k, "source_term", o, "%s.source_term %s order %s" % (nm, k.name, o))
            os = list(orders(k.dim))
            for ml, sp, fl in itertools.product((False, True), repeat=3):
                # the fluid test adds nothing to the other settings
                for o in os if not fl and k.dim < 3 else os[-1:]:
                    one(ck, cls, k, "one_time_step", o, "%s.one_time_step %s order %s m_local=%s split=%s check_isfluid=%s" % (
                        nm, k.name, o, ml, sp, fl), dict(m_local=ml, split=sp, check_isfluid=fl))
            one(ck, cls, k, "relaxation", os[-1], "%s.relaxation %s" % (nm, k.name))
        k = coordinates()
        one(ck, cls, k, "source_term", [0, 1, 2], "%s.source_term-coordinates" % nm)
        one(ck, cls, k, "one_time_step", [0, 1, 2], "%s.one_time_step-coordinates" % nm, {})
        one(ck, cls, Kern("relative velocity", 1, V1, 1, rel=True, src=[(0, [(c[0], B("*", PAR, c[0]))])]), "one_time_step",
            [0, 1], nm + ".one_time_step-relative", {})
    given(ck)
    ck.need(500)


def given(ck):
    """Scheme keeps the sources of each scheme, in the order of the schemes"""
    from rules.schm import models as schemes, SCH
    init = ck.prog.func(SCH + ".__init__")
    src = [[(symbol("q"), symbol("rhs%d" % i))] for i in range(2)]
    for m in schemes():
        m.sources = src
        r = m.run(ck)
        if r.val is None:
            continue
        v = r.attr("_source_terms")
        got = []
        for x in (v.args if v is not None and v.op in ("list", "tuple") else []):
            got.append(None if x is NONE else [tuple(p.args) for p in x.args] if x.op == "dict" else x)
        want = [src[i] if m.has_source(i) else None for i in range(len(m.vel))]
        ck.obl("given", m.name, got == want, init, "source terms %s, required %s" % (got, want))
