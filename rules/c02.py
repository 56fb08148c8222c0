"""Coherence of the moments and the distribution functions."""
import itertools

from rules.simm import *
from sa.interp import flat

KEYS = (const(0), sym("given"), T("tuple", const(1), sym("given")))
# what a user does with a simulation; {k}: a component, a named moment, several indices
OPS = {
    "read m": "r = self.m[%s]", "read m_halo": "r = self.m_halo[%s]", "read F": "r = self.F[%s]", "read F_halo": "r = self.F_halo[%s]",
    "set m_halo": "self.m_halo[%s] = value", "set F_halo": "self.F_halo[%s] = value", "step": "self.one_time_step()",
    "f2m": "self.f2m()", "m2f": "self.m2f()",
}
LEN = dict(quick=4, thorough=5)


def check(ck):
    ck.rule("read", "whatever was done before, reading a moment gives the component asked for (of the whole array, or of its inner "
            "part) of the moments of the current distributions, with the assignments made to moments since; reading a "
            "distribution gives the component of the current distributions")
    ck.rule("write", "assigning a component writes the value given in the component given of the current array, after the other "
            "moments are made current")
    ck.rule("conversion", "f2m / m2f / equilibrium run the kernel of the same name once, on this simulation, with the arrays of the "
            "caller if he gives some")
    ck.rule("readers", "no code run inside a time step reads the moments through the accessors")
    histories(ck)
    conversion(ck)
    readers(ck)
    ck.need(100)


def histories(ck):
    cls = ck.prog.cls(SIM)
    fis = {n: (ck.prog.setter(cls, n[4:]) if n.startswith("set") else ck.prog.func(SIM + "." + {
        "step": "one_time_step"}.get(n, n.split()[-1]))) for n in OPS}
    for w in OPS:
        for key in range(3):
            one(ck, fis, (w,), 2, True, (key,))
    names = list(OPS)
    n = LEN[ck.tier]
    for buffers, init in ((2, True), (1, True), (2, False)):
        m = n if (buffers, init) == (2, True) else 3
        for hist in itertools.product(names, repeat=m):
            # histories which end by a read (the others are their prefixes)
            if not hist[-1].startswith("read m"):
                continue
            one(ck, fis, hist, buffers, init, (0,) * m)


def one(ck, fis, hist, buffers, init, keys):
    h = History(ck, 0, buffers, init)
    body = ["self.__init__(dico, initialize=%s)" % init, "value = given"]
    for k, (o, q) in enumerate(zip(hist, keys)):
        src = OPS[o]
        body.append("mark(%d)" % k)
        body.append(src % ("0", "given", "1, given")[q] if "%s" in src else src)
        if o.startswith("read"):
            body.append("mark(%d, r)" % k)
    h.it.ext_hook = None
    h.it.opaque_calls["mark"] = lambda i, s, recv, args, kwargs: i.note("mark", [i.freeze(a, s) for a in args]) or NONE
    r = h.run(body)
    lab = " ; ".join(hist) + (" (not initialised)" if not init else "") + (" (one buffer)" if buffers == 1 else "") + (
        " key %d" % keys[0] if len(hist) == 1 else "")
    # contents: which distributions are current, of which the moments are, assignments since
    version, fresh, kept = 0, None, []
    F = A
    cur, got, done = None, {}, {}
    bad, where = None, None
    for e in h.it.log:
        if e[0] == "mark":
            cur = cval(e[1][0])
            if len(e[1]) == 2:
                got[cur] = e[1][1]
            continue
        op = hist[cur] if cur is not None else "start"
        if e[0] == "kernel":
            n = cval(e[1]) if e[1] is not None and is_const(e[1]) else None
            if n == "one_time_step":
                version += 1
                F = B if F is A and buffers == 2 else A
            elif n == "f2m":
                if fresh == version and kept and op != "f2m":
                    bad, where = "%s recomputes the moments, the assignments %s are lost" % (op, [show(x) for x in kept]), op
                fresh, kept = version, []
            elif n == "m2f":
                if op != "m2f":
                    bad, where = "%s changes the distributions" % op, op
                version += 1
                fresh, kept = version, []
            else:
                bad, where = "%s runs the kernel %s" % (op, n), op
        elif e[0] in ("read", "inner"):
            done.setdefault(cur, {})[e[3]] = (e[0], e[1], e[2], fresh == version, F)
        elif e[0] == "write":
            done.setdefault(cur, {})[("w", len(done.get(cur, {})))] = (e[1], e[2], e[3], fresh == version, F)
            if e[1] is MOM:
                kept.append(e[2])
                if fresh != version:
                    # the other moments are not those of the distributions
                    bad, where = "%s writes in moments which are not current" % op, op
            else:
                version += 1
    for k, o in enumerate(hist):
        d = done.get(k, {})
        what = o.split()[-1]
        key = KEYS[keys[k]]
        if o.startswith("read"):
            x = d.get(got.get(k))
            kind = "inner" if what in ("m", "F") else "read"
            if x is None or x[0] != kind or x[2] is not key:
                bad, where = "%s gives %s" % (o, show(got[k])[:200] if k in got else "nothing"), o
            elif what in ("m", "m_halo") and (x[1] is not MOM or not x[3]):
                bad, where = "%s gives %s" % (o, "stale moments" if x[1] is MOM else show(got[k])[:200]), o
            elif what in ("F", "F_halo") and x[1] is not x[4]:
                bad, where = "%s gives the other buffer" % o, o
        elif o.startswith("set"):
            ws = [x for w, x in d.items() if w[0] == "w"]
            arr = MOM if what == "m_halo" else None
            if len(ws) != 1 or ws[0][0] is not (arr or ws[0][4]) or ws[0][1] is not key or ws[0][2] is not sym("given"):
                bad, where = "%s writes %s" % (o, [[show(y) for y in x[:3]] for x in ws]), o
    if (r.val is None or h.branches) and bad is None:
        bad, where = "not decided%s" % (": " + show(h.branches[0].cond)[:200] if h.branches else ""), hist[-1]
    ck.obl("write" if where and where.startswith("set") else "read", lab, bad is None, fis.get(where) or fis[hist[-1]], bad or "")


def conversion(ck):
    U, V, E = sym("user_m"), sym("user_f"), sym("given")
    for name, call, want in (("f2m", "self.f2m()", {}), ("m2f", "self.m2f()", {}), ("equilibrium", "self.equilibrium()", {}),
                             ("m2f", "self.m2f(user_m, user_f)", dict(m_user=U, f_user=V)),
                             ("m2f", "self.m2f(m_user=user_m, f_user=user_f)", dict(m_user=U, f_user=V)),
                             ("m2f", "self.m2f(f_user=user_f)", dict(f_user=V)),
                             ("equilibrium", "self.equilibrium(user_m)", dict(m_user=U)),
                             ("equilibrium", "self.equilibrium(m_user=user_m)", dict(m_user=U)),
                             ("f2m", "self.f2m(extra=given)", dict(extra=E)), ("m2f", "self.m2f(extra=given)", dict(extra=E)),
                             ("equilibrium", "self.equilibrium(extra=given)", dict(extra=E))):
        fi = ck.prog.func(SIM + "." + name)
        for buffers in (1, 2):
            h = History(ck, 0, buffers)
            r = h.run(["self.__init__(dico, initialize=True)", call])
            ks = [e for e in h.it.log if e[0] == "kernel"]
            ok = len(ks) == 1 and not h.branches and r.val is not None
            det = "kernels %s" % [show(e[1]) for e in ks]
            if ok:
                _, n, recv, rest, kw, now = ks[0]
                kw = dict(kw)
                sim = kw.pop("simulation", None) or (rest[0] if rest else None)
                given = dict(zip(("m_user", "f_user"), rest[1:]))
                given.update(kw)
                given = {k: v for k, v in given.items() if v is not NONE}
                ok = n is const(name) and recv is h.alg and sim is h.S and given == want
                det = "kernel %s on %s for %s with %s" % (show(n), show(recv), sim and show(sim), {k: show(v) for k, v in given.items()})
            ck.obl("conversion", "%s, %d buffers" % (call[5:], buffers), ok, fi, det)


def readers(ck):
    reach = 0
    todo = [("pylbm.boundary.BoundaryMethod", ("prepare_rhs", "update_feq", "set_rhs", "update", "_get_args")),
            ("pylbm.algorithm.base.BaseAlgorithm", ("_get_args", "call_function"))]
    for base, fs in todo:
        for ci in [ck.prog.cls(base)] + ck.prog.subclasses(base):
            for q in fs:
                if q in ci.methods:
                    reach += 1
                    reads(ck, ci.methods[q])
    if reach < 6:
        raise AnalysisBroken("C02: %d readers" % reach)


def reads(ck, f):
    it = ck.interp(attr_types={}, stop={"call_genfunction"})
    ps = [a.arg for a in f.node.args.args]
    if "simulation" not in ps and not any(p in ps for p in ("sim", "solution", "sol")):
        ck.obl("readers", f.local, True, f)
        return
    it.types[sym("simulation")] = ck.prog.cls(SIM)
    it.stop |= {"f2m", "m2f", "equilibrium"}
    r = it.run(f)
    ck.use(it)
    bad = [e for e in flat(r.trace) if e.kind in ("call", "enter") and e.name.rsplit(".", 1)[-1] == "f2m"]
    ck.obl("readers", f.local, not bad, bad[0] if bad else f,
           "reads the moments through the accessor inside a time step")
