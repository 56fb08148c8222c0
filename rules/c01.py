"""Time-step phase order and clock."""
from rules.simm import *


def check(ck):
    ck.rule("phases", "one_time_step initialises if needed, exchanges the halo of the current distributions, then for every "
            "boundary method refreshes equilibrium values, right-hand side, and applies it to these distributions; then runs the "
            "one_time_step kernel; nothing else is done to the arrays, nothing twice")
    ck.rule("clock", "everything in a step happens at the time and with the counter of its beginning; after n steps the time is n dt "
            "and the counter n")
    ck.rule("swap", "after the step the current distributions are the buffer the kernel wrote, the other buffer is the old one, the "
            "moments are the same array")
    ck.rule("start", "a simulation starts at t = 0, nt = 0 with dt = dx / la, the velocity being the number or the formula given, "
            "with the values of the parameters")
    step = ck.prog.func(SIM + ".one_time_step")
    for buffers in (1, 2):
        for nbc in range(4):
            for init in (True, False):
                for n in (1, 2, 3):
                    steps(ck, step, buffers, nbc, init, n)
    boundary(ck)
    start(ck)
    ck.need(200)


def steps(ck, fi, buffers, nbc, init, n):
    lab = "%d buffer%s, %d boundary methods, %sinitialised, %d steps" % (buffers, "s" * (buffers - 1), nbc, "" if init else "not ", n)
    h = History(ck, nbc, buffers, init)
    log = h.it.log
    h.it.opaque_calls["mark"] = lambda i, s, recv, args, kwargs: i.note("mark") or NONE
    r = h.run(["self.__init__(dico, initialize=%s)" % init, "mark()"] + ["self.one_time_step(extra=given)"] * n)
    if r.val is None or h.branches:
        ck.obl("phases", lab, False, h.branches[0] if h.branches and hasattr(h.branches[0], "where") else fi,
               "not decided: %s" % (show(h.branches[0].cond)[:200] if h.branches else "the step fails"))
        return
    # events of the steps: those after the first phases of the last initialisation
    bufs = [A, B if buffers == 2 else A]
    inits = [k for k, e in enumerate(log) if e[0] == "initialization"]
    if not ck.obl("phases", lab + ": initialisation", len(inits) == 1, fi, "initialised %d times" % len(inits)):
        return
    mark = [k for k, e in enumerate(log) if e[0] == "mark"]
    ck.obl("phases", lab + ": moment of the initialisation", len(mark) == 1 and (inits[0] < mark[0]) == init, fi,
           "done %s, asked %s" % (("by the constructor", "by the first step")[inits[0] > mark[0]], ("by the first step", "by the constructor")[init]))
    ev = [e for e in log if e[0] != "mark"]
    inits = [k for k, e in enumerate(ev) if e[0] == "initialization"]
    # preparation of the boundary methods belongs to the initialisation (C08)
    k0 = inits[0]
    kern = [k for k, e in enumerate(ev) if e[0] == "kernel"]
    exch = [k for k, e in enumerate(ev) if e[0] == "exchange"]
    names = [cval(ev[k][1]) if ev[k][1] is not None and is_const(ev[k][1]) else "?" for k in kern]
    if not ck.obl("phases", lab + ": kernels", names == ["one_time_step"] * n, fi, "kernels run: %s" % names):
        return
    prep = {"prepare_rhs", "fix_iload", "move2gpu", "set_rhs"}
    start_ = k0
    for s in range(n):
        end = kern[s]
        part = ev[start_:end + 1]
        cur, new = bufs[s % 2], bufs[(s + 1) % 2]
        name = "%s: step %d" % (lab, s + 1)
        bad = []
        if s == 0:
            # drop the initialisation and the preparation which follows it
            j = 0
            while j < len(part) and (part[j][0] in prep | {"initialization"}) and not (
                    part[j][0] == "set_rhs" and any(e[0] == "update_feq" for e in part[:j])):
                j += 1
            head, part = part[:j], part[j:]
            for b in h.meth:
                got = sorted(e[0] for e in head if e[0] != "initialization" and e[1] is b)
                if got.count("prepare_rhs") != 1 or got.count("set_rhs") < 1 or got.count("fix_iload") != 1:
                    bad.append("%s prepared by %s" % (show(b), got))
            if head and head[0][0] != "initialization":
                bad.append("boundary methods are prepared before the initialisation")
        at = {}
        for j, e in enumerate(part):
            key = (e[0], e[1]) if e[0] not in ("kernel",) else ("kernel", None)
            at.setdefault(key, []).append(j)
        want = [("exchange", cur), ("kernel", None)] + [(x, b) for b in h.meth for x in ("update_feq", "set_rhs", "update")]
        for w in want:
            if len(at.get(w, ())) != 1:
                bad.append("%s%s done %d times" % (w[0], " of " + show(w[1]) if w[1] is not None else "", len(at.get(w, ()))))
        for g in at:
            if g not in want:
                bad.append("%s of %s" % (g[0], show(g[1]) if isinstance(g[1], T) else g[1]))
        if not bad:
            pos = {w: at[w][0] for w in want}
            before = []
            for i, b in enumerate(h.meth):
                before += [(("update_feq", b), ("set_rhs", b)), (("set_rhs", b), ("update", b)),
                           (("exchange", cur), ("update", b)), (("update", b), ("kernel", None))]
                if i:
                    before.append((("update", h.meth[i - 1]), ("update", b)))
            before.append((("exchange", cur), ("kernel", None)))
            for x, y in before:
                if pos[x] > pos[y]:
                    bad.append("%s%s after %s" % (x[0], " of " + show(x[1]) if x[1] is not None else "", y[0]))
        for e in part:
            if e[0] == "kernel":
                _, _, recv, args, kw, now = e
                if recv is not h.alg or not args or args[0] is not h.S or kw.get("extra") is not sym("given") or len(kw) != 1 \
                        or any(a is not NONE for a in args[1:]):
                    bad.append("kernel run on %s with %s %s" % (show(recv), [show(a) for a in args], sorted(kw)))
            elif e[0] == "update":
                if e[2][:1] != [cur] and e[3].get("f") is not cur or e[3].get("extra") is not sym("given"):
                    bad.append("%s applied to %s with %s" % (show(e[1]), [show(a) for a in e[2]], sorted(e[3])))
            elif e[0] == "update_feq" and e[2][:1] != [h.S] and h.S not in e[3].values():
                bad.append("equilibrium values of %s refreshed with %s" % (show(e[1]), [show(a) for a in e[2]]))
            now = e[-1] if isinstance(e[-1], dict) else None
            if now is not None:
                if num(now["t"]) != s * DT or num(now["nt"]) != s:
                    ck.obl("clock", "%s: %s" % (name, e[0]), False, fi, "at time %s, counter %s, required %s, %s" % (
                        show_(now["t"]), show_(now["nt"]), s * DT, s))
                if now["F"] is not cur or now["Fnew"] is not new or now["m"] is not MOM:
                    bad.append("%s sees F = %s, Fnew = %s" % (e[0], show_(now["F"]), show_(now["Fnew"])))
        ck.obl("phases", name, not bad, fi, "; ".join(bad[:6]))
        start_ = end + 1
    rest = [e for e in ev[start_:]]
    ck.obl("phases", lab + ": end", not rest, fi, "after the last kernel: %s" % [e[0] for e in rest])
    now = h.now(r.st)
    ck.obl("clock", lab, num(now["t"]) == n * DT and num(now["nt"]) == n, fi, "time %s, counter %s after %d steps" % (
        show_(now["t"]), show_(now["nt"]), n))
    ck.obl("swap", lab, now["F"] is bufs[n % 2] and now["Fnew"] is bufs[(n + 1) % 2] and now["m"] is MOM, fi,
           "F is %s, Fnew is %s, m is %s" % (show_(now["F"]), show_(now["Fnew"]), show_(now["m"])))


def num(v):
    return cval(v) if isinstance(v, T) and is_const(v) and not isinstance(cval(v), str) else None


def show_(v):
    return show(v) if isinstance(v, T) else str(v)


def boundary(ck):
    """the boundary conditions asked for alone"""
    fi = ck.prog.func(SIM + ".boundary_condition")
    for nbc in range(4):
        h = History(ck, nbc)
        r = h.run(["self.__init__(dico, initialize=True)", "self.boundary_condition(extra=given)"])
        log = h.it.log
        k = max([i for i, e in enumerate(log) if e[0] in ("prepare_rhs", "fix_iload", "move2gpu", "initialization")] or [0])
        part = [e for e in log[k + 1:]]
        if part and part[0][0] == "set_rhs" and nbc and ("update_feq", h.meth[-1]) not in [e[:2] for e in part[:1]] and \
                [e[0] for e in part].count("set_rhs") > nbc:
            part = part[1:]
        got = [e[:2] for e in part]
        bad = [e for e in [("exchange", A)] + [(x, b) for b in h.meth for x in ("update_feq", "set_rhs", "update")] if got.count(e) != 1]
        ok = not bad and len(got) == 1 + 3 * nbc and r.val is not None and not h.branches and all(
            got.index(("update_feq", b)) < got.index(("set_rhs", b)) < got.index(("update", b)) > got.index(("exchange", A))
            for b in h.meth)
        ck.obl("phases", "boundary_condition, %d methods" % nbc, ok, fi, "sequence %s" % [(a, show(b)) for a, b in got])


def start(ck):
    init = ck.prog.func(SIM + ".__init__")
    prop = ck.prog.func(SIM + ".dt")
    LAs, LBs = symbol("LA"), symbol("LB")
    for lab, la, par, extra, want in (
            ("number", const(2.0), [], [], 0.125),
            ("formula", LAs, [(LAs, const(2.0))], [], 0.125),
            ("product of two parameters", T("bin", "*", LAs, LBs), [(LAs, const(2.0)), (LBs, const(4.0))], [], 0.03125),
            ("parameter given later", T("bin", "*", LAs, LBs), [(LAs, const(2.0))], [(LBs, const(4.0))], 0.03125),
            ("parameter defined by another", T("bin", "/", LAs, LBs), [(LAs, const(2.0))], [(LBs, const(0.5))], 0.0625)):
        for again in (False, True):
            h = History(ck, 1)
            h.la, h.param, h.extra = la, par, extra
            r = h.run(["self.__init__(dico, initialize=True)", "a, b = self.t, self.nt", "self.extra_parameters = extra"]
                      + ["self.one_time_step()"] * again + ["return a, b, self.dt, self.t"])
            v = r.value
            ok = v is not None and v.op == "tuple" and len(v.args) == 4 and not h.branches
            got = [num(x) for x in v.args] if ok else None
            ck.obl("start", "%s%s" % (lab, ", after a step" if again else ""), ok and got == [0, 0, want, want * again],
                   prop if ok and got[:2] == [0, 0] else init, "time, counter, step, time of the end: %s, required %s" % (
                       got or show_(v)[:300], [0, 0, want, want * again]))
