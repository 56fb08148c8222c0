"""Monitoring: transparent, balanced, additive."""
import itertools
from functools import reduce

from sa import alg
from sa.common import *
from sa.terms import *
from sa.interp import Interp, State, DictC, ListC, Ref, Tup, flat, Func, TryN
from sa.nd import NdInterp
from sa.program import AnalysisBroken
from sa.rule import ref

M = "pylbm.monitoring."


def check(ck):
    ck.rule("transparent", "a monitored function is called once with the arguments given, its value is returned unchanged, "
            "and no exception is caught without being raised again")
    ck.rule("balanced", "the timing of a function is started before the call and stopped after it, once, whether it returns or raises")
    ck.rule("additive", "over every nesting of calls: the total time of a call is the difference of the clocks around it, its own "
            "time is the total less the totals of the monitored calls made directly by it")
    ck.rule("count", "a function has one entry, with one total and one own time per completed call")
    transparent(ck)
    additive(ck)
    ck.need(30)


def transparent(ck):
    p = ck.prog
    fi = p.func(M + "monitor")
    F = sym("user_function")
    src = """
        def drive(f, a, b, k):
            w = monitor(f)
            return w(a, b, key=k)
    """
    for raises in (False, True):
        log = []
        it = NdInterp(p)
        st = State()

        def start(i, s, recv, args):
            log.append(("start", args[0] if args else None))
            return NONE

        def stop(i, s, recv, args):
            log.append(("stop", args[0] if args else None))
            return NONE
        it.stop = it.stop | {"start_timing", "stop_timing", "register"}
        it.opaque_calls.update({"start_timing": start, "stop_timing": stop})
        r = it.run(ref(p, fi.module, src), [F, sym("a"), sym("b"), sym("k")], {}, st)
        ck.use(it)
        if raises:
            continue
        evs = flow(r.trace)
        body = [x for x in evs]
        calls_ = [x for x in body if x[0] == "f"]
        ck.obl("transparent", "called once", len(calls_) == 1, fi, "the function is called %d times" % len(calls_))
        if len(calls_) != 1:
            return
        ev = calls_[0][1]
        want = call(F, sym("a"), sym("b"), T("kw", "key", sym("k")))
        ck.obl("transparent", "arguments", ev.res is want, fi, "called as %s" % show(ev.res)[:200])
        ck.obl("transparent", "value", r.value is want, fi, "returns %s" % show(r.value)[:200])
        names = [x[0] for x in body]
        where = names.index("f")
        before, after = names[:where], names[where + 1:]
        ck.obl("balanced", "normal exit", before.count("start") == 1 and after.count("stop") == 1 and
               before.count("stop") == 0 and after.count("start") == 0, fi, "sequence %s" % names)
        # exceptional exit: the call is protected by a try whose exit stops the timing
        ex = exceptional(r.trace)
        ck.obl("balanced", "exceptional exit", ex == ["stop"], fi,
               "when the function raises, the events that follow are %s" % ex)
        ck.obl("transparent", "exceptions", not swallowed(r.trace), fi, "an exception of the function is caught and not raised again")
        for k, v in (("start", before), ("stop", after)):
            a = [x[1] for x in body if x[0] == k]
            ck.obl("balanced", k + " of the function", all(x.args and x.args[0] is F or F in x.kwargs.values() for x in a), fi,
                   "%s on %s" % (k, [show(y) for x in a for y in x.args]))


def kind(ev):
    if ev.kind in ("call", "enter"):
        n = ev.name.rsplit(".", 1)[-1]
        if n == "start_timing":
            return "start"
        if n == "stop_timing":
            return "stop"
        if ev.res is not None and ev.res.op == "call" and ev.res.args[0] is sym("user_function"):
            return "f"
    return None


def parts(n):
    """normal sequence of the children of a trace node"""
    if isinstance(n, TryN):
        return list(n.body) + list(n.orelse) + list(n.final)
    return None


def flow(trace):
    out = []
    for n in trace:
        if isinstance(n, TryN):
            out += flow(parts(n))
        elif hasattr(n, "body"):
            out += flow(n.body)
        elif hasattr(n, "a") and isinstance(getattr(n, "a"), list):
            out += flow(n.a) + flow(n.b)
        elif hasattr(n, "kind"):
            k = kind(n)
            if k:
                out.append((k, n))
    return out


def path_to(trace):
    """enclosing try nodes of the call of the function, outermost first"""
    for n in trace:
        if isinstance(n, TryN):
            if any(k == "f" for k, _ in flow(n.body)):
                return [n] + (path_to(n.body) or [])
        elif hasattr(n, "body"):
            if any(k == "f" for k, _ in flow(n.body)):
                return path_to(n.body)
        elif hasattr(n, "a") and isinstance(getattr(n, "a"), list):
            for b in (n.a, n.b):
                if any(k == "f" for k, _ in flow(b)):
                    return path_to(b)
    return []


def exceptional(trace):
    out = []
    for t in reversed(path_to(trace)):
        for ty, h in zip(t.types, t.handlers):
            if ty in ("*", "BaseException"):
                out += [k for k, _ in flow(h)]
                break
        out += [k for k, _ in flow(t.final)]
    return out


def swallowed(trace):
    """a handler around the call that ends without raise"""
    bad = False
    for t in path_to(trace):
        for h in t.handlers:
            if not any(getattr(n, "kind", "") == "raise" for n in flat_all(h)):
                bad = True
    return bad


def flat_all(tr):
    for n in tr:
        yield n
        for k in ("body", "orelse", "final"):
            if isinstance(getattr(n, k, None), list):
                yield from flat_all(getattr(n, k))
        for k in ("a", "b"):
            if isinstance(getattr(n, k, None), list):
                yield from flat_all(getattr(n, k))
        for h in getattr(n, "handlers", ()) or ():
            yield from flat_all(h)


# nestings: (function, children)
HISTORIES = [
    [("f", [])],
    [("f", []), ("f", []), ("g", [])],
    [("f", [("g", []), ("h", []), ("g", [])])],
    [("f", [("g", [("h", []), ("k", [])]), ("h", [])]), ("g", [("h", [])])],
    [("f", [("g", [("h", [("k", [])])])]), ("f", [("k", [])])],
    [("f", [("f", [("f", [])])])],
    [("f", [("g", []), ("f", [("g", []), ("h", [])]), ("f", [])]), ("g", [("f", [("g", [])])])],
]


def additive(ck):
    p = ck.prog
    mon = p.cls(M + "Monitoring")
    hs = list(HISTORIES)
    if ck.tier == "thorough":
        for shape in itertools.product((0, 1, 2), repeat=3):
            hs.append([("f", [("g", [("h", [])] * shape[0]) for _ in range(shape[1])] + [("k", [])] * shape[2])])
    for n, hist in enumerate(hs):
        lines = []
        clock = [0]
        want = {}

        def emit(node):
            f, kids = node
            lines.append("m.register(%s)" % f)
            lines.append("m.start_timing(%s)" % f)
            beg = clock[0]
            clock[0] += 1
            tot = [emit(k) for k in kids]
            lines.append("m.stop_timing(%s)" % f)
            end = clock[0]
            clock[0] += 1
            w = want.setdefault(f, [])
            w.append(((beg, end), tot))
            return (beg, end)
        order = {}
        for node in hist:
            emit(node)
        # calls of a function are completed in the order they are started unless it calls itself
        it = NdInterp(p, inline_classes={mon.qual, M + "Node", M + "PerfMonitor"})
        st = State()
        tick = [0]

        def hook(i, name, args, kwargs, s, node):
            if name.rsplit(".", 1)[-1] in ("Wtime", "perf_counter", "time"):
                tick[0] += 1
                return sym("clock%d" % (tick[0] - 1))
            if name == "inspect.getmodule":
                return sym("module of " + args[0].args[0])
            return None
        it.ext_hook = hook
        fs = ["f", "g", "h", "k"]
        for f in fs:
            st.over[(sym(f), "__qualname__")] = const(f)
            st.over[(sym("module of " + f), "__name__")] = const("mod")
        it.decide = decide
        it.no_exc = True
        src = "def drive(f, g, h, k):\n    m = Monitoring()\n    " + "\n    ".join(lines) + "\n    return m\n"
        r = it.run(ref(p, mon.module, src), [sym(f) for f in fs], {}, st)
        ck.use(it)
        lab = "history %d" % n
        stop = p.func(M + "Monitoring.stop_timing")
        if not isinstance(r.val, Ref):
            ck.obl("count", lab, False, stop, "the history does not complete")
            continue
        d = it.cell(it.load_attr(r.val, "func", st, None), st)
        got = {}
        for k, v in getattr(d, "items", ()):
            ks = it.freeze(k, st)
            if ks.op in ("tuple", "list") and is_const(ks.args[-1]):
                got.setdefault(cval(ks.args[-1]), []).append(v)
        ck.obl("count", lab + " entries", set(got) == set(want) and all(len(v) == 1 for v in got.values()), stop,
               "functions with an entry: %s, required %s" % (sorted(got), sorted(want)))
        for f, ws in sorted(want.items()):
            if f not in got:
                continue
            pm = got[f][0]
            tot = it.concrete_seq(it.load_attr(pm, "total_time", st, None), st)
            own = it.concrete_seq(it.load_attr(pm, "self_time", st, None), st)
            ok = tot is not None and own is not None and len(tot) == len(own) == len(ws)
            ck.obl("count", "%s %s" % (lab, f), ok, stop, "%s totals and %s own times for %d calls" % (
                tot and len(tot), own and len(own), len(ws)))
            if not ok:
                continue
            dif = lambda be: T("bin", "-", sym("clock%d" % be[1]), sym("clock%d" % be[0]))
            add = lambda ts: reduce(lambda a, b: T("bin", "+", a, b), ts)
            bad = []
            w = add([dif(be) for be, _ in ws])
            t = add([it.freeze(x, st) for x in tot])
            if not alg.eq(t, w):
                bad.append("total time %s, required %s" % (show(t)[:200], show(w)))
            for _, kids in ws:
                for kb in kids:
                    w = T("bin", "-", w, dif(kb))
            o = add([it.freeze(x, st) for x in own])
            if not alg.eq(o, w):
                bad.append("own time %s, required %s" % (show(o)[:200], show(w)))
            ck.obl("additive", "%s %s" % (lab, f), not bad, stop, "; ".join(bad[:2]))


def decide(t):
    while t.op == "not":
        x = decide(t.args[0])
        return None if x is None else not x
    if t.op == "instref":
        return True
    return None
