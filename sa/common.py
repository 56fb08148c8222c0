"""shared typing facts about pylbm used by several rules"""
from .interp import Interp, State
from .terms import T, attr, const, sym, NONE, TRUE, FALSE, ext, item, call
from .rule import ref
from .effects import Canon

SIM_ATTRS = {
    "domain": "pylbm.domain.Domain",
    "scheme": "pylbm.scheme.Scheme",
    "algo": "pylbm.algorithm.base.BaseAlgorithm",
    "bc": "pylbm.boundary.Boundary",
    "container": "pylbm.container.BaseContainer",
    "generator": "pylbm.generator.generator.Generator",
    "methods[]": "pylbm.boundary.BoundaryMethod",
}


class Site:
    """one analysed function and its reference"""

    def __init__(self, ck, qual, src=None, fi=None, **kw):
        self.ck = ck
        self.fi = fi or ck.prog.func(qual)
        self.kw = kw
        self.src = src

    def run(self, st=None, args=(), kwargs=None, selfv=None, cls=None, **over):
        kw = dict(self.kw)
        kw.update(over)
        it = Interp(self.ck.prog, **kw)
        r = it.run(self.fi, args, kwargs, st, selfv, cls)
        self.ck.use(it)
        return r

    def ref(self, st=None, args=(), kwargs=None, selfv=None, cls=None, src=None, **over):
        kw = dict(self.kw)
        kw.update(over)
        it = Interp(self.ck.prog, **kw)
        r = it.run(ref(self.ck.prog, self.fi, src or self.src), args, kwargs, st, selfv, cls)
        return r


def compare_trees(ck, rule, construct, got, want, pick, where, norm=None, assume=None, ret=False):
    c1, c2 = Canon(pick, norm, assume, ret), Canon(pick, norm, assume, ret)
    a, b = c1.tree(got.trace), c2.tree(want.trace)
    return ck.trees(rule, construct, a, b, where, c1)


def default_pick(ev):
    """every externally meaningful effect: calls on objects, item and attribute stores"""
    if ev.kind in ("call", "enter"):
        n = ev.name.rsplit(".", 1)[-1]
        if ev.name.startswith("log") or n in ("debug", "info", "warning", "critical") or (
                n == "error" and ev.recv is not None):
            return None
        return ("call", n, ev.recv) + tuple(ev.args) + tuple(sorted(ev.kwargs.items()))
    if ev.kind in ("setitem", "mutate"):
        return (ev.kind, ev.recv, ev.name) + tuple(ev.args)
    if ev.kind == "store":
        return ("store", ev.recv, ev.name) + tuple(ev.args)
    return None


def calls(*names):
    """pick: only the calls with these names (last component)"""
    ns = set(names)

    def pick(ev):
        if ev.kind in ("call", "enter") and ev.name.rsplit(".", 1)[-1] in ns:
            return ("call", ev.name.rsplit(".", 1)[-1], ev.recv) + tuple(ev.args) + tuple(sorted(ev.kwargs.items()))
        return None
    return pick


def on(recv, names=None, stores=True):
    """pick: effects on one receiver"""
    def pick(ev):
        if ev.recv is not recv:
            return None
        if ev.kind in ("call", "enter"):
            n = ev.name.rsplit(".", 1)[-1]
            return ("call", n) + tuple(ev.args) + tuple(sorted(ev.kwargs.items())) if names is None or n in names else None
        if ev.kind in ("setitem", "mutate", "store") and stores:
            return (ev.kind, ev.name) + tuple(ev.args)
        return None
    return pick


def spec(ck, rule, qual, src, attrs=(), ret=False, pick=None, fi=None, N=None, args=(), kwargs=None,
         st=None, cls=None, label=None, assume=None, selfv=None, retsel=None, **kw):
    """the function computes what the reference ``src`` computes: returned value
    (ret), final attribute values (attrs) and / or selected effects (pick)"""
    s = Site(ck, qual, src, fi=fi, **kw)
    mk = lambda: st() if callable(st) else st
    r = s.run(mk(), args, kwargs, selfv, cls)
    w = s.ref(mk(), args, kwargs, selfv, cls)
    lab = label or s.fi.local
    for a in attrs:
        base, nm = (None, a) if isinstance(a, str) else a
        g = r.attr(nm) if base is None else r.attr(nm, base)
        h = w.attr(nm) if base is None else w.attr(nm, base)
        ck.same(rule, "%s -> %s" % (lab, nm), g, h, s.fi, N=N)
    if ret:
        f = retsel or (lambda x: x)
        ck.same(rule, "%s value" % lab, f(r.value), f(w.value), s.fi, N=N)
    if pick:
        compare_trees(ck, rule, lab, r, w, pick, s.fi, N, assume)
    return r, w
