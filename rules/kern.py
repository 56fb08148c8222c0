"""Kernels of the algorithms: the symbolic code they return for small schemes with
symbolic matrices is executed at one point, statement after statement, on symbolic
values (C03, C24)."""
import sympy

from sa.common import *
from sa.terms import *
from sa.alg import alg, zero
from sa.interp import DictC, ListC, Tup, State
from sa.nd import obj
from sa.symx import SymInterp, symbol, fun
from sa.rule import ref
from rules.schm import B, X, Y, Z, U

ALG = "pylbm.algorithm.base.BaseAlgorithm"
PAR = symbol("par")
PARV = 7
LOC = ("xx", "yy", "zz")
COORD = ("X", "Y", "Z")
SIZES = ("nx", "ny", "nz")


class KernError(Exception):
    pass


class Kern:
    """a small scheme; nc conserved moments, in front"""

    def __init__(self, name, dim, vel, nc, rel=False, src=(), zero_s=False, ptr=None, s_of_m=False):
        self.name, self.dim, self.vel, self.nc, self.rel, self.src = name, dim, vel, nc, rel, list(src)
        n = self.n = len(vel)
        self.ptr = ptr or [0, n]
        self.c = [symbol("c%d" % i) for i in range(nc)]
        self.M = [[symbol("M%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        self.M[0][0] = B("*", PAR, symbol("M00"))
        self.I = [[symbol("I%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        self.I[n - 1][0] = B("+", PAR, symbol("I0"))
        self.eq = [self.c[i] if i < nc else fun("eq%d" % i, *(self.c + [PAR])) for i in range(n)]
        self.s = [const(0) if zero_s and i < nc else fun("s%d" % i, self.c[0]) if s_of_m else symbol("s%d" % i) for i in range(n)]
        if not s_of_m:
            self.s[n - 1] = B("*", PAR, symbol("s%d" % (n - 1)))
        u = list(U[:dim])
        self.Tu = [[fun("T%d%d" % (i, j), *(u + [PAR])) for j in range(n)] for i in range(n)]
        self.Tmu = [[fun("Tm%d%d" % (i, j), *(u + [PAR])) for j in range(n)] for i in range(n)]
        self.u = [fun("u%d" % d, *(self.c + [PAR])) for d in range(dim)]
        self.vmax = [max(abs(v[d]) for v in vel) for d in range(dim)]

    # ---- the scheme given to the algorithm ---------------------------
    def scheme(self, it, st):
        t = sym("scheme")
        sten = sym("stencil")
        ov = st.over
        n = self.n
        mat = lambda rows, kind="mat": it.nd_new(obj([x for r in rows for x in r], (len(rows), len(rows[0]))), st, kind)
        ov[(t, "dim")] = const(self.dim)
        ov[(t, "symb_coord")] = it.newlist(st, [X, Y, Z])
        ov[(t, "symb_t")] = symbol("t")
        ov[(t, "stencil")] = sten
        ov[(sten, "nv_ptr")] = it.nd_new(obj([const(x) for x in self.ptr]), st, "int64")
        ov[(sten, "vmax")] = it.nd_new(obj([const(x) for x in self.vmax]), st, "int64")
        ov[(sten, "nstencils")] = const(len(self.ptr) - 1)
        ov[(sten, "dim")] = const(self.dim)
        it.opaque_calls["get_all_velocities"] = lambda i, s, recv, a, k: i.nd_new(
            obj([const(c) for v in self.vel for c in v], (n, self.dim)), s, "int64")
        ov[(t, "M")], ov[(t, "invM")] = mat(self.M), mat(self.I)
        ov[(t, "Tu")], ov[(t, "Tmu")] = mat(self.Tu), mat(self.Tmu)
        ov[(t, "param")] = it.alloc(st, DictC([(PAR, const(PARV))]))
        ov[(t, "rel_vel")] = it.newlist(st, self.u) if self.rel else NONE
        ov[(t, "consm")] = it.alloc(st, DictC([(c, const(i)) for i, c in enumerate(self.c)]))
        ov[(t, "EQ")] = mat([[e] for e in self.eq], "vec")
        ov[(t, "s")] = mat([[e] for e in self.s], "vec")
        srcs = [NONE] * (len(self.ptr) - 1)
        for k, prs in self.src:
            srcs[k] = it.alloc(st, DictC(list(prs)))
        ov[(t, "_source_terms")] = it.newlist(st, srcs)
        return t

    def interp(self, ck):
        it = SymInterp(ck.prog)
        it.no_exc = True
        it.ext_hook = parse_hook
        return it

    def code(self, ck, cls, kernel, sorder, settings=None):
        """frozen dictionary returned by the kernel, interpreter"""
        ci = ck.prog.cls(cls)
        anchor = ck.prog.method(ci, kernel)
        it = self.interp(ck)
        st = State()
        sch = self.scheme(it, st)
        se = it.alloc(st, DictC([(const(k), const(v)) for k, v in (settings or {}).items()]))
        so = it.newlist(st, [const(i) for i in sorder])
        # the class in its own module
        drv = ref(ck.prog, ci.module, "def drive(scheme, sorder, generator, settings):\n"
                  "    a = %s(scheme, sorder, generator, settings)\n    return a.%s()\n" % (ci.name, kernel))
        it.inline_classes = set(it.inline_classes) | {ci.qual}
        r = it.run(drv, [sch, so, sym("generator"), se], {}, st)
        ck.use(it)
        return r, anchor

    # ---- the reference ------------------------------------------------
    def oracle(self):
        return Oracle(self)


class Oracle:
    def __init__(self, k):
        self.k = k

    def ev(self, t, env):
        def leaf(x):
            if x.op == "symbol":
                if x is PAR:
                    return sympy.Integer(PARV)
                return env.get(x, sympy.Symbol("S_" + x.args[0]))
            if x.op == "fun":
                return sympy.Function(x.args[0])(*[sympy.expand(self.ev(a, env)) for a in x.args[1:]])
        return alg(t, leaf)

    def mat(self, rows, env={}):
        return sympy.Matrix(len(rows), len(rows[0]), [self.ev(x, env) for r in rows for x in r])

    def vecs(self, ts, m):
        env = {c: m[i] for i, c in enumerate(self.k.c)}
        return sympy.Matrix([self.ev(t, env) for t in ts])

    def equilibrium(self, m):
        return self.vecs(self.k.eq, m)

    def moments(self, f):
        return self.mat(self.k.M) * f

    def dist(self, m):
        return self.mat(self.k.I) * m

    def relax(self, m):
        e = self.equilibrium(m)
        s = self.vecs(self.k.s, m)
        return sympy.Matrix([m[i] + s[i] * (e[i] - m[i]) for i in range(self.k.n)])

    def source(self, m, place):
        """half a time step of explicit Euler, all sources at the same moments"""
        env = {c: m[i] for i, c in enumerate(self.k.c)}
        env.update(place)
        out = list(m)
        for _, prs in self.k.src:
            for lhs, rhs in prs:
                i = self.k.c.index(lhs)
                out[i] = out[i] + sympy.Symbol("S_dt") / 2 * self.ev(rhs, env)
        return sympy.Matrix(out)

    def step(self, f, place={}, sources=True):
        k = self.k
        m = self.moments(f)
        src = bool(k.src) and sources
        if src:
            m = self.source(m, place)
        if not k.rel:
            m = self.relax(m)
            if src:
                m = self.source(m, place)
            return self.dist(m)
        env = {U[d]: x for d, x in enumerate(self.vecs(k.u, m))}
        Tu, Tmu = self.mat(k.Tu, env), self.mat(k.Tmu, env)
        e = self.equilibrium(m)
        s = self.vecs(k.s, m)
        mt, et = Tu * m, Tu * e
        # conserved moments are not relaxed, whatever their rate
        mt = sympy.Matrix([mt[i] + (s[i] * (et[i] - mt[i]) if i >= k.nc else 0) for i in range(k.n)])
        return self.dist(Tmu * mt)


# ---- execution of the code at one point --------------------------------
def is_call(t, name):
    return isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "classref" and \
        t.args[0].args[0].rsplit(".", 1)[-1] == name


def cargs(t, names):
    pos = [x for x in t.args[1:] if x.op != "kw"]
    kw = {x.args[0]: x.args[1] for x in t.args[1:] if x.op == "kw"}
    return [pos[i] if i < len(pos) else kw[n] for i, n in enumerate(names)]


class Machine:
    def __init__(self, k, sorder, inner, functions=True):
        self.k, self.sorder, self.inner = k, sorder, inner
        self.env = {}
        self.axes = None
        self.guards = []
        self.guarded = None
        self.written = set()
        self.reads = set()
        self.loops = 0
        self.displaced = set()
        self.since = {}

    # symbols of the initial content
    def init(self, loc):
        if loc[0] == "at":
            _, name, comp, off = loc
            return sympy.Symbol("%s_%s_%s" % (name, comp, "_".join(str(o).replace("-", "m") for o in off)))
        if loc[0] == "ent":
            return sympy.Symbol("uninitialised_%s_%d" % loc[1:])
        return sympy.Symbol("S_" + loc[1])

    def axis(self, idx):
        """axis of a loop variable: the one whose points it runs over"""
        lo, hi = (alg(x, self.sleaf) for x in idx.args[1:])
        for d in range(self.k.dim):
            n = sympy.Symbol("S_" + SIZES[d])
            v = self.k.vmax[d] if self.inner else 0
            if zero(lo - v) and zero(hi - (n - v)):
                return d
        raise KernError("a loop runs from %s to %s, which is the extent of no axis" % (lo, hi))

    def sleaf(self, x):
        if x.op == "symbol":
            return sympy.Symbol("S_" + x.args[0])
        if x.op == "idx":
            return sympy.Symbol("I_%d" % id(x))
        return None

    def location(self, t):
        base, idx = t.args[0], list(t.args[1:])
        name = base.args[0]
        if name in COORD[:self.k.dim]:
            d = COORD.index(name)
            for x in idx:
                e = alg(x, self.sleaf)
                var = [i for i, a in (self.axes or {}).items() if a == d]
                if var and zero(e - sympy.Symbol("I_%d" % id(var[0]))):
                    return ("at", name, None, (0,) * self.k.dim)
            raise KernError("%s is indexed with %s" % (name, ", ".join(show(x) for x in idx)))
        if name == "in_or_out":
            order = list(range(self.k.dim))
            comp = None
        else:
            if len(idx) != self.k.dim + 1:
                raise KernError("%s has %d indices" % (name, len(idx)))
            order = [self.sorder[1 + d] for d in range(self.k.dim)]
            c = idx[self.sorder[0]]
            comp = alg(c, self.sleaf)
            if not comp.is_Integer or not 0 <= comp < self.k.n:
                raise KernError("component %s of %s" % (comp, name))
            comp = int(comp)
        off = []
        for d in range(self.k.dim):
            e = alg(idx[order[d]], self.sleaf)
            var = [i for i, a in (self.axes or {}).items() if a == d]
            if not var:
                raise KernError("no loop over axis %d" % d)
            o = sympy.expand(e - sympy.Symbol("I_%d" % id(var[0])))
            if not o.is_Integer:
                raise KernError("%s is indexed with %s along axis %d" % (name, show(idx[order[d]]), d))
            off.append(int(o))
        return ("at", name, comp, tuple(off))

    def loc(self, t):
        if t.op == "at":
            return self.location(t)
        if t.op == "ent":
            return ("ent", t.args[0], cval(t.args[1]))
        if t.op == "symbol":
            return ("symbol", t.args[0])
        raise KernError("assignment to %s" % show(t)[:80])

    def ev(self, t):
        def leaf(x):
            if x.op in ("at", "ent", "symbol"):
                if x is PAR:
                    return sympy.Symbol("unsubstituted_parameter")
                l = self.loc(x)
                self.reads.add(l)
                if l[0] == "at" and any(l[3]):
                    self.displaced.add(l[1])
                    if l in self.env or any(w[:2] == l[:2] for w in self.written):
                        raise KernError("%s is read at the displaced point %s after it was written" % (l[1], l[3]))
                if l[0] != "at" and self.since.get(l, self.loops) != self.loops:
                    raise KernError("the temporary %s is read in another loop than the one which computes it" % (l[1],))
                return self.env.get(l, self.init(l))
            if x.op == "fun":
                return sympy.Function(x.args[0])(*[sympy.expand(self.ev(a)) for a in x.args[1:]])
            if x.op == "idx":
                raise KernError("a loop variable is used as a value")
            return None
        r = alg(t, leaf)
        if r.has(sympy.Symbol("none")):
            raise KernError("not understood: %s" % show(t)[:80])
        return r

    def assign(self, l, r):
        loc = self.loc(l)
        if loc[0] == "at" and any(loc[3]):
            raise KernError("%s is written at the displaced point %s" % (loc[1], loc[3]))
        v = self.ev(r)
        # later displaced reads of what is written
        if loc[0] == "at" and loc[1] in self.displaced:
            raise KernError("%s is written but read at displaced points" % loc[1])
        self.env[loc] = sympy.expand(v)
        self.written.add(loc)
        self.since[loc] = self.loops
        if loc[0] == "at":
            self.guards.append((loc, self.guarded))

    def run(self, t):
        if t.op in ("list", "tuple"):
            for x in t.args:
                self.run(x)
        elif is_call(t, "For"):
            if self.axes is not None:
                raise KernError("nested loops")
            target, body = cargs(t, ["target", "body"])
            idx = [x for x in (target.args if target.op in ("list", "tuple") else [target])]
            if any(x.op != "idx" for x in idx):
                raise KernError("loop over %s" % show(target)[:80])
            self.axes = {i: self.axis(i) for i in idx}
            if sorted(self.axes.values()) != list(range(self.k.dim)):
                raise KernError("loop over the axes %s" % sorted(self.axes.values()))
            self.loops += 1
            self.run(body)
            self.axes = None
        elif is_call(t, "If"):
            for pr in t.args[1:]:
                c, body = pr.args[:2]
                if c.op != "eqn" or self.guarded is not None:
                    raise KernError("condition %s" % show(c)[:80])
                sides = [self.loc(x) for x in c.args]
                self.guarded = frozenset(sides)
                self.run(body)
                self.guarded = None
        elif t.op == "eqn":
            if self.axes is None:
                raise KernError("statement out of a loop")
            l, r = t.args
            if l.op in ("nd", "list", "tuple"):
                ls = list(l.args[1:] if l.op == "nd" else l.args)
                rs = list(r.args[1:] if r.op == "nd" else r.args) if r.op in ("nd", "list", "tuple") else None
                if rs is None or len(ls) != len(rs):
                    raise KernError("assignment of %s components to %s" % (rs is not None and len(rs), len(ls)))
                # the printers write one assignment after the other
                for a, b in zip(ls, rs):
                    self.assign(a, b)
            else:
                self.assign(l, r)
        else:
            raise KernError("statement %s" % show(t)[:120])


# ---- sympy's parser on the printed form of an expression ------------------
def sstr(t):
    """text of an expression, as sympy prints it (parentheses apart)"""
    if is_const(t):
        return repr(cval(t))
    if t.op == "symbol":
        return t.args[0]
    if t.op == "bin":
        return "(%s %s %s)" % (sstr(t.args[1]), t.args[0], sstr(t.args[2]))
    if t.op == "neg":
        return "(-%s)" % sstr(t.args[0])
    if t.op == "fun":
        return "%s(%s)" % (t.args[0], ", ".join(sstr(a) for a in t.args[1:]))
    if t.op == "at":
        return "%s[%s]" % (t.args[0].args[0], ", ".join(sstr(a) for a in t.args[1:]))
    if t.op == "idx":
        return t.args[0].args[0]
    raise KernError("expression %s" % show(t)[:80])


def text(t):
    if is_const(t):
        return str(cval(t))
    if t.op == "fmt":
        return "".join(text(x) for x in t.args)
    return sstr(t)


def parse_hook(it, name, args, kwargs, st, node):
    if name.rsplit(".", 1)[-1] != "parse_expr" or "sympy" not in name:
        return None
    import ast as A
    import io
    import tokenize as tk
    s = it.freeze(args[0], st)
    if s.op == "fmt":
        s = const(text(s))
    if not is_const(s):
        return None
    ld = kwargs.get("local_dict", args[1] if len(args) > 1 else None)
    tr = kwargs.get("transformations", args[2] if len(args) > 2 else None)
    toks = [(x.type, x.string) for x in tk.generate_tokens(io.StringIO(cval(s)).readline)
            if x.type in (tk.NAME, tk.NUMBER, tk.OP, tk.STRING)]
    toks.append((tk.ENDMARKER, ""))
    # the transformations of the package (sympy's own standard ones keep the meaning)
    fs = []
    for x in (it.as_segs(tr, st) if tr is not None else []):
        if x[0] == "e" and not isinstance(x[1], T):
            fs.append(x[1])
        elif x[0] == "e" and x[1].op == "funcref":
            fs.append(x[1])
    cur = it.newlist(st, [Tup([const(a), const(b)]) for a, b in toks])
    g = it.alloc(st, DictC([]))
    for f in fs:
        cur = it.apply(f, [cur, ld, g], {}, st, node)
    seq = it.concrete_seq(cur, st)
    txt = []
    for x in seq:
        p = it.concrete_seq(x, st) if not isinstance(x, T) else list(x.args)
        txt.append(text(it.freeze(p[1], st)))
    try:
        e = A.parse(" ".join(txt).strip(), mode="eval").body
    except SyntaxError:
        raise KernError("the transformed expression %s cannot be parsed" % " ".join(txt))

    def look(n):
        if ld is not None:
            d = it.cell(ld, st)
            for k, v in d.items:
                if it.freeze(k, st) is const(n):
                    return v
        return symbol(n)

    def ev(e):
        if isinstance(e, A.Constant):
            return const(e.value)
        if isinstance(e, A.Name):
            return look(e.id)
        if isinstance(e, A.BinOp):
            op = {A.Add: "+", A.Sub: "-", A.Mult: "*", A.Div: "/", A.Pow: "**"}[type(e.op)]
            return T("bin", op, it.freeze(ev(e.left), st), it.freeze(ev(e.right), st))
        if isinstance(e, A.UnaryOp):
            return T("neg", it.freeze(ev(e.operand), st))
        if isinstance(e, A.Call):
            return fun(e.func.id, *[it.freeze(ev(a), st) for a in e.args])
        if isinstance(e, A.Tuple):
            return Tup([ev(x) for x in e.elts])
        if isinstance(e, A.Subscript):
            k = ev(e.slice)
            if isinstance(k, Tup) and len(k.vals) == 1:
                # m[0,] of a column
                v = ev(e.value)
                if it.nd(v, st) is not None:
                    return it.load_item(v, k.vals[0], st, node)
                return it.load_item(v, k, st, node)
            return it.load_item(ev(e.value), k, st, node)
        raise KernError("expression %s" % A.dump(e)[:80])
    return ev(e)
