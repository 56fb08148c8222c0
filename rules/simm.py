"""Model of a simulation: the class is interpreted over a history of uses, the
kernels, the boundary methods and the arrays record what is done to them."""
from sa.common import *
from sa.terms import *
from sa.interp import Interp, State, DictC, ListC, Tup, Branch, Func
from sa.symx import SymInterp, symbol, value
from sa.program import AnalysisBroken
from sa.rule import ref

SIM = "pylbm.simulation.Simulation"
A, B, MOM = sym("first_buffer"), sym("second_buffer"), sym("moments")
DX, LA = 0.25, 2.0
DT = DX / LA


class SimInterp(SymInterp):
    """accesses to the three arrays are recorded"""

    def note(self, *a):
        self.log.append(a)

    def x_float(self, args, kwargs, st, node):
        t = self.freeze(args[0], st) if args else const(0.0)
        e = value(t)
        if e.is_number and e.is_real:
            return const(float(e))
        return T("call", ext("float"), t)

    def load_item(self, v, key, st, node):
        if v in (A, B, MOM):
            self.reads += 1
            t = T("read", v, self.freeze(key, st), self.reads)
            self.note("read", v, self.freeze(key, st), t)
            return t
        return SymInterp.load_item(self, v, key, st, node)

    def store_item(self, v, key, val, st, node):
        if v in (A, B, MOM):
            self.note("write", v, self.freeze(key, st), self.freeze(val, st))
            return
        return SymInterp.store_item(self, v, key, val, st, node)


class History:
    """one program over a simulation

    buffers: 2 (compiled backends) or 1 (NumPy: the new buffer is the old one)
    nbc: number of boundary methods; 
"""

    def __init__(self, ck, nbc=1, buffers=2, initialize=True, dico=()):
        p = self.prog = ck.prog
        self.ck, self.nbc = ck, nbc
        it = self.it = SimInterp(p)
        it.log, it.reads = [], 0
        self.cls = p.cls(SIM)
        st = self.st = State()
        S = self.S = sym("self")
        it.types[S] = self.cls
        arr = p.cls("pylbm.storage.Array")
        for a in (A, B, MOM):
            it.types[a] = arr
        self.C = sym("container")
        over = st.over
        over[(self.C, "F")] = A
        over[(self.C, "Fnew")] = B if buffers == 2 else A
        over[(self.C, "m")] = MOM
        over[(self.C, "gpu_support")] = FALSE
        over[(self.C, "sorder")] = sym("sorder")
        self.meth = [sym("bc%d" % k) for k in range(nbc)]
        bm = p.cls("pylbm.boundary.BoundaryMethod")
        for b in self.meth:
            it.types[b] = bm
        self.alg = sym("algorithm")
        it.types[self.alg] = p.cls("pylbm.algorithm.base.BaseAlgorithm")
        it.stop |= {"call_function", "_in", "pylbm.storage.Array.update", "update", "update_feq", "set_rhs", "prepare_rhs",
                    "fix_iload", "move2gpu", "set_iload", "generate", "compile", "set_size", "set_queue", "validate",
                    "initialization", "_get_container", "_get_algorithm", "__str__", "__repr__"}
        self.dom = self.sch = None
        self.la, self.param, self.extra = const(LA), [], []

        def domain(i, s, obj, args, kwargs):
            self.dom = obj
            s.over[(obj, "dim")] = const(2)
            s.over[(obj, "dx")] = const(DX)
            s.over[(obj, "shape_in")] = Tup([const(4), const(5)])

        def scheme(i, s, obj, args, kwargs):
            self.sch = obj
            s.over[(obj, "dim")] = const(2)
            s.over[(obj, "la")] = self.la
            s.over[(obj, "param")] = i.alloc(s, DictC(self.param))

        def boundary(i, s, obj, args, kwargs):
            s.over[(obj, "methods")] = i.newlist(s, list(self.meth))

        def generator(i, s, obj, args, kwargs):
            s.over[(obj, "backend")] = const("CYTHON" if buffers == 2 else "NUMPY")
        it.on_new.update(Domain=domain, Scheme=scheme, Boundary=boundary, Generator=generator)
        oc = it.opaque_calls
        oc["_get_container"] = lambda i, s: self.C
        oc["_get_algorithm"] = lambda i, s: self.alg
        oc["call_function"] = self.kernel
        oc["_in"] = self.inner
        oc["update"] = self.update
        for n in ("update_feq", "set_rhs", "prepare_rhs", "fix_iload", "move2gpu"):
            oc[n] = self.bcall(n)
        for n in ("generate", "compile", "set_size", "set_queue", "validate", "set_iload"):
            oc[n] = lambda i, s: NONE
        oc["initialization"] = self.initial
        it.prop_override = {}
        self.dico = it.alloc(st, DictC([(const(k), v) for k, v in dico]))

    # what the arrays, kernels and boundary methods are asked
    def now(self, st):
        g = lambda o, n: st.over.get((o, n))
        return dict(t=g(self.S, "t"), nt=g(self.S, "nt"), F=g(self.C, "F"), Fnew=g(self.C, "Fnew"), m=g(self.C, "m"))

    def kernel(self, i, s, recv, args, kwargs):
        fz = [i.freeze(a, s) for a in args]
        i.note("kernel", fz[0] if fz else None, recv, fz[1:], {k: i.freeze(v, s) for k, v in kwargs.items()}, self.now(s))
        return NONE

    def inner(self, i, s, recv, args, kwargs):
        i.reads += 1
        k = i.freeze(args[0], s)
        t = T("inner", recv, k, i.reads)
        i.note("inner", recv, k, t)
        return t

    def update(self, i, s, recv, args, kwargs):
        if recv in (A, B, MOM):
            i.note("exchange", recv, self.now(s))
        else:
            self.bc(i, s, "update", recv, args, kwargs)
        return NONE

    def bcall(self, name):
        def f(i, s, recv, args, kwargs):
            self.bc(i, s, name, recv, args, kwargs)
            return NONE
        return f

    def bc(self, i, s, name, recv, args, kwargs):
        i.note(name, recv, [i.freeze(a, s) for a in args], {k: i.freeze(v, s) for k, v in kwargs.items()}, self.now(s))

    def initial(self, i, s, recv, args, kwargs):
        i.note("initialization", recv, self.now(s))
        return NONE

    def run(self, body, args=("dico",)):
        """``body``: statements using self and dico"""
        src = "def history(self, dico, extra, given, mark, user_m, user_f):\n" + "".join("    %s\n" % x for x in body)
        init = self.prog.func(SIM + ".__init__")
        f = ref(self.prog, init, src)
        r = self.it.run(f, [self.dico], {"extra": self.it.alloc(self.st, DictC(self.extra))}, self.st, selfv=self.S, cls=self.cls)
        self.ck.use(self.it)
        self.branches = [n for n in walk_trace(r.trace) if isinstance(n, Branch)]
        return r


def walk_trace(tr):
    for n in tr:
        yield n
        for k in ("body", "a", "b", "orelse", "final"):
            x = getattr(n, k, None)
            if isinstance(x, list):
                yield from walk_trace(x)
        for x in list(getattr(n, "iters", ())) + list(getattr(n, "handlers", ())):
            yield from walk_trace(x[-1] if isinstance(x, tuple) else x)
