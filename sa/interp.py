"""Abstract interpreter: a structured, gated value-flow analysis of Python source.

Each statement of the analysed function is visited once (loops over statically
known sequences are unrolled, all other loops are summarised by one symbolic
iteration with the loop-carried locations havocked), both arms of every branch
are analysed and *joined* with gated phi terms, and repository callees are
inlined.  The result is, for every variable / attribute / returned value, a
term over the inputs, and a structured event trace (calls, stores, returns,
raises) for typestate rules.  No code of the analysed package is imported or
run, and no path is handed to a solver.
"""
import ast
import os

from .program import AnalysisBroken, FuncInfo, decorators, is_property
from .terms import (
    T, FALSE, NONE, TRUE, attr, call, const, cval, ext, fresh_id, is_const, item,
    lst, mentions, subst, sym, tup, walk,
)

# --------------------------------------------------------------------------
# values


class Ref:
    __slots__ = ("id",)

    def __init__(self):
        self.id = fresh_id()

    def __repr__(self):
        return "&%d" % self.id


class Tup:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return "Tup%r" % (self.vals,)


class Func:
    __slots__ = ("fi", "fid", "selfv", "defaults", "cls")

    def __init__(self, fi, fid=None, selfv=None, defaults=None, cls=None):
        self.fi, self.fid, self.selfv, self.defaults = fi, fid, selfv, defaults
        self.cls = cls

    def bind(self, v):
        return Func(self.fi, self.fid, v, self.defaults, self.cls)

    def __repr__(self):
        return "Func(%s)" % self.fi.qual


class ClassV:
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci


class ModV:
    __slots__ = ("mi",)

    def __init__(self, mi):
        self.mi = mi


class BM:
    """bound method of a builtin structure or of an opaque term"""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV:
    __slots__ = ("ci", "selfv")

    def __init__(self, ci, selfv):
        self.ci, self.selfv = ci, selfv


class ItemProp:
    __slots__ = ("selfv", "getter", "setter")

    def __init__(self, selfv, getter, setter):
        self.selfv, self.getter, self.setter = selfv, getter, setter


class Partial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class PhiV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class IterV:
    """a lazily described iterable: range / enumerate / zip / dict views"""

    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


# heap cells (immutable)


class ListC:
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def concrete(self):
        return all(s[0] == "e" for s in self.segs)

    def vals(self):
        return [s[1] for s in self.segs]


class DictC:
    __slots__ = ("items", "base")

    def __init__(self, items=(), base=None):
        self.items, self.base = tuple(items), base

    def get(self, k):
        for kk, v in self.items:
            if kk is k:
                return v
        return None

    def set(self, k, v):
        out, done = [], False
        for kk, vv in self.items:
            if kk is k:
                out.append((k, v))
                done = True
            else:
                out.append((kk, vv))
        if not done:
            out.append((k, v))
        return DictC(out, self.base)

    def concrete(self):
        return self.base is None and all(is_const_like(k) for k, _ in self.items)


class SetC:
    __slots__ = ("elems", "base")

    def __init__(self, elems=(), base=None):
        self.elems, self.base = tuple(elems), base


class InstC:
    __slots__ = ("ci", "attrs")

    def __init__(self, ci, attrs):
        self.ci, self.attrs = ci, attrs


class ArrC:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def is_const_like(k):
    return is_const(k) or (
        isinstance(k, T)
        and (k.op in ("ext", "symbol", "classref")
             or (k.op == "tuple" and all(is_const_like(x) for x in k.args)))
    )


# --------------------------------------------------------------------------
# trace


class Ev:
    __slots__ = ("kind", "name", "recv", "args", "kwargs", "node", "mod", "raw", "res")

    def __init__(self, kind, name, recv=None, args=(), kwargs=None, node=None,
                 mod=None, raw=None):
        self.kind, self.name, self.recv = kind, name, recv
        self.args, self.kwargs = args, kwargs or {}
        self.node, self.mod, self.raw = node, mod, raw
        self.res = None

    @property
    def where(self):
        ln = getattr(self.node, "lineno", 0)
        return "%s:%d" % (self.mod.rel if self.mod else "?", ln)

    def __repr__(self):
        r = "" if self.recv is None else "%r." % (self.recv,)
        return "<%s %s%s%r @%s>" % (self.kind, r, self.name, list(self.args), self.where)


class Branch:
    __slots__ = ("cond", "a", "b", "node", "mod")

    def __init__(self, cond, node, mod):
        self.cond, self.a, self.b, self.node, self.mod = cond, [], [], node, mod


class Loop:
    __slots__ = ("lid", "domain", "body", "orelse", "node", "mod")

    def __init__(self, lid, domain, node, mod):
        self.lid, self.domain, self.body, self.orelse = lid, domain, [], []
        self.node, self.mod = node, mod


class Unroll:
    __slots__ = ("iters", "node", "mod")

    def __init__(self, node, mod):
        self.iters, self.node, self.mod = [], node, mod


class CallN:
    __slots__ = ("fi", "body", "node", "mod", "recv", "args")

    def __init__(self, fi, node, mod, recv=None, args=()):
        self.fi, self.body, self.node, self.mod = fi, [], node, mod
        self.recv, self.args = recv, args


class TryN:
    __slots__ = ("body", "handlers", "orelse", "final", "node", "mod", "types")

    def __init__(self, node, mod):
        self.body, self.handlers, self.orelse, self.final = [], [], [], []
        self.types = []
        self.node, self.mod = node, mod


class WithN:
    __slots__ = ("ctx", "body", "node", "mod")

    def __init__(self, ctx, node, mod):
        self.ctx, self.body, self.node, self.mod = ctx, [], node, mod


# --------------------------------------------------------------------------
# state


class State:
    __slots__ = ("frames", "heap", "over", "cont", "facts")

    def __init__(self):
        self.frames, self.heap = {}, {}
        self.over, self.cont, self.facts = {}, {}, {}

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.cont = dict(self.cont)
        s.facts = dict(self.facts)
        return s

    def assign(self, o):
        self.frames, self.heap = o.frames, o.heap
        self.over, self.cont, self.facts = o.over, o.cont, o.facts


class Leaf:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Node:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Unknown(Exception):
    """a value the abstract semantics cannot determine"""


class StepStop(Exception):
    """bound of the statements evaluated"""


class GenStop(Exception):
    """bound of the elements of an evaluated generator"""


class Bottom(Exception):
    """evaluation cannot complete normally (raise / sys.exit)"""


def mkphi(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if c.op == "not":
        return mkphi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mknot(c)
    return T("phi", c, a, b)


def mknot(c):
    if is_const(c):
        return const(not cval(c))
    if c.op == "not":
        return c.args[0]
    return T("not", c)


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}

ALLOC = {
    "numpy." + n for n in (
        "zeros ones empty full zeros_like ones_like empty_like full_like array "
        "copy asarray arange linspace eye identity meshgrid concatenate").split()
} | {"sympy.zeros", "sympy.ones", "sympy.eye", "sympy.Matrix", "sympy.MutableDenseMatrix"}

BUILTINS = set("exec eval".split()) | set(
    "len range enumerate zip isinstance sum min max list tuple dict set sorted reversed "
    "abs all any str int float bool getattr setattr hasattr print super type map filter "
    "callable repr open iter next divmod round object frozenset id hash vars locals "
    "globals property staticmethod classmethod issubclass slice complex bytes ord chr "
    "delattr format input "
    "Exception ValueError TypeError KeyError IndexError ImportError AttributeError "
    "NotImplementedError RuntimeError OSError ZeroDivisionError NotImplemented "
    "StopIteration AssertionError FileNotFoundError FileExistsError ModuleNotFoundError "
    "BaseException Warning UserWarning DeprecationWarning IOError ArithmeticError "
    "LookupError OverflowError PermissionError SystemExit KeyboardInterrupt "
    "UnboundLocalError NameError".split()
)

# method names that change their receiver, whatever the receiver is
MUTATORS_T = {"fill", "sort", "row_swap", "col_swap", "row_del", "col_del", "append",
              "extend", "clear", "reverse"}
# ... only when the receiver is a structure the analysis created itself
MUTATORS_REF = MUTATORS_T | {"update", "pop", "setdefault", "add", "remove", "insert",
                             "discard", "popitem", "resize"}


class Interp:
    def __init__(self, prog, stop=(), types=None, attr_types=None, inline_classes=(),
                 max_depth=24, unroll=64, transparent=("monitor",), policy=None,
                 exits=("sys.exit", "os._exit", "exit", "quit"), prop_override=None,
                 ext_hook=None):
        self.owner = {}
        self.opaque_calls = {}
        self.no_exc = False   # a try block that can complete is taken to complete
        self.absent = lambda v, name: False   # attributes an opaque value does not have
        self.on_new = {}      # class name -> f(it, st, object term, args, kwargs)
        self.fresh = 0
        self.opaque_values = {}
        self.car_ids = {}
        self.mu_init = {}
        self.prog = prog
        self.stop = set(stop)
        self.types = dict(types or {})
        self.attr_types = dict(attr_types or {})
        self.inline_classes = set(inline_classes)
        self.max_depth, self.unroll = max_depth, unroll
        self.transparent = set(transparent)
        self.policy = policy
        self.exits = set(exits)
        self.prop_override = dict(prop_override or {})
        self.ext_hook = ext_hook
        self.scalars = set()  # terms known to be numbers, not arrays
        self.eager_gen = False
        self.max_steps = None   # bound of the statements evaluated, StepStop is raised beyond
        self.steps = 0
        self.gen_cap, self.gen_cache = 3000, {}
        self.yields = []
        self.int_syms = set()  # integer unknowns: floor division of linear forms is decided
        self.trace = []
        self.stack = []
        self.mod_stack = []
        self.gcache = {}
        self.gheap = {}
        self.ginflight = set()
        self.stats = {"functions": set(), "calls": 0, "stmts": 0, "branches": 0,
                      "loops": 0, "opaque": 0}
        self.notes = []
        self.module_state = State()

    # ---- public entry ------------------------------------------------
    def run(self, fi, args=(), kwargs=None, st=None, selfv=None, cls=None):
        """analyse one function from a symbolic entry state; missing parameters
        become symbols named after the parameter"""
        st = st or State()
        self.trace = []
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs or {})
        if selfv is None and fi.cls is not None and not any(
            d in ("staticmethod",) for d in decorators(fi)
        ):
            selfv = sym("self")
            self.types.setdefault(selfv, cls or fi.cls)
        if selfv is not None:
            args = [selfv] + args
        for n in names[len(args):]:
            if n not in kwargs:
                kwargs[n] = sym(n)
        for p in a.kwonlyargs:
            kwargs.setdefault(p.arg, sym(p.arg))
        f = Func(fi, cls=cls or fi.cls)
        try:
            val = self.inline(f, args, kwargs, st, fi.node, top=True)
        except Bottom:
            val = None
        return Result(self, st, val, self.trace, fi)

    # ---- helpers -----------------------------------------------------
    @property
    def mod(self):
        return self.mod_stack[-1] if self.mod_stack else None

    def emit(self, kind, name, node, recv=None, args=(), kwargs=None, raw=None):
        e = Ev(kind, name, recv, tuple(args), kwargs, node, self.mod, raw)
        self.trace.append(e)
        return e

    def cell(self, ref, st):
        c = st.heap.get(ref.id)
        return c if c is not None else self.gheap.get(ref.id)

    def alloc(self, st, cell):
        r = Ref()
        st.heap[r.id] = cell
        return r

    def newlist(self, st, vals):
        return self.alloc(st, ListC([("e", v) for v in vals]))

    # ---- freezing ----------------------------------------------------
    def freeze(self, v, st, seen=()):
        if isinstance(v, T):
            return st.cont.get(v, v)
        if isinstance(v, Tup):
            return tup(*[self.freeze(x, st, seen) for x in v.vals])
        if isinstance(v, Ref):
            if v.id in seen:
                return sym("#cycle")
            seen = seen + (v.id,)
            c = self.cell(v, st)
            if isinstance(c, ListC):
                return self.freeze_segs(c.segs, st, seen, "list")
            if isinstance(c, DictC):
                its = [T("pair", k, self.freeze(x, st, seen)) for k, x in c.items]
                if c.base is not None:
                    return T("dictupd", c.base, *its)
                return T("dict", *its)
            if isinstance(c, SetC):
                es = tuple(self.freeze(x, st, seen) for x in c.elems)
                return T("set", *es) if c.base is None else T("setupd", c.base, *es)
            if isinstance(c, ArrC):
                return c.t
            if isinstance(c, InstC):
                return T("inst", c.ci.qual, *[
                    T("field", k, self.freeze(x, st, seen))
                    for k, x in sorted(c.attrs.items())])
            return sym("#unknownref")
        if isinstance(v, Func):
            if isinstance(v.fi.node, ast.Lambda):
                return self.freeze_lambda(v, st)
            if v.selfv is not None:
                return T("attr", self.freeze(v.selfv, st, seen), v.fi.name)
            return T("funcref", v.fi.qual)
        if isinstance(v, ClassV):
            return T("classref", v.ci.qual)
        if isinstance(v, ModV):
            return T("modref", v.mi.name)
        if isinstance(v, BM):
            return T("attr", self.freeze(v.recv, st, seen), v.name)
        if isinstance(v, PhiV):
            return mkphi(v.c, self.freeze(v.a, st, seen), self.freeze(v.b, st, seen))
        if isinstance(v, IterV):
            return T(v.kind, *[self.freeze(x, st, seen) for x in v.args])
        if isinstance(v, ItemProp):
            return T("attr", self.freeze(v.selfv, st, seen), v.getter.name)
        if isinstance(v, SuperV):
            return T("super", v.ci.qual, self.freeze(v.selfv, st, seen))
        if isinstance(v, Partial):
            return T("partial", self.freeze(v.fn, st, seen),
                     *[self.freeze(x, st, seen) for x in v.args],
                     *[T("kw", k, self.freeze(x, st, seen))
                       for k, x in sorted(v.kwargs.items())])
        raise AnalysisBroken("cannot freeze %r" % (v,))

    def freeze_segs(self, segs, st, seen, op):
        out = []
        for s in segs:
            if s[0] == "e":
                out.append(self.freeze(s[1], st, seen))
            elif s[0] == "c":
                out.append(T("splat", s[1]))
            else:
                out.append(T("splatphi", s[1],
                             self.freeze_segs(s[2], st, seen, "list"),
                             self.freeze_segs(s[3], st, seen, "list")))
        return T(op, *out)

    def freeze_lambda(self, f, st):
        node = f.fi.node
        names = [p.arg for p in node.args.args]
        lid = fresh_id()
        bvs = [T("bv", lid * 1000 + k) for k in range(len(names))]
        s2 = st.fork()
        save, self.trace = self.trace, []
        try:
            v = self.inline(f, bvs, {}, s2, node)
            body = self.freeze(v, s2)
        except Bottom:
            body = sym("#bottom")
        except RecursionError:
            raise
        finally:
            self.trace = save
        return T("lam", lid, len(names), body)

    # ---- joins -------------------------------------------------------
    def joinv(self, c, a, b, sa, sb, out):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return mkphi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vals) == len(b.vals):
            return Tup([self.joinv(c, x, y, sa, sb, out) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            ca, cb = self.cell(a, sa), self.cell(b, sb)
            if type(ca) is type(cb) and not isinstance(ca, InstC):
                r = Ref()
                out.heap[r.id] = self.joincell(c, ca, cb, sa, sb, out)
                return r
        if isinstance(a, Func) and isinstance(b, Func):
            if a.fi is b.fi and a.selfv is b.selfv:
                return a
        if isinstance(a, ClassV) and isinstance(b, ClassV) and a.ci is b.ci:
            return a
        if isinstance(a, ModV) and isinstance(b, ModV) and a.mi is b.mi:
            return a
        if isinstance(a, (T, Tup)) and isinstance(b, (T, Tup)):
            return mkphi(c, self.freeze(a, sa), self.freeze(b, sb))
        return PhiV(c, a, b)

    def joincell(self, c, a, b, sa, sb, out):
        if a is b:
            return a
        if isinstance(a, ListC) and isinstance(b, ListC):
            k = 0
            while k < len(a.segs) and k < len(b.segs) and self.segeq(a.segs[k], b.segs[k]):
                k += 1
            if len(a.segs) == len(b.segs) and all(
                x[0] == "e" and y[0] == "e" for x, y in zip(a.segs[k:], b.segs[k:])
            ):
                segs = list(a.segs[:k])
                for x, y in zip(a.segs[k:], b.segs[k:]):
                    segs.append(("e", self.joinv(c, x[1], y[1], sa, sb, out)))
                return ListC(segs)
            if k == len(a.segs) and k == len(b.segs):
                return a
            ra = tuple(("e", self.freeze(s[1], sa)) if s[0] == "e" and not isinstance(s[1], T)
                       else s for s in a.segs[k:])
            rb = tuple(("e", self.freeze(s[1], sb)) if s[0] == "e" and not isinstance(s[1], T)
                       else s for s in b.segs[k:])
            return ListC(a.segs[:k] + (("phi", c, ra, rb),))
        if isinstance(a, DictC) and isinstance(b, DictC):
            if a.base is b.base:
                ka, kb = [k for k, _ in a.items], [k for k, _ in b.items]
                keys = ka + [k for k in kb if k not in ka]
                its = []
                for k in keys:
                    va, vb = a.get(k), b.get(k)
                    if va is None:
                        va = sym("#absent") if a.base is None else item(a.base, k)
                    if vb is None:
                        vb = sym("#absent") if b.base is None else item(b.base, k)
                    its.append((k, self.joinv(c, va, vb, sa, sb, out)))
                return DictC(its, a.base)
            ta = self.freeze_cell(a, sa)
            tb = self.freeze_cell(b, sb)
            return DictC((), mkphi(c, ta, tb))
        if isinstance(a, InstC) and isinstance(b, InstC):
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                va = a.attrs.get(k, sym("#undef"))
                vb = b.attrs.get(k, sym("#undef"))
                attrs[k] = self.joinv(c, va, vb, sa, sb, out)
            return InstC(a.ci, attrs)
        if isinstance(a, SetC) and isinstance(b, SetC):
            if a.base is b.base and [x for x in a.elems] == [y for y in b.elems]:
                return a
            return SetC((), mkphi(c, self.freeze_cell(a, sa), self.freeze_cell(b, sb)))
        return ArrC(mkphi(c, self.freeze_cell(a, sa), self.freeze_cell(b, sb)))

    def segeq(self, x, y):
        if x is y or x == y:
            return True
        if x[0] == "e" and y[0] == "e":
            a, b = x[1], y[1]
            if isinstance(a, Ref) and isinstance(b, Ref):
                return a.id == b.id
            if isinstance(a, Tup) and isinstance(b, Tup):
                return len(a.vals) == len(b.vals) and all(
                    self.segeq(("e", p), ("e", q)) for p, q in zip(a.vals, b.vals))
            return a is b
        return False

    def freeze_cell(self, c, st):
        r = Ref()
        tmp = dict(st.heap)
        st2 = State()
        st2.frames, st2.over, st2.cont, st2.facts = st.frames, st.over, st.cont, st.facts
        st2.heap = tmp
        tmp[r.id] = c
        return self.freeze(r, st2)

    def merge(self, c, sa, sb):
        if sa is sb:
            return sa
        if is_const(c):
            return sa if cval(c) else sb
        out = State()
        out.heap = {}
        # heap first (joinv may allocate)
        for k in list(sa.heap) + [k for k in sb.heap if k not in sa.heap]:
            ca, cb = sa.heap.get(k), sb.heap.get(k)
            if ca is None:
                out.heap[k] = cb
            elif cb is None:
                out.heap[k] = ca
            else:
                out.heap[k] = self.joincell(c, ca, cb, sa, sb, out)
        for fid in list(sa.frames) + [f for f in sb.frames if f not in sa.frames]:
            fa, fb = sa.frames.get(fid), sb.frames.get(fid)
            if fa is None or fb is None:
                out.frames[fid] = dict(fa if fb is None else fb)
                continue
            d = {}
            for n in list(fa) + [n for n in fb if n not in fa]:
                va, vb = fa.get(n), fb.get(n)
                if va is None:
                    va = sym("#undef")
                if vb is None:
                    vb = sym("#undef")
                d[n] = self.joinv(c, va, vb, sa, sb, out)
            out.frames[fid] = d
        for k in list(sa.over) + [k for k in sb.over if k not in sa.over]:
            va = sa.over.get(k)
            vb = sb.over.get(k)
            if va is None:
                va = attr(*k)
            if vb is None:
                vb = attr(*k)
            out.over[k] = self.joinv(c, va, vb, sa, sb, out)
        for k in list(sa.cont) + [k for k in sb.cont if k not in sa.cont]:
            out.cont[k] = mkphi(c, sa.cont.get(k, k), sb.cont.get(k, k))
        out.facts = {k: v for k, v in sa.facts.items() if sb.facts.get(k) is v}
        return out

    def fold(self, tree, kinds):
        """merged (state, value) over the leaves of the given kinds, or None"""
        if isinstance(tree, Leaf):
            if tree.kind in kinds:
                return (tree.st, tree.val if tree.val is not None else NONE)
            return None
        a, b = self.fold(tree.a, kinds), self.fold(tree.b, kinds)
        if a is None:
            return b
        if b is None:
            return a
        if a[0] is b[0]:
            st = a[0]
            return (st, self.joinv(tree.c, a[1], b[1], st, st, st))
        st = self.merge(tree.c, a[0], b[0])
        return (st, self.joinv(tree.c, a[1], b[1], a[0], b[0], st))

    def replace(self, tree, kind, sub):
        if isinstance(tree, Leaf):
            return sub if tree.kind == kind else tree
        return Node(tree.c, self.replace(tree.a, kind, sub), self.replace(tree.b, kind, sub))

    def has(self, tree, kinds):
        if isinstance(tree, Leaf):
            return tree.kind in kinds
        return self.has(tree.a, kinds) or self.has(tree.b, kinds)

    # ---- facts / truth ------------------------------------------------
    def truth(self, v, st):
        """python bool if statically known else None"""
        if isinstance(v, T):
            if is_const(v):
                return bool(cval(v))
            if v.op in ("funcref", "classref", "modref", "ext", "lam"):
                return True
            if v.op in ("tuple", "list") and not any(
                x.op in ("splat", "splatphi") for x in v.args):
                return len(v.args) > 0
            if v.op == "range" and all(is_const(x) for x in v.args):
                return len(range(*[cval(x) for x in v.args])) > 0
            if v.op == "not":
                r = self.truth(v.args[0], st)
                return None if r is None else not r
            if v.op == "and":
                rs = [self.truth(x, st) for x in v.args]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            if v.op == "or":
                rs = [self.truth(x, st) for x in v.args]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            return st.facts.get(v)
        if isinstance(v, Tup):
            return len(v.vals) > 0
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                if c.concrete():
                    return len(c.segs) > 0
                if any(s[0] == "e" for s in c.segs):
                    return True
                return None
            if isinstance(c, DictC):
                if c.base is None:
                    return len(c.items) > 0
                return None
            if isinstance(c, SetC):
                return len(c.elems) > 0 if c.base is None else None
            if isinstance(c, InstC):
                return True
            return None
        if isinstance(v, (Func, ClassV, ModV, BM)):
            return True
        if isinstance(v, IterV):
            t = self.freeze(v, st)
            return self.truth(t, st) if isinstance(t, T) else None
        return None

    def assume(self, c, val, st):
        if c.op == "not":
            return self.assume(c.args[0], not val, st)
        if c.op == "and" and val:
            for x in c.args:
                self.assume(x, True, st)
        if c.op == "or" and not val:
            for x in c.args:
                self.assume(x, False, st)
        st.facts[c] = val
        if c.op == "is" and val and c.args[1] is NONE:
            st.facts[c.args[0]] = False

    # ---- statements ----------------------------------------------------
    def exec_block(self, stmts, st):
        for k, s in enumerate(stmts):
            self.stats["stmts"] += 1
            out = self.exec_stmt(s, st)
            if out is None:
                continue
            if isinstance(out, Leaf):
                if out.kind == "normal":
                    st = out.st
                    continue
                return out
            f = self.fold(out, ("normal",))
            if f is None:
                return out
            rest = self.exec_block(stmts[k + 1:], f[0])
            return self.replace(out, "normal", rest)
        return Leaf("normal", st)

    def exec_stmt(self, s, st):
        if self.max_steps is not None:
            self.steps += 1
            if self.steps > self.max_steps:
                raise StepStop()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported statement %s at %s:%d" % (
                type(s).__name__, self.mod.rel, s.lineno))
        try:
            return m(s, st)
        except Bottom:
            return Leaf("raise", st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for n, imp in self.mod.import_map(s).items():
            self.setvar(n, self.resolved(self.prog.resolve_import(imp)), st)

    s_ImportFrom = s_Import

    def s_Global(self, s, st):
        self.stack[-1]["globals"].update(s.names)

    def s_Nonlocal(self, s, st):
        self.stack[-1]["nonlocals"].update(s.names)

    def s_FunctionDef(self, s, st):
        fi = FuncInfo(s, self.mod, parent=self.stack[-1]["fi"].local)
        v = self.mkfunc(fi, s.args, st)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st)
        self.setvar(s.name, v, st)

    def decorate(self, d, v, st):
        name = ast.unparse(d).split("(")[0].split(".")[-1]
        if name in ("wraps", "monitor", "staticmethod", "lru_cache") or name in self.transparent:
            return v
        dv = self.eval(d, st)
        return self.apply(dv, [v], {}, st, d)

    def mkfunc(self, fi, args, st):
        defaults = {}
        pos = [a.arg for a in args.posonlyargs + args.args]
        for n, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[n] = self.eval(d, st)
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                defaults[a.arg] = self.eval(d, st)
        return Func(fi, self.stack[-1]["fid"], None, defaults, self.stack[-1]["cls"])

    def s_ClassDef(self, s, st):
        self.setvar(s.name, sym("#class:" + s.name), st)

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.emit("return", "return", s, args=(self.freeze(v, st),), raw=v)
        return Leaf("return", st, v)

    def s_Raise(self, s, st):
        a = ()
        if s.exc is not None:
            try:
                a = (self.freeze(self.eval(s.exc, st), st),)
            except Bottom:
                pass
        self.emit("raise", "raise", s, args=a)
        return Leaf("raise", st)

    def s_Break(self, s, st):
        self.emit("break", "break", s)
        return Leaf("break", st)

    def s_Continue(self, s, st):
        self.emit("continue", "continue", s)
        return Leaf("continue", st)

    def s_Assert(self, s, st):
        c = self.freeze(self.eval(s.test, st), st)
        self.emit("assert", "assert", s, args=(c,))
        if not is_const(c):
            self.assume(c, True, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, sym("#undef"), st)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval_key(t.slice, st)
                self.emit("delitem", "del", s, recv=self.freeze(b, st),
                          args=(self.freeze(k, st),), raw=b)
                if isinstance(b, Ref):
                    c = self.cell(b, st)
                    kt = self.freeze(k, st)
                    if isinstance(c, DictC) and c.get(kt) is not None:
                        st.heap[b.id] = DictC([x for x in c.items if x[0] is not kt], c.base)
                    elif isinstance(c, ListC) and c.concrete() and is_const(kt):
                        vs = list(c.segs)
                        del vs[cval(kt)]
                        st.heap[b.id] = ListC(vs)
                    else:
                        st.heap[b.id] = ArrC(T("delitem", self.freeze(b, st), kt))
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit("delattr", t.attr, s, recv=self.freeze(b, st))
            else:
                raise AnalysisBroken("unsupported del")

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            rhs = self.eval(s.value, st)
            self.setvar(t.id, self.inplace(op, cur, rhs, st, s), st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.load_attr(base, t.attr, st, t)
            rhs = self.eval(s.value, st)
            self.store_attr(base, t.attr, self.inplace(op, cur, rhs, st, s), st, s)
        else:
            base = self.eval(t.value, st)
            key = self.eval_key(t.slice, st)
            cur = self.load_item(base, key, st, t)
            rhs = self.eval(s.value, st)
            self.store_item(base, key, self.inplace(op, cur, rhs, st, s), st, s)

    def inplace(self, op, cur, rhs, st, node):
        if isinstance(cur, Ref):
            c = self.cell(cur, st)
            if isinstance(c, ListC) and op == "+":
                self.list_extend(cur, rhs, st)
                return cur
            if isinstance(c, ArrC):
                new = self.binop(op, c.t, self.freeze(rhs, st))
                st.heap[cur.id] = ArrC(new)
                self.emit("mutate", "augassign" + op, node, recv=c.t,
                          args=(self.freeze(rhs, st),), raw=cur)
                return cur
            if isinstance(c, SetC) and op == "|":
                st.heap[cur.id] = SetC((), T("bin", "|", self.freeze(cur, st), self.freeze(rhs, st)))
                return cur
        return self.v_binop(op, cur, rhs, st)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.eval(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.store_item(self.eval(t.value, st), self.eval_key(t.slice, st), v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, n, st, star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        else:
            raise AnalysisBroken("unsupported assignment target")

    def unpack(self, v, n, st, star=None):
        seq = self.concrete_seq(v, st)
        if seq is not None:
            if star is None:
                if len(seq) == n:
                    return seq
            else:
                k = len(seq) - (n - 1)
                if k >= 0:
                    mid = self.newlist(st, seq[star:star + k])
                    return seq[:star] + [mid] + seq[star + k:]
        t = self.freeze(v, st)
        if t.op == "phi" and star is None:
            a, b = t.args[1], t.args[2]
            if all(x.op in ("tuple", "list") and len(x.args) == n for x in (a, b)):
                return [mkphi(t.args[0], x, y) for x, y in zip(a.args, b.args)]
        if star is None:
            return [self.load_item(v, const(k), st, None) for k in range(n)]
        out = []
        for k in range(n):
            if k < star:
                out.append(self.load_item(v, const(k), st, None))
            elif k == star:
                out.append(item(t, T("slice", const(k), const(k - n + 1) if k < n - 1 else NONE, NONE)))
            else:
                out.append(self.load_item(v, const(k - n), st, None))
        return out

    def s_If(self, s, st):
        c, tr = self.eval_cond(s.test, st)
        if tr is True:
            return self.exec_block(s.body, st)
        if tr is False:
            return self.exec_block(s.orelse, st)
        self.stats["branches"] += 1
        br = Branch(c, s, self.mod)
        self.trace.append(br)
        sa, sb = st.fork(), st.fork()
        self.assume(c, True, sa)
        self.assume(c, False, sb)
        save = self.trace
        self.trace = br.a
        oa = self.exec_block(s.body, sa)
        self.trace = br.b
        ob = self.exec_block(s.orelse, sb)
        self.trace = save
        if isinstance(oa, Leaf) and isinstance(ob, Leaf) and oa.kind == ob.kind == "normal":
            return Leaf("normal", self.merge(c, oa.st, ob.st))
        return Node(c, oa, ob)

    def eval_cond(self, e, st):
        v = self.eval(e, st)
        tr = self.truth(v, st)
        if tr is not None:
            return (const(tr), tr)
        t = self.freeze(v, st)
        if not isinstance(v, T):
            t = T("truth", t)
        if isinstance(t, T):
            tr = self.truth(t, st)
            if tr is not None:
                return (const(tr), tr)
        return (t, None)

    def s_Match(self, s, st):
        raise AnalysisBroken("match statement not supported")

    def s_With(self, s, st):
        ctxs = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            ctxs.append(self.freeze(v, st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        w = WithN(tuple(ctxs), s, self.mod)
        self.trace.append(w)
        save, self.trace = self.trace, w.body
        out = self.exec_block(s.body, st)
        self.trace = save
        return out

    def s_Try(self, s, st):
        tn = TryN(s, self.mod)
        self.trace.append(tn)
        save = self.trace
        entry = st.fork()
        self.trace = tn.body
        body = self.exec_block(s.body, st)
        fb = self.fold(body, ("normal", "return", "break", "continue"))
        mid = fb[0] if fb is not None else None
        out = body
        if s.orelse:
            f = self.fold(body, ("normal",))
            if f is not None:
                self.trace = tn.orelse
                out = self.replace(body, "normal", self.exec_block(s.orelse, f[0].fork()))
        for h in s.handlers:
            if self.no_exc and mid is not None:
                break
            ht = ast.unparse(h.type) if h.type is not None else "*"
            tn.types.append(ht)
            c = T("exc", ht, self.site(s))
            hs = entry.fork()
            if mid is not None:
                hs = self.merge(T("excmid", self.site(s)), entry.fork(), mid.fork())
            if h.name:
                hs.frames[self.stack[-1]["fid"]][h.name] = sym("#exc")
            hl = []
            tn.handlers.append(hl)
            self.trace = hl
            ho = self.exec_block(h.body, hs)
            out = Node(c, ho, out)
        if s.finalbody:
            self.trace = tn.final
            out = self.run_final(out, s.finalbody, [True])
            mark = len(tn.final)
        self.trace = save
        return out

    def run_final(self, tree, body, first):
        if isinstance(tree, Leaf):
            if not first[0]:
                save, self.trace = self.trace, []
            fo = self.exec_block(body, tree.st.fork())
            if not first[0]:
                self.trace = save
            first[0] = False
            return self.replace(fo, "normal", None) if False else self._final_leaf(fo, tree)
        return Node(tree.c, self.run_final(tree.a, body, first),
                    self.run_final(tree.b, body, first))

    def _final_leaf(self, fo, orig):
        if isinstance(fo, Leaf):
            if fo.kind == "normal":
                return Leaf(orig.kind, fo.st, orig.val)
            return fo
        return Node(fo.c, self._final_leaf(fo.a, orig), self._final_leaf(fo.b, orig))

    def site(self, node):
        return "%s@%d" % (self.stack[-1]["fi"].local if self.stack else "?", len(self.stack))

    # loops ------------------------------------------------------------
    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        seq = self.concrete_seq(itv, st)
        if seq is not None and len(seq) <= self.unroll:
            return self.unrolled(s, seq, st)
        domain, elem = self.symbolic_iter(itv, st)
        return self.summarise(s, domain, elem, st)

    def unrolled(self, s, seq, st):
        un = Unroll(s, self.mod)
        self.trace.append(un)
        save = self.trace
        done = None  # tree of finished leaves (break/return) with holes "normal"
        cur = st
        result = None
        wrap = []
        for v in seq:
            it = []
            un.iters.append(it)
            self.trace = it
            self.assign(s.target, v, cur, s)
            out = self.exec_block(s.body, cur)
            f = self.fold(out, ("normal", "continue"))
            wrap.append(out)
            if f is None:
                cur = None
                break
            cur = f[0]
        self.trace = save
        tail = None
        if cur is not None:
            if s.orelse:
                tail = self.exec_block(s.orelse, cur)
            else:
                tail = Leaf("normal", cur)
        # rebuild from the last iteration backwards
        for out in reversed(wrap):
            if tail is None:
                tail = out
            else:
                if isinstance(out, Leaf) and out.kind in ("normal", "continue"):
                    continue
                tail = self.replace(self.replace(out, "continue", tail), "normal", tail) \
                    if not self.has(out, ("continue",)) else \
                    self._replace2(out, tail)
        tail = self._break_to_normal(tail)
        return tail if tail is not None else Leaf("normal", cur)

    def _replace2(self, tree, sub):
        if isinstance(tree, Leaf):
            return sub if tree.kind in ("normal", "continue") else tree
        return Node(tree.c, self._replace2(tree.a, sub), self._replace2(tree.b, sub))

    def _break_to_normal(self, tree):
        if tree is None:
            return None
        if isinstance(tree, Leaf):
            return Leaf("normal", tree.st) if tree.kind == "break" else tree
        return Node(tree.c, self._break_to_normal(tree.a), self._break_to_normal(tree.b))

    def s_While(self, s, st):
        # concrete unrolling while the test stays decidable
        un = None
        count = 0
        save = self.trace
        wrap = []
        cur = st
        while count <= self.unroll:
            probe = cur.fork()
            tsave, self.trace = self.trace, []
            c, tr = self.eval_cond(s.test, probe)
            self.trace = tsave
            if tr is None:
                break
            if un is None:
                un = Unroll(s, self.mod)
                self.trace.append(un)
            if tr is False:
                tail = self.exec_block(s.orelse, cur) if s.orelse else Leaf("normal", cur)
                for out in reversed(wrap):
                    if isinstance(out, Leaf) and out.kind in ("normal", "continue"):
                        continue
                    tail = self._replace2(out, tail)
                return self._break_to_normal(tail)
            it = []
            un.iters.append(it)
            self.trace = it
            self.eval_cond(s.test, cur)
            out = self.exec_block(s.body, cur)
            self.trace = save
            wrap.append(out)
            f = self.fold(out, ("normal", "continue"))
            if f is None:
                tail = out
                for o in reversed(wrap[:-1]):
                    if isinstance(o, Leaf):
                        continue
                    tail = self._replace2(o, tail)
                return self._break_to_normal(tail)
            cur = f[0]
            count += 1
        if wrap:
            # give up unrolling: summarise the remainder from the current state
            tail = self.summarise(s, None, None, cur)
            for out in reversed(wrap):
                if isinstance(out, Leaf) and out.kind in ("normal", "continue"):
                    continue
                tail = self._replace2(out, tail)
            return tail
        return self.summarise(s, None, None, st)

    def summarise(self, s, domain, elem, st):
        self.stats["loops"] += 1
        lid = fresh_id()
        bv = T("bv", lid)
        is_while = domain is None
        entry = st.fork()
        mods = set()
        save = self.trace
        fid = self.stack[-1]["fid"]
        for _ in range(6):
            probe = entry.fork()
            self.havoc(probe, mods, lid, entry)
            self.trace = []
            out, _c = self.iteration(s, elem, bv, probe, is_while)
            f = self.fold(out, ("normal", "continue", "break"))
            new = set(mods)
            if f is not None:
                new |= self.modified(entry, f[0])
            g = self.fold(out, ("return",))
            if new == mods:
                break
            mods = new
        self.trace = save
        ln = Loop(lid, domain, s, self.mod)
        self.trace.append(ln)
        body = entry.fork()
        self.havoc(body, mods, lid, entry)
        pre = body.fork()
        self.trace = ln.body
        out, wc = self.iteration(s, elem, bv, body, is_while)
        self.trace = save
        if is_while:
            domain = T("while", lid, wc)
            ln.domain = domain
        f = self.fold(out, ("normal", "continue"))
        fb = self.fold(out, ("break",))
        ret = self.fold(out, ("return",))
        res = None
        if f is not None or fb is not None:
            if f is not None and fb is not None:
                end = self.merge(T("brk", lid), fb[0], f[0])
            else:
                end = (f or fb)[0]
            res = entry.fork()
            self.close(res, entry, pre, end, mods, lid, domain)
        else:
            res = entry.fork()
        if s.orelse:
            self.trace = ln.orelse
            o = self.exec_block(s.orelse, res.fork())
            self.trace = save
            fo = self.fold(o, ("normal",))
            if fb is None and fo is not None:
                res = fo[0]
            elif fo is not None:
                res = self.merge(T("anybreak", lid), res, fo[0])
            if self.has(o, ("return",)):
                r2 = self.fold(o, ("return",))
                if fb is None:
                    norm = Leaf("return", r2[0], r2[1])
                else:
                    norm = Node(T("anybreak", lid), Leaf("normal", res), Leaf("return", r2[0], r2[1]))
                if ret is not None:
                    return Node(T("anyret", lid, domain), Leaf("return", ret[0], ret[1]), norm)
                return norm
        if ret is not None:
            return Node(T("anyret", lid, domain), Leaf("return", ret[0], ret[1]), Leaf("normal", res))
        if is_while and f is None and fb is None and not self.has(out, ("return",)):
            return Leaf("normal", res)
        return Leaf("normal", res)

    def iteration(self, s, elem, bv, st, is_while):
        wc = None
        if is_while:
            c, tr = self.eval_cond(s.test, st)
            wc = c
            if tr is None:
                self.assume(c, True, st)
        else:
            self.assign(s.target, elem(bv, st), st, s)
        return self.exec_block(s.body, st), wc

    def modified(self, a, b):
        mods = set()
        for fid, fr in b.frames.items():
            fa = a.frames.get(fid)
            if fa is None:
                continue
            for n, v in fr.items():
                if n not in fa or not self.sameval(fa[n], v):
                    mods.add(("v", fid, n))
        for k, c in b.heap.items():
            if k in a.heap and a.heap[k] is not c:
                if isinstance(c, InstC) and isinstance(a.heap[k], InstC):
                    for n, v in c.attrs.items():
                        if n not in a.heap[k].attrs or not self.sameval(a.heap[k].attrs[n], v):
                            mods.add(("i", k, n))
                elif not self.samecell(a.heap[k], c):
                    mods.add(("h", k))
        for k, v in b.over.items():
            if k not in a.over or not self.sameval(a.over[k], v):
                mods.add(("o", k))
        for k, v in b.cont.items():
            if a.cont.get(k) is not v:
                mods.add(("c", k))
        return mods

    def sameval(self, a, b):
        return self.segeq(("e", a), ("e", b))

    def samecell(self, a, b):
        if a is b:
            return True
        if isinstance(a, ListC) and isinstance(b, ListC):
            return len(a.segs) == len(b.segs) and all(
                self.segeq(x, y) for x, y in zip(a.segs, b.segs))
        if isinstance(a, DictC) and isinstance(b, DictC):
            return a.base is b.base and len(a.items) == len(b.items) and all(
                k1 is k2 and self.sameval(v1, v2)
                for (k1, v1), (k2, v2) in zip(a.items, b.items))
        if isinstance(a, ArrC) and isinstance(b, ArrC):
            return a.t is b.t
        return False

    def muname(self, key):
        if key[0] in ("v", "i"):
            return key[2]
        if key[0] == "h":
            return "heap"
        if key[0] == "o":
            return key[1]
        return "cont"

    def mu(self, key, lid):
        return T("mu", lid, key, self.mu_init.get((lid, key)))

    def mu_entry(self, key, entry):
        """value of a loop-carried location before the loop"""
        if key[0] == "v":
            v = entry.frames.get(key[1], {}).get(key[2])
        elif key[0] == "i":
            v = entry.heap[key[1]].attrs.get(key[2]) if key[1] in entry.heap else None
        elif key[0] == "h":
            return self.freeze_cell(entry.heap[key[1]], entry) if key[1] in entry.heap else None
        elif key[0] == "o":
            v = entry.over.get(key[1])
            if v is None:
                return attr(*key[1])
        else:
            return entry.cont.get(key[1], key[1])
        return None if v is None else self.freeze(v, entry)

    def carried(self, t, steps, seen):
        """replace the loop-carried values of other locations by their recurrences"""
        m = {}
        for x in walk(t):
            if x.op == "mu" and x in steps and x not in seen:
                lid, key, init = x.args
                body = self.carried(steps[x], steps, seen | {x}) if len(seen) < 4 else steps[x]
                new = self.car_ids.setdefault((lid, key), 10 ** 7 + len(self.car_ids))
                ren = {y: T("mu", new, *y.args[1:]) for y in walk(body) if y.op == "mu" and y.args[0] == lid}
                ren[T("bv", lid)] = T("bv", new)
                m[x] = T("car", new, init, subst(body, ren), T("bv", lid))
        return subst(t, m) if m else t

    def havoc(self, st, mods, lid, entry):
        for key in mods:
            if (lid, key) not in self.mu_init:
                self.mu_init[(lid, key)] = self.mu_entry(key, entry)
            m = self.mu(key, lid)
            if key[0] == "v":
                if key[2] in entry.frames.get(key[1], {}):
                    st.frames[key[1]][key[2]] = m
            elif key[0] == "i":
                c = st.heap[key[1]]
                d = dict(c.attrs)
                d[key[2]] = m
                st.heap[key[1]] = InstC(c.ci, d)
            elif key[0] == "h":
                c = st.heap[key[1]]
                if isinstance(c, ListC):
                    st.heap[key[1]] = ListC([("c", m)])
                elif isinstance(c, DictC):
                    st.heap[key[1]] = DictC((), m)
                elif isinstance(c, SetC):
                    st.heap[key[1]] = SetC((), m)
                else:
                    st.heap[key[1]] = ArrC(m)
            elif key[0] == "o":
                st.over[key[1]] = m
            else:
                st.cont[key[1]] = m

    def close(self, res, entry, pre, end, mods, lid, domain):
        steps = {}
        for key in mods:
            m = self.mu(key, lid)
            if key[0] == "v":
                v = end.frames.get(key[1], {}).get(key[2])
            elif key[0] == "i":
                v = end.heap[key[1]].attrs.get(key[2])
            elif key[0] == "h":
                t = self.freeze_cell(end.heap[key[1]], end)
                if t is not m:
                    steps[m] = t
                continue
            elif key[0] == "o":
                v = end.over.get(key[1])
            else:
                v = end.cont.get(key[1])
            if v is not None and v is not m:
                steps[m] = self.freeze(v, end)
        self.close_all(res, entry, pre, end, mods, lid, domain)
        if len(steps) < 2:
            return

        def fix(t, m):
            if not isinstance(t, T):
                return t
            if t.op == "fold" and t.args[0] == lid and m in steps and steps[m] is t.args[3]:
                return T("fold", lid, t.args[1], t.args[2], self.carried(t.args[3], steps, frozenset([m])))
            return self.carried(t, steps, frozenset([m]))
        for key in mods:
            m = self.mu(key, lid)
            if key[0] == "v":
                fr = res.frames.get(key[1], {})
                if key[2] in fr:
                    fr[key[2]] = fix(fr[key[2]], m)
            elif key[0] == "i":
                c = res.heap[key[1]]
                if key[2] in c.attrs:
                    d = dict(c.attrs)
                    d[key[2]] = fix(d[key[2]], m)
                    res.heap[key[1]] = InstC(c.ci, d)
            elif key[0] == "h":
                c = res.heap[key[1]]
                if isinstance(c, ListC):
                    res.heap[key[1]] = ListC([(k, fix(v, m)) for k, v in c.segs])
                elif isinstance(c, DictC) and c.base is not None:
                    res.heap[key[1]] = DictC(c.items, fix(c.base, m))
                elif isinstance(c, ArrC):
                    res.heap[key[1]] = ArrC(fix(c.t, m))
            elif key[0] == "o":
                if key[1] in res.over:
                    res.over[key[1]] = fix(res.over[key[1]], m)
            elif key[1] in res.cont:
                res.cont[key[1]] = fix(res.cont[key[1]], m)

    def close_all(self, res, entry, pre, end, mods, lid, domain):
        # allocate everything new
        for k, c in end.heap.items():
            if k not in res.heap:
                res.heap[k] = c
        for key in mods:
            m = self.mu(key, lid)
            if key[0] == "v":
                _, fid, n = key
                if fid not in end.frames or n not in end.frames[fid]:
                    continue
                v1 = end.frames[fid][n]
                v0 = entry.frames.get(fid, {}).get(n)
                if v1 is m:
                    if v0 is not None:
                        res.frames[fid][n] = v0
                    continue
                t1 = self.freeze(v1, end)
                if v0 is None:
                    res.frames[fid][n] = T("last", lid, domain, t1)
                else:
                    res.frames[fid][n] = T("fold", lid, domain, self.freeze(v0, entry), t1)
            elif key[0] == "i":
                _, rid, n = key
                v1 = end.heap[rid].attrs.get(n)
                c0 = entry.heap[rid]
                v0 = c0.attrs.get(n)
                d = dict(res.heap[rid].attrs)
                if v1 is m:
                    if v0 is not None:
                        d[n] = v0
                else:
                    t1 = self.freeze(v1, end)
                    d[n] = (T("last", lid, domain, t1) if v0 is None
                            else T("fold", lid, domain, self.freeze(v0, entry), t1))
                res.heap[rid] = InstC(c0.ci, d)
            elif key[0] == "h":
                rid = key[1]
                c0, c1 = entry.heap[rid], end.heap[rid]
                res.heap[rid] = self.close_cell(c0, c1, m, entry, end, lid, domain)
            elif key[0] == "o":
                v1 = end.over.get(key[1])
                if v1 is None or v1 is m:
                    if key[1] in entry.over:
                        res.over[key[1]] = entry.over[key[1]]
                    continue
                if mentions(key[1][0], T("bv", lid)):
                    res.over[key[1]] = v1
                    continue
                t1 = self.freeze(v1, end)
                v0 = entry.over.get(key[1])
                t0 = self.freeze(v0, entry) if v0 is not None else attr(*key[1])
                res.over[key[1]] = T("fold", lid, domain, t0, t1)
            else:
                v1 = end.cont.get(key[1])
                if v1 is None or v1 is m:
                    continue
                res.cont[key[1]] = T("fold", lid, domain, entry.cont.get(key[1], key[1]), v1)

    def close_cell(self, c0, c1, m, entry, end, lid, domain):
        if isinstance(c0, ListC) and isinstance(c1, ListC):
            segs = c1.segs
            if segs and segs[0][0] == "c" and segs[0][1] is m:
                rest = segs[1:]
                if not rest:
                    return c0
                body = self.freeze_segs(rest, end, (), "segs")
                if not mentions(body, m):
                    return ListC(c0.segs + (("c", self.mkcomp(lid, domain, body)),))
        if isinstance(c0, DictC) and isinstance(c1, DictC):
            if c1.base is m and not c1.items:
                return c0
            t0 = self.freeze_cell(c0, entry)
            t1 = self.freeze_cell(c1, end)
            if c1.base is m and not c0.items and c0.base is None and all(
                not mentions(self.freeze(v, end), m) and not mentions(k, m) for k, v in c1.items
            ):
                return DictC((), T("dictcomp", lid, domain, *[
                    T("pair", k, self.freeze(v, end)) for k, v in c1.items]))
            return DictC((), T("fold", lid, domain, t0, t1))
        if isinstance(c0, SetC) and isinstance(c1, SetC):
            return SetC((), T("fold", lid, domain, self.freeze_cell(c0, entry),
                              self.freeze_cell(c1, end)))
        t1 = self.freeze_cell(c1, end)
        if t1 is m:
            return c0
        return ArrC(T("fold", lid, domain, self.freeze_cell(c0, entry), t1))

    def mkcomp(self, lid, domain, body):
        if len(body.args) == 1:
            b = body.args[0]
            if b.op == "splatphi":
                c, x, y = b.args
                if len(x.args) == 1 and not y.args and x.args[0].op not in ("splat", "splatphi"):
                    return T("compif", lid, domain, c, x.args[0])
                if len(y.args) == 1 and not x.args and y.args[0].op not in ("splat", "splatphi"):
                    return T("compif", lid, domain, mknot(c), y.args[0])
            elif b.op != "splat":
                return T("comp", lid, domain, b)
        return T("compseg", lid, domain, body)

    # ---- iteration -----------------------------------------------------
    def concrete_seq(self, v, st):
        """python list of element values if the sequence is statically known"""
        if isinstance(v, Tup):
            return list(v.vals)
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC) and c.concrete():
                return c.vals()
            if isinstance(c, DictC) and c.base is None:
                return [k for k, _ in c.items]
            if isinstance(c, SetC) and c.base is None and len(c.elems) <= 1:
                return list(c.elems)
            if isinstance(c, ArrC):
                return arr1(c.t)
            return None
        if isinstance(v, IterV):
            return self.iterv_seq(v, st)
        if isinstance(v, T):
            v = st.cont.get(v, v)
            if v.op in ("tuple", "list") and not any(
                x.op in ("splat", "splatphi", "star") for x in v.args
            ):
                return list(v.args)
            if is_const(v) and isinstance(cval(v), (str, tuple)):
                return [const(x) for x in cval(v)]
        return None

    def iterv_seq(self, v, st):
        k, a = v.kind, v.args
        if k == "range":
            if all(is_const(x) and isinstance(cval(x), int) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= self.unroll:
                    return [const(x) for x in r]
            return None
        if k == "enumerate":
            s = self.concrete_seq(a[0], st)
            if s is None or not is_const(a[1]):
                return None
            return [Tup([const(cval(a[1]) + n), x]) for n, x in enumerate(s)]
        if k == "zip":
            ss = [self.concrete_seq(x, st) for x in a]
            if any(s is None for s in ss):
                known = [s for s in ss if s is not None]
                if known and len(known) < len(ss):
                    n = min(len(s) for s in known)
                    ss = [s if s is not None else
                          [self.load_item(x, const(q), st, None) for q in range(n)]
                          for s, x in zip(ss, a)]
                else:
                    return None
            return [Tup(x) for x in zip(*ss)]
        if k in ("items", "keys", "values"):
            if isinstance(a[0], Ref):
                c = self.cell(a[0], st)
                if isinstance(c, DictC) and c.base is None:
                    if k == "items":
                        return [Tup([kk, vv]) for kk, vv in c.items]
                    return [kk for kk, _ in c.items] if k == "keys" else [vv for _, vv in c.items]
            return None
        if k == "reversed":
            s = self.concrete_seq(a[0], st)
            return None if s is None else list(reversed(s))
        if k == "map":
            s = self.concrete_seq(a[1], st)
            return None if s is None else [self.apply(a[0], [x], {}, st, None) for x in s]
        if k == "filter":
            s = self.concrete_seq(a[1], st)
            if s is None:
                return None
            out = []
            for x in s:
                r = self.truth(x if a[0] is NONE else self.apply(a[0], [x], {}, st, None), st)
                if r is None:
                    return None
                if r:
                    out.append(x)
            return out
        return None

    def symbolic_iter(self, v, st):
        """(domain term, elem(bv, st) -> value)"""
        if isinstance(v, IterV):
            k, a = v.kind, v.args
            if k == "range":
                ts = [self.freeze(x, st) for x in a]
                if len(ts) == 1:
                    ts = [const(0)] + ts
                if len(ts) == 3 and ts[2] is const(1):
                    ts = ts[:2]
                return T("range", *ts), lambda bv, s: bv
            if k == "enumerate":
                d, e = self.symbolic_iter(a[0], st)
                start = self.freeze(a[1], st)
                if d.op == "range" and len(d.args) == 2 and d.args[0] is const(0):
                    return d, lambda bv, s: Tup([self.binop("+", bv, start), e(bv, s)])
                return T("enum", d), lambda bv, s: Tup([
                    self.binop("+", T("pos", bv), start), e(bv, s)])
            if k == "zip":
                parts = [self.symbolic_iter(x, st) for x in a]
                doms = [p[0] for p in parts]
                d = doms[0] if all(x is doms[0] for x in doms) else T("zipdom", *doms)
                if len(a) == 1 or not all(x.op == "range" for x in doms):
                    return d, lambda bv, s: Tup([p[1](bv, s) for p in parts])
                return d, lambda bv, s: Tup([p[1](bv, s) for p in parts])
            if k in ("items", "keys", "values"):
                t = self.freeze(a[0], st)
                d = T("range", const(0), T("len", t))
                key = lambda bv: T("elemof", t, bv)
                val = lambda bv: item(t, T("elemof", t, bv))
                if k == "items":
                    return d, lambda bv, s: Tup([key(bv), val(bv)])
                return d, (lambda bv, s: key(bv)) if k == "keys" else (lambda bv, s: val(bv))
            if k == "reversed":
                d, e = self.symbolic_iter(a[0], st)
                return T("reversed", d), e
            if k == "map":
                d, e = self.symbolic_iter(a[1], st)
                return d, lambda bv, s: self.apply(a[0], [e(bv, s)], {}, s, None)
            if k == "filter":
                t = self.freeze(v, st)
                return T("range", const(0), T("len", t)), lambda bv, s: T("elemof", t, bv)
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC) and len(c.segs) == 1 and c.segs[0][0] == "c":
                return self.chunk_iter(c.segs[0][1])
        t = self.freeze(v, st)
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "splat":
            return self.chunk_iter(t.args[0].args[0])
        return T("range", const(0), T("len", t)), lambda bv, s: T("elemof", t, bv)

    def chunk_iter(self, ch):
        if ch.op == "comp":
            lid, d, b = ch.args
            return d, lambda bv, s: subst(b, {T("bv", lid): bv})
        return T("range", const(0), T("len", ch)), lambda bv, s: T("elemof", ch, bv)

    # ---- variables -----------------------------------------------------
    def setvar(self, name, v, st):
        fr = self.stack[-1]
        if name in fr["globals"]:
            self.emit("setglobal", name, None, args=(self.freeze(v, st),))
            self.gcache[(self.mod.name, name)] = v
            return
        if name in fr["nonlocals"]:
            fid = fr["parent"]
            while fid is not None:
                if name in st.frames.get(fid, {}):
                    st.frames[fid][name] = v
                    return
                fid = self.parents.get(fid)
        st.frames[fr["fid"]][name] = v

    parents = {}

    def lookup(self, name, st, node):
        fr = self.stack[-1] if self.stack else None
        if fr is not None and name not in fr["globals"]:
            fid = fr["fid"]
            while fid is not None:
                d = st.frames.get(fid)
                if d is not None and name in d:
                    return d[name]
                fid = self.parents.get(fid)
            if name == "__class__" and fr["cls"] is not None:
                return ClassV(fr["cls"])
        return self.global_value(self.mod, name)

    def global_value(self, mod, name):
        key = (mod.name, name)
        if key in self.gcache:
            return self.gcache[key]
        r = self.prog.resolve(mod, name)
        if r is None:
            if name in BUILTINS:
                return ext(name)
            if name in ("__name__", "__file__", "__doc__"):
                return sym(name)
            return sym("#undef:" + name)
        v = self.resolved(r)
        self.gcache[key] = v
        return v

    def resolved(self, r):
        if r[0] == "func":
            fi = r[1]
            return Func(fi)
        if r[0] == "class":
            return ClassV(r[1])
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return ext(r[1])
        _, mod, name = r
        key = (mod.name, name)
        if key in self.gcache:
            return self.gcache[key]
        asg = mod.assigns[name]
        if len(asg) != 1 or key in self.ginflight:
            return sym("%s.%s" % (mod.name, name))
        st_node, k = asg[0]
        self.ginflight.add(key)
        save = (self.trace, self.stack)
        self.trace, self.stack = [], []
        self.mod_stack.append(mod)
        try:
            st = self.module_state
            fid = fresh_id()
            st.frames[fid] = {}
            self.stack = [dict(fi=_ModFI(mod), fid=fid, parent=None, globals=set(),
                               nonlocals=set(), cls=None, mod=mod)]
            self.parents[fid] = None
            v = self.eval(st_node.value, st)
            if k is not None:
                tgt = [t for t in st_node.targets if isinstance(t, (ast.Tuple, ast.List))][0]
                v = self.unpack(v, len(tgt.elts), st)[k]
            self.gheap.update(st.heap)
        except (Bottom, AnalysisBroken):
            v = sym("%s.%s" % (mod.name, name))
        finally:
            self.mod_stack.pop()
            self.trace, self.stack = save
            self.ginflight.discard(key)
        self.gcache[key] = v
        return v

    # ---- expressions -----------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported expression %s at %s:%d" % (
                type(e).__name__, self.mod.rel, e.lineno))
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, complex) or v is Ellipsis:
            return sym(repr(v))
        return const(v)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Tuple(self, e, st):
        return Tup(self.seq_elems(e.elts, st)) if not self._has_open_star(e.elts, st) \
            else self._open_list(e.elts, st)

    def e_List(self, e, st):
        if self._has_open_star(e.elts, st):
            return self._open_list(e.elts, st)
        return self.newlist(st, self.seq_elems(e.elts, st))

    def _has_open_star(self, elts, st):
        return any(isinstance(x, ast.Starred) for x in elts)

    def _open_list(self, elts, st):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                segs.extend(self.as_segs(v, st))
            else:
                segs.append(("e", self.eval(x, st)))
        return self.alloc(st, ListC(segs))

    def as_segs(self, v, st):
        s = self.concrete_seq(v, st)
        if s is not None:
            return [("e", x) for x in s]
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                return list(c.segs)
        if isinstance(v, IterV):
            d, e = self.symbolic_iter(v, st)
            lid = fresh_id()
            return [("c", T("comp", lid, d, self.freeze(e(T("bv", lid), st), st)))]
        t = self.freeze(v, st)
        if t.op == "list":
            return [("c", x.args[0]) if x.op == "splat" else
                    (("e", x) if x.op != "splatphi" else
                     ("phi", x.args[0], self._tseg(x.args[1]), self._tseg(x.args[2])))
                    for x in t.args]
        if t.op == "phi" and all(x.op in ("list", "tuple") for x in t.args[1:]):
            return [("phi", t.args[0], self._tseg(t.args[1]), self._tseg(t.args[2]))]
        return [("c", t)]

    def _tseg(self, t):
        return tuple(("c", x.args[0]) if x.op == "splat" else
                     (("e", x) if x.op != "splatphi" else
                      ("phi", x.args[0], self._tseg(x.args[1]), self._tseg(x.args[2])))
                     for x in t.args)

    def seq_elems(self, elts, st):
        return [self.eval(x, st) for x in elts]

    def e_Set(self, e, st):
        return self.alloc(st, SetC(self.seq_elems(e.elts, st)))

    def e_Dict(self, e, st):
        r = self.alloc(st, DictC())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.eval(v, st), st)
            else:
                kk = self.freeze(self.eval(k, st), st)
                vv = self.eval(v, st)
                st.heap[r.id] = self.cell(r, st).set(kk, vv)
        return r

    def dict_update(self, r, v, st):
        c = self.cell(r, st)
        if isinstance(v, Ref):
            o = self.cell(v, st)
            if isinstance(o, DictC) and isinstance(c, DictC):
                if o.base is None:
                    for k, x in o.items:
                        c = c.set(k, x)
                    st.heap[r.id] = c
                    return
                if not c.items and c.base is None:
                    st.heap[r.id] = o
                    return
        seq = self.concrete_seq(v, st) if not isinstance(v, Ref) or isinstance(self.cell(v, st), ListC) else None
        if seq is not None and isinstance(c, DictC):
            prs = [self.concrete_seq(x, st) for x in seq]
            if all(p is not None and len(p) == 2 for p in prs):
                for k, x in prs:
                    c = c.set(self.freeze(k, st), x)
                st.heap[r.id] = c
                return
        t = self.freeze(v, st)
        if isinstance(c, DictC) and not c.items and c.base is None:
            st.heap[r.id] = DictC((), t)
        else:
            st.heap[r.id] = DictC((), T("dictmerge", self.freeze(r, st), t))

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.freeze(self.eval(x.value, st), st)
                if x.conversion not in (-1, 115) or x.format_spec is not None:
                    sp = (self.freeze(self.eval(x.format_spec, st), st)
                          if x.format_spec is not None else NONE)
                    v = T("fmtspec", x.conversion, v, sp)
                parts.append(v)
        return self.mkfmt(parts)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def mkfmt(self, parts):
        out = []
        for p in parts:
            if p.op == "fmt":
                sub = list(p.args)
            elif is_const(p) and not isinstance(cval(p), float):
                sub = [const(str(cval(p)))]
            else:
                sub = [p]
            for q in sub:
                if is_const(q) and out and is_const(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(q))
                else:
                    out.append(q)
        out = [p for p in out if not (is_const(p) and cval(p) == "")]
        if not out:
            return const("")
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return T("fmt", *out)

    def e_BinOp(self, e, st):
        return self.v_binop(BINOPS[type(e.op)], self.eval(e.left, st), self.eval(e.right, st), st)

    def arr_binop(self, op, a, b, st):
        """elementwise operation of 1-d arrays with known elements"""
        def elems(v):
            if isinstance(v, Ref) and isinstance(self.cell(v, st), ArrC):
                return arr1(self.cell(v, st).t)
            return None

        def scalar(v):
            return isinstance(v, T) and (v in self.scalars or v in self.int_syms or (
                is_const(v) and isinstance(cval(v), (int, float))) or (
                v.op in ("bin", "neg") and all(scalar(w) for w in v.args if isinstance(w, T))))
        x, y = elems(a), elems(b)
        if x is None and y is None:
            return None
        if x is None:
            if not scalar(a):
                return None
            x = [a] * len(y)
        if y is None:
            if not scalar(b):
                return None
            y = [b] * len(x)
        if len(x) != len(y):
            return None
        return self.alloc(st, ArrC(T("call", ext("numpy.asarray"), T(
            "list", *[self.binop(op, p, q) for p, q in zip(x, y)]))))

    def v_binop(self, op, a, b, st):
        if op == "+":
            sa, sb = self._list_segs(a, st), self._list_segs(b, st)
            if sa is not None and sb is not None:
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return Tup(a.vals + b.vals)
                return self.alloc(st, ListC(tuple(sa) + tuple(sb)))
            if sa is not None and isinstance(b, T) and self._seqlike(a, st):
                return self.alloc(st, ListC(tuple(sa) + tuple(self.as_segs(b, st))))
            if sb is not None and isinstance(a, T) and self._seqlike(b, st):
                return self.alloc(st, ListC(tuple(self.as_segs(a, st)) + tuple(sb)))
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Ref, Tup)) and isinstance(y, T):
                    sx = self._list_segs(x, st)
                    if sx is not None:
                        if is_const(y) and isinstance(cval(y), int):
                            vs = list(sx) * cval(y)
                            if isinstance(x, Tup):
                                return Tup([v[1] for v in vs])
                            return self.alloc(st, ListC(vs))
                        # [v]*n with symbolic n
                        body = self.freeze_segs(sx, st, (), "segs")
                        lid = fresh_id()
                        d = T("range", const(0), y)
                        return self.alloc(st, ListC([("c", self.mkcomp(lid, d, body))]))
        if op in ("+", "-", "*", "/", "//", "%", "**"):
            r = self.arr_binop(op, a, b, st)
            if r is not None:
                return r
        ta, tb = self.freeze(a, st), self.freeze(b, st)
        if op == "%" and is_const(ta) and isinstance(cval(ta), str):
            return self.percent(cval(ta), b, tb, st)
        if isinstance(a, PhiV) or isinstance(b, PhiV):
            pass
        return self.binop(op, ta, tb)

    def _seqlike(self, a, st):
        return isinstance(a, (Ref, Tup))

    def _list_segs(self, v, st):
        if isinstance(v, Tup):
            return [("e", x) for x in v.vals]
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                return list(c.segs)
        return None

    def percent(self, s, b, tb, st):
        seq = list(b.vals) if isinstance(b, Tup) else [b]
        parts, i, k = [], 0, 0
        buf = ""
        try:
            while i < len(s):
                if s[i] == "%":
                    j = i + 1
                    if s[j] == "%":
                        buf += "%"
                        i = j + 1
                        continue
                    if s[j] == "(":
                        return T("fmtdict", s, tb)
                    while s[j] not in "diouxXeEfFgGcrsa":
                        j += 1
                    spec = s[i + 1:j + 1]
                    parts.append(const(buf))
                    buf = ""
                    v = self.freeze(seq[k], st)
                    k += 1
                    parts.append(v if spec in ("s", "d", "i") else T("fmtspec", spec, v, NONE))
                    i = j + 1
                else:
                    buf += s[i]
                    i += 1
            parts.append(const(buf))
            return self.mkfmt(parts)
        except (IndexError, StopIteration):
            return T("bin", "%", const(s), tb)

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            num = (int, float, bool)
            try:
                if isinstance(x, num) and isinstance(y, num):
                    if op == "+":
                        return const(x + y)
                    if op == "-":
                        return const(x - y)
                    if op == "*":
                        return const(x * y)
                    if op == "//":
                        return const(x // y)
                    if op == "%":
                        return const(x % y)
                    if isinstance(x, int) and isinstance(y, int) and op in ("^", "|", "&", "<<", ">>") and abs(y) < 64:
                        return const({"^": x ^ y, "|": x | y, "&": x & y}[op] if op in "^|&" else
                                     x << y if op == "<<" else x >> y)
                    if op == "**" and abs(y) < 64:
                        return const(x ** y)
                    if op == "/":
                        r = x / y
                        return const(r)
                if isinstance(x, str) and isinstance(y, str) and op == "+":
                    return const(x + y)
                if isinstance(x, str) and isinstance(y, int) and op == "*":
                    return const(x * y)
            except Exception:
                pass
        if op in ("//", "%") and self.int_syms and is_const(b) and isinstance(cval(b), int) and cval(b) > 0:
            q = lin_div(a, cval(b), self.int_syms)
            if q is not None:
                return q[0] if op == "//" else q[1]
        if op == "+" and (a.op == "fmt" or b.op == "fmt" or
                          any(is_const(x) and isinstance(cval(x), str) for x in (a, b))):
            return self.mkfmt([a, b])
        if a.op == "list" and b.op == "list" and op == "+":
            return T("list", *(a.args + b.args))
        if a.op == "tuple" and b.op == "tuple" and op == "+":
            return T("tuple", *(a.args + b.args))
        if op == "+" and is_const(b) and cval(b) == 0 and isinstance(cval(b), int) and a.op == "bv":
            return a
        return T("bin", op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            r = self.truth(v, st)
            if r is not None:
                return const(not r)
            t = self.freeze(v, st)
            if not isinstance(v, T):
                t = T("truth", t)
            return mknot(t)
        t = self.freeze(v, st)
        if isinstance(e.op, ast.USub):
            if is_const(t) and isinstance(cval(t), (int, float)):
                return const(-cval(t))
            return T("neg", t)
        if isinstance(e.op, ast.UAdd):
            return t
        return T("call", ext("numpy.invert"), t)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(e.values, st, is_and, e)

    def boolop(self, values, st, is_and, node):
        v = self.eval(values[0], st)
        if len(values) == 1:
            return v
        r = self.truth(v, st)
        if r is not None:
            if r is (not is_and):
                return v
            return self.boolop(values[1:], st, is_and, node)
        c = self.freeze(v, st)
        if not isinstance(v, T):
            c = T("truth", c)
        s2, s1 = st.fork(), st.fork()
        self.assume(c, is_and, s2)
        self.assume(c, not is_and, s1)
        br = Branch(c if is_and else mknot(c), node, self.mod)
        save, self.trace = self.trace, br.a
        try:
            w = self.boolop(values[1:], s2, is_and, node)
            wt = self.freeze(w, s2)
            if not isinstance(w, (T,)):
                wt = T("truth", wt) if not is_const(wt) else wt
        finally:
            self.trace = save
        if br.a:
            self.trace.append(br)
        st.assign(self.merge(c, s2, s1) if is_and else self.merge(c, s1, s2))
        op = "and" if is_and else "or"
        args = []
        for x in (c, wt):
            args.extend(x.args if x.op == op else (x,))
        return T(op, *args)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            c = self.compare(op, left, right, st)
            out = c if out is None else self.mkand(out, c)
            left = right
        return out

    def mkand(self, a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return T("and", *((a.args if a.op == "and" else (a,)) + (b.args if b.op == "and" else (b,))))

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            ta, tb = self.freeze(a, st), self.freeze(b, st)
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = True if a.id == b.id else None
            if tb is NONE or ta is NONE:
                x = a if tb is NONE else b
                tx = ta if tb is NONE else tb
                if tx is NONE:
                    r = True
                elif not isinstance(x, (T, PhiV)):
                    r = False
                elif is_const(tx) or tx.op in ("funcref", "classref", "tuple", "list", "lam",
                                               "fmt", "ext", "dict", "modref", "symbol"):
                    r = False
                elif tx.op in ("bin", "neg", "comp", "splat"):
                    r = False
                elif st.facts.get(tx) is True:
                    r = False
                if ta is NONE:
                    ta, tb = tb, ta
            elif ta is tb and isinstance(a, T):
                r = True
            elif is_const(ta) and is_const(tb):
                r = cval(ta) is cval(tb) or (type(cval(ta)) == type(cval(tb)) and cval(ta) == cval(tb))
            t = const(r) if r is not None else T("is", ta, tb)
            if t in st.facts:
                t = const(st.facts[t])
            if isinstance(op, ast.IsNot):
                t = mknot(t)
            return t
        if isinstance(op, (ast.In, ast.NotIn)):
            ta = self.freeze(a, st)
            r = None
            seq = None
            if isinstance(b, IterV) and b.kind == "keys":
                b = b.args[0]
            if isinstance(b, (Tup, Ref, IterV)):
                seq = self.concrete_seq(b, st)
                if seq is None and isinstance(b, Ref) and isinstance(self.cell(b, st), SetC):
                    c = self.cell(b, st)
                    seq = list(c.elems) if c.base is None else None
                if seq is not None:
                    seq = [self.freeze(x, st) for x in seq]
                    if any(x is ta for x in seq):
                        r = True
                    elif is_const_like(ta) and all(is_const_like(x) for x in seq):
                        r = False
                if isinstance(b, Ref):
                    c = self.cell(b, st)
                    if isinstance(c, DictC) and c.get(ta) is not None and c.get(ta) is not sym("#absent"):
                        v = c.get(ta)
                        tv = v if isinstance(v, T) else None
                        if tv is None or not any(x is sym("#absent") for x in walk(tv)):
                            r = True
            tb = self.freeze(b, st)
            if tb.op == "const" and is_const(ta) and isinstance(cval(tb), str):
                r = cval(ta) in cval(tb)
            t = const(r) if r is not None else T("in", ta, self.keysof(tb))
            if t in st.facts:
                t = const(st.facts[t])
            return mknot(t) if isinstance(op, ast.NotIn) else t
        ta, tb = self.freeze(a, st), self.freeze(b, st)
        return self.cmp(type(op).__name__, ta, tb, st)

    def keysof(self, t):
        if t.op == "keys":
            return t.args[0]
        return t

    def cmp(self, name, a, b, st):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                r = {"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y,
                     "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[name]()
                return const(bool(r))
            except TypeError:
                pass
        if name in ("Eq", "NotEq"):
            r = None
            if a is b and a.op not in ("call",):
                r = True
            elif is_const_like(a) and is_const_like(b) and a is not b and a.op == b.op:
                if a.op != "const" or type(cval(a)) == type(cval(b)):
                    r = False
            elif a.op in ("tuple", "list") and b.op == a.op and len(a.args) == len(b.args) \
                    and all(is_const(x) for x in a.args + b.args):
                r = [cval(x) for x in a.args] == [cval(x) for x in b.args]
            if r is not None:
                return const(r if name == "Eq" else not r)
            if is_const(a) and not is_const(b):
                a, b = b, a
            t = T("==", a, b)
            if t in st.facts:
                t = const(st.facts[t])
            elif T("==", b, a) in st.facts:
                t = const(st.facts[T("==", b, a)])
            elif is_const(b):
                # a == other constant already known
                for f, v in st.facts.items():
                    if v and f.op == "==" and f.args[0] is a and is_const(f.args[1]) \
                            and cval(f.args[1]) != cval(b):
                        t = FALSE
                        break
            return t if name == "Eq" else mknot(t)
        if name == "Gt":
            name, a, b = "Lt", b, a
        elif name == "LtE":
            return mknot(self.cmp("Lt", b, a, st))
        elif name == "GtE":
            return mknot(self.cmp("Lt", a, b, st))
        t = T("<", a, b)
        if t in st.facts:
            return const(st.facts[t])
        return t

    def e_IfExp(self, e, st):
        c, tr = self.eval_cond(e.test, st)
        if tr is not None:
            return self.eval(e.body if tr else e.orelse, st)
        sa, sb = st.fork(), st.fork()
        self.assume(c, True, sa)
        self.assume(c, False, sb)
        br = Branch(c, e, self.mod)
        save = self.trace
        self.trace = br.a
        va = self.eval(e.body, sa)
        self.trace = br.b
        vb = self.eval(e.orelse, sb)
        self.trace = save
        if br.a or br.b:
            self.trace.append(br)
        out = self.merge(c, sa, sb)
        v = self.joinv(c, va, vb, sa, sb, out)
        st.assign(out)
        return v

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.setvar(e.target.id, v, st)
        return v

    def e_Lambda(self, e, st):
        fi = FuncInfo(e, self.mod, parent=self.stack[-1]["fi"].local if self.stack else None)
        return self.mkfunc(fi, e.args, st)

    def e_Starred(self, e, st):
        return T("star", self.freeze(self.eval(e.value, st), st))

    def e_Attribute(self, e, st):
        return self.load_attr(self.eval(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        return self.load_item(self.eval(e.value, st), self.eval_key(e.slice, st), st, e)

    def eval_key(self, s, st):
        if isinstance(s, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in s.elts):
                return self._open_list(s.elts, st)
            return Tup([self.eval_key(x, st) for x in s.elts])
        return self.eval(s, st)

    def e_Slice(self, e, st):
        return T("slice", *[
            self.freeze(self.eval(x, st), st) if x is not None else NONE
            for x in (e.lower, e.upper, e.step)])

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        if self.yields:
            self.yields[-1].append(v)
            if len(self.yields[-1]) >= self.gen_cap:
                raise GenStop()
            return NONE
        self.emit("yield", "yield", e, args=(self.freeze(v, st),))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.emit("yield", "yieldfrom", e, args=(self.freeze(v, st),))
        return NONE

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # comprehensions -----------------------------------------------------
    def comp_segs(self, elts, gens, st):
        """list of segs produced by a comprehension; elts: evaluator"""
        if not gens:
            return [("e", elts(st))]
        g = gens[0]
        itv = self.eval(g.iter, st)
        seq = self.concrete_seq(itv, st)
        if seq is not None and len(seq) <= self.unroll:
            segs = []
            for v in seq:
                self.assign(g.target, v, st, g.iter)
                segs.extend(self.comp_cond(g.ifs, elts, gens[1:], st))
            return segs
        domain, elem = self.symbolic_iter(itv, st)
        lid = fresh_id()
        bv = T("bv", lid)
        ln = Loop(lid, domain, g.iter, self.mod)
        save, self.trace = self.trace, ln.body
        try:
            self.assign(g.target, elem(bv, st), st, g.iter)
            segs = self.comp_cond(g.ifs, elts, gens[1:], st)
        finally:
            self.trace = save
        if ln.body:
            self.trace.append(ln)
        body = self.freeze_segs(segs, st, (), "segs")
        return [("c", self.mkcomp(lid, domain, body))]

    def comp_cond(self, ifs, elts, gens, st):
        if not ifs:
            return self.comp_segs(elts, gens, st)
        c, tr = self.eval_cond(ifs[0], st)
        if tr is True:
            return self.comp_cond(ifs[1:], elts, gens, st)
        if tr is False:
            return []
        s2 = st.fork()
        self.assume(c, True, s2)
        segs = self.comp_cond(ifs[1:], elts, gens, s2)
        segs = tuple(("e", self.freeze(s[1], s2)) if s[0] == "e" and not isinstance(s[1], T)
                     else s for s in segs)
        return [("phi", c, segs, ())]

    def with_scope(self, fn, st):
        fr = self.stack[-1]
        fid = fresh_id()
        self.parents[fid] = fr["fid"]
        st.frames[fid] = {}
        self.stack.append(dict(fr, fid=fid, parent=fr["fid"], globals=set(), nonlocals=set()))
        try:
            return fn()
        finally:
            self.stack.pop()
            st.frames.pop(fid, None)

    def e_ListComp(self, e, st):
        segs = self.with_scope(
            lambda: self.comp_segs(lambda s: self.eval(e.elt, s), e.generators, st), st)
        return self.alloc(st, ListC(segs))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        segs = self.with_scope(
            lambda: self.comp_segs(lambda s: self.eval(e.elt, s), e.generators, st), st)
        if all(s[0] == "e" for s in segs):
            return self.alloc(st, SetC([self.freeze(s[1], st) for s in segs]))
        return self.alloc(st, SetC((), T("setof", self.freeze_segs(segs, st, (), "list"))))

    def e_DictComp(self, e, st):
        def one(s):
            return Tup([self.freeze(self.eval(e.key, s), s), self.eval(e.value, s)])
        segs = self.with_scope(lambda: self.comp_segs(one, e.generators, st), st)
        if all(s[0] == "e" for s in segs):
            d = DictC()
            for s in segs:
                d = d.set(self.freeze(s[1].vals[0], st), s[1].vals[1])
            return self.alloc(st, d)
        if len(segs) == 1 and segs[0][0] == "c" and segs[0][1].op == "comp":
            lid, dom, b = segs[0][1].args
            return self.alloc(st, DictC((), T("dictcomp", lid, dom, T("pair", *b.args))))
        return self.alloc(st, DictC((), T("dictof", self.freeze_segs(segs, st, (), "list"))))

    # ---- attributes ------------------------------------------------------
    def class_of(self, v, st):
        if isinstance(v, Ref):
            c = self.cell(v, st)
            return c.ci if isinstance(c, InstC) else None
        if isinstance(v, T):
            ci = self.types.get(v)
            if ci is not None:
                return ci
            if v.op == "call" and v.args[0].op == "classref":
                return self.prog.cls(v.args[0].args[0])
            if v.op == "attr":
                q = self.attr_types.get(v.args[1])
                if q is not None:
                    return self.prog.cls(q) if isinstance(q, str) else q
            if v.op in ("item", "elemof") and v.args[0].op in ("attr", "sym"):
                nm = v.args[0].args[-1]
                q = self.attr_types.get(str(nm) + "[]")
                if q is not None:
                    return self.prog.cls(q) if isinstance(q, str) else q
        return None

    def load_attr(self, v, name, st, node):
        if isinstance(v, PhiV):
            a = self.load_attr(v.a, name, st, node)
            b = self.load_attr(v.b, name, st, node)
            return self.joinv(v.c, a, b, st, st, st)
        if isinstance(v, T) and self.absent(v, name):
            raise Bottom()
        if isinstance(v, ModV):
            r = self.prog.resolve(v.mi, name)
            if r is None:
                sub = v.mi.name + "." + name
                if sub in self.prog.modules:
                    return ModV(self.prog.modules[sub])
                return sym("%s.%s" % (v.mi.name, name))
            return self.global_value(v.mi, name)
        if isinstance(v, ClassV):
            fi = self.prog.method(v.ci, name)
            if fi is not None:
                return Func(fi, cls=v.ci)
            ca = self.prog.class_attr(v.ci, name)
            if ca is not None:
                return self.eval_class_attr(ca, st)
            if name == "__name__":
                return const(v.ci.name)
            return T("attr", T("classref", v.ci.qual), name)
        if isinstance(v, Func):
            if name == "__name__":
                return const(v.fi.name)
            if name == "__self__" and v.selfv is not None:
                return v.selfv
            return T("attr", self.freeze(v, st), name)
        if isinstance(v, SuperV):
            mro = self.prog.mro(v.ci)
            for c in mro[1:]:
                if name in c.methods:
                    fi = c.methods[name]
                    if is_property(fi):
                        return self.apply(Func(fi, cls=c).bind(v.selfv), [], {}, st, node)
                    return Func(fi, cls=c).bind(v.selfv)
            return T("attr", T("super", v.ci.qual, self.freeze(v.selfv, st)), name)
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, InstC):
                if name in c.attrs:
                    return c.attrs[name]
                r = self.class_member(c.ci, v, name, st, node)
                if r is not None:
                    return r
                if name == "__class__":
                    return ClassV(c.ci)
                return T("attr", self.freeze(v, st), name)
            if isinstance(c, ArrC):
                if name in ("size", "ndim", "shape") and arr1(c.t) is not None:
                    n = const(len(arr1(c.t)))
                    return {"size": n, "ndim": const(1), "shape": Tup([n])}[name]
                if name in ("shape", "size", "ndim", "T", "dtype", "real", "imag"):
                    return T("attr", c.t, name)
                return BM(v, name)
            return BM(v, name)
        if isinstance(v, Tup):
            return BM(v, name)
        if isinstance(v, IterV):
            return BM(v, name)
        if isinstance(v, T):
            if v.op == "ext":
                return ext(v.args[0] + "." + name)
            if (v, name) in st.over:
                return st.over[(v, name)]
            ci = self.class_of(v, st)
            if ci is not None:
                if (ci.name, name) in self.prop_override:
                    return self.prop_override[(ci.name, name)]
                r = self.class_member(ci, v, name, st, node)
                if r is not None:
                    return r
                if name == "__class__":
                    return ClassV(ci)
            base = st.cont.get(v, v)
            if base is not v:
                self.owner[base] = v
            return T("attr", base, name)
        return T("attr", self.freeze(v, st), name)

    def eval_class_attr(self, ca, st):
        c, expr = ca
        self.mod_stack.append(c.module)
        fid = fresh_id()
        st.frames[fid] = {}
        self.parents[fid] = None
        self.stack.append(dict(fi=_ModFI(c.module), fid=fid, parent=None, globals=set(),
                               nonlocals=set(), cls=c, mod=c.module))
        try:
            return self.eval(expr, st)
        finally:
            self.stack.pop()
            self.mod_stack.pop()

    def class_member(self, ci, v, name, st, node):
        fi = self.prog.method(ci, name)
        if fi is not None:
            deco = decorators(fi)
            if any(d == "property" or d.endswith("cached_property") for d in deco):
                if self.is_stop(fi, v):
                    return T("attr", self.freeze(v, st), name)
                return self.apply(Func(fi, cls=fi.cls).bind(v), [], {}, st, node)
            if any(d.endswith("itemproperty") for d in deco):
                return ItemProp(v, fi, self.prog.setter(ci, name))
            if "staticmethod" in deco:
                return Func(fi, cls=fi.cls)
            if "classmethod" in deco:
                return Func(fi, cls=fi.cls).bind(ClassV(ci))
            return Func(fi, cls=fi.cls).bind(v)
        ca = self.prog.class_attr(ci, name)
        if ca is not None:
            return self.eval_class_attr(ca, st)
        return None

    def store_attr(self, v, name, val, st, node):
        ci = self.class_of(v, st)
        if ci is not None:
            sf = self.prog.setter(ci, name)
            if sf is not None and "itemproperty" not in " ".join(
                    decorators(self.prog.method(ci, name) or sf)):
                self.apply(Func(sf, cls=sf.cls).bind(v), [val], {}, st, node)
                return
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, InstC):
                d = dict(c.attrs)
                d[name] = val
                st.heap[v.id] = InstC(c.ci, d)
                self.emit("store", name, node, recv=T("instref", v.id),
                          args=(self.freeze_shallow(val, st),), raw=(v, val))
                return
            self.emit("store", name, node, recv=self.freeze(v, st),
                      args=(self.freeze_shallow(val, st),), raw=(v, val))
            return
        if isinstance(v, T):
            st.over[(v, name)] = val
            self.emit("store", name, node, recv=v, args=(self.freeze_shallow(val, st),), raw=(v, val))
            return
        if isinstance(v, PhiV):
            self.emit("store", name, node, recv=self.freeze(v, st),
                      args=(self.freeze_shallow(val, st),), raw=(v, val))
            return
        self.emit("store", name, node, recv=self.freeze(v, st),
                  args=(self.freeze_shallow(val, st),), raw=(v, val))

    def freeze_shallow(self, v, st):
        return self.freeze(v, st)

    # ---- items -----------------------------------------------------------
    def load_item(self, v, key, st, node):
        if isinstance(v, ItemProp):
            return self.apply(Func(v.getter, cls=v.getter.cls).bind(v.selfv), [key], {}, st, node)
        if isinstance(v, PhiV):
            a = self.load_item(v.a, key, st, node)
            b = self.load_item(v.b, key, st, node)
            return self.joinv(v.c, a, b, st, st, st)
        kt = self.freeze(key, st)
        if isinstance(v, (Tup,)) or (isinstance(v, Ref) and isinstance(self.cell(v, st), ListC)):
            seq = self.concrete_seq(v, st)
            if seq is not None:
                if is_const(kt) and isinstance(cval(kt), int):
                    try:
                        return seq[cval(kt)]
                    except IndexError:
                        raise Bottom()
                if kt.op == "slice" and all(is_const(x) for x in kt.args):
                    vs = seq[slice(*[cval(x) for x in kt.args])]
                    return Tup(vs) if isinstance(v, Tup) else self.newlist(st, vs)
            elif isinstance(v, Ref):
                segs = self.cell(v, st).segs
                if is_const(kt) and isinstance(cval(kt), int):
                    i = cval(kt)
                    if i >= 0 and i < len(segs) and all(s[0] == "e" for s in segs[:i + 1]):
                        return segs[i][1]
                    if i < 0 and -i <= len(segs) and all(s[0] == "e" for s in segs[i:]):
                        return segs[i][1]
                if len(segs) == 1 and segs[0][0] == "c":
                    return self.item_t(segs[0][1], kt)
            return item(self.freeze(v, st), kt)
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, DictC):
                got = c.get(kt)
                if got is not None:
                    return got
                if c.base is not None:
                    if not c.items or (is_const_like(kt) and all(is_const_like(k) for k, _ in c.items)):
                        return self.item_t(c.base, kt)
                return item(self.freeze(v, st), kt)
            if isinstance(c, ArrC):
                xs = arr1(c.t)
                if xs is not None and is_const(kt) and isinstance(cval(kt), int) and \
                        -len(xs) <= cval(kt) < len(xs):
                    return xs[cval(kt)]
                return self.item_t(c.t, kt)
            if isinstance(c, InstC):
                fi = self.prog.method(c.ci, "__getitem__")
                if fi is not None:
                    return self.apply(Func(fi, cls=fi.cls).bind(v), [key], {}, st, node)
            return item(self.freeze(v, st), kt)
        if isinstance(v, IterV):
            s = self.iterv_seq(v, st)
            if s is not None and is_const(kt):
                return s[cval(kt)]
            if v.kind == "range" and len(v.args) <= 2:
                lo = v.args[0] if len(v.args) == 2 else const(0)
                return self.binop("+", self.freeze(lo, st), kt)
        t = self.freeze(v, st)
        if isinstance(v, T):
            ci = self.class_of(v, st)
            if ci is not None:
                fi = self.prog.method(ci, "__getitem__")
                if fi is not None and not self.is_stop(fi, v):
                    return self.apply(Func(fi, cls=fi.cls).bind(v), [key], {}, st, node)
        return self.item_t(t, kt)

    def item_t(self, t, k):
        if t.op in ("tuple", "list") and not any(x.op in ("splat", "splatphi") for x in t.args):
            if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                try:
                    return t.args[cval(k)]
                except IndexError:
                    return item(t, k)
            if k.op == "slice" and all(is_const(x) for x in k.args):
                return T(t.op, *t.args[slice(*[cval(x) for x in k.args])])
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "splat":
            return self.item_t(t.args[0].args[0], k)
        if t.op == "comp":
            lid, d, b = t.args
            if d.op == "range" and len(d.args) == 2 and k.op != "slice":
                ix = k
                if d.args[0] is not const(0):
                    ix = self.binop("+", d.args[0], k)
                if not (is_const(k) and cval(k) < 0 if is_const(k) and isinstance(cval(k), int) else False):
                    return subst(b, {T("bv", lid): ix})
        if t.op == "setitem":
            base, k2, v = t.args
            if k2 is k:
                return v
            if is_const(k) and is_const(k2):
                return self.item_t(base, k)
        if t.op == "range" and len(t.args) == 2 and k.op != "slice":
            return self.binop("+", t.args[0], k)
        if t.op == "phi" and all(x.op in ("tuple", "list", "dict") for x in t.args[1:]):
            return mkphi(t.args[0], self.item_t(t.args[1], k), self.item_t(t.args[2], k))
        if t.op in ("dict", "dictupd"):
            prs = t.args if t.op == "dict" else t.args[1:]
            for p in prs:
                if p.args[0] is k:
                    return p.args[1]
            if t.op == "dictupd" and is_const_like(k) and all(is_const_like(p.args[0]) for p in prs):
                return self.item_t(t.args[0], k)
        if t.op == "dictcomp" and len(t.args) == 3:
            lid, d, p = t.args
            kk = p.args[0]
            # key is the loop variable's key: {k: f(k) for k in ...}[k']
            if k.op == "elemof" and kk.op == "elemof" and k.args[0] is kk.args[0]:
                return subst(p.args[1], {T("bv", lid): k.args[1]})
        if k.op == "bv":
            return T("elemof", t, k)
        return item(t, k)

    def store_item(self, v, key, val, st, node):
        if isinstance(v, ItemProp):
            if v.setter is None:
                raise Bottom()
            self.apply(Func(v.setter, cls=v.setter.cls).bind(v.selfv), [key, val], {}, st, node)
            return
        kt = self.freeze(key, st)
        vt = self.freeze(val, st)
        ci = self.class_of(v, st)
        if ci is not None:
            fi = self.prog.method(ci, "__setitem__")
            if fi is not None and not self.is_stop(fi, v):
                self.apply(Func(fi, cls=fi.cls).bind(v), [key, val], {}, st, node)
                return
        if isinstance(v, Ref):
            c = self.cell(v, st)
            before = self.freeze(v, st)
            if isinstance(c, ListC):
                ok = False
                if is_const(kt) and isinstance(cval(kt), int):
                    i = cval(kt)
                    segs = list(c.segs)
                    if c.concrete() and -len(segs) <= i < len(segs):
                        segs[i] = ("e", val)
                        ok = True
                    elif i >= 0 and i < len(segs) and all(s[0] == "e" for s in segs[:i + 1]):
                        segs[i] = ("e", val)
                        ok = True
                    elif i < 0 and -i <= len(segs) and all(s[0] == "e" for s in segs[i:]):
                        segs[i] = ("e", val)
                        ok = True
                elif kt.op == "slice" and c.concrete() and all(is_const(x) for x in kt.args):
                    vs = self.concrete_seq(val, st)
                    if vs is not None:
                        segs = [s[1] for s in c.segs]
                        segs[slice(*[cval(x) for x in kt.args])] = vs
                        segs = [("e", x) for x in segs]
                        ok = True
                st.heap[v.id] = ListC(segs) if ok else ListC([("c", T("setitem", before, kt, vt))])
            elif isinstance(c, DictC):
                st.heap[v.id] = c.set(kt, val)
            elif isinstance(c, ArrC):
                st.heap[v.id] = ArrC(T("setitem", c.t, kt, vt))
            self.emit("setitem", "setitem", node, recv=before, args=(kt, vt), raw=(v, key, val))
            return
        t = self.freeze(v, st)
        self.emit("setitem", "setitem", node, recv=v if isinstance(v, T) else t,
                  args=(kt, vt), raw=(v, key, val))
        if isinstance(v, T):
            st.cont[v] = T("setitem", t, kt, vt)

    # ---- calls -----------------------------------------------------------
    def e_Call(self, e, st):
        fn = self.eval(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                seq = self.concrete_seq(v, st)
                if seq is not None:
                    args.extend(seq)
                else:
                    args.append(T("star", self.freeze(v, st)))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                done = False
                if isinstance(v, Ref):
                    c = self.cell(v, st)
                    if isinstance(c, DictC) and c.base is None and all(
                        is_const(kk) and isinstance(cval(kk), str) for kk, _ in c.items
                    ):
                        for kk, vv in c.items:
                            kwargs[cval(kk)] = vv
                        done = True
                if not done:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.apply(fn, args, kwargs, st, e)

    def is_stop(self, fi, recv=None):
        if self.policy is not None:
            r = self.policy(fi, recv)
            if r is not None:
                return r == "stop"
        return fi.qual in self.stop or fi.local in self.stop or fi.name in self.stop

    def apply(self, fn, args, kwargs, st, node):
        if isinstance(fn, PhiV):
            sa, sb = st.fork(), st.fork()
            self.assume(fn.c, True, sa)
            self.assume(fn.c, False, sb)
            br = Branch(fn.c, node, self.mod)
            self.trace.append(br)
            save = self.trace
            try:
                self.trace = br.a
                va = self.apply(fn.a, args, kwargs, sa, node)
                self.trace = br.b
                vb = self.apply(fn.b, args, kwargs, sb, node)
            finally:
                self.trace = save
            out = self.merge(fn.c, sa, sb)
            v = self.joinv(fn.c, va, vb, sa, sb, out)
            st.assign(out)
            return v
        if isinstance(fn, Partial):
            return self.apply(fn.fn, list(fn.args) + list(args), dict(fn.kwargs, **kwargs), st, node)
        if isinstance(fn, Func):
            full = list(args)
            if fn.selfv is not None:
                full = [fn.selfv] + full
            if self.is_stop(fn.fi, fn.selfv):
                return self.opaque_call(fn, args, kwargs, st, node, kind="enter")
            if len(self.stack) >= self.max_depth or any(
                f["fi"] is fn.fi or getattr(f["fi"], "node", None) is fn.fi.node for f in self.stack
            ) or any(isinstance(a, T) and a.op == "star" for a in args) and not self._star_ok(fn, args, kwargs):
                return self.opaque_call(fn, args, kwargs, st, node, kind="enter")
            if self._is_generator(fn.fi):
                if self.eager_gen:
                    # generators without side effects: the list of what they yield
                    key = (fn.fi, tuple(full)) if not kwargs and all(
                        isinstance(a, T) and is_const(a) for a in full) else None
                    if key in self.gen_cache:
                        return self.gen_cache[key]
                    depth, tr = len(self.stack), self.trace
                    self.yields.append([])
                    try:
                        self.inline(fn, full, kwargs, st, node)
                    except GenStop:
                        # the elements beyond the bound are never reached in the runs which use it
                        del self.stack[depth:]
                        self.trace = tr
                    finally:
                        ys = self.yields.pop()
                    if all(isinstance(y, T) or isinstance(y, Tup) and all(isinstance(x, T) for x in y.vals) for y in ys):
                        r = Tup(ys)
                        if key is not None:
                            self.gen_cache[key] = r
                        return r
                    return self.newlist(st, ys)
                return self.opaque_call(fn, args, kwargs, st, node, kind="enter")
            return self.inline(fn, full, kwargs, st, node)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs, st, node)
        if isinstance(fn, BM):
            return self.method(fn, args, kwargs, st, node)
        if isinstance(fn, T):
            if fn.op == "ext":
                return self.external(fn.args[0], args, kwargs, st, node)
            if fn.op == "attr":
                o = self.owner.get(fn.args[0])
                if o is None or st.cont.get(o) is not fn.args[0]:
                    o = fn.args[0]
                return self.method(BM(o, fn.args[1]), args, kwargs, st, node)
            if fn.op == "funcref":
                return self.apply(Func(self.prog.func(fn.args[0])), args, kwargs, st, node)
            if fn.op == "classref":
                return self.apply(ClassV(self.prog.cls(fn.args[0])), args, kwargs, st, node)
            if fn.op == "lam":
                lid, n, body = fn.args
                if len(args) == n and not kwargs:
                    return subst(body, {T("bv", lid * 1000 + k): self.freeze(a, st)
                                        for k, a in enumerate(args)})
            if fn.op == "phi":
                return self.apply(PhiV(fn.args[0], fn.args[1], fn.args[2]), args, kwargs, st, node)
        return self.opaque_call(fn, args, kwargs, st, node)

    def _star_ok(self, fn, args, kwargs):
        a = fn.fi.node.args
        return a.vararg is not None and isinstance(args[-1], T) and args[-1].op == "star" and \
            len(args) - 1 + (1 if fn.selfv is not None else 0) >= len(a.args)

    def _is_generator(self, fi):
        n = fi.node
        if isinstance(n, ast.Lambda):
            return False
        g = getattr(n, "_isgen", None)
        if g is None:
            g = False
            todo = list(n.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
            n._isgen = g
        return g

    def opaque_call(self, fn, args, kwargs, st, node, kind="call", recv=None, name=None):
        self.stats["opaque"] += 1
        if isinstance(fn, Func):
            name = fn.fi.qual
            recv = fn.selfv
            ft = T("funcref", fn.fi.qual) if recv is None else \
                T("attr", self.freeze(recv, st) if not isinstance(recv, Ref) else self.refterm(recv, st), fn.fi.name)
        elif isinstance(fn, T):
            ft = fn
            name = name or fn.args[0] if fn.op in ("ext", "sym") else "<expr>"
        else:
            ft = self.freeze(fn, st)
            name = name or "<expr>"
        fa = tuple(self.freeze(a, st) for a in args)
        fk = {k: self.freeze(v, st) for k, v in kwargs.items()}
        ev = self.emit(kind, name, node, recv=None if recv is None else (
            self.freeze(recv, st) if not isinstance(recv, Ref) else self.refterm(recv, st)),
            args=fa, kwargs=fk, raw=(fn, args, kwargs, recv))
        ev.res = T("call", ft, *(fa + tuple(T("kw", k, v) for k, v in sorted(fk.items()))))
        if isinstance(fn, T) and fn.op == "sym" and fn.args[0] in self.opaque_calls:
            return self.opq(fn.args[0], st, None, args, kwargs)
        if isinstance(fn, Func) and fn.fi.name in self.opaque_calls:
            return self.opq(fn.fi.name, st, recv, args, kwargs)
        return ev.res

    def opq(self, name, st, recv, args, kwargs):
        f = self.opaque_calls[name]
        n = f.__code__.co_argcount - len(f.__defaults__ or ())
        try:
            if n >= 5:
                return f(self, st, recv, args, kwargs)
            if n == 4:
                return f(self, st, recv, args)
            return f(self, st)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError, Unknown):
            # arguments the model of this callable has no meaning for
            return T("nomodel", name, *[self.freeze(a, st) for a in args])

    def refterm(self, ref, st):
        c = self.cell(ref, st)
        if isinstance(c, InstC):
            return T("instref", ref.id)
        return self.freeze(ref, st)

    def inline(self, fn, args, kwargs, st, node, top=False):
        fi = fn.fi
        self.stats["functions"].add(fi.qual)
        self.stats["calls"] += 1
        n = fi.node
        a = n.args
        fid = fresh_id()
        self.parents[fid] = fn.fid
        fr = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        rest = list(args)
        for p in pos:
            if rest and not (isinstance(rest[0], T) and rest[0].op == "star"):
                fr[p] = rest.pop(0)
        if a.vararg is not None:
            if len(rest) == 1 and isinstance(rest[0], T) and rest[0].op == "star":
                fr[a.vararg.arg] = rest[0].args[0]
            else:
                fr[a.vararg.arg] = Tup(rest)
            rest = []
        kw = dict(kwargs)
        star2 = kw.pop("**", None)
        for p in pos + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                fr[p] = kw.pop(p)
        if a.kwarg is not None:
            if star2 is not None and not kw:
                fr[a.kwarg.arg] = star2
            else:
                d = DictC([(const(k), v) for k, v in kw.items()],
                          self.freeze(star2, st) if star2 is not None else None)
                fr[a.kwarg.arg] = self.alloc(st, d)
            kw = {}
        self.mod_stack.append(fi.module)
        self.stack.append(dict(fi=fi, fid=fid, parent=fn.fid, globals=set(), nonlocals=set(),
                               cls=fn.cls or fi.cls, mod=fi.module))
        cn = CallN(fi, node, self.mod_stack[-2] if len(self.mod_stack) > 1 else fi.module,
                   recv=args[0] if fi.cls is not None and args else None, args=tuple(args))
        save = self.trace
        if not top:
            self.trace.append(cn)
            self.trace = cn.body
        try:
            st.frames[fid] = fr
            defaults = fn.defaults
            if defaults is None:
                defaults = self._defaults(fn, st)
            for p, d in defaults.items():
                fr.setdefault(p, d)
            for p in pos + [x.arg for x in a.kwonlyargs]:
                if p not in fr:
                    if star2 is not None:
                        fr[p] = item(self.freeze(star2, st), const(p))
                    else:
                        fr[p] = sym("#missing:" + p)
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, st)
            tree = self.exec_block(n.body, st)
            f = self.fold(tree, ("normal", "return"))
            if f is None:
                raise Bottom()
            st.assign(f[0])
            return f[1]
        finally:
            self.trace = save
            self.stack.pop()
            self.mod_stack.pop()

    def _defaults(self, fn, st):
        a = fn.fi.node.args
        out = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        prs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        prs += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in prs:
            out[p] = self.eval(d, st)
        return out

    def instantiate(self, cv, args, kwargs, st, node):
        ci = cv.ci
        if ci.qual in self.inline_classes or ci.name in self.inline_classes or "*" in self.inline_classes:
            ref = self.alloc(st, InstC(ci, {}))
            init = self.prog.method(ci, "__init__")
            if init is not None:
                self.apply(Func(init, cls=init.cls).bind(ref), args, kwargs, st, node)
            return ref
        fa = tuple(self.freeze(a, st) for a in args)
        fk = {k: self.freeze(v, st) for k, v in kwargs.items()}
        ev = self.emit("new", ci.qual, node, args=fa, kwargs=fk, raw=(cv, args, kwargs, None))
        ev.res = T("call", T("classref", ci.qual),
                   *(fa + tuple(T("kw", k, v) for k, v in sorted(fk.items()))))
        if ci.name in self.on_new:
            self.fresh += 1
            ev.res = T("object", ci.qual, self.fresh)
            self.on_new[ci.name](self, st, ev.res, args, kwargs)
        return ev.res

    # builtin structure methods ---------------------------------------------
    def method(self, bm, args, kwargs, st, node):
        v, name = bm.recv, bm.name
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                r = self.list_method(v, c, name, args, kwargs, st, node)
                if r is not None:
                    return r
            elif isinstance(c, DictC):
                r = self.dict_method(v, c, name, args, kwargs, st, node)
                if r is not None:
                    return r
            elif isinstance(c, SetC):
                if name == "add":
                    st.heap[v.id] = SetC(c.elems + (self.freeze(args[0], st),), c.base)
                    return NONE
                if name == "update":
                    s = self.concrete_seq(args[0], st)
                    if s is not None:
                        st.heap[v.id] = SetC(c.elems + tuple(self.freeze(x, st) for x in s), c.base)
                    else:
                        st.heap[v.id] = SetC((), T("union", self.freeze(v, st), self.freeze(args[0], st)))
                    return NONE
            elif isinstance(c, ArrC):
                if name == "copy":
                    return self.alloc(st, ArrC(c.t))
        if isinstance(v, Tup) and name == "index":
            pass
        if isinstance(v, T):
            v0 = v
            v = st.cont.get(v, v)
            if is_const(v) and type(cval(v)) is float and name == "is_integer" and not args:
                return const(cval(v).is_integer())
            if is_const(v) and isinstance(cval(v), str):
                r = self.str_method(cval(v), name, args, kwargs, st)
                if r is not None:
                    return r
            if v.op in ("dict", "dictupd") and name in ("items", "keys", "values"):
                prs = v.args if v.op == "dict" else None
                if prs is not None:
                    if name == "items":
                        return Tup([Tup([p.args[0], p.args[1]]) for p in prs])
                    return Tup([p.args[0 if name == "keys" else 1] for p in prs])
            if name in ("items", "keys", "values") and not args:
                return IterV(name, v)
            if name == "copy" and not args:
                self.emit("call", "copy", node, recv=v)
                return self.alloc(st, ArrC(v))
            if name == "get" and len(args) in (1, 2) and not kwargs:
                k = self.freeze(args[0], st)
                d = self.freeze(args[1], st) if len(args) == 2 else NONE
                self.emit("call", "get", node, recv=v, args=(k, d))
                return self.dict_get_t(v, k, d, args[1] if len(args) == 2 else NONE, st)
            bm = BM(v0, name)
        recv = bm.recv
        rt = self.freeze(recv, st)
        fa = tuple(self.freeze(a, st) for a in args)
        fk = {k: self.freeze(x, st) for k, x in kwargs.items()}
        self.stats["opaque"] += 1
        ev = self.emit("call", name, node, recv=rt, args=fa, kwargs=fk, raw=(bm, args, kwargs, recv))
        res = T("call", T("attr", rt, name), *(fa + tuple(T("kw", k, x) for k, x in sorted(fk.items()))))
        ev.res = res
        if name in self.opaque_calls:
            return self.opq(name, st, recv, args, kwargs)
        if name in self.opaque_values:
            return self.alloc(st, ListC([("e", x) for x in self.opaque_values[name]]))
        if name in (MUTATORS_T if isinstance(recv, T) else MUTATORS_REF):
            after = T("after", name, rt, *(fa + tuple(T("kw", k, x) for k, x in sorted(fk.items()))))
            if isinstance(recv, T):
                st.cont[recv] = after
            elif isinstance(recv, Ref):
                c = self.cell(recv, st)
                if isinstance(c, ArrC):
                    st.heap[recv.id] = ArrC(after)
                elif isinstance(c, ListC):
                    st.heap[recv.id] = ListC([("c", after)])
                elif isinstance(c, DictC):
                    st.heap[recv.id] = DictC((), after)
                elif isinstance(c, SetC):
                    st.heap[recv.id] = SetC((), after)
        return res

    def dict_get_t(self, t, k, d, dv, st):
        if t.op == "dict":
            for p in t.args:
                if p.args[0] is k:
                    return p.args[1]
            if is_const_like(k) and all(is_const_like(p.args[0]) for p in t.args):
                return dv
        c = T("in", k, t)
        tr = self.truth(c, st)
        if tr is True:
            return item(t, k)
        if tr is False:
            return dv
        return mkphi(c, item(t, k), d)

    def list_method(self, v, c, name, args, kwargs, st, node):
        if name == "append" and len(args) == 1:
            st.heap[v.id] = ListC(c.segs + (("e", args[0]),))
            self.emit("mutate", "append", node, recv=T("listref", v.id),
                      args=(self.freeze(args[0], st),), raw=(v, args[0]))
            return NONE
        if name == "extend" and len(args) == 1:
            self.list_extend(v, args[0], st)
            return NONE
        if name == "insert" and c.concrete() and is_const(args[0]):
            vs = list(c.segs)
            vs.insert(cval(args[0]), ("e", args[1]))
            st.heap[v.id] = ListC(vs)
            return NONE
        if name == "insert" and is_const(args[0]) and cval(args[0]) == 0:
            st.heap[v.id] = ListC((("e", args[1]),) + c.segs)
            return NONE
        if name == "pop" and c.concrete() and (not args or is_const(args[0])):
            vs = list(c.segs)
            i = cval(args[0]) if args else -1
            if not vs:
                raise Bottom()
            x = vs.pop(i)
            st.heap[v.id] = ListC(vs)
            return x[1]
        if name == "copy":
            return self.alloc(st, c)
        if name == "reverse" and c.concrete():
            st.heap[v.id] = ListC(tuple(reversed(c.segs)))
            return NONE
        if name == "sort" and c.concrete() and not args:
            seq = self.x_sorted([v], kwargs, st, node)
            if isinstance(seq, Ref):
                st.heap[v.id] = self.cell(seq, st)
                return NONE
        if name == "index" and c.concrete() and len(args) == 1:
            t = self.freeze(args[0], st)
            vs = [self.freeze(s[1], st) for s in c.segs]
            if all(is_const_like(x) for x in vs) and t in vs:
                return const(vs.index(t))
        if name == "count" and c.concrete() and len(args) == 1:
            t = self.freeze(args[0], st)
            vs = [self.freeze(s[1], st) for s in c.segs]
            if is_const_like(t) and all(is_const_like(x) for x in vs):
                return const(sum(1 for x in vs if x is t))
        if name == "clear":
            st.heap[v.id] = ListC(())
            return NONE
        return None

    def list_extend(self, v, x, st):
        c = self.cell(v, st)
        st.heap[v.id] = ListC(tuple(c.segs) + tuple(self.as_segs(x, st)))

    def dict_method(self, v, c, name, args, kwargs, st, node):
        if name in ("items", "keys", "values"):
            return IterV(name, v)
        if name == "get":
            k = self.freeze(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            got = c.get(k)
            if got is not None:
                if isinstance(got, T) and got.op == "phi" and any(
                        x is sym("#absent") for x in got.args[1:]):
                    dt = self.freeze(d, st)
                    a, b = [dt if x is sym("#absent") else x for x in got.args[1:]]
                    return mkphi(got.args[0], a, b)
                return got
            if c.base is None and is_const_like(k) and all(is_const_like(x) for x, _ in c.items):
                return d
            if c.base is not None and all(is_const_like(x) for x, _ in c.items) and is_const_like(k):
                return self.dict_get_t(c.base, k, self.freeze(d, st), d, st)
            t = self.freeze(v, st)
            return mkphi(T("in", k, t), item(t, k), self.freeze(d, st))
        if name == "update":
            for a in args:
                self.dict_update(v, a, st)
            for k, x in kwargs.items():
                if k == "**":
                    self.dict_update(v, x, st)
                else:
                    st.heap[v.id] = self.cell(v, st).set(const(k), x)
            return NONE
        if name == "setdefault":
            k = self.freeze(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            got = c.get(k)
            if got is not None:
                return got
            if c.base is None and is_const_like(k) and all(is_const_like(x) for x, _ in c.items):
                st.heap[v.id] = c.set(k, d)
                return d
        if name == "pop" and c.concrete():
            k = self.freeze(args[0], st)
            got = c.get(k)
            if got is not None:
                st.heap[v.id] = DictC([x for x in c.items if x[0] is not k], None)
                return got
            if len(args) > 1 and is_const_like(k):
                return args[1]
        if name == "copy":
            return self.alloc(st, c)
        return None

    def str_method(self, s, name, args, kwargs, st):
        ta = [self.freeze(a, st) for a in args]
        if name == "format":
            return self.str_format(s, ta, {k: self.freeze(v, st) for k, v in kwargs.items()})
        if name == "join" and len(args) == 1:
            seq = self.concrete_seq(args[0], st)
            if seq is not None:
                parts = []
                for k, x in enumerate(seq):
                    if k:
                        parts.append(const(s))
                    parts.append(self.freeze(x, st))
                return self.mkfmt(parts)
            return T("join", const(s), ta[0])
        if all(is_const(a) for a in ta) and not kwargs and name in (
            "upper", "lower", "strip", "lstrip", "rstrip", "split", "startswith", "endswith",
            "replace", "title", "capitalize", "isdigit", "splitlines", "find", "count", "islower",
            "isupper", "isalpha", "index", "rfind", "zfill", "ljust", "rjust", "center",
        ):
            try:
                r = getattr(s, name)(*[cval(a) for a in ta])
            except Exception:
                raise Bottom()
            if isinstance(r, list):
                return self.newlist(st, [const(x) for x in r])
            return const(r)
        return None

    def str_format(self, s, args, kwargs):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    t = args[auto]
                    auto += 1
                elif field.isdigit():
                    t = args[int(field)]
                elif field in kwargs:
                    t = kwargs[field]
                else:
                    import re
                    m = re.match(r"^(\w*)((?:\.\w+|\[\w+\])*)$", field)
                    b = m.group(1)
                    t = (args[int(b)] if b.isdigit() else kwargs[b] if b else args[auto])
                    if not b:
                        auto += 1
                    for x in re.findall(r"\.(\w+)|\[(\w+)\]", m.group(2)):
                        if x[0]:
                            t = T("attr", t, x[0])
                        else:
                            t = self.item_t(t, const(int(x[1]) if x[1].isdigit() else x[1]))
                if spec or (conv and conv != "s"):
                    t = T("fmtspec", conv or "", t, const(spec))
                parts.append(t)
            return self.mkfmt(parts)
        except (IndexError, KeyError, AttributeError, ValueError):
            return T("call", T("attr", const(s), "format"), *args)

    # external functions -------------------------------------------------------
    def external(self, name, args, kwargs, st, node):
        if self.ext_hook is not None:
            r = self.ext_hook(self, name, args, kwargs, st, node)
            if r is not None:
                return r
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(args, kwargs, st, node)
            if r is not None:
                return r
        if name in self.exits:
            self.emit("exit", name, node, args=[self.freeze(a, st) for a in args])
            raise Bottom()
        res = self.opaque_call(ext(name), args, kwargs, st, node)
        if name in ALLOC or name.split(".")[-1] in ("deepcopy",):
            return self.alloc(st, ArrC(res))
        return res

    def x_len(self, args, kwargs, st, node):
        v = args[0]
        s = self.concrete_seq(v, st)
        if s is not None:
            return const(len(s))
        if isinstance(v, Ref) and isinstance(self.cell(v, st), InstC):
            fi = self.prog.method(self.cell(v, st).ci, "__len__")
            if fi is not None:
                return self.apply(Func(fi, cls=fi.cls).bind(v), [], {}, st, node)
        t = self.freeze(v, st)
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "splat":
            t = t.args[0].args[0]
        if t.op == "comp" and t.args[1].op == "range" and len(t.args[1].args) == 2:
            lo, hi = t.args[1].args
            return hi if lo is const(0) else self.binop("-", hi, lo)
        if t.op == "setitem":
            b = t
            while b.op == "setitem":
                b = b.args[0]
            t = b
            if t.op in ("list", "tuple") and not any(x.op in ("splat", "splatphi") for x in t.args):
                return const(len(t.args))
        if t.op == "item" and t.args[1].op == "slice":
            lo, hi, stp = t.args[1].args
        return T("len", t)

    def x_range(self, args, kwargs, st, node):
        ts = [self.freeze(a, st) for a in args]
        return IterV("range", *ts)

    def x_enumerate(self, args, kwargs, st, node):
        start = kwargs.get("start", args[1] if len(args) > 1 else const(0))
        return IterV("enumerate", args[0], start)

    def x_zip(self, args, kwargs, st, node):
        if any(isinstance(a, T) and a.op == "star" for a in args):
            return None
        return IterV("zip", *args)

    def x_reversed(self, args, kwargs, st, node):
        return IterV("reversed", args[0])

    def x_map(self, args, kwargs, st, node):
        if len(args) == 2:
            return IterV("map", *args)

    def x_filter(self, args, kwargs, st, node):
        return IterV("filter", *args)

    def x_iter(self, args, kwargs, st, node):
        return args[0] if len(args) == 1 else None

    def x_list(self, args, kwargs, st, node):
        if not args:
            return self.newlist(st, [])
        return self.alloc(st, ListC(self.as_segs(args[0], st)))

    def x_tuple(self, args, kwargs, st, node):
        if not args:
            return Tup([])
        s = self.concrete_seq(args[0], st)
        if s is not None:
            return Tup(s)
        return self.alloc(st, ListC(self.as_segs(args[0], st)))

    def x_dict(self, args, kwargs, st, node):
        r = self.alloc(st, DictC())
        for a in args:
            if isinstance(a, IterV) and a.kind == "zip":
                s = self.concrete_seq(a, st)
                if s is not None:
                    a = self.newlist(st, s)
            self.dict_update(r, a, st)
        for k, x in kwargs.items():
            if k == "**":
                self.dict_update(r, x, st)
            else:
                st.heap[r.id] = self.cell(r, st).set(const(k), x)
        return r

    def x_set(self, args, kwargs, st, node):
        if not args:
            return self.alloc(st, SetC(()))
        s = self.concrete_seq(args[0], st)
        if s is not None:
            out = []
            for x in s:
                t = self.freeze(x, st)
                if t not in out:
                    out.append(t)
            return self.alloc(st, SetC(out))
        return self.alloc(st, SetC((), T("setof", self.freeze(args[0], st))))

    def x_sorted(self, args, kwargs, st, node):
        s = self.concrete_seq(args[0], st)
        rev = kwargs.get("reverse", FALSE)
        if s is not None and set(kwargs) <= {"key", "reverse"} and (rev is TRUE or rev is FALSE):
            if kwargs.get("key", NONE) is NONE:
                ks = [self.freeze(x, st) for x in s]
            else:
                ks = [self.freeze(self.apply(kwargs["key"], [x], {}, st, node), st) for x in s]
            ks = [sort_key(k) for k in ks]
            if all(k is not None for k in ks):
                try:
                    order = sorted(range(len(s)), key=lambda i: ks[i], reverse=rev is TRUE)
                    return self.newlist(st, [s[i] for i in order])
                except (TypeError, AmbiguousOrder):
                    pass
        return T("call", ext("sorted"), self.freeze(args[0], st),
                 *[T("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())])

    def x_numpy_argsort(self, args, kwargs, st, node):
        s = self.concrete_seq(args[0], st) if len(args) == 1 and not kwargs else None
        if s is not None:
            ks = [self.freeze(x, st) for x in s]
            if all(is_const(k) and isinstance(cval(k), int) for k in ks) and len(set(ks)) == len(ks):
                order = sorted(range(len(s)), key=lambda i: cval(ks[i]))
                return self.newlist(st, [const(i) for i in order])
        return None

    def x_divmod(self, args, kwargs, st, node):
        a, b = [self.freeze(x, st) for x in args]
        return Tup([self.binop("//", a, b), self.binop("%", a, b)])

    def x_abs(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        if is_const(t):
            return const(abs(cval(t)))
        return T("call", ext("abs"), t)

    def x_sum(self, args, kwargs, st, node):
        s = self.concrete_seq(args[0], st)
        if s is not None and not any(isinstance(x, Ref) for x in s):
            acc = self.freeze(args[1], st) if len(args) > 1 else None
            for x in s:
                t = self.freeze(x, st)
                acc = t if acc is None else self.binop("+", acc, t)
            return acc if acc is not None else const(0)
        return T("call", ext("sum"), *[self.freeze(a, st) for a in args])

    def _minmax(self, name, args, kwargs, st):
        if kwargs:
            return None
        seq = args if len(args) > 1 else self.concrete_seq(args[0], st)
        if seq is None:
            return T("call", ext(name), *[self.freeze(a, st) for a in args])
        ts = [self.freeze(x, st) for x in seq]
        if ts and all(is_const(t) for t in ts):
            return const((min if name == "min" else max)(cval(t) for t in ts))
        return T("call", ext(name), *sorted(set(ts), key=repr))

    def x_min(self, args, kwargs, st, node):
        return self._minmax("min", args, kwargs, st)

    def x_max(self, args, kwargs, st, node):
        return self._minmax("max", args, kwargs, st)

    def _allany(self, args, st, is_all):
        s = self.concrete_seq(args[0], st)
        if s is None:
            return T("call", ext("all" if is_all else "any"), self.freeze(args[0], st))
        out = []
        for x in s:
            r = self.truth(x, st)
            if r is None:
                out.append(self.freeze(x, st))
            elif r is not is_all:
                return const(not is_all)
        if not out:
            return const(is_all)
        if len(out) == 1:
            return out[0]
        return T("and" if is_all else "or", *out)

    def x_all(self, args, kwargs, st, node):
        return self._allany(args, st, True)

    def x_any(self, args, kwargs, st, node):
        return self._allany(args, st, False)

    def x_str(self, args, kwargs, st, node):
        t = self.freeze(args[0], st) if args else const("")
        if is_const(t) and not isinstance(cval(t), float):
            return const(str(cval(t)))
        return T("fmt", t)

    def x_int(self, args, kwargs, st, node):
        t = self.freeze(args[0], st) if args else const(0)
        if is_const(t) and isinstance(cval(t), (int, float, str)):
            try:
                return const(int(cval(t)))
            except ValueError:
                raise Bottom()
        return T("call", ext("int"), t)

    def x_float(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        if is_const(t) and isinstance(cval(t), (int, float)):
            return const(float(cval(t)))
        return T("call", ext("float"), t)

    def x_bool(self, args, kwargs, st, node):
        r = self.truth(args[0], st)
        if r is not None:
            return const(r)
        return self.freeze(args[0], st)

    def x_isinstance(self, args, kwargs, st, node):
        v = args[0]
        names = self._classnames(args[1], st)
        r = None
        if names is not None:
            kind = None
            if isinstance(v, Tup):
                kind = {"tuple"}
            elif isinstance(v, Ref):
                c = self.cell(v, st)
                if isinstance(c, ListC):
                    kind = {"list"}
                elif isinstance(c, DictC):
                    kind = {"dict"}
                elif isinstance(c, SetC):
                    kind = {"set"}
                elif isinstance(c, InstC):
                    kind = {x.qual for x in self.prog.mro(c.ci)} | {"object"}
                elif hasattr(c, "pos"):
                    kind = {"numpy.ndarray", "object"}
            elif isinstance(v, Func):
                kind = {"types.FunctionType", "types.LambdaType"}
            elif isinstance(v, T) and is_const(v):
                ty = type(cval(v)).__name__
                kind = {ty, "object"} | ({"int"} if ty == "bool" else set())
            elif isinstance(v, T) and v.op == "slice":
                kind = {"slice", "object"}
            elif isinstance(v, T):
                ci = self.class_of(v, st)
                if ci is not None:
                    kind = {x.qual for x in self.prog.mro(ci)}
                elif v.op == "call" and v.args[0].op == "ext" and \
                        v.args[0].args[0].rsplit(".", 1)[-1][:1].isupper() and \
                        names <= {"list", "tuple", "dict", "str", "int", "float", "set", "bool"}:
                    kind = {v.args[0].args[0]}
            if kind is not None:
                if kind & names:
                    r = True
                elif not any(n.startswith("#") for n in names):
                    # known structural kinds: definite miss only for builtin kinds
                    r = False
        if r is not None:
            return const(r)
        t = T("isinstance", self.freeze(v, st), self.freeze(args[1], st))
        if t in st.facts:
            return const(st.facts[t])
        return t

    def _classnames(self, v, st):
        seq = [v] if not isinstance(v, Tup) else list(v.vals)
        out = set()
        for x in seq:
            if isinstance(x, ClassV):
                out.add(x.ci.qual)
            elif isinstance(x, T) and x.op == "ext":
                out.add(x.args[0])
            elif isinstance(x, T) and x.op == "call" and x.args[0] is ext("type"):
                out.add("NoneType" if len(x.args) > 1 and x.args[1] is NONE else "#")
            else:
                out.add("#")
        return out

    def _ospath(self, f, args, st):
        ts = [self.freeze(a, st) for a in args]
        if all(is_const(t) and isinstance(cval(t), str) for t in ts):
            r = f(*[cval(t) for t in ts])
            return Tup([const(x) for x in r]) if isinstance(r, tuple) else const(r)
        return None

    def x_os_path_splitext(self, args, kwargs, st, node):
        return self._ospath(os.path.splitext, args, st)

    def x_os_path_join(self, args, kwargs, st, node):
        return self._ospath(os.path.join, args, st)

    def x_os_path_basename(self, args, kwargs, st, node):
        return self._ospath(os.path.basename, args, st)

    def x_os_path_dirname(self, args, kwargs, st, node):
        return self._ospath(os.path.dirname, args, st)

    def x_getattr(self, args, kwargs, st, node):
        n = self.freeze(args[1], st)
        if is_const(n):
            if len(args) == 3:
                v = args[0]
                if isinstance(v, T) and (v, cval(n)) not in st.over and self.class_of(v, st) is None:
                    t = self.freeze(v, st)
                    return mkphi(T("hasattr", t, n), T("attr", t, cval(n)), self.freeze(args[2], st))
            return self.load_attr(args[0], cval(n), st, node)
        return T("getattr", *[self.freeze(a, st) for a in args])

    def x_setattr(self, args, kwargs, st, node):
        n = self.freeze(args[1], st)
        if is_const(n):
            self.store_attr(args[0], cval(n), args[2], st, node)
            return NONE

    def x_exec(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        if len(args) == 1 and is_const(t) and isinstance(cval(t), str):
            try:
                body = ast.parse(cval(t)).body
            except SyntaxError:
                return None
            if all(isinstance(b, ast.Assign) for b in body):
                self.exec_block(body, st)
                return NONE

    def x_callable(self, args, kwargs, st, node):
        v = args[0]
        if isinstance(v, (Func, ClassV, BM)):
            return TRUE
        if isinstance(v, Tup) or isinstance(v, T) and is_const(v):
            return FALSE
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, (ListC, DictC, SetC)) or hasattr(c, "pos"):
                return FALSE
            if isinstance(c, InstC):
                return const(self.prog.method(c.ci, "__call__") is not None)
        t = T("call", T("ext", "callable"), self.freeze(v, st))
        return const(st.facts[t]) if t in st.facts else t

    def x_hasattr(self, args, kwargs, st, node):
        if isinstance(args[0], Ref) and isinstance(self.cell(args[0], st), InstC) and is_const(args[1]):
            c, n = self.cell(args[0], st), cval(args[1])
            if n in c.attrs or self.prog.method(c.ci, n) or self.prog.class_attr(c.ci, n):
                return TRUE
            if all(b.module.name.startswith("pylbm") for b in self.prog.mro(c.ci)):
                return FALSE
        return T("hasattr", self.freeze(args[0], st), self.freeze(args[1], st))

    def x_super(self, args, kwargs, st, node):
        if args:
            if isinstance(args[0], ClassV):
                return SuperV(args[0].ci, args[1])
            return None
        fr = self.stack[-1]
        ci = fr["fi"].cls or fr["cls"]
        fid = fr["fid"]
        a = fr["fi"].node.args
        selfn = (a.posonlyargs + a.args)[0].arg
        return SuperV(ci, st.frames[fid][selfn])

    def x_slice(self, args, kwargs, st, node):
        ts = [self.freeze(a, st) for a in args]
        if len(ts) == 1:
            ts = [NONE, ts[0], NONE]
        elif len(ts) == 2:
            ts = ts + [NONE]
        return T("slice", *ts)

    def x_type(self, args, kwargs, st, node):
        if len(args) == 1:
            ci = self.class_of(args[0], st)
            if ci is not None and isinstance(args[0], Ref):
                return ClassV(ci)
            return T("call", ext("type"), self.freeze(args[0], st))

    def x_print(self, args, kwargs, st, node):
        self.emit("call", "print", node, args=[self.freeze(a, st) for a in args])
        return NONE

    def x_copy_copy(self, args, kwargs, st, node):
        return self.copyval(args[0], st, node, deep=False)

    def x_copy_deepcopy(self, args, kwargs, st, node):
        return self.copyval(args[0], st, node, deep=True)

    def copyval(self, v, st, node, deep):
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, ListC):
                segs = c.segs
                if deep:
                    segs = tuple(("e", self.copyval(s[1], st, node, True))
                                 if s[0] == "e" and isinstance(s[1], (Ref, Tup)) else s for s in segs)
                return self.alloc(st, ListC(segs))
            if isinstance(c, DictC):
                its = c.items
                if deep:
                    its = tuple((k, self.copyval(x, st, node, True)
                                 if isinstance(x, (Ref, Tup)) else x) for k, x in its)
                return self.alloc(st, DictC(its, c.base))
            if isinstance(c, InstC) and deep:
                return self.alloc(st, InstC(c.ci, {k: self.copyval(x, st, node, True)
                                                   for k, x in c.attrs.items()}))
            return self.alloc(st, c)
        if isinstance(v, Tup):
            return Tup([self.copyval(x, st, node, deep) for x in v.vals]) if deep else v
        if isinstance(v, T):
            if is_const(v) or v.op in ("ext", "funcref", "classref"):
                return v
            self.emit("call", "copy", node, recv=self.freeze(v, st))
            return self.alloc(st, ArrC(self.freeze(v, st)))
        return v

    def x_functools_partial(self, args, kwargs, st, node):
        return Partial(args[0], args[1:], kwargs)

    def x_sympy_symbols(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        if is_const(t) and isinstance(cval(t), str):
            s = cval(t)
            names = [x for x in s.replace(",", " ").split() if x]
            import re
            m = re.fullmatch(r"(\w*?)(\d*):(\d+)", s)
            if m:
                return Tup([T("symbol", "%s%d" % (m.group(1), i)) for i in range(int(m.group(2) or 0), int(m.group(3)))])
            if any(ch in s for ch in ":("):
                return None
            ts = [T("symbol", n) for n in names]
            if len(ts) == 1 and "," not in s:
                return ts[0]
            return Tup(ts)

    def x_sympy_Symbol(self, args, kwargs, st, node):
        t = self.freeze(args[0], st)
        if is_const(t) and isinstance(cval(t), str):
            return T("symbol", cval(t))

    def x_locals(self, args, kwargs, st, node):
        fid = self.stack[-1]["fid"]
        its = [(const(k), v) for k, v in st.frames[fid].items() if k != "#locals" and not (
            isinstance(v, T) and v is sym("#undef"))]
        old = st.frames[fid].get("#locals")
        if isinstance(old, Ref) and isinstance(self.cell(old, st), DictC):
            # one dictionary per call of a function (CPython up to 3.12), refreshed
            d = self.cell(old, st)
            for k, v in its:
                d = d.set(k, v)
            st.heap[old.id] = d
            return old
        r = self.alloc(st, DictC(its))
        st.frames[fid]["#locals"] = r
        return r

    def x_collections_OrderedDict(self, args, kwargs, st, node):
        return self.x_dict(args, kwargs, st, node)

    def x_itertools_chain(self, args, kwargs, st, node):
        segs = []
        for a in args:
            segs.extend(self.as_segs(a, st))
        return self.alloc(st, ListC(segs))


class _ModFI:
    def __init__(self, mod):
        self.module, self.cls, self.name = mod, None, "<module>"
        self.local, self.qual, self.node = "<module>", mod.name, mod.tree


def arr1(t):
    """elements of a 1-d array built from a sequence of known length"""
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.asarray", "numpy.array") and (
            len(t.args) == 2 or (len(t.args) == 3 and t.args[2].op == "kw" and t.args[2].args[0] == "dtype")):
        x = t.args[1]
        if x.op in ("list", "tuple") and not any(
                y.op in ("splat", "splatphi", "star", "list", "tuple") or y.op == "call" and str(
                    y.args[0].args[-1] if y.args[0].args else "").startswith("numpy") for y in x.args):
            return list(x.args)
    return None


def lin_form(t, syms):
    """{symbol or 1: int} of an integer linear form in ``syms``"""
    if is_const(t):
        return {1: int(cval(t))} if isinstance(cval(t), int) else None
    if t in syms:
        return {t: 1}
    if t.op == "neg":
        a = lin_form(t.args[0], syms)
        return None if a is None else {k: -v for k, v in a.items()}
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "int" and len(t.args) == 2:
        return lin_form(t.args[1], syms)
    if t.op == "bin" and t.args[0] in ("+", "-", "*"):
        a, b = lin_form(t.args[1], syms), lin_form(t.args[2], syms)
        if a is None or b is None:
            return None
        if t.args[0] == "*":
            if set(a) <= {1}:
                a, b = b, a
            if not set(b) <= {1}:
                return None
            c = b.get(1, 0)
            return {k: v * c for k, v in a.items()}
        s = 1 if t.args[0] == "+" else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return out
    return None


def lin_div(t, b, syms):
    a = lin_form(t, syms)
    if a is None or any(k != 1 and v % b for k, v in a.items()):
        return None
    q = const(a.get(1, 0) // b)
    for k, v in a.items():
        if k != 1 and v:
            q = T("bin", "+", T("bin", "*", const(v // b), k), q)
    return q, const(a.get(1, 0) % b)


class AmbiguousOrder(Exception):
    pass


class _Unknown:
    """symbolic component of a sort key: equal only to itself, not ordered"""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, _Unknown) and o.t is self.t:
            return True
        raise AmbiguousOrder()

    def __lt__(self, o):
        raise AmbiguousOrder()

    __gt__ = __lt__
    __hash__ = None


def sort_key(t):
    if is_const(t):
        return cval(t)
    if t.op in ("tuple", "list") and not any(x.op == "splat" for x in t.args):
        return tuple(sort_key(x) if is_const(x) or x.op in ("tuple", "list") else _Unknown(x) for x in t.args)
    return _Unknown(t)


class Result:
    def __init__(self, interp, st, val, trace, fi):
        self.interp, self.st, self.val, self.trace, self.fi = interp, st, val, trace, fi

    @property
    def value(self):
        return None if self.val is None else self.interp.freeze(self.val, self.st)

    def attr(self, name, base=None):
        """final value of self.<name>"""
        base = base or sym("self")
        v = self.st.over.get((base, name))
        if v is None:
            v = attr(base, name)
        return self.interp.freeze(v, self.st)

    def raw_attr(self, name, base=None):
        return self.st.over.get((base or sym("self"), name))


# --------------------------------------------------------------------------
# trace utilities


def flat(trace, into_calls=True):
    """all events in syntactic order (ignoring branch structure)"""
    for x in trace:
        if isinstance(x, Ev):
            yield x
        elif isinstance(x, Branch):
            yield from flat(x.a)
            yield from flat(x.b)
        elif isinstance(x, Loop):
            yield from flat(x.body)
            yield from flat(x.orelse)
        elif isinstance(x, Unroll):
            for it in x.iters:
                yield from flat(it)
        elif isinstance(x, CallN):
            yield from flat(x.body)
        elif isinstance(x, TryN):
            yield from flat(x.body)
            for h in x.handlers:
                yield from flat(h)
            yield from flat(x.orelse)
            yield from flat(x.final)
        elif isinstance(x, WithN):
            yield from flat(x.body)


def flat_ctx(trace, ctx=()):
    """(event, context) where context lists enclosing ('if',cond,polarity) /
    ('loop',domain) / ('call',fi) / ('try',kind) / ('with',ctx) frames"""
    for x in trace:
        if isinstance(x, Ev):
            yield x, ctx
        elif isinstance(x, Branch):
            yield from flat_ctx(x.a, ctx + (("if", x.cond, True),))
            yield from flat_ctx(x.b, ctx + (("if", x.cond, False),))
        elif isinstance(x, Loop):
            yield from flat_ctx(x.body, ctx + (("loop", x.lid, x.domain),))
            yield from flat_ctx(x.orelse, ctx)
        elif isinstance(x, Unroll):
            for it in x.iters:
                yield from flat_ctx(it, ctx)
        elif isinstance(x, CallN):
            yield from flat_ctx(x.body, ctx + (("call", x.fi),))
        elif isinstance(x, TryN):
            yield from flat_ctx(x.body, ctx + (("try", x),))
            for h in x.handlers:
                yield from flat_ctx(h, ctx + (("except", x),))
            yield from flat_ctx(x.orelse, ctx + (("else", x),))
            yield from flat_ctx(x.final, ctx + (("finally", x),))
        elif isinstance(x, WithN):
            yield from flat_ctx(x.body, ctx + (("with", x.ctx),))
