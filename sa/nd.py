"""Abstract interpretation with arrays of known shape and symbolic entries.

The shapes are those of one finite configuration; the entries are terms.
numpy's own indexing rules are applied to arrays of *positions*, so views,
masks and fancy indices have their exact meaning; entries are never computed,
only moved or combined into terms."""
import ast

import numpy as np

from .interp import (Interp, Ref, Tup, T, ListC, ArrC, IterV, BM, Func, State, const, cval, is_const, ext, sym,
                     NONE, TRUE, FALSE, mkphi, item, Bottom, AnalysisBroken, Unknown)

INTS = {"int", "int8", "int16", "int32", "int64", "i4", "i8", "uint", "uint8", "uint32", "uint64", "intc", "intp", "i", "l"}


def bcast(*xs):
    try:
        return np.broadcast_arrays(*xs)
    except ValueError:
        raise Bottom()


class BufC:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)


class NdC:
    """view of a buffer: array of positions"""
    __slots__ = ("buf", "pos", "dtype")

    def __init__(self, buf, pos, dtype=None):
        self.buf, self.pos, self.dtype = buf, pos, dtype


class Anything:
    """content lost at a join"""

    def __getitem__(self, i):
        return sym("#lost")


def obj(x, shape=None):
    a = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        a[i] = v
    return a.reshape(shape) if shape is not None else a


ELLIPSIS = sym("Ellipsis")
INT = ("int", "int32", "int64", "intp", "int8", "uint8")


class NdInterp(Interp):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.looks = {}       # opaque array term -> shape (ints; None = unknown extent of an indexed axis)
        self.decide = None    # term -> bool or None, for comparisons of entries
        self.nd_ignore_dtype = True

    # ---- cells -------------------------------------------------------
    def nd(self, v, st):
        if isinstance(v, Ref):
            c = self.cell(v, st)
            if isinstance(c, NdC):
                return c
        return None

    def nd_new(self, arr, st, dtype=None):
        arr = np.asarray(arr, dtype=object) if not isinstance(arr, np.ndarray) else arr
        b = Ref()
        st.heap[b.id] = BufC(arr.reshape(-1).tolist() if arr.dtype == object else [const(x) for x in arr.reshape(-1).tolist()])
        return self.alloc(st, NdC(b.id, np.arange(arr.size).reshape(arr.shape), dtype))

    def nd_read(self, c, st):
        b = st.heap[c.buf] if c.buf in st.heap else self.gheap[c.buf]
        vals = b.vals if isinstance(b, BufC) else Anything()
        out = np.empty(c.pos.size, dtype=object)
        for i, p in enumerate(c.pos.reshape(-1).tolist()):
            out[i] = vals[p]
        return out.reshape(c.pos.shape)

    def nd_write(self, c, pos, vals, st):
        if not isinstance(st.heap.get(c.buf), BufC):
            return
        b = list(st.heap[c.buf].vals)
        vals = self.cast(vals, c.dtype)
        for p, v in zip(pos.reshape(-1).tolist(), vals.reshape(-1).tolist()):
            b[p] = v
        st.heap[c.buf] = BufC(b)

    def as_nd(self, v, st, strict=False):
        """object ndarray of terms of an array-like value, or None"""
        c = self.nd(v, st)
        if c is not None:
            return self.nd_read(c, st)
        if isinstance(v, T):
            v = st.cont.get(v, v)
            if v.op in ("list", "tuple"):
                pass
            elif v.op == "nd":
                return obj(v.args[1:], tuple(cval(x) for x in v.args[0].args))
            elif v in self.looks:
                return None if strict else None
            else:
                return obj([v], ())
        if isinstance(v, (Tup, Ref, IterV)) or isinstance(v, T):
            s = self.concrete_seq(v, st)
            if s is None:
                return None
            xs = [self.as_nd(x, st) for x in s]
            if any(x is None for x in xs):
                return None
            if len(set(x.shape for x in xs)) > 1:
                return None
            if not xs:
                return np.empty((0,), dtype=object)
            return np.stack(xs)
        return None

    # ---- generic hooks -----------------------------------------------
    def freeze(self, v, st, seen=()):
        c = self.nd(v, st)
        if c is not None:
            a = self.nd_read(c, st)
            return T("nd", T("tuple", *[const(int(n)) for n in a.shape]), *a.reshape(-1).tolist())
        return super().freeze(v, st, seen)

    def freeze_cell(self, c, st):
        if isinstance(c, NdC):
            a = self.nd_read(c, st)
            return T("nd", T("tuple", *[const(int(n)) for n in a.shape]), *a.reshape(-1).tolist())
        if isinstance(c, BufC):
            return T("buf", *c.vals)
        return super().freeze_cell(c, st)

    def joincell(self, c, a, b, sa, sb, out):
        if isinstance(a, BufC) and isinstance(b, BufC):
            if len(a.vals) == len(b.vals):
                return BufC([x if x is y else mkphi(c, x, y) for x, y in zip(a.vals, b.vals)])
            return a
        if isinstance(a, NdC) and isinstance(b, NdC):
            if a.buf == b.buf and a.pos.shape == b.pos.shape and (a.pos == b.pos).all():
                return a
            if a.pos.shape == b.pos.shape:
                x, y = self.nd_read(a, sa), self.nd_read(b, sb)
                return self.cell(self.nd_new(obj([p if p is q else mkphi(c, p, q) for p, q in zip(
                    x.reshape(-1), y.reshape(-1))], x.shape), out), out)
        return super().joincell(c, a, b, sa, sb, out)

    def concrete_seq(self, v, st):
        c = self.nd(v, st)
        if c is not None:
            if c.pos.ndim == 0:
                return None
            if c.pos.ndim == 1:
                return list(self.nd_read(c, st))
            return [self.alloc(st, NdC(c.buf, p, c.dtype)) for p in c.pos]
        if isinstance(v, IterV) and v.kind == "ndenumerate":
            a = self.nd_read(self.cell(v.args[0], st), st)
            return [Tup([Tup([const(int(i)) for i in k]), x]) for k, x in np.ndenumerate(a)]
        return super().concrete_seq(v, st)

    def truth(self, v, st):
        c = self.nd(v, st)
        if c is not None:
            return self.truth(self.nd_read(c, st).reshape(-1)[0], st) if c.pos.size == 1 else None
        if isinstance(v, T) and not is_const(v) and self.decide is not None:
            r = self.decide(v)
            if r is not None:
                return r
        return super().truth(v, st)

    def key_of(self, key, st):
        """python index of a key, or None when it depends on symbols"""
        def one(k):
            c = self.nd(k, st)
            if c is not None:
                a = self.nd_read(c, st)
                flat = a.reshape(-1).tolist()
                vals = []
                isb = False
                for x in flat:
                    if not is_const(x):
                        r = self.truth(x, st) if x.op not in ("sym", "item", "poly", "bin") else None
                        if r is None:
                            raise Unknown()
                        x = const(r)
                    if isinstance(cval(x), bool):
                        isb = True
                    vals.append(cval(x))
                if isb:
                    return np.array(vals, dtype=bool).reshape(a.shape)
                return np.array([int(x) for x in vals], dtype=int).reshape(a.shape)
            if isinstance(k, (Ref, Tup)) or isinstance(k, IterV):
                s = self.concrete_seq(k, st)
                if s is None:
                    raise Unknown()
                return [one(x) for x in s]
            if isinstance(k, T):
                k = st.cont.get(k, k)
                if k is ext("numpy.newaxis"):
                    return None
                if k is ELLIPSIS:
                    return Ellipsis
                if is_const(k):
                    return cval(k)
                if k.op == "slice":
                    return slice(*[None if a is NONE else one(a) for a in k.args])
                if k.op == "tuple":
                    return tuple(one(a) for a in k.args)
                if k.op == "list":
                    return [one(a) for a in k.args]
            raise Unknown()
        try:
            if isinstance(key, Tup):
                return tuple(one(x) for x in key.vals)
            k = one(key)
            return k
        except Unknown:
            raise

    def look_item(self, v, key, st):
        """items of an opaque array: pointwise terms"""
        shape = self.looks[v]
        parts = list(key.vals) if isinstance(key, Tup) else [key]
        idx, dims = [], []
        out_shape = []
        arrs = []
        ax = 0
        for k in parts:
            a = self.as_nd(k, st) if not (isinstance(k, T) and k.op == "slice") else None
            if isinstance(k, T) and k.op == "slice":
                ext_ = shape[ax]
                if ext_ is None:
                    return None
                r = list(range(ext_))[slice(*[None if x is NONE else cval(x) for x in k.args])]
                idx.append(("s", r))
            elif a is not None:
                idx.append(("a", a))
            else:
                return None
            ax += 1
        for e in shape[ax:]:
            if e is None:
                return None
            idx.append(("s", list(range(e))))
        arrs = [a for k, a in idx if k == "a"]
        if not any(a.ndim for a in arrs) and not any(k == "s" for k, _ in idx):
            return item(v, T("tuple", *[a.reshape(-1)[0] for a in arrs])) if len(idx) > 1 else item(v, arrs[0].reshape(-1)[0])
        bs = np.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
        arrs = [np.broadcast_to(a, bs) for a in arrs]
        adv = [i for i, (k, _) in enumerate(idx) if k == "a"]
        contiguous = adv == list(range(adv[0], adv[-1] + 1)) if adv else True
        sl = [(i, r) for i, (k, r) in enumerate(idx) if k == "s"]
        before = [x for x in sl if adv and contiguous and x[0] < adv[0]]
        after = [x for x in sl if x not in before]
        full = tuple(len(r) for _, r in before) + tuple(bs) + tuple(len(r) for _, r in after)
        out = np.empty(full, dtype=object)
        nb = len(before)
        for pos in np.ndindex(*full):
            p1, p2, p3 = pos[:nb], pos[nb:nb + len(bs)], pos[nb + len(bs):]
            t = [None] * len(idx)
            for (i, r), q in zip(before, p1):
                t[i] = const(r[q])
            for (i, r), q in zip(after, p3):
                t[i] = const(r[q])
            for i, a in zip(adv, arrs):
                t[i] = a[p2]
            out[pos] = item(v, T("tuple", *t)) if len(t) > 1 else item(v, t[0])
        return self.nd_new(out, st)

    def load_item(self, v, key, st, node):
        c = self.nd(v, st)
        if c is not None:
            try:
                k = self.key_of(key, st)
            except Unknown:
                return self.sym_item(c, key, st)
            try:
                p = c.pos[k]
            except (IndexError, TypeError):
                raise Bottom()
            if isinstance(p, np.ndarray):
                if basic(k):
                    return self.alloc(st, NdC(c.buf, p, c.dtype))
                cc = NdC(c.buf, p, c.dtype)
                return self.nd_new(self.nd_read(cc, st), st, c.dtype)
            b = st.heap[c.buf]
            return b.vals[int(p)] if isinstance(b, BufC) else sym("#lost")
        if isinstance(v, T) and v in self.looks:
            r = self.look_item(v, key, st)
            if r is not None:
                return r
        return super().load_item(v, key, st, node)

    def sym_item(self, c, key, st):
        return item(self.freeze_cell(c, st), self.freeze(key, st))

    def store_item(self, v, key, val, st, node):
        c = self.nd(v, st)
        if c is not None:
            before = self.freeze(v, st)
            try:
                k = self.key_of(key, st)
            except Unknown:
                # unknown position: the whole array becomes unknown
                t = T("setitem", before, self.freeze(key, st), self.freeze(val, st))
                self.nd_write(c, c.pos, obj([item(t, const(i)) for i in range(c.pos.size)], c.pos.shape), st)
                return
            try:
                p = c.pos[k]
            except IndexError:
                raise Bottom()
            a = self.as_nd(val, st)
            if a is None:
                fv = self.freeze(val, st)
                p = np.asarray(p)
                a = obj([item(fv, const(i)) for i in range(p.size)], p.shape)
            p = np.asarray(p)
            try:
                a = np.broadcast_to(a, p.shape)
            except ValueError:
                b = a
                while b.ndim > p.ndim and b.shape[0] == 1:
                    b = b[0]
                if b.shape != p.shape:
                    raise Bottom()
                a = b
            self.nd_write(c, p, a, st)
            self.emit("setitem", "setitem", node, recv=before, args=(self.freeze(key, st), self.freeze(val, st)),
                      raw=(v, key, val))
            return
        return super().store_item(v, key, val, st, node)

    def inplace(self, op, cur, rhs, st, node):
        c = self.nd(cur, st)
        if c is not None:
            a = self.nd_bin(op, cur, rhs, st)
            if a is not None:
                self.nd_write(c, c.pos, np.broadcast_to(a, c.pos.shape), st)
                return cur
        return super().inplace(op, cur, rhs, st, node)

    def load_attr(self, v, name, st, node):
        c = self.nd(v, st)
        if c is not None:
            if name == "size":
                return const(int(c.pos.size))
            if name == "ndim":
                return const(c.pos.ndim)
            if name == "shape":
                return Tup([const(int(n)) for n in c.pos.shape])
            if name == "T":
                return self.alloc(st, NdC(c.buf, c.pos.T, c.dtype))
            if name == "dtype":
                return ext("numpy." + (c.dtype or "float64"))
            return BM(v, name)
        return super().load_attr(v, name, st, node)

    def nd_bin(self, op, a, b, st):
        x, y = self.as_nd(a, st), self.as_nd(b, st)
        if x is None or y is None:
            return None
        x, y = bcast(x, y)
        return obj([self.binop(op, p, q) for p, q in zip(x.reshape(-1).tolist(), y.reshape(-1).tolist())], x.shape)

    def v_binop(self, op, a, b, st):
        if self.nd(a, st) is not None or self.nd(b, st) is not None:
            r = self.nd_bin(op, a, b, st) if op != "@" else self.nd_dot(a, b, st)
            if r is not None:
                return self.nd_new(r, st)
        return super().v_binop(op, a, b, st)

    def nd_dot(self, a, b, st):
        x, y = self.as_nd(a, st), self.as_nd(b, st)
        if x is None or y is None or not x.ndim or not y.ndim:
            return None

        def dot1(u, w):
            acc = None
            for p, q in zip(u.tolist(), w.tolist()):
                t = self.binop("*", p, q)
                acc = t if acc is None else self.binop("+", acc, t)
            return acc if acc is not None else const(0)
        if x.ndim == 1 and y.ndim == 1:
            return obj([dot1(x, y)], ())
        if x.ndim == 2 and y.ndim == 1:
            return obj([dot1(r, y) for r in x])
        if x.ndim == 1 and y.ndim == 2:
            return obj([dot1(x, y[:, j]) for j in range(y.shape[1])])
        if x.ndim == 2 and y.ndim == 2:
            return obj([dot1(x[i], y[:, j]) for i in range(x.shape[0]) for j in range(y.shape[1])], (x.shape[0], y.shape[1]))
        return None

    def map1(self, f, a, st):
        return obj([f(x) for x in a.reshape(-1).tolist()], a.shape)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, (ast.USub, ast.Invert)):
            v = self.eval(e.operand, st)
            c = self.nd(v, st)
            if c is not None:
                a = self.nd_read(c, st)
                if isinstance(e.op, ast.USub):
                    return self.nd_new(self.map1(lambda x: self.binop("*", const(-1), x), a, st), st)
                return self.nd_new(self.map1(lambda x: self.bnot(x, st), a, st), st)
            if isinstance(e.op, ast.USub):
                t = self.freeze(v, st)
                if is_const(t) and isinstance(cval(t), (int, float)):
                    return const(-cval(t))
                return T("neg", t)
            return T("call", ext("numpy.invert"), self.freeze(v, st))
        return super().e_UnaryOp(e, st)

    def bval(self, x, st):
        r = self.truth(x, st)
        return x if r is None else const(bool(r))

    def bnot(self, x, st):
        x = self.bval(x, st)
        if is_const(x):
            return const(not cval(x))
        from .interp import mknot
        return mknot(x)

    def compare(self, op, a, b, st):
        if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and (
                self.nd(a, st) is not None or self.nd(b, st) is not None):
            x, y = self.as_nd(a, st), self.as_nd(b, st)
            if x is not None and y is not None:
                x, y = bcast(x, y)
                sup = super()
                return self.nd_new(obj([self.bval(sup.compare(op, p, q, st), st) for p, q in zip(
                    x.reshape(-1).tolist(), y.reshape(-1).tolist())], x.shape), st)
        return super().compare(op, a, b, st)

    def copyval(self, v, st, node, deep):
        c = self.nd(v, st)
        if c is not None:
            return self.nd_new(self.nd_read(c, st), st, c.dtype)
        return super().copyval(v, st, node, deep)

    # ---- methods -----------------------------------------------------
    def method(self, bm, args, kwargs, st, node):
        c = self.nd(bm.recv, st)
        if c is not None:
            r = self.nd_method(bm.recv, c, bm.name, args, kwargs, st, node)
            if r is not None:
                return r
        return super().method(bm, args, kwargs, st, node)

    def ints(self, v, st):
        t = v if isinstance(v, T) else None
        if t is not None and is_const(t) and isinstance(cval(t), int):
            return (cval(t),)
        s = self.concrete_seq(v, st)
        if s is None:
            raise Unknown()
        out = []
        for x in s:
            x = x if isinstance(x, T) else self.freeze(x, st)
            while x.op == "call" and len(x.args) == 2 and x.args[0] is ext("int"):
                x = x.args[1]
            if not is_const(x):
                raise Unknown()
            out.append(int(cval(x)))
        return tuple(out)

    def nd_method(self, v, c, name, args, kwargs, st, node):
        try:
            if name == "copy":
                return self.nd_new(self.nd_read(c, st), st, c.dtype)
            if name == "astype":
                d = self._dtype(args, kwargs, st, 0)
                return self.nd_new(self.cast(self.nd_read(c, st), d), st, d or c.dtype)
            if name in ("flatten", "ravel"):
                a = c.pos.reshape(-1)
                return self.nd_new(self.nd_read(NdC(c.buf, a), st), st, c.dtype) if name == "flatten" else \
                    self.alloc(st, NdC(c.buf, a, c.dtype))
            if name == "reshape":
                shp = self.ints(args[0], st) if len(args) == 1 else tuple(cval(self.freeze(x, st)) for x in args)
                return self.alloc(st, NdC(c.buf, c.pos.reshape(shp), c.dtype))
            if name == "transpose":
                if not args or args[0] is NONE:
                    return self.alloc(st, NdC(c.buf, c.pos.T, c.dtype))
                ax = self.ints(args[0], st) if len(args) == 1 else tuple(cval(self.freeze(x, st)) for x in args)
                return self.alloc(st, NdC(c.buf, c.pos.transpose(ax), c.dtype))
            if name == "swapaxes":
                ax = [cval(self.freeze(x, st)) for x in args]
                return self.alloc(st, NdC(c.buf, c.pos.swapaxes(*ax), c.dtype))
            if name == "tolist":
                def lst(p):
                    if p.ndim == 1:
                        return self.newlist(st, list(self.nd_read(NdC(c.buf, p), st)))
                    return self.newlist(st, [lst(q) for q in p])
                return lst(c.pos)
            if name == "fill":
                self.nd_write(c, c.pos, np.broadcast_to(obj([self.freeze(args[0], st)], ()), c.pos.shape), st)
                return NONE
            if name in ("sum", "any", "all", "max", "min", "prod"):
                ax = None
                if args:
                    ax = cval(args[0])
                if "axis" in kwargs:
                    ax = cval(kwargs["axis"])
                return self.reduce(name, self.nd_read(c, st), ax, st)
            if name == "dot":
                r = self.nd_dot(v, args[0], st)
                return None if r is None else (self.nd_new(r, st) if r.ndim else r.reshape(-1)[0])
            if name == "item" and c.pos.size == 1:
                return self.nd_read(c, st).reshape(-1)[0]
            if name in ("nonzero", "repeat", "squeeze", "cumsum", "trace", "diagonal"):
                return getattr(self, "n_" + name)([v] + list(args), kwargs, st)
        except (Unknown, ValueError, AttributeError, TypeError):
            return None
        return None

    def reduce(self, name, a, ax, st):
        def red(xs):
            xs = list(xs)
            if name in ("sum", "prod"):
                acc = None
                for x in xs:
                    acc = x if acc is None else self.binop("+" if name == "sum" else "*", acc, x)
                return acc if acc is not None else const(0 if name == "sum" else 1)
            if name in ("any", "all"):
                bs = [self.bval(x, st) for x in xs]
                cs = [bool(cval(b)) for b in bs if is_const(b)]
                if name == "any" and any(cs):
                    return TRUE
                if name == "all" and not all(cs):
                    return FALSE
                rest = [b for b in bs if not is_const(b)]
                if not rest:
                    return const(name == "all")
                return rest[0] if len(rest) == 1 else T("or" if name == "any" else "and", *rest)
            if all(is_const(x) for x in xs) and xs:
                return const((max if name == "max" else min)(cval(x) for x in xs))
            return T("call", ext(name), T("list", *xs))
        if ax is None:
            return red(a.reshape(-1))
        b = np.moveaxis(a, ax, -1)
        shp = b.shape[:-1]
        if not shp:
            return red(b)
        return self.nd_new(obj([red(r) for r in b.reshape(-1, b.shape[-1])], shp), st)

    # ---- functions ---------------------------------------------------
    def external(self, name, args, kwargs, st, node):
        if name.startswith("numpy.") or name == "int":
            h = getattr(self, "n_" + name.split(".", 1)[-1].replace(".", "_"), None)
            if h is not None:
                try:
                    r = self.n_out(h, args, kwargs, st) if "out" in kwargs or "where" in kwargs else h(args, kwargs, st)
                except (Unknown, ValueError, IndexError, TypeError):
                    r = None
                if r is not None:
                    return r
        return super().external(name, args, kwargs, st, node)

    def n_out(self, h, args, kwargs, st):
        """ufunc with out= and where="""
        kw = {k: v for k, v in kwargs.items() if k not in ("out", "where")}
        o = kwargs.get("out", NONE)
        if isinstance(o, Tup) and len(o.vals) == 1:
            o = o.vals[0]
        c = self.nd(o, st)
        if c is None:
            if "where" in kwargs or o is not NONE:
                return None
            return h(args, kw, st)
        r = h(args, kw, st)
        a = None if r is None else self.as_nd(r, st)
        if a is None:
            return None
        a = np.broadcast_to(a, c.pos.shape)
        if "where" in kwargs:
            w = self.as_nd(kwargs["where"], st)
            if w is None:
                return None
            w = np.broadcast_to(w, c.pos.shape)
            old = self.nd_read(c, st)
            b = [self.truth(x, st) for x in w.reshape(-1).tolist()]
            if None in b:
                raise Unknown()
            a = obj([p if q else o_ for p, q, o_ in zip(a.reshape(-1).tolist(), b, old.reshape(-1).tolist())], c.pos.shape)
        self.nd_write(c, c.pos, a, st)
        return o

    def _op2(self, op, args, kwargs, st):
        if len(args) != 2 or kwargs or not any(self.nd(a, st) is not None for a in args):
            return None
        r = self.nd_bin(op, args[0], args[1], st)
        return None if r is None else self.nd_new(r, st)

    def n_add(self, args, kwargs, st):
        return self._op2("+", args, kwargs, st)

    def n_subtract(self, args, kwargs, st):
        return self._op2("-", args, kwargs, st)

    def n_multiply(self, args, kwargs, st):
        return self._op2("*", args, kwargs, st)

    def n_divide(self, args, kwargs, st):
        return self._op2("/", args, kwargs, st)

    n_true_divide = n_divide

    def n_power(self, args, kwargs, st):
        return self._op2("**", args, kwargs, st)

    def n_negative(self, args, kwargs, st):
        c = self.nd(args[0], st)
        return None if c is None else self.nd_new(self.map1(lambda x: self.binop("*", const(-1), x), self.nd_read(c, st), st), st)

    def _cmp(self, op, args, kwargs, st):
        if len(args) != 2 or kwargs or not any(self.nd(a, st) is not None for a in args):
            return None
        return self.compare(op, args[0], args[1], st)

    def n_less(self, args, kwargs, st):
        return self._cmp(ast.Lt(), args, kwargs, st)

    def n_less_equal(self, args, kwargs, st):
        return self._cmp(ast.LtE(), args, kwargs, st)

    def n_greater(self, args, kwargs, st):
        return self._cmp(ast.Gt(), args, kwargs, st)

    def n_greater_equal(self, args, kwargs, st):
        return self._cmp(ast.GtE(), args, kwargs, st)

    def n_equal(self, args, kwargs, st):
        return self._cmp(ast.Eq(), args, kwargs, st)

    def n_not_equal(self, args, kwargs, st):
        return self._cmp(ast.NotEq(), args, kwargs, st)

    def n_column_stack(self, args, kwargs, st):
        return self.nd_new(np.column_stack(self._seq_nd(args[0], st)), st)

    def n_expand_dims(self, args, kwargs, st):
        c = self.nd(args[0], st)
        return None if c is None else self.alloc(st, NdC(c.buf, np.expand_dims(c.pos, self._axis(args, kwargs)), c.dtype))

    def n_select(self, args, kwargs, st):
        conds = [self.as_nd(x, st) for x in self.concrete_seq(args[0], st)]
        vals = [self.as_nd(x, st) for x in self.concrete_seq(args[1], st)]
        d = self.as_nd(args[2] if len(args) > 2 else kwargs.get("default", const(0)), st)
        if any(x is None for x in conds + vals + [d]):
            return None
        xs = bcast(d, *(conds + vals))
        n = len(conds)
        out = []
        for row in zip(*[x.reshape(-1).tolist() for x in xs]):
            t = row[0]
            for c, v in list(zip(row[1:1 + n], row[1 + n:]))[::-1]:
                r = self.truth(c, st)
                t = v if r is True else t if r is False else mkphi(c, v, t)
            out.append(t)
        return self.nd_new(obj(out, xs[0].shape), st)

    def n_clip(self, args, kwargs, st):
        if len(args) != 3 or kwargs:
            return None
        a = self.n_maximum([args[0], args[1]], {}, st)
        return None if a is None else self.n_minimum([a, args[2]], {}, st)

    def _dtype(self, args, kwargs, st, k=1):
        d = kwargs.get("dtype", args[k] if len(args) > k else None)
        if d is None:
            return None
        t = self.freeze(d, st)
        return str(cval(t)) if is_const(t) else str(t.args[0]).rsplit(".", 1)[-1]

    def cast(self, a, dtype):
        """numbers put in an array of integers are cut"""
        if dtype not in INTS or not any(is_const(x) and isinstance(cval(x), float) for x in a.reshape(-1)):
            return a
        return obj([const(int(cval(x))) if is_const(x) and isinstance(cval(x), float) and abs(cval(x)) < 1e300 else x
                    for x in a.reshape(-1).tolist()], a.shape)

    def _fill(self, x, args, kwargs, st):
        shp = self.ints(args[0] if args else kwargs["shape"], st)
        d = self._dtype(args, kwargs, st)
        return self.nd_new(obj([x] * int(np.prod(shp)), shp), st, d)

    def n_zeros(self, args, kwargs, st):
        return self._fill(const(0), args, kwargs, st)

    def n_ones(self, args, kwargs, st):
        return self._fill(const(1), args, kwargs, st)

    def n_empty(self, args, kwargs, st):
        return self._fill(sym("#uninit"), args, kwargs, st)

    def n_full(self, args, kwargs, st):
        shp = self.ints(args[0], st)
        return self.nd_new(obj([self.freeze(args[1], st)] * int(np.prod(shp)), shp), st)

    def _like(self, x, args, st):
        c = self.nd(args[0], st)
        if c is None:
            return None
        return self.nd_new(obj([x] * c.pos.size, c.pos.shape), st, c.dtype)

    def n_zeros_like(self, args, kwargs, st):
        return self._like(const(0), args, st)

    def n_ones_like(self, args, kwargs, st):
        return self._like(const(1), args, st)

    def n_empty_like(self, args, kwargs, st):
        return self._like(sym("#uninit"), args, st)

    def n_full_like(self, args, kwargs, st):
        return self._like(self.freeze(args[1], st), args, st)

    def n_array(self, args, kwargs, st, copy=True):
        v = args[0]
        c = self.nd(v, st)
        if c is not None:
            d = self._dtype(args, kwargs, st)
            a = self.nd_read(c, st)
            b = self.cast(a, d)
            return self.nd_new(b, st, d or c.dtype) if copy or b is not a else v
        if isinstance(v, T) and v.op not in ("list", "tuple", "nd"):
            return None
        a = self.as_nd(v, st)
        if a is None and self._dtype(args, kwargs, st) is None:
            xs = self.concrete_seq(v, st)
            xs = [self.nd(x, st) for x in xs] if xs is not None else [None]
            if all(x is not None for x in xs) and len({x.pos.shape for x in xs}) > 1:
                raise Bottom()      # numpy refuses ragged sequences
        d = self._dtype(args, kwargs, st)
        return None if a is None else self.nd_new(self.cast(a, d), st, d)

    def n_asarray(self, args, kwargs, st):
        return self.n_array(args, kwargs, st, False)

    def n_ascontiguousarray(self, args, kwargs, st):
        return self.n_array(args, kwargs, st, True)

    n_asanyarray = n_asarray

    def n_copy(self, args, kwargs, st):
        return self.n_array(args, kwargs, st, True)

    def n_arange(self, args, kwargs, st):
        xs = [cval(self.freeze(a, st)) for a in args if is_const(self.freeze(a, st))]
        if len(xs) != len(args):
            return None
        return self.nd_new(obj([const(i) for i in range(*xs)]), st, "int64")

    def n_eye(self, args, kwargs, st):
        n = cval(args[0])
        return self.nd_new(obj([const(int(i == j)) for i in range(n) for j in range(n)], (n, n)), st)

    n_identity = n_eye

    def _axis(self, args, kwargs, k=1, default=0):
        a = kwargs.get("axis", args[k] if len(args) > k else None)
        return default if a is None else cval(a)

    def _seq_nd(self, v, st):
        s = self.concrete_seq(v, st)
        if s is None:
            raise Unknown()
        xs = [self.as_nd(x, st) for x in s]
        if any(x is None for x in xs):
            raise Unknown()
        return xs

    def n_concatenate(self, args, kwargs, st):
        return self.nd_new(np.concatenate(self._seq_nd(args[0], st), axis=self._axis(args, kwargs)), st)

    def n_vstack(self, args, kwargs, st):
        return self.nd_new(np.vstack(self._seq_nd(args[0], st)), st)

    def n_hstack(self, args, kwargs, st):
        return self.nd_new(np.hstack(self._seq_nd(args[0], st)), st)

    def n_stack(self, args, kwargs, st):
        return self.nd_new(np.stack(self._seq_nd(args[0], st), axis=self._axis(args, kwargs)), st)

    def n_append(self, args, kwargs, st):
        a, b = self.as_nd(args[0], st), self.as_nd(args[1], st)
        ax = self._axis(args, kwargs, 2, None)
        return self.nd_new(np.append(a, b, axis=ax), st)

    def n_transpose(self, args, kwargs, st):
        c = self.nd(args[0], st)
        if c is None:
            return None
        return self.nd_method(args[0], c, "transpose", args[1:] or list(kwargs.values()), {}, st, None)

    def n_reshape(self, args, kwargs, st):
        c = self.nd(args[0], st)
        return None if c is None else self.nd_method(args[0], c, "reshape", args[1:], {}, st, None)

    def n_ravel(self, args, kwargs, st):
        c = self.nd(args[0], st)
        return None if c is None else self.nd_method(args[0], c, "ravel", [], {}, st, None)

    def _logic(self, name, args, st):
        if not any(self.nd(a, st) is not None for a in args):
            return None
        xs = [self.as_nd(a, st) for a in args]
        if any(x is None for x in xs):
            return None
        xs = bcast(*xs)
        out = []
        for ps in zip(*[x.reshape(-1).tolist() for x in xs]):
            bs = [self.bval(p, st) for p in ps]
            if name == "not":
                out.append(self.bnot(bs[0], st))
                continue
            absorb = name == "or"
            cs = [bool(cval(b)) for b in bs if is_const(b)]
            if absorb in cs:
                out.append(const(absorb))
                continue
            rest = [b for b in bs if not is_const(b)]
            out.append(const(not absorb) if not rest else rest[0] if len(rest) == 1 else T(name, *rest))
        return self.nd_new(obj(out, xs[0].shape), st)

    def n_logical_and(self, args, kwargs, st):
        return self._logic("and", args, st)

    def n_logical_or(self, args, kwargs, st):
        return self._logic("or", args, st)

    def n_logical_not(self, args, kwargs, st):
        return self._logic("not", args, st)

    n_invert = n_logical_not

    def n_where(self, args, kwargs, st):
        if len(args) == 1:
            c = self.nd(args[0], st)
            if c is None:
                return None
            a = self.nd_read(c, st)
            bs = [self.bval(x, st) for x in a.reshape(-1).tolist()]
            if not all(is_const(b) for b in bs):
                return None
            m = np.array([bool(cval(b)) for b in bs], dtype=bool).reshape(a.shape)
            return Tup([self.nd_new(obj([const(int(i)) for i in r], r.shape), st, "int64") for r in np.where(m)])
        if not any(self.nd(a, st) is not None for a in args):
            return None
        xs = [self.as_nd(a, st) for a in args]
        if any(x is None for x in xs):
            return None
        xs = bcast(*xs)
        out = []
        for c, a, b in zip(*[x.reshape(-1).tolist() for x in xs]):
            r = self.truth(c, st)
            out.append(a if r is True else b if r is False else mkphi(c, a, b))
        return self.nd_new(obj(out, xs[0].shape), st)

    def n_broadcast(self, args, kwargs, st):
        """only its shape, size and dimension are used"""
        xs = [self.as_nd(a, st) for a in args]
        if any(x is None for x in xs):
            return None
        try:
            return self.nd_new(bcast(*xs)[0].copy(), st)
        except ValueError:
            raise Bottom()

    def n_broadcast_shapes(self, args, kwargs, st):
        try:
            return Tup([const(int(n)) for n in np.broadcast_shapes(*[self.ints(a, st) for a in args])])
        except Unknown:
            return None
        except ValueError:
            raise Bottom()

    def n_nonzero(self, args, kwargs, st):
        return self.n_where(args, kwargs, st)

    def n_abs(self, args, kwargs, st):
        c = self.nd(args[0], st)
        if c is None:
            return None
        return self.nd_new(self.map1(lambda x: const(abs(cval(x))) if is_const(x) else T("call", ext("abs"), x),
                                     self.nd_read(c, st), st), st)

    n_absolute = n_fabs = n_abs

    def _reduce(self, name, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or not a.ndim:
            return None
        return self.reduce(name, a, self._axis(args, kwargs, 1, None), st)

    def n_any(self, args, kwargs, st):
        return self._reduce("any", args, kwargs, st)

    def n_all(self, args, kwargs, st):
        return self._reduce("all", args, kwargs, st)

    def n_sum(self, args, kwargs, st):
        return self._reduce("sum", args, kwargs, st)

    def n_prod(self, args, kwargs, st):
        return self._reduce("prod", args, kwargs, st)

    def n_max(self, args, kwargs, st):
        return self._reduce("max", args, kwargs, st)

    def n_min(self, args, kwargs, st):
        return self._reduce("min", args, kwargs, st)

    n_amax, n_amin = n_max, n_min

    def _pair(self, name, args, st):
        if not any(self.nd(a, st) is not None for a in args):
            return None
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        if x is None or y is None:
            return None
        x, y = bcast(x, y)
        f = max if name == "max" else min

        def one(p, q):
            if is_const(p) and is_const(q):
                return const(f(cval(p), cval(q)))
            return p if p is q else T("call", ext(name), p, q)
        return self.nd_new(obj([one(p, q) for p, q in zip(x.reshape(-1).tolist(), y.reshape(-1).tolist())], x.shape), st)

    def n_maximum(self, args, kwargs, st):
        return self._pair("max", args, st)

    def n_minimum(self, args, kwargs, st):
        return self._pair("min", args, st)

    def n_dot(self, args, kwargs, st):
        r = self.nd_dot(args[0], args[1], st)
        return None if r is None else (self.nd_new(r, st) if r.ndim else r.reshape(-1)[0])

    n_inner = n_dot

    def n_diagonal(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or a.ndim != 2 or len(args) > 1 or kwargs:
            return None
        return self.nd_new(obj([a[i, i] for i in range(min(a.shape))]), st)

    def n_diag(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or a.ndim > 2 or len(args) > 1 or kwargs:
            return None
        if a.ndim == 2:
            return self.n_diagonal(args, kwargs, st)
        n = a.size
        return self.nd_new(obj([a[i] if i == j else const(0.0) for i in range(n) for j in range(n)], (n, n)), st)

    def n_trace(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or a.ndim != 2 or len(args) > 1 or kwargs:
            return None
        return self.reduce("sum", obj([a[i, i] for i in range(min(a.shape))]), None, st)

    def n_outer(self, args, kwargs, st):
        x, y = self.as_nd(args[0], st), self.as_nd(args[1], st)
        x, y = x.reshape(-1), y.reshape(-1)
        return self.nd_new(obj([self.binop("*", p, q) for p in x for q in y], (x.size, y.size)), st)

    def n_unique(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        xs = a.reshape(-1).tolist()
        if not all(is_const(x) for x in xs):
            return None
        return self.nd_new(obj([const(x) for x in sorted(set(cval(x) for x in xs))]), st)

    def n_isin(self, args, kwargs, st):
        a, b = self.as_nd(args[0], st), self.as_nd(args[1], st)
        if a is None or b is None or kwargs or len(args) > 2:
            return None
        bs = b.reshape(-1).tolist()

        def one(x):
            hit = False
            for y in bs:
                if y is x:
                    return TRUE
                e = self.bval(self.compare(ast.Eq(), x, y, st), st)
                if not is_const(e):
                    t = self.truth(e, st)
                    e = e if t is None else const(bool(t))
                if e is TRUE:
                    return TRUE
                hit = hit or e is not FALSE
            if hit:
                raise Unknown()
            return FALSE
        r = self.map1(one, a, st)
        return self.nd_new(r, st, "bool") if a.ndim else r.reshape(-1)[0]

    n_in1d = n_isin

    def n_union1d(self, args, kwargs, st):
        xs = self.as_nd(args[0], st).reshape(-1).tolist() + self.as_nd(args[1], st).reshape(-1).tolist()
        if not all(is_const(x) for x in xs):
            return None
        return self.nd_new(obj([const(x) for x in sorted(set(cval(x) for x in xs))]), st)

    def n_searchsorted(self, args, kwargs, st):
        a, v = self.as_nd(args[0], st), self.as_nd(args[1], st)
        side = args[2] if len(args) > 2 else kwargs.get("side", const("left"))
        if set(kwargs) - {"side"} or not all(is_const(x) for x in a.reshape(-1).tolist() + v.reshape(-1).tolist() + [side]):
            return None
        r = np.searchsorted([cval(x) for x in a.tolist()], [cval(x) for x in v.reshape(-1).tolist()], side=cval(side))
        if v.shape == ():
            return const(int(r[0]))
        return self.nd_new(obj([const(int(x)) for x in r], v.shape), st)

    def n_linspace(self, args, kwargs, st):
        a = list(args) + [kwargs[k] for k in ("start", "stop", "num")[len(args):] if k in kwargs]
        end = self.freeze(kwargs["endpoint"], st) if "endpoint" in kwargs else TRUE
        if len(a) != 3 or set(kwargs) - {"start", "stop", "num", "endpoint"} or end not in (TRUE, FALSE):
            return None
        lo, hi, n = (self.freeze(x, st) for x in a)
        if not is_const(n) or not isinstance(cval(n), int) or cval(n) < 0:
            return None
        n = cval(n)
        w = self.binop("-", hi, lo)
        return self.nd_new(obj([self.binop("+", lo, self.binop("/", self.binop("*", const(i), w), const(n - (end is TRUE)))) if i else lo
                                for i in range(n)]), st)

    def n_copyto(self, args, kwargs, st):
        c = self.nd(args[0], st) if len(args) == 2 and not kwargs else None
        a = self.as_nd(args[1], st) if c is not None else None
        if a is None:
            return None
        self.nd_write(c, c.pos, np.broadcast_to(a, c.pos.shape), st)
        return NONE

    def n_meshgrid(self, args, kwargs, st):
        if set(kwargs) - {"sparse", "indexing", "copy"}:
            return None
        opt = {k: self.freeze(v, st) for k, v in kwargs.items()}
        if not all(is_const(v) for v in opt.values()):
            return None
        xs = [self.as_nd(a, st) for a in args]
        if any(x is None for x in xs):
            return None
        n = len(xs)
        ij = cval(opt.get("indexing", const("xy"))) == "ij"
        pos = list(range(n))
        if not ij and n > 1:
            pos[0], pos[1] = 1, 0
        shape = [0] * n
        for k, x in enumerate(xs):
            shape[pos[k]] = x.size
        out = []
        for k, x in enumerate(xs):
            s = [1] * n
            s[pos[k]] = x.size
            a = x.reshape(s)
            if not cval(opt.get("sparse", FALSE)):
                a = np.broadcast_to(a, shape)
            out.append(self.nd_new(obj(a.reshape(-1).tolist(), a.shape), st))
        return Tup(out)

    def n_repeat(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        return self.nd_new(np.repeat(a, cval(args[1]), axis=self._axis(args, kwargs, 2, None)), st)

    def n_tile(self, args, kwargs, st):
        return self.nd_new(np.tile(self.as_nd(args[0], st), self.ints(args[1], st)), st)

    def n_cumsum(self, args, kwargs, st):
        a = self.as_nd(args[0], st)
        if a is None or a.ndim != 1:
            return None
        out, acc = [], None
        for x in a.tolist():
            acc = x if acc is None else self.binop("+", acc, x)
            out.append(acc)
        return self.nd_new(obj(out), st)

    def n_ndenumerate(self, args, kwargs, st):
        c = self.nd(args[0], st)
        if c is None:
            if isinstance(args[0], T):
                return None
            args = [self.n_array(args, {}, st)]
        return IterV("ndenumerate", args[0])

    def n_broadcast_to(self, args, kwargs, st):
        return self.nd_new(np.broadcast_to(self.as_nd(args[0], st), self.ints(args[1], st)), st)

    def n_squeeze(self, args, kwargs, st):
        c = self.nd(args[0], st)
        return None if c is None else self.alloc(st, NdC(c.buf, c.pos.squeeze(), c.dtype))

    def n_int(self, args, kwargs, st):
        if args and isinstance(args[0], T) and is_const(args[0]) and isinstance(cval(args[0]), (int, bool)):
            return const(int(cval(args[0])))
        return None


def basic(k):
    if not isinstance(k, tuple):
        k = (k,)
    return all(x is None or x is Ellipsis or isinstance(x, (slice, int)) and not isinstance(x, bool) for x in k)
