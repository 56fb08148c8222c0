"""Halo exchange."""
import itertools

from sa.common import *
from sa.terms import *
from sa.interp import Interp, ListC, Tup, flat, Unroll, Loop, Branch
from sa.norm import Normalizer
from sa.program import AnalysisBroken

A = "pylbm.storage.Array"
S = sym("self")


def run_exchange(ck, dim, index):
    """MPI events of building the datatypes and of one update, for a logical
    dimension and an axis order; all sizes stay symbolic"""
    p = ck.prog
    up = p.func(A + ".update")
    it = ck.interp(stop=set())
    st = State()
    st.over[(S, "swaparray")] = sym("view")
    st.over[(sym("view"), "shape")] = Tup([sym("nv")] + [sym("n%d" % i) for i in range(dim)])
    st.facts[attr(S, "gpu_support")] = False
    st.over[(S, "dim")] = const(dim)
    st.over[(S, "vmax")] = it.alloc(st, ListC([("e", sym("v%d" % i)) for i in range(dim)]))
    st.over[(S, "index")] = it.alloc(st, ListC([("e", const(i)) for i in index]))
    it.opaque_values = {"Get_coords": [sym("c%d" % i) for i in range(dim)]}
    r = it.run(ref(p, up, "def both(self):\n    self._set_subarray()\n    self.update()\n"), st=st, cls=p.cls(A))
    ck.use(it)
    return it, r


def seqof(t):
    return list(t.args) if t is not None and t.op in ("list", "tuple", "seq") else None


def kw(ev, name, pos=None):
    if name in ev.kwargs:
        return ev.kwargs[name]
    return ev.args[pos] if pos is not None and len(ev.args) > pos else None


def check(ck):
    ck.rule("pair", "for every dimension d and every axis order: the layers sent to the low (high) "
            "neighbour are the vmax[d] interior layers next to that side, the layers received from it are "
            "the vmax[d] ghost layers of that side, whole in the other axes")
    ck.rule("neighbour", "the neighbours are the ranks at coordinates -1 / +1 along d")
    ck.rule("tags", "the tag of the message to the low neighbour is the tag expected from the high "
            "neighbour and conversely, and the two differ")
    ck.rule("complete", "all requests of a dimension are waited for before the messages of another "
            "dimension are posted and before the update returns")
    ck.rule("commit", "every datatype used is committed")
    ck.rule("buffers", "the exchanged buffer is the array itself")
    up = ck.prog.func(A + ".update")
    for dim in (1, 2, 3):
        for index in itertools.permutations(range(dim + 1)):
            one(ck, up, dim, index)
    ck.need(150)


def one(ck, up, dim, index):
    lab = "%dd order %s" % (dim, "".join(map(str, index)))
    it, r = run_exchange(ck, dim, index)
    N = Normalizer()
    evs = list(flat(r.trace))
    posts, committed, order = [], set(), []
    for e in evs:
        if e.kind not in ("call", "enter"):
            continue
        n = e.name.rsplit(".", 1)[-1]
        if n in ("Irecv", "Isend"):
            posts.append(e)
            order.append(("post", e))
        elif n in ("Waitall", "waitall"):
            order.append(("wait", e))
        elif n in ("Wait", "wait", "Test"):
            order.append(("wait1", e))
        elif n == "Commit":
            committed.add(N(e.recv))
        elif n in ("Recv", "Send", "Sendrecv", "Ssend", "Bsend", "irecv", "isend", "Issend"):
            posts.append(e)
            order.append(("post", e))
    if not posts:
        ck.obl("pair", lab, False, up, "no message is exchanged")
        return
    coords = None
    got = {}
    for e in posts:
        n = e.name.rsplit(".", 1)[-1]
        a = seqof(e.args[0]) if e.args else None
        if n not in ("Irecv", "Isend") or a is None or len(a) != 2:
            ck.obl("pair", lab, False, e, "message not understood: %s" % n)
            return
        buf, ty = a
        peer = kw(e, "source" if n == "Irecv" else "dest", 1)
        tag = kw(e, "tag", 2)
        d, side = peer_of(N, peer, dim)
        ck.obl("buffers", "%s %s" % (lab, n), N(buf) in (attr(S, "array"), attr(S, "array_cpu")), e,
               "the buffer is %s" % show(buf))
        if d is None:
            ck.obl("neighbour", lab, False, e, "peer %s is not the neighbour at +-1 along one axis" % nshow_(N, peer))
            continue
        key = (n, d, side)
        if key in got:
            ck.obl("pair", lab, False, e, "two %s with the same neighbour" % n)
        got[key] = (N(ty), N(tag) if tag is not None else None, e)
    for d in range(dim):
        for side in (-1, 1):
            for n in ("Irecv", "Isend"):
                key = (n, d, side)
                name = "%s %s axis %d %s" % (lab, n, d, "low" if side < 0 else "high")
                if key not in got:
                    ck.obl("neighbour", name, False, up, "no %s with this neighbour" % n)
                    continue
                ty, tag, e = got[key]
                ck.obl("neighbour", name, True, e)
                sz = ["nv"] + ["n%d" % i for i in range(dim)]
                sub = list(sz)
                sub[d + 1] = "v%d" % d
                if n == "Irecv":
                    st = const(0) if side < 0 else T("bin", "-", sym("n%d" % d), sym("v%d" % d))
                else:
                    st = sym("v%d" % d) if side < 0 else T(
                        "bin", "-", sym("n%d" % d), T("bin", "*", const(2), sym("v%d" % d)))
                start = [const(0)] * (dim + 1)
                start[d + 1] = st
                perm = lambda x: [y[1] for y in sorted(zip(index, x), key=lambda z: z[0])]
                want = [T("list", *perm([sym(x) for x in sz])), T("list", *perm([sym(x) for x in sub])),
                        T("list", *perm(start))]
                ok, det = subarray(N, ty, want)
                ck.obl("pair", name, ok, e, det)
                ck.obl("commit", name, ty in committed, e, "the datatype is never committed")
        t = {k: got.get((k[0], d, k[1]), (None, None, None))[1] for k in (
            ("Irecv", -1), ("Irecv", 1), ("Isend", -1), ("Isend", 1))}
        ok = all(v is not None and is_const(v) for v in t.values()) and \
            t[("Isend", -1)] is t[("Irecv", 1)] and t[("Isend", 1)] is t[("Irecv", -1)] and \
            t[("Isend", -1)] is not t[("Isend", 1)]
        ck.obl("tags", "%s axis %d" % (lab, d), ok, up, "tags %s" % {k: show(v) if v is not None else None
                                                                    for k, v in t.items()})
    # completion
    pending, bad = [], None
    for kind, e in order:
        if kind == "post":
            d = peer_of(N, kw(e, "source", 1) or kw(e, "dest", 1), dim)[0]
            if any(x != d for x, _ in pending):
                bad = bad or e
            pending.append((d, e))
        elif kind == "wait":
            waited = set(walk_all(N(e.args[0]))) if e.args else set()
            pending = [(d, x) for d, x in pending if N(x.res) not in waited]
        else:
            pending = [(d, x) for d, x in pending if N(x.res) is not N(e.recv)]
    ck.obl("complete", lab, bad is None and not pending, bad or (pending[0][1] if pending else up),
           "messages of another dimension are posted, or the function returns, before completion")


def walk_all(t):
    return walk(t)


def nshow_(N, t):
    from sa.norm import nshow
    return nshow(N(t)) if t is not None else "absent"


def subarray(N, ty, want):
    if ty.op == "call" and ty.args[0].op in ("attr", "ext") and str(ty.args[0].args[-1]).endswith("Create_subarray"):
        base = ty.args[0]
        dbl = show(base)
        if "DOUBLE" not in dbl:
            return False, "element type is %s" % dbl
        pos = [x for x in ty.args[1:] if x.op != "kw"]
        kws = {x.args[0]: x.args[1] for x in ty.args[1:] if x.op == "kw"}
        for k, nm in enumerate(("sizes", "subsizes", "starts")):
            g = pos[k] if len(pos) > k else kws.get(nm)
            if g is None:
                return False, "%s missing" % nm
            w = N(want[k])
            if N(g) is not w:
                from sa.norm import nshow
                return False, "%s are %s, required %s" % (nm, nshow(N(g)), nshow(w))
        return True, ""
    return False, "the datatype is %s" % show(ty)[:200]


def peer_of(N, peer, dim):
    """(axis, side) of Get_cart_rank(coords +- 1 along axis)"""
    if peer is None:
        return None, None
    t = N(peer)
    if t.op == "call" and str(t.args[0].args[-1]).endswith("Get_cart_rank") and len(t.args) == 2:
        if "cartcomm" not in show(t.args[0]):
            return None, None
        a = t.args[1]
        a = a.args[1] if a.op == "kw" else a
        xs = seqof(a)
        if xs is None or len(xs) != dim:
            return None, None
        hit = [(i, x) for i, x in enumerate(xs) if x is not N(sym("c%d" % i))]
        if len(hit) == 1:
            i, x = hit[0]
            for side in (-1, 1):
                if x is N(T("bin", "+", sym("c%d" % i), const(side))):
                    return i, side
    if t.op == "item" and t.args[0].op == "call" and str(t.args[0].args[0].args[-1]).endswith("Shift"):
        pos = [x.args[1] if x.op == "kw" else x for x in t.args[0].args[1:]]
        if len(pos) == 2 and is_const(pos[0]) and pos[1] is const(1) and is_const(t.args[1]):
            return cval(pos[0]), -1 if cval(t.args[1]) == 0 else 1
    return None, None
