"""HDF5 / XDMF output of the distributed fields."""
import itertools
import re

import numpy as np

from sa.common import *
from sa.terms import *
from sa.interp import ListC, Tup, State, DictC, Ref, flat
from sa.nd import NdInterp, obj
from sa.rule import ref
from sa.program import AnalysisBroken

H = "pylbm.hdf5.H5File"
# process grids and the numbers of points owned along each axis
GRIDS = {
    "quick": [((2, 3), ((2, 3), (4, 3, 2))), ((1, 1), ((3,), (2,))), ((3, 1), ((2, 2, 2), (3,))),
              ((2, 1, 2), ((2, 4), (3,), (2, 3))), ((1, 2, 1), ((2,), (3, 2), (4,)))],
    "thorough": [((1, 4), ((3,), (2, 2, 3, 2))), ((2, 2, 2), ((2, 3), (4, 2), (3, 2))), ((3, 2, 1), ((2, 3, 2), (2, 4), (3,))),
                 ((4, 2), ((2, 3, 3, 2), (4, 2)))],
}




class World:
    """one Cartesian communicator; the ranks are interpreted one after the other, the
    writer last; a communicator of the topology need not be the whole world"""

    def __init__(self, grid, sizes):
        self.grid, self.sizes = grid, sizes
        self.dim = len(grid)
        self.coords = list(itertools.product(*[range(n) for n in grid]))
        self.n = len(self.coords)
        self.off = [[0] + list(np.cumsum(s)) for s in sizes]
        self.total = tuple(sum(s) for s in sizes)
        self.sent = {}
        self.x = [[sym("x%d_%d" % (d, i)) for i in range(self.total[d])] for d in range(self.dim)]

    def part(self, c, field):
        return field[tuple(slice(self.off[d][c[d]], self.off[d][c[d] + 1]) for d in range(self.dim))]


def field(name, shape):
    n = int(np.prod(shape))
    return obj([sym("%s_%d" % (name, i)) for i in range(n)], shape)


def check(ck):
    ck.rule("data", "the dataset of a field holds, at [k, j, i], the value at the point (i, j, k) of the whole domain, "
            "whichever process owns it; a vector has three components, the missing one zero")
    ck.rule("grid", "the coordinate datasets hold the coordinates of the whole domain along each axis")
    ck.rule("messages", "every message sent by a process is received once by the writer, from this process, with "
            "the same tag and number of values, and conversely")
    ck.rule("collective", "every process makes the same collective calls, on the topology's communicator")
    ck.rule("files", "the data file is created once, by the process 0 of the topology, after its directory, before the others "
            "go on, and closed before the description is written; without a path the files are in the current directory")
    ck.rule("xdmf", "the description names each dataset in the data file written, with the sizes it has in it")
    for grid, sizes in GRIDS["quick"] + (GRIDS["thorough"] if ck.tier == "thorough" else []):
        for fun in (False, True):
            one(ck, grid, sizes, fun)
    files(ck)
    ck.need(60)


SRC2 = """
def drive(topo, x, y, a, b, v, w):
    h = H5File(topo, "name.xx", "dir", 7)
    h.set_grid(x, y)
    h.add_scalar("rho", a)
    h.add_vector("q", v)
    h.add_scalar("p", b)
    h.save()
    return h
"""
SRC3 = SRC2.replace("x, y", "x, y, z")


def one(ck, grid, sizes, fun):
    W = World(grid, sizes)
    p = ck.prog
    cls = p.cls(H)
    fi = p.func(H + "." + "_set_dset")
    lab = "%s processes%s" % ("x".join(map(str, grid)), ", fields given by functions" if fun else "")
    nv = W.dim
    F = {"a": field("a", W.total), "b": field("b", W.total)}
    F.update({"v%d" % i: field("v%d" % i, W.total) for i in range(nv)})
    colls = {}
    rec = {}
    bad = {}
    out = None
    src = SRC2 if W.dim == 2 else SRC3
    if fun:
        src = src.replace('"rho", a', '"rho", a, 1, w').replace('"q", v', '"q", v, w')
    for rank in list(range(1, W.n)) + [0]:
        c = W.coords[rank]
        it = NdInterp(p, inline_classes={H})
        st = State()
        topo, cart = sym("topo"), sym("cartcomm")
        st.over[(topo, "cartcomm")] = cart
        coll = colls.setdefault(rank, [])
        rec[rank] = []

        def note(msg, key="messages"):
            bad.setdefault(key, []).append("process %s: %s" % (c, msg))

        def comm(t):
            if t is cart:
                return "cart"
            if isinstance(t, T) and t.op == "subcomm":
                return t
            note("collective call or message on %s" % show(t)[:80], "collective")
            return None

        def get_rank(i, s, recv, args):
            # in the whole world the processes have other numbers
            return const(rank) if recv is cart else const(rank + 5)

        def sub(i, s, recv, args):
            keep = [bool(cval(x)) for x in i.concrete_seq(args[0], s)]
            coll.append(("Sub", tuple(keep)))
            if comm(recv) != "cart":
                note("sub-communicator of %s" % show(recv)[:80], "collective")
            return T("subcomm", *[const(k) for k in keep])

        def members(t):
            """coordinates of the processes of the communicator of this process"""
            keep = [cval(x) for x in t.args]
            return [q for q in W.coords if all(k or q[d] == c[d] for d, k in enumerate(keep))]

        def own(i, s, v, axis):
            """the value given by this process, as a function of the coordinates"""
            return v

        def allreduce(i, s, recv, args, kw):
            coll.append(("allreduce", recv if isinstance(recv, T) else None))
            if isinstance(recv, T) and recv.op == "subcomm":
                ms, v = members(recv), args[0]
                op = show(i.freeze(kw.get("op", args[1] if len(args) > 1 else ext("mpi4py.MPI.SUM")), s))
                axes = [d for d in range(W.dim) if is_const(v) and cval(v) == W.sizes[d][c[d]]]
                kept = [d for d, k in enumerate(recv.args) if cval(k)]
                if op.endswith("SUM") and len(kept) == 1 and kept[0] in axes:
                    return const(sum(W.sizes[kept[0]][q[kept[0]]] for q in ms))
            comm(recv)
            return T("reduced", i.freeze(args[0], s))

        def gather(i, s, recv, args, kw):
            coll.append(("gather", recv if isinstance(recv, T) else None))
            root = kw.get("root", args[1] if len(args) > 1 else const(0))
            if not (isinstance(recv, T) and recv.op == "subcomm") or root is not const(0):
                comm(recv)
                return T("gathered", i.freeze(args[0], s))
            ms = members(recv)
            if c != ms[0]:
                return NONE
            kept = [d for d, k in enumerate(recv.args) if cval(k)]
            v = i.freeze(args[0], s)
            res = []
            for q in ms:
                res.append(other(i, s, v, c, q, W, kept))
            return i.newlist(s, res)

        def send(i, s, recv, args, kw):
            if recv is not cart:
                note("message on %s" % show(recv)[:80], "collective")
            a = dict(zip(["buf", "dest", "tag"], args), **kw)
            dest, tag = cval(i.freeze(a["dest"], s)), cval(i.freeze(a.get("tag", const(0)), s))
            data, typ = buf(i, s, a["buf"])
            W.sent.setdefault((rank, dest), []).append((tag, data, typ, contiguous(i, s, a["buf"])))
            return NONE

        def recv_(i, s, recv, args, kw):
            if recv is not cart:
                note("message on %s" % show(recv)[:80], "collective")
            a = dict(zip(["buf", "source", "tag"], args), **kw)
            src_, tag = i.freeze(a.get("source", NONE), s), i.freeze(a.get("tag", NONE), s)
            data, typ = buf(i, s, a["buf"])
            q = W.sent.get((cval(src_) if is_const(src_) else None, rank), [])
            q = [m for m in q if is_const(tag) and m[0] == cval(tag)]
            if not q:
                note("no message of process %s with tag %s" % (show(src_), show(tag)))
                return NONE
            m = q[0]
            W.sent[(cval(src_), rank)].remove(m)
            if m[1].size != data.size or m[2] != typ or typ != "mpi4py.MPI.DOUBLE":
                note("message of %d values (%s) received as %d (%s)" % (m[1].size, m[2], data.size, typ))
                return NONE
            if not m[3]:
                note("the buffer sent by process %s is not a contiguous array of doubles" % show(src_))
            b = a["buf"]
            xs = i.concrete_seq(b, s)
            nd = i.nd(xs[0] if xs else b, s)
            if nd.dtype not in (None, "float64", "double", "float", "d", "f8"):
                note("message received in an array of %s" % nd.dtype)
                return NONE
            i.nd_write(nd, nd.pos, m[1].reshape(-1).reshape(nd.pos.shape), s)
            return NONE

        def create_dataset(i, s, recv, args, kw):
            a = dict(zip(["name", "shape", "dtype"], args), **kw)
            shp = i.ints(a["shape"], s)
            d = i.nd_new(obj([const(0)] * int(np.prod(shp)), tuple(shp)), s, "float64")
            rec[rank].append(("create", cval(i.freeze(a["name"], s)), d, i.freeze(a.get("dtype", NONE), s), recv))
            return d

        def barrier(i, s, recv, args):
            coll.append(("Barrier", recv if isinstance(recv, T) else None))
            comm(recv)
            return NONE

        it.opaque_calls.update({
            "Get_rank": get_rank, "Get_size": lambda i, s, r, a: const(W.n) if r is cart else const(W.n + 3),
            "Get_coords": lambda i, s, r, a: i.newlist(s, [const(x) for x in W.coords[cval(a[0])]]),
            "Sub": sub, "Free": lambda i, s: NONE, "allreduce": allreduce, "gather": gather, "Send": send, "Recv": recv_,
            "send": send, "create_dataset": create_dataset, "Barrier": barrier, "barrier": barrier,
        })

        def ext_hook(i, name, args, kwargs, s, node):
            if name.startswith("mpi4py.MPI.COMM_WORLD."):
                n = name.rsplit(".", 1)[-1]
                if n == "Get_rank":
                    return const(rank + 5)
                if n == "Get_size":
                    return const(W.n + 3)
                note("%s on the whole world" % n, "collective")
            return None
        it.ext_hook = ext_hook
        A = dict(topo=topo)
        for d, n in enumerate("xyz"[:W.dim]):
            A[n] = it.nd_new(obj(W.x[d][W.off[d][c[d]]:W.off[d][c[d] + 1]]), st)
        arr = {n: it.nd_new(W.part(c, f).copy(), st) for n, f in F.items()}
        comps = it.newlist(st, [arr["v%d" % i] for i in range(nv)])
        A["a"], A["b"], A["v"], A["w"] = arr["a"], arr["b"], comps, sym("w")
        if fun:
            A["a"], A["v"] = sym("fa"), sym("fv")

            def fa(i, s, r, a, kw):
                if [i.freeze(x, s) for x in a] != [const(1), sym("w")]:
                    note("the function of a field is called with other arguments", "data")
                return arr["a"]

            def fv(i, s, r, a, kw):
                if [i.freeze(x, s) for x in a] != [sym("w")]:
                    note("the function of a vector is called with other arguments", "data")
                return comps
            it.opaque_calls["fa"], it.opaque_calls["fv"] = fa, fv

        def decide(t):
            while t.op == "not":
                x = decide(t.args[0])
                return None if x is None else not x
            if t.op == "isinstance" and t.args[0] in (sym("fa"), sym("fv")):
                return "Callable" in show(t.args[1]) or "Function" in show(t.args[1])
            if t.op == "call" and t.args[0] is ext("os.path.exists"):
                return False
            if t.op == "call" and t.args[0] is ext("callable"):
                return t.args[1] in (sym("fa"), sym("fv"))
            return None
        it.decide = decide
        r = it.run(ref(p, cls.module, src), [], A, st)
        ck.use(it)
        if rank == 0:
            out = (it, r, st)
    # ---- verdicts ----
    it, r, st = out
    got = {}
    for _, name, d, dt, recv in rec[0]:
        if name in got:
            bad.setdefault("data", []).append("dataset %s created twice" % name)
        got[name] = it.as_nd(d, r.state if hasattr(r, "state") else st), dt
    for k in range(1, W.n):
        if rec[k]:
            bad.setdefault("files", []).append("process %d creates datasets" % k)
    left = {k: v for k, v in W.sent.items() if v}
    if left:
        bad.setdefault("messages", []).append("messages %s never received" % sorted(
            "%d -> %d tag %s" % (a, b, m[0]) for (a, b), v in left.items() for m in v)[:4])
    seqs = {tuple((n, None if n == "Sub" else t) for n, t in v) for v in colls.values()}
    names = {tuple(n for n, t in v) for v in colls.values()}
    ck.obl("collective", lab, len(names) == 1 and not bad.get("collective"), cls,
           "; ".join(bad.get("collective", [])[:2]) or "the processes make different collective calls %s" % sorted(names)[:2])
    ck.obl("messages", lab, not bad.get("messages"), fi, "; ".join(bad.get("messages", [])[:3])[:600])
    if bad.get("files"):
        ck.obl("files", lab, False, cls, "; ".join(bad["files"]))
    if bad.get("data"):
        ck.obl("data", lab + " calls", False, cls, "; ".join(bad["data"][:2]))
    for d in range(W.dim):
        want = obj(W.x[d])
        g = got.get("x_%d" % d)
        ck.obl("grid", lab + " axis %d" % d, g is not None and g[0].shape == want.shape and all(a is b for a, b in zip(g[0], want)),
               p.func(H + ".set_grid"), "the dataset x_%d is %s" % (d, diff(g, want)))
    zero = obj([const(0)] * int(np.prod(W.total)), W.total)
    vec = np.stack([F["v%d" % i] if i < nv else zero for i in range(3)])
    for name, want in (("rho", F["a"].T), ("p", F["b"].T), ("q", vec.T)):
        g = got.get(name)
        ok = g is not None and g[0].shape == want.shape and all(
            a is b or (is_const(b) and a.op == "ext") for a, b in zip(g[0].reshape(-1), want.reshape(-1)))
        ck.obl("data", "%s %s" % (lab, name), ok, fi, "the dataset %s is %s" % (name, diff(g, want)))
    for name, g in got.items():
        ok = g[1] in (ext("numpy.double"), ext("numpy.float64"), const("float64"), const("d"), const("f8"), const("double"), ext("float"),
                      T("builtin", "float"))
        ck.obl("data", "%s %s type" % (lab, name), ok, fi, "values stored as %s" % show(g[1]))
    xdmf(ck, lab, W, r, got)


def other(i, s, v, c, q, W, kept):
    """the value process q gives when process c gives v"""
    if is_const(v) and len(kept) == 1 and cval(v) == W.sizes[kept[0]][c[kept[0]]]:
        return const(W.sizes[kept[0]][q[kept[0]]])
    if v.op == "nd":
        for d in range(W.dim):
            if list(v.args[1:]) == W.x[d][W.off[d][c[d]]:W.off[d][c[d] + 1]]:
                return i.nd_new(obj(W.x[d][W.off[d][q[d]]:W.off[d][q[d] + 1]]), s)
    return T("of", v, T("tuple", *[const(x) for x in q]))


def buf(i, s, b):
    xs = i.concrete_seq(b, s) if i.nd(b, s) is None else None
    if xs is not None and len(xs) == 2:
        t = i.freeze(xs[1], s)
        return i.as_nd(xs[0], s), (t.args[0] if t.op == "ext" else show(t))
    return i.as_nd(b, s), "mpi4py.MPI.DOUBLE"


def contiguous(i, s, b):
    xs = i.concrete_seq(b, s) if i.nd(b, s) is None else None
    c = i.nd(xs[0] if xs else b, s)
    if c is None:
        return False
    f = c.pos.reshape(-1)
    return bool(np.all(np.diff(f) == 1))


def diff(g, want):
    if g is None:
        return "absent"
    if g[0].shape != want.shape:
        return "of shape %s, required %s" % (g[0].shape, want.shape)
    for ix in np.ndindex(*want.shape):
        if g[0][ix] is not want[ix]:
            return "%s at %s, required %s" % (show(g[0][ix])[:100], ix, show(want[ix]))
    return "stored with another type"


def xdmf(ck, lab, W, r, got):
    """text written to the description file"""
    txt, unknown = [], False
    where = ck.prog.func(H + ".save")
    opened, closed = None, None
    for n, ev in enumerate(flat(r.trace)):
        if ev.kind == "call" and ev.name.rsplit(".", 1)[-1] == "write":
            a = ev.args[0]
            if is_const(a) and isinstance(cval(a), str):
                txt.append(cval(a))
            else:
                unknown = True
                txt.append("<?%s>" % show(a)[:100])
    s = "".join(txt)
    items = re.findall(r"<DataItem[^>]*Dimensions=\"([^\"]*)\"[^>]*>\s*([^<]*?)\s*</DataItem>", s)
    want = sorted((" ".join(str(x) for x in g[0].shape), "name_7.h5:/" + name) for name, g in got.items())
    have = sorted((a.strip(), b.strip()) for a, b in items)
    ck.obl("xdmf", lab + " items", not unknown and have == want, where,
           "the description has %s, required %s" % ([x for x in have if x not in want][:3], [x for x in want if x not in have][:3]))
    attrs = re.findall(r"<Attribute Name=\"([^\"]*)\" AttributeType=\"([^\"]*)\"[^>]*>\s*<DataItem[^>]*>\s*([^<]*?)\s*</DataItem>", s)
    w = [("p", "Scalar", "name_7.h5:/p"), ("q", "Vector", "name_7.h5:/q"), ("rho", "Scalar", "name_7.h5:/rho")]
    ck.obl("xdmf", lab + " attributes", sorted(attrs) == w, where, "the attributes are %s" % sorted(attrs))
    geo = re.search(r"<Geometry GeometryType=\"(\w+)\"", s)
    top = re.search(r"TopologyType=\"(\w+)\"", s)
    ck.obl("xdmf", lab + " mesh", bool(geo and top) and (geo.group(1), top.group(1)) == (
        ("VXVY", "2DRectMesh") if W.dim == 2 else ("VXVYVZ", "3DRectMesh")), where, "mesh %s" % (geo and geo.group(1)))
    # balanced tags
    stack, ok = [], True
    for m in re.finditer(r"<(/?)([A-Za-z]\w*)[^>]*?(/?)>", s):
        if m.group(3):
            continue
        if m.group(1):
            ok = ok and bool(stack) and stack.pop() == m.group(2)
        else:
            stack.append(m.group(2))
    ck.obl("xdmf", lab + " well formed", ok and not stack, where, "unbalanced elements %s" % stack[:3])


def files(ck):
    p = ck.prog
    cls = p.cls(H)
    where = p.func(H + ".__init__")
    for rank, path, step in itertools.product((0, 1), ("out", ""), (None, 12)):
        it = NdInterp(p, inline_classes={H})
        st = State()
        cart = sym("cartcomm")
        st.over[(sym("topo"), "cartcomm")] = cart
        it.opaque_calls["Get_rank"] = lambda i, s, r, a, k=rank: const(k if r is cart else k + 5)

        it.decide = lambda t: (None if t.op != "call" or t.args[0] not in (ext("os.path.exists"), ext("os.path.isdir")) else False)
        src = """
            def drive(topo, path, step):
                h = H5File(topo, "abc", path, step)
                h.dim = 2
                h.global_size = [3, 4]
                h.save()
                return h
        """
        r = it.run(ref(p, cls.module, src), [sym("topo"), const(path), const(step)], {}, st)
        ck.use(it)
        lab = "process %d path '%s' step %s" % (rank, path, step)
        evs = []
        for ev in flat(r.trace):
            if ev.kind != "call":
                continue
            n = ev.name.rsplit(".", 1)[-1]
            if n in ("mkdir", "makedirs", "File", "Barrier", "barrier", "close", "open", "write"):
                evs.append((n, ev))
        names = [n for n, _ in evs if n != "write"]
        base = "abc" + ("" if step is None else "_%d" % step)
        pre = path + "/" if path else ""
        norm = lambda t: pathof(t)
        if rank:
            ck.obl("files", lab, all(n.lower() == "barrier" for n in names) and len(names) == 1, where,
                   "another process than the first does %s" % names)
            continue
        f = [ev for n, ev in evs if n == "File"]
        md = [ev for n, ev in evs if n in ("mkdir", "makedirs")]
        op = [ev for n, ev in evs if n == "open"]
        ck.obl("files", lab + " data file", len(f) == 1 and norm(f[0].args[0]) in (pre + base + ".h5", "./" + base + ".h5" if not path else None)
               and mode(f[0]) == "w", where, "data file %s" % [pathof(e.args[0]) for e in f])
        ck.obl("files", lab + " directory", [pathof(e.args[0]) for e in md] == (["out"] if path else []), where,
               "creates the directories %s" % [show(e.args[0])[:80] for e in md])
        ck.obl("files", lab + " description", len(op) == 1 and norm(op[0].args[0]) in (pre + base + ".xdmf", "./" + base + ".xdmf" if not path else None)
               and mode(op[0]) == "w", p.func(H + ".save"), "description %s" % [pathof(e.args[0]) for e in op])
        i = {n: [k for k, (m, _) in enumerate(evs) if m == n] for n in dict(evs)}
        first = lambda n: (i.get(n) or [-1])[0]
        bar = (i.get("Barrier") or i.get("barrier") or [-1])[0]
        ck.obl("files", lab + " order", first("File") < bar and evs[bar][1].recv is cart and (not md or first(names[0]) < first("File")), where, "order %s" % names)
        cl = [k for k, (m, e) in enumerate(evs) if m == "close" and e.recv is not None and f and e.recv is f[0].res]
        ck.obl("files", lab + " closed", len(cl) == 1 and cl[0] > bar, p.func(H + ".save"),
               "the data file is closed %d times" % len(cl))
        cl = [k for k, (m, e) in enumerate(evs) if m == "close" and e.recv is not None and op and e.recv is op[0].res]
        wr = [k for k, (m, e) in enumerate(evs) if m == "write"]
        cm = bool(op) and op[0] and (bool(cl) and cl[0] > max(wr) or any(m == "__exit__" for m, _ in evs) or "with" in [e.kind for e in flat(r.trace)])
        ck.obl("files", lab + " description closed", bool(cm), p.func(H + ".save"), "the description is not closed after the last text")


def mode(ev):
    m = ev.kwargs.get("mode", ev.args[1] if len(ev.args) > 1 else NONE)
    return cval(m) if is_const(m) else None


def pathof(t):
    """string of a path term, or None"""
    if is_const(t) and isinstance(cval(t), str):
        return cval(t)
    if t.op == "call" and t.args[0] is ext("os.path.join"):
        ps = [pathof(x) for x in t.args[1:]]
        if None in ps:
            return None
        import os
        return os.path.join(*ps)
    return None
