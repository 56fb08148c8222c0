"""Canonical effect trees: the trace of a function projected on the events a
rule is about, with helper calls flattened, early exits sunk into the branch
they belong to, decision nodes ordered (reduced ordered decision trees) and
loops identified by their iteration domain.  Two functions with the same tree
perform the same selected effects, in the same order, under the same conditions."""
from .interp import Branch, CallN, Ev, Loop, TryN, Unroll, WithN
from .norm import Normalizer, nshow, skey
from .terms import T, const, is_const, cval

END = ("end",)          # falls out of the function / iteration here
ABORT = ("abort",)


class Canon:
    def __init__(self, pick, norm=None, assume=None, ret=False):
        """pick(ev) -> tuple label (terms are normalised) or None;
        assume: {normalised condition: bool} used to specialise branches;
        ret: keep return values as events"""
        self.pick = pick
        self.N = norm or Normalizer()
        self.known = dict(assume or {})
        self.ret = ret
        self.where = {}

    # a sequence is a tuple of nodes; a trailing marker tells how it leaves
    def tree(self, trace):
        out, how = self.seq(list(trace), (), "fn")
        return out

    def lab(self, x, env):
        if isinstance(x, T):
            return self.N.n(x, env)
        if isinstance(x, (tuple, list)):
            return tuple(self.lab(y, env) for y in x)
        return x

    def seq(self, trace, env, kind):
        """-> (nodes, how) with how in None|'ret'|'cont'|'brk'|'abort'"""
        out = ()
        for k, x in enumerate(trace):
            if isinstance(x, Ev):
                if x.kind == "return":
                    if self.ret and kind == "fn":
                        out += (("return", self.lab(x.args[0], env)),)
                    return out, "ret"
                if x.kind in ("raise", "exit"):
                    p = self.pick(x)
                    n = ("abort",) if p is None else ("abort",) + self.lab(p, env)
                    self.where.setdefault(n, x.where)
                    return out + (n,), "abort"
                if x.kind == "break":
                    return out, "brk"
                if x.kind == "continue":
                    return out, "cont"
                p = self.pick(x)
                if p is not None:
                    n = ("ev",) + self.lab(p, env)
                    self.where.setdefault(n, x.where)
                    out += (n,)
                continue
            if isinstance(x, CallN):
                body, how = self.seq(x.body, env, "call")
                out += body
                if how == "abort":
                    return out, how
                continue
            if isinstance(x, WithN):
                body, how = self.seq(x.body, env, kind)
                out += body
                if how:
                    return out, how
                continue
            if isinstance(x, Unroll):
                body, how = self.unroll(x.iters, env, kind)
                out += body
                if how in ("ret", "abort"):
                    return out, how
                continue
            if isinstance(x, Loop):
                e2 = env + (x.lid,)
                body, how = self.seq(x.body, e2, "loop")
                if how == "brk":
                    body += (("break",),)
                body = self.trim(body)
                if body:
                    d = self.N.n(x.domain, e2 if x.domain.op == "while" else env)
                    out += (("for", d, body),)
                o, how = self.seq(x.orelse, env, kind)
                out += o
                if how:
                    return out, how
                continue
            if isinstance(x, TryN):
                b, how = self.seq(list(x.body) + list(x.orelse), env, kind)
                hs = tuple(self.seq(h, env, kind)[0] for h in x.handlers)
                f, fh = self.seq(x.final, env, kind)
                if any(hs):
                    out += (("try", b, tuple(x.types), hs),)
                else:
                    out += b
                out += f
                if how and not x.handlers:
                    return out, how
                continue
            if isinstance(x, Branch):
                c = self.N.n(x.cond, env)
                pol = True
                if c.op == "not":
                    c, pol = c.args[0], False
                A, B = (x.a, x.b) if pol else (x.b, x.a)
                v = cval(c) if is_const(c) else self.known.get(c)
                if v is not None:
                    nodes, how = self.seq((A if v else B) + trace[k + 1:], env, kind)
                    return out + nodes, how
                ta, ha = self.seq(A, env, kind)
                tb, hb = self.seq(B, env, kind)
                if ha is None and hb is None:
                    out += self.ite(c, ta, tb)
                    continue
                # sink the continuation into the arm(s) that fall through
                self.known[c] = True
                ta, ha = self.seq(A + trace[k + 1:], env, kind)
                self.known[c] = False
                tb, hb = self.seq(B + trace[k + 1:], env, kind)
                del self.known[c]
                if ha == "brk" and hb != "brk":
                    ta += (("break",),)
                if hb == "brk" and ha != "brk":
                    tb += (("break",),)
                if ha == hb:
                    return out + self.ite(c, ta, tb), ha
                if kind == "call" and "ret" in (ha, hb) and "abort" not in (ha, hb):
                    return out + self.ite(c, ta, tb), "ret"
                return out + self.ite(c, ta, tb), "mix"
            raise TypeError(x)
        return out, None

    def unroll(self, iters, env, kind):
        out = ()
        for it in iters:
            b, how = self.seq(it, env, kind)
            out += b
            if how in ("ret", "abort", "brk"):
                return out, how
        return out, None

    def trim(self, body):
        return body

    # ---- decision nodes ------------------------------------------------------
    def ite(self, c, a, b):
        if a == b:
            return a
        # common prefix
        pre = ()
        while a and b and a[0] == b[0]:
            pre += (a[0],)
            a, b = a[1:], b[1:]
        suf = ()
        while a and b and a[-1] == b[-1]:
            suf = (a[-1],) + suf
            a, b = a[:-1], b[:-1]
        if a == b:
            return pre + a + suf
        return pre + self.dec(c, a, b) + suf

    def dec(self, c, a, b):
        # decompose connectives
        if c.op == "not":
            return self.dec(c.args[0], b, a)
        if c.op == "and":
            rest = T("and", *c.args[1:]) if len(c.args) > 2 else c.args[1]
            return self.dec(c.args[0], self.dec(rest, a, b), b)
        if c.op == "or":
            rest = T("or", *c.args[1:]) if len(c.args) > 2 else c.args[1]
            return self.dec(c.args[0], a, self.dec(rest, a, b))
        if c.op == "phi":
            return self.dec(c.args[0], self.dec(c.args[1], a, b), self.dec(c.args[2], a, b))
        a, b = self.cof(a, c, True), self.cof(b, c, False)
        if a == b:
            return a
        top = [c]
        for s in (a, b):
            if len(s) == 1 and s[0][0] == "if":
                top.append(s[0][1])
        m = min(top, key=skey)
        if m is c:
            return (("if", c, a, b),)
        a1, a0 = self.cof(a, m, True), self.cof(a, m, False)
        b1, b0 = self.cof(b, m, True), self.cof(b, m, False)
        x, y = self.dec(c, a1, b1), self.dec(c, a0, b0)
        return x if x == y else (("if", m, x, y),)

    def cof(self, s, c, v):
        if len(s) == 1 and s[0][0] == "if":
            if s[0][1] is c:
                return self.cof(s[0][2] if v else s[0][3], c, v)
            x, y = self.cof(s[0][2], c, v), self.cof(s[0][3], c, v)
            return x if x == y else (("if", s[0][1], x, y),)
        return s


def pretty(tree, ind=0):
    out = []
    p = "  " * ind
    for n in tree:
        if n[0] in ("ev", "abort", "return", "break"):
            out.append(p + n[0] + " " + " ".join(_s(x) for x in n[1:]))
        elif n[0] == "if":
            out.append(p + "if " + nshow(n[1]))
            out.append(pretty(n[2], ind + 1))
            if n[3]:
                out.append(p + "else")
                out.append(pretty(n[3], ind + 1))
        elif n[0] == "for":
            out.append(p + "for " + nshow(n[1]))
            out.append(pretty(n[2], ind + 1))
        elif n[0] == "try":
            out.append(p + "try")
            out.append(pretty(n[1], ind + 1))
            for t, h in zip(n[2], n[3]):
                out.append(p + "except " + str(t))
                out.append(pretty(h, ind + 1))
    return "\n".join(x for x in out if x)


def _s(x):
    if isinstance(x, T):
        return nshow(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(_s(y) for y in x) + ")"
    return str(x)


def first_diff(a, b):
    """first differing pair of nodes (depth first) or None"""
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == y[0] == "for" and x[1] is y[1]:
            return first_diff(x[2], y[2])
        if x[0] == y[0] == "if" and x[1] is y[1]:
            return first_diff(x[2], y[2]) or first_diff(x[3], y[3])
        return x, y
    if len(a) > len(b):
        return a[len(b)], None
    if len(b) > len(a):
        return None, b[len(a)]
    return None
