"""Typestate / must-pass-through analysis over structured event traces.

``run`` propagates *sets* of automaton states through the trace: both arms of a
branch, zero or more iterations of a loop (to a fixpoint), every exception edge
that the rule declares.  It is a forward may-analysis: a state reported at an
exit is reached on some syntactic path."""
from .interp import Branch, CallN, Ev, Loop, TryN, Unroll, WithN


class Flow:
    __slots__ = ("normal", "ret", "brk", "cont", "exc")

    def __init__(self, normal=()):
        self.normal = set(normal)
        self.ret, self.brk, self.cont, self.exc = set(), set(), set(), set()

    def absorb(self, o, normal=True):
        if normal:
            self.normal |= o.normal
        self.ret |= o.ret
        self.brk |= o.brk
        self.cont |= o.cont
        self.exc |= o.exc


class Automaton:
    """subclass and override step(); ``may_raise`` says which events can throw"""

    def step(self, ev, s, ctx):
        return s

    def branch(self, br, s, ctx):
        """(states for the true arm, states for the false arm)"""
        return (s,), (s,)

    def may_raise(self, ev, s, ctx):
        return False

    def enter(self, node, s, ctx):
        return s

    def leave(self, node, s, ctx):
        return s

    def loop_may_skip(self, loop, ctx):
        return True

    # ------------------------------------------------------------------
    def run(self, trace, init):
        return self.seq(trace, set(init), ())

    def seq(self, trace, states, ctx):
        out = Flow(states)
        for x in trace:
            if not out.normal:
                break
            cur = out.normal
            out.normal = set()
            r = self.one(x, cur, ctx)
            out.absorb(r)
        return out

    def one(self, x, states, ctx):
        f = Flow()
        if isinstance(x, Ev):
            if x.kind == "return":
                f.ret = self.map(x, states, ctx)
            elif x.kind in ("raise", "exit"):
                f.exc = self.map(x, states, ctx)
            elif x.kind == "break":
                f.brk = set(states)
            elif x.kind == "continue":
                f.cont = set(states)
            else:
                for s in states:
                    if self.may_raise(x, s, ctx):
                        f.exc.add(s)
                f.normal = self.map(x, states, ctx)
        elif isinstance(x, Branch):
            ta, tb = set(), set()
            for s in states:
                a, b = self.branch(x, s, ctx)
                ta |= set(a)
                tb |= set(b)
            c = ctx + (x,)
            f.absorb(self.seq(x.a, ta, c))
            f.absorb(self.seq(x.b, tb, c))
        elif isinstance(x, Loop):
            c = ctx + (x,)
            seen = set(states)
            work = set(states)
            after = Flow()
            brk = set()
            while work:
                r = self.seq(x.body, work, c)
                after.ret |= r.ret
                after.exc |= r.exc
                brk |= r.brk
                nxt = (r.normal | r.cont) - seen
                seen |= nxt
                work = nxt
            done = set(seen)
            if not self.loop_may_skip(x, ctx):
                r = self.seq(x.body, set(states), c)
                once = r.normal | r.cont
                done = (seen - set(states)) | once
            tail = self.seq(x.orelse, done, ctx) if x.orelse else Flow(done)
            f.absorb(tail)
            f.normal |= brk
            f.ret |= after.ret
            f.exc |= after.exc
        elif isinstance(x, Unroll):
            cur = set(states)
            for it in x.iters:
                r = self.seq(it, cur, ctx + (x,))
                f.ret |= r.ret
                f.exc |= r.exc
                f.normal |= r.brk
                cur = r.normal | r.cont
            f.normal |= cur
        elif isinstance(x, CallN):
            st = {self.enter(x, s, ctx) for s in states}
            r = self.seq(x.body, st, ctx + (x,))
            f.normal = {self.leave(x, s, ctx) for s in r.normal | r.ret}
            f.exc = r.exc
        elif isinstance(x, TryN):
            c = ctx + (x,)
            r = self.seq(x.body, states, c)
            f.ret |= r.ret
            f.brk |= r.brk
            f.cont |= r.cont
            if x.handlers:
                caught = set(r.exc)
                for h in x.handlers:
                    f.absorb(self.seq(h, caught | set(states) if not caught else caught, c))
                if not any(t in ("*", "Exception", "BaseException") for t in x.types):
                    f.exc |= caught
            else:
                f.exc |= r.exc
            tail = self.seq(x.orelse, r.normal, c) if x.orelse else Flow(r.normal)
            f.absorb(tail)
            if x.final:
                g = Flow()
                for name in ("normal", "ret", "brk", "cont", "exc"):
                    ss = getattr(f, name)
                    if ss:
                        q = self.seq(x.final, ss, c)
                        getattr(g, name).update(q.normal)
                        g.ret |= q.ret
                        g.exc |= q.exc
                        g.brk |= q.brk
                        g.cont |= q.cont
                f = g
        elif isinstance(x, WithN):
            st = {self.enter(x, s, ctx) for s in states}
            r = self.seq(x.body, st, ctx + (x,))
            f = r
            for name in ("normal", "ret", "brk", "cont", "exc"):
                setattr(f, name, {self.leave(x, s, ctx) for s in getattr(f, name)})
        else:
            raise TypeError(x)
        return f

    def map(self, ev, states, ctx):
        out = set()
        for s in states:
            r = self.step(ev, s, ctx)
            if r is None:
                continue
            if isinstance(r, (set, frozenset)) :
                out |= r
            else:
                out.add(r)
        return out
