"""Obligations, findings, evidence."""
import hashlib
import json
import os
import time

from .program import AnalysisBroken, FuncInfo, ModuleInfo, Program
from .interp import Interp, Result, State, flat, flat_ctx
from .effects import Canon, first_diff, pretty, _s
from .norm import Normalizer, norm, nshow, skey
from .terms import T


class Check:
    def __init__(self, pid, prog=None, tier="quick"):
        self.pid = pid
        self.prog = prog or Program()
        self.tier = tier
        self.findings = []
        self.obligations = []
        self.functions = set()
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.notes = []

    # ---- bookkeeping ----------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def use(self, interp):
        self.functions |= interp.stats["functions"]
        for k, v in interp.stats.items():
            if k != "functions":
                self.counts[k] = self.counts.get(k, 0) + v

    def where(self, x):
        if isinstance(x, FuncInfo):
            return x.where
        if hasattr(x, "where"):
            return x.where
        return str(x)

    def obl(self, rule, construct, ok, where="", detail=""):
        """one obligation: rule applied to a construct"""
        self.obligations.append((rule, construct, bool(ok), self.where(where)))
        if not ok:
            key = "%s:%s:%s" % (self.pid, rule, construct)
            self.findings.append(dict(key=key, rule=rule, construct=construct,
                                      where=self.where(where), detail=detail))
        return bool(ok)

    def same(self, rule, construct, got, want, where="", comm=True, N=None, note=""):
        N = N or Normalizer(comm=comm)
        a, b = N(got), N(want)
        return self.obl(rule, construct, a is b, where, "" if a is b else
                        "%sfound %s, required %s" % (note and note + ": ", nshow(a), nshow(b)))

    def trees(self, rule, construct, got, want, where="", canon=None):
        if got == want:
            return self.obl(rule, construct, True, where)
        d = first_diff(got, want)
        g, w = d if d else (None, None)
        wh = where
        if g is not None and canon is not None and canon.where.get(g):
            wh = canon.where[g]
        return self.obl(rule, construct, False, wh,
                        "effect sequence differs: found [%s], required [%s]\n-- found --\n%s\n-- required --\n%s" % (
                            pretty((g,)) if g else "nothing", pretty((w,)) if w else "nothing",
                            pretty(got), pretty(want)))

    def need(self, n):
        """fewer obligations than confirmed by hand = the analysis lost its anchors"""
        if len(self.obligations) < n:
            raise AnalysisBroken("%s: only %d obligations generated, %d expected" % (
                self.pid, len(self.obligations), n))

    def interp(self, **kw):
        return Interp(self.prog, **kw)


def ref(prog, anchor, src, name=None):
    """reference function: parsed from ``src`` in the scope of the module (and
    class) of ``anchor`` (a FuncInfo or ModuleInfo)"""
    import ast
    mod = anchor.module if isinstance(anchor, FuncInfo) else anchor
    cls = anchor.cls if isinstance(anchor, FuncInfo) else None
    import textwrap
    tree = ast.parse(textwrap.dedent(src))
    for st in tree.body:
        if isinstance(st, ast.FunctionDef) and (name is None or st.name == name):
            fi = FuncInfo(st, mod, cls=cls)
            return fi
    raise AnalysisBroken("reference function not found")
