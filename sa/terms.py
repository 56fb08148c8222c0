"""Hash-consed value terms used by the abstract interpreter, and their printing."""
import itertools
import token


class T:
    """An immutable, interned value term.  ``op`` names the operator, ``args``
    holds sub-terms and plain python atoms."""

    __slots__ = ("op", "args", "_h", "__weakref__")
    _table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(
            (type(a).__name__, a) if not isinstance(a, T) else id(a) for a in args
        )
        try:
            got = cls._table.get(key)
        except TypeError:
            raise TypeError("unhashable term argument in %s %r" % (op, args))
        if got is not None:
            return got
        self = object.__new__(cls)
        self.op = op
        self.args = args
        self._h = hash(key)
        cls._table[key] = self
        return self

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def sym(name):
    return T("sym", name)


# integer constants of the standard library
CONSTANTS = {m + "." + n: getattr(token, n) for m in ("token", "tokenize") for n in ("NAME", "NUMBER", "OP", "STRING", "NEWLINE", "ENDMARKER")}


def ext(name):
    if name in CONSTANTS:
        return const(CONSTANTS[name])
    return T("ext", name)


def attr(base, name):
    return T("attr", base, name)


def item(base, key):
    return T("item", base, key)


def call(fn, *args, **kw):
    extra = tuple(T("kw", k, v) for k, v in sorted(kw.items()))
    return T("call", fn, *(tuple(args) + extra))


def tup(*args):
    return T("tuple", *args)


def lst(*args):
    return T("list", *args)


_ids = itertools.count(1)


def fresh_id():
    return next(_ids)


def reset_ids():
    global _ids
    _ids = itertools.count(1)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    return t.args[0]


def walk(t, seen=None):
    """all sub-terms, each once"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack.extend(b for b in a if isinstance(b, T))


def mentions(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, mapping, memo=None):
    """replace sub-terms (exact matches) top-down"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(a, mapping, memo) for a in t)
        return t
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    new = tuple(
        subst(a, mapping, memo) if isinstance(a, (T, tuple)) else a for a in t.args
    )
    out = t if all(x is y for x, y in zip(new, t.args)) else T(t.op, *new)
    memo[t] = out
    return out


_BIN = {
    "+": "+", "-": "-", "*": "*", "/": "/", "//": "//", "%": "%", "**": "**", "@": "@",
    "&": "&", "|": "|", "^": "^", "<<": "<<", ">>": ">>",
    "<": "<", "<=": "<=", ">": ">", ">=": ">=", "==": "==", "!=": "!=",
    "is": "is", "isnot": "is not", "in": "in", "notin": "not in",
}


_budget = [0]


def show(t, depth=0):
    if depth == 0:
        _budget[0] = 4000
    _budget[0] -= 1
    if not isinstance(t, T):
        return repr(t)
    if depth > 14 or _budget[0] < 0:
        return "…"
    d = depth + 1
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op in ("sym", "ext"):
        return a[0]
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "item":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "kw":
        return "%s=%s" % (a[0], show(a[1], d))
    if op == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join(show(x, d) for x in a[1:]))
    if op == "bin":
        return "(%s %s %s)" % (show(a[1], d), _BIN.get(a[0], a[0]), show(a[2], d))
    if op == "neg":
        return "-%s" % show(a[0], d)
    if op == "not":
        return "not %s" % show(a[0], d)
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(show(x, d) for x in a) + ")"
    if op == "phi":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == "tuple":
        return "(%s)" % ", ".join(show(x, d) for x in a)
    if op == "list":
        return "[%s]" % ", ".join(show(x, d) for x in a)
    if op == "bv":
        return "i%s" % a[0]
    if op == "comp":
        return "[%s for i%s in %s]" % (show(a[2], d), a[0], show(a[1], d))
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if op == "symbol":
        return "'%s" % (a[0],)
    return "%s{%s}" % (op, ", ".join(show(x, d) for x in a))
