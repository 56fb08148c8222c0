"""Whole-program index of the analysed package: modules, classes, functions,
imports.  Built from the source text of /repo on every run; nothing is imported
or executed."""
import ast
import hashlib
import os

REPO = os.environ.get("PYLBM_REPO", "/repo")


class AnalysisBroken(Exception):
    """an anchor vanished or the analysis lost precision: neither pass nor
    violation"""


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        q = self.name
        if cls is not None:
            q = cls.name + "." + q
        elif parent is not None:
            q = parent + "." + q
        self.local = q
        self.qual = module.name + "." + q

    def __repr__(self):
        return "<fn %s>" % self.qual

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, module, cls=self)
                deco = [ast.unparse(d) for d in st.decorator_list]
                if any(d.endswith(".setter") for d in deco):
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value

    def __repr__(self):
        return "<class %s>" % self.qual


class ModuleInfo:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith("__init__.py")
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        self._scan(self.tree.body, top=True)

    def _pkg(self, level):
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts)

    def import_map(self, st):
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = ("mod", a.name)
                else:
                    out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = st.module or ""
            if st.level:
                pkg = self._pkg(st.level)
                base = pkg + ("." + base if base else "")
            for a in st.names:
                out[a.asname or a.name] = ("from", base, a.name)
        return out

    def _scan(self, body, top):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.imports.update(self.import_map(st))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append((st, None))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append((st, k))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.assigns.setdefault(st.target.id, []).append((st, None))
            elif isinstance(st, ast.If):
                self._scan(st.body, False)
                self._scan(st.orelse, False)
            elif isinstance(st, ast.Try):
                self._scan(st.body, False)
                for h in st.handlers:
                    self._scan(h.body, False)
                self._scan(st.orelse, False)
                self._scan(st.finalbody, False)


class Program:
    def __init__(self, root=None, package="pylbm"):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s not found" % base)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            dn[:] = [d for d in dn if not d.startswith((".", "__"))]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = ModuleInfo(name, path, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self._mro = {}

    # ---- resolution -------------------------------------------------
    def resolve(self, module, name, seen=None):
        """name visible at the top level of module -> ('func',fi)|('class',ci)|
        ('module',mi)|('ext',dotted)|('assign',module,name)|None"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.assigns:
            return ("assign", module, name)
        if name in module.imports:
            return self.resolve_import(module.imports[name], seen)
        return None

    def resolve_import(self, imp, seen=None):
        if imp[0] == "mod":
            return (
                ("module", self.modules[imp[1]])
                if imp[1] in self.modules
                else ("ext", imp[1])
            )
        _, base, name = imp
        if base in self.modules:
            sub = self.resolve(self.modules[base], name, seen)
            if sub is not None:
                return sub
        full = base + "." + name if base else name
        if full in self.modules:
            return ("module", self.modules[full])
        return ("ext", full)

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        if mod in self.modules and name in self.modules[mod].classes:
            return self.modules[mod].classes[name]
        # moved? accept a unique class of that name
        hits = [
            m.classes[name] for m in self.modules.values() if name in m.classes
        ]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisBroken("class %s not found" % qual)

    def func(self, qual):
        mod, _, name = qual.rpartition(".")
        if mod in self.modules and name in self.modules[mod].functions:
            return self.modules[mod].functions[name]
        m2, _, cname = mod.rpartition(".")
        if m2 in self.modules and cname in self.modules[m2].classes:
            fi = self.method(self.modules[m2].classes[cname], name)
            if fi is not None:
                return fi
        hits = [
            m.functions[name] for m in self.modules.values() if name in m.functions
        ]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisBroken("function %s not found" % qual)

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(ci.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r0 = self.resolve(ci.module, b.value.id)
                if r0 and r0[0] == "module":
                    r = self.resolve(r0[1], b.attr)
                elif r0 and r0[0] == "ext":
                    r = ("ext", r0[1] + "." + b.attr)
            out.append(r)
        return out

    def mro(self, ci):
        if ci in self._mro:
            return self._mro[ci]
        out = [ci]
        for b in self.bases(ci):
            if b and b[0] == "class":
                for c in self.mro(b[1]):
                    if c not in out:
                        out.append(c)
        self._mro[ci] = out
        return out

    def method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def setter(self, ci, name):
        for c in self.mro(ci):
            if name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclasses(self, ci, strict=True):
        if isinstance(ci, str):
            ci = self.cls(ci)
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if ci in self.mro(c) and (c is not ci or not strict):
                    out.append(c)
        return out

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def digest(self, modules=None):
        h = hashlib.sha256()
        for n in sorted(modules or self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]


def decorators(fi):
    return [ast.unparse(d) for d in getattr(fi.node, "decorator_list", [])]


def is_property(fi):
    return any(d == "property" for d in decorators(fi))
