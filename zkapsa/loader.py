"""
Parses the non-test modules of the repository and resolves names.

Nothing of the repository is imported or run: only ``ast`` is used.
"""
import ast
import builtins
import hashlib
import importlib
import os
import sys

REPO = os.environ.get("ZKAPSA_REPO", "/repo")
PKG = "_zkapauthorizer"


class AnalysisBroken(Exception):
    """
    The analysis cannot give a verdict (an anchor vanished, a construct is not
    supported, ...).  This is neither "holds" nor "violated".
    """


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = list(getattr(node, "decorator_list", []))
        self._gen = None

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[1]

    def own_yields(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node)
            )
        return self._gen

    def loc(self):
        return (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % (self.qual,)


def own_nodes(fn):
    """The nodes of a function without those of nested functions."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Field:
    def __init__(self, name, annotation, node, init, default, kw_only):
        self.name = name
        self.annotation = annotation
        self.node = node
        self.init = init
        # None, or an expression, or ("method", name), or ("factory", expr)
        self.default = default
        self.kw_only = kw_only

    @property
    def init_name(self):
        return self.name.lstrip("_")


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.fields = []
        self.attrs_like = False
        self.bases = []
        self.class_vars = {}

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[1]

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None


class Module:
    def __init__(self, name, path, relpath, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.source = source
        self.tree = ast.parse(source, path)
        self.names = {}  # name -> ("func", Func) | ("class", Class) | ("import", dotted) | ("var", [exprs])
        self.is_pkg = os.path.basename(path) == "__init__.py"


def _ancestors(program, f):
    out = []
    while f.parent is not None:
        f = f.parent
        out.append(f.node)
    return out


def library_class(dotted):
    """A class of the standard library, for its bases."""
    mod, _, name = dotted.rpartition(".")
    if mod.split(".")[0] not in sys.stdlib_module_names | {"builtins"} or mod in ("this", "antigravity"):
        return None
    try:
        c = getattr(importlib.import_module(mod), name, None)
    except ImportError:
        return None
    return c if isinstance(c, type) else None


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.functions = {}
        self.classes = {}
        src = os.path.join(self.repo, "src")
        root = os.path.join(src, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("no package at %s" % (root,))
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, src)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as fobj:
                    source = fobj.read()
                try:
                    m = Module(name, path, "src/" + rel, source)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (path, e))
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    def digest(self):
        h = hashlib.sha256()
        for name in sorted(self.modules):
            h.update(name.encode() + b"\0" + self.modules[name].source.encode() + b"\0")
        return h.hexdigest()[:16]

    # ------------------------------------------------------------- indexing
    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m.name + "." + n.name, n, m)
                m.names[n.name] = ("func", f)
            elif isinstance(n, ast.ClassDef):
                self._add_class(m, n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for local, dotted in self._imports(m, n):
                    m.names[local] = ("import", dotted)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind_var(m, t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind_var(m, n.target, n.value)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for sub in ("body", "orelse", "finalbody"):
                    self._index_body(m, getattr(n, sub, []))

    def _bind_var(self, m, target, value):
        if isinstance(target, ast.Name):
            old = m.names.get(target.id)
            if old and old[0] == "var":
                old[1].append(value)
            else:
                m.names[target.id] = ("var", [value])
        elif isinstance(target, ast.Tuple):
            for e in target.elts:
                if isinstance(e, ast.Name):
                    m.names[e.id] = ("var", [None])

    def _imports(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    yield a.asname, a.name
                else:
                    yield a.name.split(".")[0], a.name.split(".")[0]
            return
        base = n.module or ""
        if n.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            if n.level > 1:
                parts = parts[: -(n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        for a in n.names:
            yield a.asname or a.name, base + "." + a.name

    def _add_func(self, qual, node, m, cls=None, parent=None):
        f = Func(qual, node, m, cls, parent)
        # property setters and conditional redefinitions share a name: the
        # getter (first definition) of a property wins.
        if qual in self.functions and any(
            isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
            for d in node.decorator_list
        ):
            self.functions[qual + "$" + node.decorator_list[0].attr] = f
        else:
            self.functions[qual] = f
        return f

    def _add_class(self, m, n, outer=None):
        qual = (outer.qual if outer else m.name) + "." + n.name
        c = Class(qual, n, m)
        self.classes[qual] = c
        if outer is None:
            m.names[n.name] = ("class", c)
        for d in n.decorator_list:
            target = d.func if isinstance(d, ast.Call) else d
            dotted = self.resolve_expr(m, target)
            if dotted in (
                "attr.s", "attr.attrs", "attr.define", "attr.frozen", "attr.mutable",
                "attrs.define", "attrs.frozen", "attrs.mutable", "attr.dataclass",
                "dataclasses.dataclass",
            ):
                c.attrs_like = True
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(qual + "." + b.name, b, m, cls=c)
                if f is self.functions.get(f.qual):
                    c.methods[b.name] = f
                for d in b.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "default" and isinstance(d.value, ast.Name):
                        fld = c.field(d.value.id)
                        if fld is not None:
                            fld.default = ("method", b.name)
            elif isinstance(b, ast.ClassDef):
                self._add_class(m, b, outer=c)
            elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                if isinstance(b, ast.Assign):
                    if len(b.targets) != 1 or not isinstance(b.targets[0], ast.Name):
                        continue
                    name, ann, val = b.targets[0].id, None, b.value
                else:
                    if not isinstance(b.target, ast.Name):
                        continue
                    name, ann, val = b.target.id, b.annotation, b.value
                fld = self._field(m, name, ann, val)
                if fld is not None:
                    c.fields.append(fld)
                elif val is not None:
                    c.class_vars[name] = val
        return c

    def _field(self, m, name, ann, val):
        if isinstance(val, ast.Call):
            dotted = self.resolve_expr(m, val.func)
            if dotted in ("attr.ib", "attr.attrib", "attr.field", "attrs.field", "dataclasses.field"):
                init, default, kw_only = True, None, False
                for k in val.keywords:
                    if k.arg == "init" and isinstance(k.value, ast.Constant):
                        init = bool(k.value.value)
                    elif k.arg == "kw_only" and isinstance(k.value, ast.Constant):
                        kw_only = bool(k.value.value)
                    elif k.arg == "default":
                        default = k.value
                        if isinstance(default, ast.Call) and self.resolve_expr(m, default.func) in ("attr.Factory", "attrs.Factory"):
                            default = ("factory", default.args[0] if default.args else None)
                    elif k.arg in ("factory", "default_factory"):
                        default = ("factory", k.value)
                return Field(name, ann, val, init, default, kw_only)
        if ann is not None:
            if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) and ann.value.id == "ClassVar":
                return None
            default = val
            if isinstance(val, ast.Call) and self.resolve_expr(m, val.func) in ("attr.Factory", "attrs.Factory"):
                default = ("factory", val.args[0] if val.args else None)
            return Field(name, ann, val, True, default, False)
        return None

    # ----------------------------------------------------------- resolution
    def resolve_expr(self, m, e):
        """The dotted name of a Name/Attribute chain seen from a module."""
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            base = self.resolve_expr(m, e.value)
            if base is None:
                return None
            return self.canonical(base + "." + e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def resolve_name(self, m, name):
        b = m.names.get(name)
        if b is None:
            if hasattr(builtins, name):
                return "builtins." + name
            return None
        if b[0] in ("func", "class"):
            return b[1].qual
        if b[0] == "import":
            return self.canonical(b[1])
        return m.name + "." + name

    def canonical(self, dotted, seen=()):
        """Follow re-exports inside the package."""
        if dotted in seen:
            return dotted
        if dotted in self.functions or dotted in self.classes:
            return dotted
        if "." in dotted:
            mod, _, name = dotted.rpartition(".")
            m = self.modules.get(mod)
            if m is not None:
                b = m.names.get(name)
                if b is not None and b[0] == "import":
                    return self.canonical(b[1], seen + (dotted,))
                if b is not None and b[0] in ("func", "class"):
                    return b[1].qual
        return dotted

    # who uses what ---------------------------------------------------------
    def references(self):
        """{function: [(function it is named in or None, is it called there)]}"""
        if getattr(self, "_refs", None) is None:
            self._refs = {}
            methods = {}
            for q, f in self.functions.items():
                if f.cls is not None and f.parent is None:
                    methods.setdefault(f.name, []).append(q)
            for m in self.modules.values():
                if ".tests" in m.name:
                    continue
                inside = {}
                for q, f in self.functions.items():
                    if f.module is m and f.node is not None:
                        for x in ast.walk(f.node):
                            # the innermost one; functions are listed outside in
                            if x is not f.node and (x not in inside or self.functions[inside[x]].node in _ancestors(self, f)):
                                inside[x] = q
                called = {x.func for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        q = self.resolve_name(m, x.id)
                        qs = [q] if q in self.functions else []
                        if not qs and x in inside:
                            # a function of the function around it
                            g = self.functions[inside[x]]
                            while g is not None:
                                if g.qual + "." + x.id in self.functions:
                                    qs = [g.qual + "." + x.id]
                                    break
                                g = g.parent
                    elif isinstance(x, ast.Attribute):
                        qs = methods.get(x.attr, [])
                        if not qs:
                            q = self.resolve_expr(m, x)
                            qs = [q] if q in self.functions else []
                    else:
                        continue
                    for q in qs:
                        self._refs.setdefault(q, []).append((inside.get(x), x in called))
        return self._refs

    def inlinable(self, f):
        """A private helper which is only ever called: it is part of its callers."""
        q = f if isinstance(f, str) else f.qual
        f = self.functions.get(q)
        if f is None or not f.name.startswith("_") or f.name.startswith("__") or f.decorators:
            return False
        refs = self.references().get(q, [])
        return bool(refs) and all(owner is not None and owner != q and call for owner, call in refs)

    def callers(self, q):
        return {owner for owner, call in self.references().get(q, []) if owner is not None}

    def climb(self, names, keep=lambda f: True):
        """
        The functions which mention one of the names; ``send(True)`` after one
        of them adds its callers if it is but a helper of theirs (and tells so).
        """
        work = [f for q, f in sorted(self.functions.items()) if f.parent is None and f.node is not None and ".tests" not in f.module.name and keep(f) and any(
            isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in names for x in ast.walk(f.node))]
        done = set()
        while work:
            f = work.pop(0)
            if f.qual in done:
                continue
            done.add(f.qual)
            if (yield f):
                more = []
                if self.inlinable(f):
                    for q in self.callers(f.qual):
                        g = self.functions[q]
                        while g.parent is not None:
                            g = g.parent
                        more.append(g)
                    work.extend(more)
                yield bool(more)

    def reaches(self, f, names):
        """Does the function, with the private helpers it calls, mention one of the names?"""
        done, work = set(), [f]
        while work:
            g = work.pop()
            if g.qual in done or g.node is None:
                continue
            done.add(g.qual)
            for x in ast.walk(g.node):
                if isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in names:
                    return True
            if not hasattr(self, "_helpers"):
                self._helpers = {}
                for q in self.references():
                    if self.inlinable(q):
                        for c in self.callers(q):
                            self._helpers.setdefault(c, set()).add(q)
            for c, qs in self._helpers.items():
                if c == g.qual or c.startswith(g.qual + "."):
                    work.extend(self.functions[q] for q in qs)
        return False

    def global_var(self, dotted):
        """The defining expressions of a module level variable, or None."""
        mod, _, name = dotted.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            return None, None
        b = m.names.get(name)
        if b is None or b[0] != "var":
            return None, None
        return m, b[1]

    def func(self, short):
        """A function by its name relative to the package; an anchor."""
        q = PKG + "." + short
        f = self.functions.get(q)
        if f is None:
            f = self.functions.get(self.canonical(q))
        if f is None and "." in short:
            # maybe a method inherited from a base class
            c = self.classes.get(self.canonical(q.rpartition(".")[0]))
            if c is not None:
                f = self.find_method(c, q.rpartition(".")[2])
        if f is None:
            # moved within the package?
            last = q.rpartition(".")[2]
            same = {id(x): x for x in self.functions.values() if x.name == last and x.parent is None}
            if len(same) == 1:
                f = next(iter(same.values()))
        if f is None:
            raise AnalysisBroken("anchor vanished: function %s" % (short,))
        return f

    def cls(self, short):
        q = self.canonical(PKG + "." + short)
        c = self.classes.get(q)
        if c is None:
            raise AnalysisBroken("anchor vanished: class %s" % (short,))
        return c

    def module(self, short):
        m = self.modules.get(PKG + ("." + short if short else ""))
        if m is None:
            raise AnalysisBroken("anchor vanished: module %s" % (short,))
        return m

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.bases:
                if b in self.classes:
                    todo.append(self.classes[b])
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def all_fields(self, c):
        out = []
        for k in reversed(self.mro(c)):
            for f in k.fields:
                out = [g for g in out if g.name != f.name] + [f]
        return out

    def find_field(self, c, name):
        for k in self.mro(c):
            f = k.field(name)
            if f is not None:
                return f, k
        return None, None

    # ------------------------------------------------- exception subclassing
    def is_subclass(self, sub, sup):
        """True, False, or None when unknown.  Both are dotted names."""
        if sub == sup:
            return True
        if sup in ("builtins.BaseException", "builtins.object"):
            return True
        if sub in self.classes:
            results = [self.is_subclass(b, sup) for b in self.classes[sub].bases if b]
            if True in results:
                return True
            if None in results:
                return None
            return False
        if sub.startswith("builtins."):
            a = getattr(builtins, sub[9:], None)
            if sup in self.classes:
                return False
            if sup.startswith("builtins."):
                b = getattr(builtins, sup[9:], None)
                try:
                    return issubclass(a, b)
                except TypeError:
                    return None
            return False
        if sup == "builtins.Exception":
            return True
        a, b = library_class(sub), library_class(sup)
        if a is not None and b is not None:
            return issubclass(a, b)
        if sup.startswith("builtins."):
            return None
        if sup in self.classes:
            return False
        return None if sub.split(".")[0] == sup.split(".")[0] else False
