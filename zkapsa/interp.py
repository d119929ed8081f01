"""
A path-enumerating abstract interpreter over the syntax tree.

It computes, for one function, the set of abstract paths: which calls are made
on which values in which order, which conditions were decided which way, and
how the path ends.  Values are provenance terms (see ``terms``), no value of
the program is ever computed and nothing is handed to a solver.  Repository
functions are inlined according to a policy so that a helper which was
extracted, renamed or moved leaves the paths as they were.
"""
import ast
import types
import builtins

from .loader import AnalysisBroken, Func, library_class, own_nodes
from .terms import (
    FALSE, I, NONE, TRUE, ZERO, callee, conj, const, cval, digest, fname, is_const, mentions, contains,
    norm, show, simplify_dnf, subst, walk,
)


class Ev:
    __slots__ = ("kind", "a", "b", "c", "loc", "fn", "target", "depth")

    def __init__(self, kind, a=None, b=None, c=None, loc=None, fn=None, target=None, depth=0):
        self.kind, self.a, self.b, self.c = kind, a, b, c
        self.loc, self.fn, self.target, self.depth = loc, fn, target, depth

    def __repr__(self):
        def s(x):
            return show(x) if isinstance(x, tuple) else repr(x)
        where = "%s:%s" % self.loc if self.loc else "?"
        if self.kind == "loop":
            return "<loop %s %r @%s>" % (s(self.a), self.b, where)
        return "<%s %s @%s>" % (self.kind, " ".join(s(x) for x in (self.a, self.b, self.c) if x is not None), where)


class Sub:
    """One way through a loop body."""
    __slots__ = ("events", "kind", "carry")

    def __init__(self, events, kind, carry=()):
        self.events, self.kind = events, kind
        self.carry = carry          # (what earlier iterations left, what this one leaves)

    def __repr__(self):
        return "Sub(%s %r)" % (self.kind, self.events)


class Raise:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc


class Path:
    def __init__(self, events, kind, value, st):
        self.events, self.kind, self.value, self.st = events, kind, value, st

    def __repr__(self):
        return "Path(%s %s\n  %s)" % (self.kind, show(self.value) if self.value is not None else "", "\n  ".join(map(repr, self.events)))


class St:
    __slots__ = ("frames", "heap", "trace", "conds", "levels", "fid", "stack", "tries", "excs", "mods")

    def fork(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.trace = self.trace
        s.conds = dict(self.conds)
        s.levels = self.levels
        s.fid = self.fid
        s.stack = self.stack
        s.tries = self.tries
        s.excs = self.excs
        s.mods = self.mods
        return s


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem"}


def fresh_kind(v):
    """list, set or dict if the term is a newly made collection without an identity."""
    if v[0] in ("list", "set", "dict"):
        return v[0]
    if v[0] in ("comp", "seq") and v[1] in ("list", "set", "dict"):
        return v[1]
    if v[0] == "call" and v[1] == ("g", "builtins.sorted"):
        return "list"
    if v[0] == "bin" and v[1] == "+" and (fresh_kind(v[2]) == "list" or fresh_kind(v[3]) == "list"):
        return "list"
    return None


def new_state():
    s = St()
    s.frames, s.heap, s.trace, s.conds = {}, {}, None, {}
    s.levels, s.fid, s.stack, s.tries, s.excs, s.mods = (), None, (), 0, (), ()
    return s


def events_since(trace, marker):
    out = []
    while trace is not marker:
        out.append(trace[1])
        trace = trace[0]
    out.reverse()
    return tuple(out)


PURE_BUILTINS = {
    "len", "int", "str", "bytes", "repr", "min", "max", "sum", "any", "all", "sorted",
    "list", "tuple", "set", "frozenset", "dict", "range", "enumerate", "zip", "isinstance",
    "issubclass", "type", "getattr", "hasattr", "abs", "round", "divmod", "iter", "map",
    "filter", "bool", "float", "ord", "chr", "hash", "id", "reversed", "super", "callable",
    "bytearray", "pow", "slice", "vars", "object",
}
PURE_METHODS = {
    "decode", "encode", "format", "strip", "lstrip", "rstrip", "split", "join", "items",
    "keys", "values", "copy", "startswith", "endswith", "total_seconds", "get", "lower",
    "upper", "replace", "isoformat", "hex", "index", "union", "difference",
    "intersection", "issubset", "asTextMode", "child", "sibling", "preauthChild",
    "isdigit", "zfill", "partition", "rpartition", "splitlines", "count",
}
PURE_GLOBALS = {
    "base64.b64encode", "base64.urlsafe_b64encode", "datetime.timedelta", "struct.calcsize",
    "operator.itemgetter", "operator.attrgetter", "typing.cast", "os.path.join", "attr.asdict",
    "functools.partial", "attrs.asdict", "attr.evolve", "attrs.evolve",
    "hyperlink.DecodedURL.from_text", "twisted.python.filepath.FilePath", "itertools.islice",
    "itertools.chain", "allmydata.util.base32.b2a", "allmydata.storage.common.storage_index_to_dir",
    "allmydata.storage.server.storage_index_to_dir", "pyutil.mathutil.div_ceil", "math.ceil",
}
NONRAISING_NAMES = {
    "log", "info", "debug", "warn", "warning", "critical", "error", "msg", "start_action",
    "startAction", "write_traceback", "add_success_fields", "context", "run", "log_message",
    "Deferred", "succeed", "fail", "partial", "object", "DeferredLock", "DeferredQueue", "append",
    "time", "now", "utcnow", "seconds", "Lock", "getLogger", "Logger", "failure",
}
TRANSPARENT = {
    "builtins.property", "builtins.staticmethod", "builtins.classmethod", "functools.wraps",
    "eliot.log_call", "_zkapauthorizer.eliot.log_call", "_zkapauthorizer.eliot.log_call_deferred",
    "_zkapauthorizer.eliot.log_call_coroutine", "eliot.twisted.inline_callbacks",
    "eliot.twisted.log_call_deferred", "twisted.internet.defer.inlineCallbacks",
    "contextlib.contextmanager", "typing.overload", "zope.interface.implementer",
    "functools.lru_cache", "functools.cache", "functools.cached_property",
}
INLINE_CB = {"twisted.internet.defer.inlineCallbacks", "eliot.twisted.inline_callbacks"}
DFR_METHODS = {"addCallback", "addErrback", "addBoth", "addCallbacks"}
BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
    ast.RShift: ">>", ast.MatMult: "@",
}

DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__"}


def literal_keys(t):
    """The constants a literal has, if these are all it has and they are few and distinct."""
    items = [x[0] for x in t[1]] if t[0] == "dict" else list(t[1])
    if 0 < len(items) <= 6 and all(is_const(x) for x in items) and len(set(items)) == len(items):
        return items
    return None


class Policy:
    """
    Which repository functions are looked into.  ``atoms`` are names (relative
    to the package) or bare function names that stay opaque.
    """

    def __init__(self, atoms=(), only=None, max_depth=12, raise_all=False, unroll=2, max_paths=80000, nonraising=(), closing=False, hazards=None, opaque_containers=False, rewrite=None):
        self.atoms = set(atoms)
        self.only = only
        self.max_depth = max_depth
        self.raise_all = raise_all
        self.unroll = unroll
        self.max_paths = max_paths
        self.nonraising = set(nonraising)
        # can a coroutine be closed where it waits (GeneratorExit)?
        self.closing = closing
        # which failures of an operation are followed precisely: a function of
        # (interp, state, operation, term) giving exception classes, or None
        self.hazards = hazards
        # lists and sets made by the program are opaque; what is done to them is seen as calls
        self.opaque_containers = opaque_containers
        # what the result of a call of a library is known to be: a function of
        # (interp, state, call term) giving a value, or None
        self.rewrite = rewrite

    def inline(self, f):
        rel = f.qual.split(".", 1)[1]
        if "!" + rel in self.atoms:
            return True
        if rel in self.atoms or f.name in self.atoms or rel.split(".")[0] + ".*" in self.atoms:
            return False
        parts = rel.split(".")
        if len(parts) > 2 and ".".join(parts[:2]) + ".*" in self.atoms:
            return False
        return True


def exclusive(a, b):
    """Can the two conditions (as given by simplify_dnf) never hold together?"""
    def conjs(c):
        return c[1] if c and c[0] == "dnf" else (c,)
    return all(any((t, not pol) in y for t, pol in x) for x in conjs(a) for y in conjs(b))


class Interp:
    def __init__(self, program, policy=None):
        self.p = program
        self.policy = policy or Policy()
        self.uid = 0
        self.no_state = new_state()
        self.closures = {}
        self.closure_fids = set()
        self.term_types = {}
        self.globals_cache = {}
        self.mutated_names = {}
        self.steps = 0
        self.inlined = set()
        self.opaque = set()
        self.anal_functions = set()

    # --------------------------------------------------------------- helpers
    def fresh(self):
        self.uid += 1
        return self.uid

    def emit(self, st, kind, a=None, b=None, c=None, node=None, target=None):
        r = lambda x: self.reify(st, x) if isinstance(x, tuple) else x
        loc = None
        if node is not None and st.mods:
            loc = (st.mods[-1].relpath, getattr(node, "lineno", 0))
        ev = Ev(kind, r(a), r(b), r(c), loc, st.stack[-1] if st.stack else None, target, len(st.stack))
        st.trace = (st.trace, ev)
        return ev

    def module(self, st):
        return st.mods[-1]

    # ------------------------------------------------------------------ roots
    def run(self, func, args=None, decorated=False, state=None, skip=0):
        """All paths of a function on symbolic arguments."""
        st = state or new_state()
        self.anal_functions.add(func.qual)
        selfterm = None
        params = func.node.args
        names = [a.arg for a in params.posonlyargs + params.args]
        static = self.has_deco(func, "builtins.staticmethod")
        if func.cls is not None and not static and names and func.parent is None:
            if self.has_deco(func, "builtins.classmethod"):
                selfterm = ("cls", func.cls.qual)
            else:
                selfterm = ("self", func.cls.qual)
            names = names[1:]
        args = dict(args or {})
        names = names[skip:]
        kw = []
        for a in [x for x in params.posonlyargs + params.args if x.arg in names] + params.kwonlyargs:
            v = args.get(a.arg, ("p", a.arg))
            if v[0] == "p":
                t = self.ann_type(func.module, a.annotation)
                if t is not None:
                    self.term_types.setdefault(v, t)
            kw.append((a.arg, v))
        if decorated:
            res = self.call_func(st, func, selfterm, [v for k, v in kw[: len(names)]], kw[len(names):], func.node, root=True)
        else:
            res = self.call_raw(st, func, selfterm, [], kw, func.node, root=True)
        return self.finish(res)

    def expression(self, module, node):
        """All ways to evaluate an expression at the top level of a module or class."""
        st = new_state()
        st.mods = (module,)
        st.fid = "mod:" + module.name
        st.frames[st.fid] = {}
        return self.finish(self.eval(node, st))

    def finish(self, res):
        out = []
        final = []
        for s, v in res:
            if not isinstance(v, Raise) and v[0] == "coro":
                final.extend(self.do_await(s, v, None))
            elif not isinstance(v, Raise) and s.heap.get(("dfr", v)) is not None:
                stt = s.heap[("dfr", v)]
                final.append((s, stt[1] if stt[0] == "ok" else Raise(stt[1])))
            else:
                final.append((s, v))
        for s, v in final:
            ev = events_since(s.trace, None)
            if isinstance(v, Raise):
                if v.exc == ("loopback",):
                    out.append(Path(ev, "loop", None, s))
                else:
                    out.append(Path(ev, "raise", self.reify(s, v.exc), s))
            else:
                out.append(Path(ev, "return", self.reify(s, v), s))
        return out

    def apply(self, f, args, st=None, kwargs=()):
        """All paths of calling a function value on given terms."""
        st = st.fork() if st is not None else new_state()
        if not st.mods:
            st.mods = (self.p.modules["_zkapauthorizer"],)
        st.trace = None
        res = self.call(st, f, list(args), list(kwargs), ast.Constant(value=None, lineno=0))
        return self.finish(res)

    def has_deco(self, func, dotted):
        for d in func.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            if self.p.resolve_expr(func.module, t) == dotted:
                return True
        return False

    def is_inline_cb(self, func):
        return any(self.has_deco(func, x) for x in INLINE_CB) if isinstance(func, Func) else False

    # ------------------------------------------------------------------ types
    def ann_type(self, module, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                return self.ann_type(module, ast.parse(ann.value, mode="eval").body)
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.one_of([self.ann_type(module, ann.left), self.ann_type(module, ann.right)])
        if isinstance(ann, ast.Subscript):
            base = self.p.resolve_expr(module, ann.value) or ""
            last = base.rsplit(".", 1)[-1]
            sl = ann.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            ts = [self.ann_type(module, e) for e in elts]
            if last in ("Optional", "Union"):
                return self.one_of(ts)
            if last in ("list", "List", "Sequence", "Iterable", "Iterator", "set", "Set", "frozenset", "Generator", "Container", "Collection", "Awaitable", "Coroutine", "Deferred", "AsyncIterator"):
                if last in ("Awaitable", "Deferred"):
                    return ts[0]
                if last == "Coroutine":
                    return ts[-1]
                return ("seq", ts[0])
            if last in ("dict", "Dict", "Mapping"):
                return ("map", ts[0], ts[-1])
            if last in ("tuple", "Tuple"):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return ("seq", ts[0])
                return ("tup", tuple(ts))
            if last == "Callable":
                return ("callable", ts[-1])
            if base in self.p.classes:
                return ("C", base)
            return None
        d = self.p.resolve_expr(module, ann)
        if d is None:
            return None
        if d in self.p.classes:
            return ("C", d)
        m, exprs = self.p.global_var(d)
        if m is not None and exprs and len(exprs) == 1 and isinstance(exprs[0], (ast.Subscript, ast.Name, ast.Attribute)):
            return self.ann_type(m, exprs[0])
        return ("X", d)

    def one_of(self, types):
        """The type of a union, if it has only one besides None."""
        ts = {t for t in types if t is not None and t != ("X", "builtins.None")}
        return ts.pop() if len(ts) == 1 else None

    def type_of(self, t, st=None):
        k = t[0]
        if k == "self":
            return ("C", t[1])
        if k == "new":
            return ("C", t[1])
        r = self.term_types.get(t)
        if r is not None:
            return r
        if k == "attr":
            b = self.type_of(t[1], st)
            if b and b[0] == "C" and b[1] in self.p.classes:
                c = self.p.classes[b[1]]
                f, owner = self.p.find_field(c, t[2])
                if f is not None:
                    return self.ann_type(owner.module, f.annotation)
                m = self.p.find_method(c, t[2])
                if m is not None and self.has_deco(m, "builtins.property"):
                    return self.ann_type(m.module, m.node.returns)
            return None
        if k == "call":
            f = t[1]
            if f[0] == "fn" and f[1] in self.p.functions:
                m = self.p.functions[f[1]]
                return self.ann_type(m.module, m.node.returns)
            if f[0] == "attr":
                b = ("C", f[1][1]) if f[1][0] == "cls" else self.type_of(f[1], st)
                if b and b[0] == "C" and b[1] in self.p.classes:
                    m = self.p.find_method(self.p.classes[b[1]], f[2])
                    if m is not None:
                        return self.ann_type(m.module, m.node.returns)
                    fld, owner = self.p.find_field(self.p.classes[b[1]], f[2])
                    if fld is not None:
                        ft = self.ann_type(owner.module, fld.annotation)
                        if ft and ft[0] == "callable":
                            return ft[1]
                if b and b[0] == "map" and f[2] in ("get", "pop"):
                    return b[2]
            else:
                b = self.type_of(f, st)
                if b and b[0] == "callable":
                    return b[1]
            return None
        if k == "elem":
            b = self.type_of(t[1], st)
            if b and b[0] in ("seq", "map"):
                return b[1]
            return None
        if k == "sub":
            b = self.type_of(t[1], st)
            if b is None:
                return None
            if b[0] == "seq":
                return b[1]
            if b[0] == "map":
                return b[2]
            if b[0] == "tup" and is_const(t[2]) and isinstance(cval(t[2]), int) and cval(t[2]) < len(b[1]):
                return b[1][cval(t[2])]
        if k == "evolve":
            return self.type_of(t[1], st)
        return None

    def class_of(self, t, st=None):
        r = self.type_of(t, st)
        if r and r[0] == "C":
            return self.p.classes.get(r[1])
        return None

    def is_protocol(self, c):
        return any((b or "").rsplit(".", 1)[-1] == "Protocol" for b in c.bases)

    def is_interface(self, c):
        if self.is_protocol(c):
            return True
        return any(b == "zope.interface.Interface" or (b and b in self.p.classes and not self.is_protocol(self.p.classes[b]) and self.is_interface(self.p.classes[b])) or (b or "").endswith("RemoteInterface") for b in c.bases)

    # ------------------------------------------------------------ global names
    def resolve_global(self, dotted):
        if dotted in self.p.functions:
            return ("fn", dotted)
        if dotted in self.p.classes:
            return ("cls", dotted)
        if dotted in self.globals_cache:
            return self.globals_cache[dotted]
        if dotted.startswith("builtins."):
            n = dotted[9:]
            if n in ("None", "True", "False"):
                return const({"None": None, "True": True, "False": False}[n])
            return ("g", dotted)
        m, exprs = self.p.global_var(dotted)
        res = ("g", dotted)
        self.globals_cache[dotted] = res
        if dotted.split(".", 1)[-1] in self.policy.atoms or dotted.rsplit(".", 1)[-1] in self.policy.atoms:
            return res
        if m is not None and exprs and len(exprs) == 1 and exprs[0] is not None:
            st = new_state()
            st.mods = (m,)
            st.fid = "mod:" + m.name
            st.frames[st.fid] = {}
            try:
                rs = self.eval(exprs[0], st)
            except AnalysisBroken:
                rs = []
            if len(rs) == 1 and not isinstance(rs[0][1], Raise):
                s, v = rs[0]
                v = self.reify(s, v)
                if self.simple_value(v):
                    res = v
        self.globals_cache[dotted] = res
        return res

    def simple_value(self, v):
        if v[0] in ("c", "fn", "cls", "clo"):
            return True
        if v[0] == "g":
            return True
        if v[0] in ("tuple", "list", "set"):
            return all(self.simple_value(x) for x in v[1])
        if v[0] == "dict":
            return all(self.simple_value(a) and self.simple_value(b) for a, b in v[1])
        if v[0] == "partial":
            return all(self.simple_value(x) for x in v[2]) and all(self.simple_value(x) for _, x in v[3]) and self.simple_value(v[1])
        if v[0] in ("bin",):
            return all(self.simple_value(x) for x in v[2:])
        if v[0] == "call" and v[4] == 0 and v[1][0] == "g" and v[1][1] in PURE_GLOBALS:
            return all(self.simple_value(x) for x in v[2]) and all(self.simple_value(x) for _, x in v[3])
        return False

    def lookup(self, st, name, node=None):
        fid = st.fid
        while fid is not None:
            env = st.frames.get(fid)
            if env is None:
                break
            if name in env:
                return env[name]
            snap = env.get("__snap__")
            nxt = env.get("__parent__")
            if nxt is not None and nxt not in st.frames and snap is not None:
                # the defining frame is gone; use what it held
                chain = snap
                while chain is not None:
                    if name in chain[0]:
                        return chain[0][name]
                    chain = chain[1]
                break
            fid = nxt
        m = self.module(st)
        d = self.p.resolve_name(m, name)
        if d is None:
            return ("unk", "name " + name, 0)
        return self.resolve_global(d)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        work = [st]
        out = []
        for stmt in stmts:
            nxt = []
            for s in work:
                for s2, o in self.exec_stmt(stmt, s):
                    if o[0] == "next":
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            work = nxt
            if len(work) + len(out) > self.policy.max_paths:
                raise AnalysisBroken("too many paths at %s:%s" % (self.module(st).relpath, stmt.lineno))
            if not work:
                break
        out.extend((s, ("next",)) for s in work)
        return out

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > 6000000:
            raise AnalysisBroken("analysis budget exhausted")
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("statement %s at %s:%s is not supported" % (type(n).__name__, self.module(st).relpath, n.lineno))
        return m(n, st)

    def _after(self, results, f):
        out = []
        for s, v in results:
            if isinstance(v, Raise):
                if v.exc == ("loopback",):
                    out.append((s, ("loopback",)))
                elif v.exc[0] == "retval":
                    out.append((s, ("ret", v.exc[1])))
                else:
                    out.append((s, ("raise", v.exc)))
            else:
                r = f(s, v)
                if r is None:
                    out.append((s, ("next",)))
                else:
                    out.extend(r)
        return out

    def x_Pass(self, n, st):
        return [(st, ("next",))]

    def x_Global(self, n, st):
        return [(st, ("next",))]

    def x_Nonlocal(self, n, st):
        env = st.frames[st.fid]
        env["__nonlocal__"] = tuple(env.get("__nonlocal__", ())) + tuple(n.names)
        return [(st, ("next",))]

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, ("next",))]
        return self._after(self.eval(n.value, st, stmt=True), lambda s, v: None)

    def x_Return(self, n, st):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return self._after(self.eval(n.value, st), lambda s, v: [(s, ("ret", v))])

    def x_Break(self, n, st):
        return [(st, ("break",))]

    def x_Continue(self, n, st):
        return [(st, ("continue",))]

    def x_Assign(self, n, st):
        def f(s, v):
            work = [s]
            out = []
            for t in n.targets:
                nxt = []
                for w in work:
                    for s2, o in self.assign(t, v, w):
                        if o is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, o))
                work = nxt
            return out + [(w, ("next",)) for w in work]
        return self._after(self.eval(n.value, st), f)

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, ("next",))]
        t = self.ann_type(self.module(st), n.annotation)

        def f(s, v):
            if t is not None and t[0] == "C" and v[0] not in ("c", "obj") and self.type_of(v) is None:
                self.term_types.setdefault(v, t)
            return [(s2, o or ("next",)) for s2, o in self.assign(n.target, v, s)]
        return self._after(self.eval(n.value, st), f)

    def x_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n.target)

        def f(s, pair):
            old, v = pair
            if old[0] == "obj" and isinstance(n.op, (ast.Add, ast.BitOr)):
                self.obj_extend(s, old, v)
                return None
            r = self.mk_bin(BINOPS[type(n.op)], old, v)
            return [(s2, o or ("next",)) for s2, o in self.assign(n.target, r, s)]
        res = []
        for s, old in self.eval(load, st):
            if isinstance(old, Raise):
                res.append((s, old))
                continue
            for s2, v in self.eval(n.value, s):
                res.append((s2, v if isinstance(v, Raise) else (old, v)))
        return self._after(res, f)

    def mutated(self, module):
        """Names of variables whose values are changed in place somewhere in a module."""
        if module.name not in self.mutated_names:
            out = set()
            for n in ast.walk(module.tree):
                x = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    x = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                elif isinstance(n, ast.AugAssign):
                    x = n.target
                if isinstance(x, ast.Name):
                    out.add(x.id)
            self.mutated_names[module.name] = out
        return self.mutated_names[module.name]

    def set_name(self, st, name, v):
        v = I(v)
        env = st.frames[st.fid]
        if name in env.get("__nonlocal__", ()):
            fid = env.get("__parent__")
            while fid is not None and fid in st.frames:
                if name in st.frames[fid]:
                    st.frames[fid][name] = v
                    return
                fid = st.frames[fid].get("__parent__")
        env[name] = v

    def assign(self, t, v, st):
        """Returns [(st, None or outcome)]."""
        if isinstance(t, ast.Name):
            kind = fresh_kind(v)
            if kind is not None and st.mods and t.id in self.mutated(st.mods[-1]):
                # changed in place later: give it an identity
                o = self.new_obj(st, kind)
                self.obj_extend(st, o, v)
                v = o
            self.set_name(st, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.reify(st, v) if v[0] == "obj" else v
            work = [(st, None)]
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                nxt = []
                for s, o in work:
                    if o is not None:
                        nxt.append((s, o))
                        continue
                    if star is None or i < star:
                        item = self.mk_sub(v, const(i))
                        nxt.extend(self.assign(e, item, s))
                    elif i == star:
                        if v[0] in ("list", "tuple") and not any(x[0] == "star" for x in v[1]) and len(v[1]) >= len(t.elts) - 1:
                            rest = ("list", v[1][i:len(v[1]) - (len(t.elts) - 1 - i)])
                        else:
                            rest = ("slice", v, const(i), const(len(t.elts) - 1 - i))
                        nxt.extend(self.assign(e.value, rest, s))
                    else:
                        nxt.extend(self.assign(e, self.mk_sub(v, const(i - len(t.elts))), s))
                work = nxt
            return work
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st):
                if isinstance(b, Raise):
                    out.append((s, ("raise", b.exc)))
                    continue
                self.emit(s, "setattr", b, t.attr, v, node=t)
                s.heap[("attr", b, t.attr)] = v
                self.forget(s, ("attr", b, t.attr))
                out.append((s, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.eval(t.value, st):
                if isinstance(b, Raise):
                    out.append((s, ("raise", b.exc)))
                    continue
                for s2, i in self.eval(t.slice, s):
                    if isinstance(i, Raise):
                        out.append((s2, ("raise", i.exc)))
                        continue
                    if b[0] == "obj":
                        self.obj_add(s2, b, ("item", self.reify(s2, i), v))
                    else:
                        self.emit(s2, "setitem", b, i, v, node=t)
                        self.forget(s2, b)
                    out.append((s2, None))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisBroken("assignment target %s" % type(t).__name__)

    def forget(self, st, term):
        for a in [a for a in st.conds if any(x == term for x in walk(a))]:
            del st.conds[a]

    def x_Delete(self, n, st):
        work = [st]
        out = []
        for t in n.targets:
            nxt = []
            for s in work:
                if isinstance(t, ast.Name):
                    s.frames[s.fid].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.eval(t.value, s):
                        if isinstance(b, Raise):
                            out.append((s2, ("raise", b.exc)))
                            continue
                        for s3, i in self.eval(t.slice, s2):
                            if isinstance(i, Raise):
                                out.append((s3, ("raise", i.exc)))
                                continue
                            self.emit(s3, "delitem", b, i, node=t)
                            self.forget(s3, b)
                            if b[0] == "obj":
                                s3.heap[b] = (("unk", "del", self.fresh()),)
                            nxt.append(s3)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s):
                        if isinstance(b, Raise):
                            out.append((s2, ("raise", b.exc)))
                            continue
                        self.emit(s2, "delattr", b, t.attr, node=t)
                        nxt.append(s2)
            work = nxt
        return out + [(s, ("next",)) for s in work]

    def x_Import(self, n, st):
        for local, dotted in self.p._imports(self.module(st), n):
            st.frames[st.fid][local] = self.resolve_global(self.p.canonical(dotted))
        return [(st, ("next",))]

    x_ImportFrom = x_Import

    def x_FunctionDef(self, n, st):
        fid = st.fid
        c = self.make_closure(st, n)
        deco = list(reversed(n.decorator_list))
        results = [(st, c)]
        for d in deco:
            t = d.func if isinstance(d, ast.Call) else d
            dotted = self.p.resolve_expr(self.module(st), t)
            if dotted in TRANSPARENT:
                continue
            nxt = []
            for s, v in results:
                for s2, dv in self.eval(d, s):
                    if isinstance(dv, Raise):
                        nxt.append((s2, dv))
                    else:
                        nxt.extend(self.call(s2, dv, [v], [], n))
            results = nxt

        def f(s, v):
            self.set_name(s, n.name, v)
        return self._after(results, f)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, n, st):
        self.set_name(st, n.name, ("unk", "class " + n.name, 0))
        return [(st, ("next",))]

    def make_closure(self, st, n):
        cid = self.fresh()
        env = st.frames.get(st.fid, {})
        chain = None
        fids = []
        fid = st.fid
        while fid is not None and fid in st.frames:
            fids.append(fid)
            fid = st.frames[fid].get("__parent__")
        for f in reversed(fids):
            chain = (st.frames[f], chain)
        self.closures[cid] = (n, self.module(st), st.fid, chain, env.get("__cls__"), env.get("__func__"))
        self.closure_fids.update(fids)
        return ("clo", cid)

    def x_If(self, n, st):
        out = []
        for s, b in self.branch(n.test, st):
            if isinstance(b, Raise):
                out.append((s, ("raise", b.exc)))
            else:
                out.extend(self.exec_block(n.body if b else n.orelse, s))
        return out

    def x_Assert(self, n, st):
        out = []
        if self.typing_assert(n.test):
            # a type-narrowing assertion: not a decision of the program
            return [(s, ("raise", v.exc)) if isinstance(v, Raise) else (s, ("next",)) for s, v in self.eval(n.test, st)]
        for s, b in self.branch(n.test, st):
            if isinstance(b, Raise):
                out.append((s, ("raise", b.exc)))
            elif b:
                out.append((s, ("next",)))
            else:
                exc = ("exc", "builtins.AssertionError", ("assert", n.lineno))
                self.emit(s, "raise", exc, node=n)
                out.append((s, ("raise", exc)))
        return out

    def typing_assert(self, e):
        if isinstance(e, ast.BoolOp):
            return all(self.typing_assert(v) for v in e.values)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "callable", "issubclass")

    def x_Raise(self, n, st):
        if n.exc is None:
            exc = st.excs[-1] if st.excs else ("exc", None, ("reraise", n.lineno))
            self.emit(st, "raise", exc, node=n)
            return [(st, ("raise", exc))]

        def f(s, v):
            if v[0] == "cls":
                v = ("new", v[1], (), self.fresh())
            self.emit(s, "raise", v, node=n)
            return [(s, ("raise", v))]
        return self._after(self.eval(n.exc, st), f)

    # loops -----------------------------------------------------------------
    def iteration(self, st, it):
        """
        ``(gens, conds, element term)`` for iterating over a term, or
        ("literal", items).
        """
        it = self.reify(st, it)
        k = it[0]
        if k in ("list", "tuple", "set") and not any(x[0] == "star" for x in it[1]) and len(it[1]) <= 8:
            return ("literal", it[1])
        if k == "c" and isinstance(it[2], (tuple, str, bytes)):
            return ("literal", tuple(const(x) for x in it[2])) if len(it[2]) <= 8 and not isinstance(it[2], str) else ((it,), (), ("elem", it, 0))
        if k == "comp" and it[1] == "set":
            # once for each different element, in any order
            return ((it,) + tuple(it[3][1:]), it[4], it[2])
        if k == "comp":
            return (it[3], it[4], self.mk_sub(it[2], const(0)) if it[1] == "dict" else it[2])
        if k == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
            d = it[1][1]
            if d[0] == "comp" and d[1] == "dict":
                key, val = self.mk_sub(d[2], const(0)), self.mk_sub(d[2], const(1))
                return (d[3], d[4], {"items": d[2], "keys": key, "values": val}[it[1][2]])
            lvl = st.levels.count(d)
            e = ("elem", d, lvl)
            v = self.mk_sub(d, e)
            return ((d,), (), {"items": ("tuple", (e, v)), "keys": e, "values": v}[it[1][2]])
        if k == "call" and it[1][0] == "g" and it[1][1].startswith("builtins."):
            b = it[1][1][9:]
            if b in ("list", "tuple", "iter", "set", "frozenset", "sorted", "reversed") and it[2]:
                r = self.iteration(st, it[2][0])
                if r[0] != "literal":
                    if b in ("sorted", "reversed", "set", "frozenset"):
                        # keep the order visible in the generator
                        return ((it,) + tuple(r[0][1:]), r[1], r[2])
                    return r
                if b in ("list", "tuple") or b == "iter" and not self.advanced(st, it):
                    return r
                if b == "reversed":
                    return ("literal", tuple(reversed(r[1])))
            if b == "enumerate" and it[2]:
                r = self.iteration(st, it[2][0])
                if r[0] != "literal":
                    idx = self.idx_of(st, it[2][0], r)
                    if len(it[2]) > 1 or it[3]:
                        start = it[2][1] if len(it[2]) > 1 else it[3][0][1]
                        idx = self.mk_bin("+", idx, start)
                    return (r[0], r[1], ("tuple", (idx, r[2])))
                start = it[2][1] if len(it[2]) > 1 else const(0)
                return ("literal", tuple(("tuple", (self.mk_bin("+", start, const(i)), x)) for i, x in enumerate(r[1])))
            if b == "zip" and it[2]:
                rs = [self.iteration(st, x) for x in it[2]]
                if all(r[0] != "literal" for r in rs):
                    if all(r[0] == rs[0][0] and r[1] == rs[0][1] for r in rs) and rs[0][1][:1] != ("dnf",):
                        # element by element of one and the same iterable
                        return (rs[0][0], rs[0][1], ("tuple", tuple(r[2] for r in rs)))
                    return ((("zip", tuple(g for r in rs for g in r[0])),), tuple(c for r in rs for c in r[1] if c != "dnf"), ("tuple", tuple(r[2] for r in rs)))
            if b == "range" and len(it[2]) == 1:
                n = it[2][0]
                if is_const(n) and isinstance(cval(n), int) and 0 <= cval(n) <= 8:
                    return ("literal", tuple(const(i) for i in range(cval(n))))
                if n[0] == "call" and n[1] == ("g", "builtins.len") and len(n[2]) == 1:
                    # the positions of a sequence
                    r = self.iteration(st, n[2][0])
                    if r[0] != "literal" and not r[1] and len(r[0]) == 1:
                        return (r[0], (), self.idx_of(st, n[2][0], r))
        if k == "dict":
            return ("literal", tuple(a for a, b in it[1]))
        if k == "bin" and it[1] in ("&", "-"):
            # the elements of one which are (not) in the other
            a, b = it[2], it[3]
            view = lambda x: x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("keys", "items") and not x[2]
            if it[1] == "&" and view(b) and not view(a):
                a, b = b, a
            if view(a) or a[0] == "comp" and a[1] == "set":
                r = self.iteration(st, a)
                if r[0] != "literal" and r[1][:1] != ("dnf",):
                    return (r[0], conj(r[1], ((("cmp", "in", r[2], b), it[1] == "&"),)), r[2])
        return ((it,), (), ("elem", it, st.levels.count(it)))

    def advanced(self, st, it):
        """Was an element of the iterator already taken?"""
        tr = st.trace
        while tr is not None:
            e = tr[1]
            if e.kind == "call" and e.a[0] == "call" and e.a[1] == ("g", "builtins.next") and e.a[2][:1] == (it,):
                return True
            tr = tr[0]
        return False

    def idx_of(self, st, x, r):
        """The position of the current element of ``x``, which iterates as ``r``."""
        if r[0] != "literal" and not r[1] and len(r[0]) == 1 and r[0][0][0] != "zip":
            return ("idx", r[0][0])
        return ("idx", x)

    def x_For(self, n, st):
        out = []
        for s, it in self.iterables(self.eval(n.iter, st), n):
            if isinstance(it, Raise):
                out.append((s, ("raise", it.exc)))
                continue
            if isinstance(n, ast.AsyncFor):
                self.emit(s, "await", it, node=n)
                self.suspend(s)
            it = self.as_iterable(s, it, n)
            r = self.iteration(s, it)
            if r[0] == "literal":
                out.extend(self.for_literal(n, s, r[1]))
            else:
                out.extend(self.for_symbolic(n, s, r, it))
        return out

    x_AsyncFor = x_For

    def for_literal(self, n, st, items):
        work = [st]
        out = []
        for item in items:
            nxt = []
            for s in work:
                for s1, o1 in self.assign(n.target, item, s):
                    if o1 is not None:
                        out.append((s1, o1))
                        continue
                    for s2, o in self.exec_block(n.body, s1):
                        if o[0] in ("next", "continue"):
                            nxt.append(s2)
                        elif o[0] == "break":
                            out.append((s2, ("next",)))
                        else:
                            out.append((s2, o))
            work = nxt
        for s in work:
            out.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, ("next",))])
        return out

    def for_symbolic(self, n, st, r, it=None):
        def body(b):
            res = []
            for s1, o1 in self.assign(n.target, r[2], b):
                if o1 is not None:
                    res.append((s1, o1))
                else:
                    res.extend(self.exec_block(n.body, s1))
            return res
        out = []
        for s, o in self.symbolic_loop(st, r[0], r[1], body, n, it):
            if o[0] == "next" and n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            elif o[0] == "break":
                out.append((s, ("next",)))
            else:
                out.append((s, o))
        return out

    def symbolic_loop(self, st, gens, conds, body, n, it=None):
        """
        Run ``body`` once for an arbitrary element.  Ways through the body which
        go on to the next element are merged into one continuing state with a
        ``loop`` event; every way which leaves the loop gives a path of its own.
        """
        base = st
        marker = st.trace
        def once(prev):
            b = st.fork()
            b.levels = b.levels + tuple(gens)
            for where, key, t in prev:
                if where == "heap":
                    b.heap[key] = b.heap[key] + (("ext", t),)
                else:
                    b.frames[where][key] = t
            normal, exits = [], []
            for s, o in body(b):
                (normal if o[0] in ("next", "continue") else exits).append((s, o))
            return normal, exits

        normal, exits = once(())
        prev = self.carried(base, [s for s, o in normal], gens)
        if prev:
            # what earlier iterations may have changed is not known in this one
            normal, exits = once(prev)
            # except for what is computed once, when it is first needed
            memo = [x for x in prev if x[0] != "heap" and is_const(x[2][2]) and cval(x[2][2]) is None and all(
                s.frames.get(x[0], {}).get(x[1]) == x[2] or (("cmp", "is", x[2], NONE), True) in self.guards(events_since(s.trace, marker))
                for s, o in normal)]
            if memo:
                prev = [x for x in prev if x not in memo]
                normal, exits = once(prev)
        prev = {(where, key): t for where, key, t in prev}
        subs = []
        gconds = []
        for s, o in normal:
            evs = events_since(s.trace, marker)
            subs.append(Sub(evs, o[0], tuple((t, self.reify(s, s.frames[w][k])) for (w, k), t in prev.items() if w != "heap" and s.frames.get(w, {}).get(k) is not None)))
            gconds.append(self.guards(evs))
        out = []
        # continuing state
        m = base.fork()
        m.trace = marker
        if normal:
            self.merge_loop(m, base, [s for s, o in normal], gconds, gens, conds, prev)
            self.emit(m, "loop", gens, None, conds, node=n)
            m.trace[1].b = tuple(subs)
            m.trace[1].target = it  # as written, with list() and the like
            if any(self.has_await(e) for sub in subs for e in sub.events):
                self.suspend(m)
        # leaving states
        pure_partial = all(not any(e.kind not in ("guard", "return") for e in sub.events) for sub in subs)
        for s, o in exits:
            evs = events_since(s.trace, marker)
            ex = self.simplify_exists(gens, conj(conds, self.guards(evs)))
            s.levels = base.levels
            # splice: partial loop, marker, events
            t = marker
            if normal and not pure_partial:
                ev = Ev("loop", gens, tuple(subs), conds, m.trace[1].loc, m.trace[1].fn, it, len(st.stack))
                t = (t, ev)
            loc = (self.module(base).relpath, getattr(n, "lineno", 0))
            t = (t, Ev("loopexit", gens, o[0], conds, loc, base.stack[-1] if base.stack else None, None, len(st.stack)))
            if ex is not None:
                t = (t, Ev("guard", ex, True, None, loc, base.stack[-1] if base.stack else None, None, len(st.stack)))
            for e in evs:
                t = (t, e)
            s.trace = t
            if ex is not None and ex[0] != "c":
                s.conds[ex] = True
                if o[0] == "break":
                    pass
                if normal:
                    m.conds[ex] = False
                    loc2 = loc
                    m.trace = (m.trace, Ev("guard", ex, False, None, loc2, base.stack[-1] if base.stack else None, None, len(st.stack)))
            out.append((s, o))
        if normal:
            m.levels = base.levels
            out.append((m, ("next",)))
        elif not any(x[0] == "g" and "count" in x[1] for x in gens):
            # the body always leaves; the empty case remains
            e = base.fork()
            self.emit(e, "loop", gens, None, conds, node=n)
            e.trace[1].b = ()
            for s, o in exits:
                ex = self.simplify_exists(gens, conj(conds, ()))
                if ex is not None:
                    if ex not in e.conds:
                        e.trace = (e.trace, Ev("guard", ex, False, None, e.trace[1].loc, base.stack[-1] if base.stack else None, None, len(st.stack)))
                    e.conds[ex] = False
            out.append((e, ("next",)))
        return out

    def has_await(self, e):
        if e.kind == "await":
            return True
        if e.kind == "loop":
            return any(self.has_await(x) for s in e.b for x in s.events)
        return False

    def guards(self, evs):
        # reaching a point through a handler is a condition, too
        return tuple((e.a, e.b) if e.kind == "guard" else (("raises", e.a), True) for e in evs if e.kind == "guard" or (e.kind == "raised" and e.a is not None))

    def simplify_exists(self, gens, conds):
        if not conds and len(gens) == 1:
            # "there is an element" is the truth of the iterable
            return gens[0] if gens[0][0] not in ("call",) else ("exists", tuple(gens), ())
        return ("exists", tuple(gens), tuple(conds))

    def carried(self, base, states, gens):
        """What one iteration changes and the next one sees."""
        out = []
        for fid, env in base.frames.items():
            for name, old in env.items():
                if not name.startswith("__") and old is not None and any(s.frames.get(fid, {}).get(name) != old for s in states):
                    out.append((fid, name, I(("prev", name, self.reify(base, old)))))
        for key, old in base.heap.items():
            if key[0] == "obj" and any(s.heap.get(key) != old for s in states):
                new = [e for s in states for e in (s.heap.get(key) or ())[len(old):]]
                if key[1] == "dict" and all(e[0] == "item" and e[1][0] == "elem" and e[1][1] == gens[0] for e in new) and all((s.heap.get(key) or ())[:len(old)] == old for s in states):
                    continue        # every iteration has its own key
                out.append(("heap", key, I(("prev", "object", self.reify(base, key)))))
        return out

    def merge_loop(self, m, base, states, gconds, gens, conds, prev):
        # frames
        for fid, env in base.frames.items():
            names = set(env)
            for s in states:
                names |= set(s.frames.get(fid, {}))
            for name in names:
                if name.startswith("__"):
                    continue
                old = env.get(name)
                vals = [s.frames.get(fid, {}).get(name) for s in states]
                start = old
                old = prev.get((fid, name), old)
                if all(v == old for v in vals):
                    continue
                if old is None:
                    # loop-local
                    uniq = {v for v in vals}
                    m.frames[fid][name] = vals[0] if len(uniq) == 1 and vals[0] is not None else ("unk", "loopvar " + name, self.fresh())
                    continue
                m.frames[fid][name] = self.merge_var(base, states, start, old, vals, gconds, gens, conds)
        # heap
        keys = set(base.heap)
        for s in states:
            keys |= set(s.heap)
        for key in keys:
            old = base.heap.get(key)
            vals = [s.heap.get(key) for s in states]
            start = old
            if ("heap", key) in prev:
                old = old + (("ext", prev[("heap", key)]),)
            if all(v == old for v in vals):
                continue
            if key[0] == "obj":
                if old is None:
                    if len(set(vals)) == 1:
                        m.heap[key] = vals[0]
                    continue
                m.heap[key] = self.merge_obj(start, old, vals, gconds, gens, conds)
            elif len(set(vals)) == 1:
                m.heap[key] = vals[0]
            else:
                m.heap.pop(key, None)
        # conditions: keep what held before and was not forgotten
        for a in list(m.conds):
            if any(s.conds.get(a) != m.conds[a] for s in states):
                del m.conds[a]

    def merge_var(self, base, states, start, old, vals, gconds, gens, conds):
        r = lambda i: self.reify(states[i], vals[i])
        deltas = []
        for i, v in enumerate(vals):
            v = r(i)
            if v == old:
                deltas.append(None)
                continue
            d = self.delta_sum(old, v)
            if d is None:
                deltas = None
                break
            deltas.append(d)
        if deltas is not None:
            alts = {}
            for d, c in zip(deltas, gconds):
                if d is not None:
                    alts.setdefault(d, []).append(c)
            return self.mk_sum(start, alts, gens, conds)
        # boolean flags
        if is_const(start) and isinstance(cval(start), bool):
            other = const(not cval(start))
            if all(r(i) in (old, other) for i in range(len(vals))):
                c = simplify_dnf([g for i, g in enumerate(gconds) if r(i) == other])
                ex = self.simplify_exists(gens, conj(conds, c))
                return ex if cval(other) else self.mk_not(ex)
            folded = self.folded(old, other, [r(i) for i in range(len(vals))], gconds)
            if folded is not None:
                ex = self.simplify_exists(gens, conj(conds, simplify_dnf(folded)))
                return ex if cval(other) else self.mk_not(ex)
        return ("unk", "after loop" + (" of " + old[1] if old[0] == "prev" else ""), self.fresh())

    def folded(self, old, other, vals, gconds):
        """
        ``flag = flag or x`` / ``flag = flag and x`` in a loop: when the flag
        gets its other value, as conjunctions.
        """
        op = "or" if cval(other) else "and"
        out = []
        for v, g in zip(vals, gconds):
            gs = g[1] if g and g[0] == "dnf" else (g,)
            if v == old:
                continue
            if v == other:
                out.extend(gs)
                continue
            if v[0] != op or old not in v[1]:
                return None
            for x in v[1]:
                if x == old:
                    continue
                if contains(x, old):
                    return None
                atom = (x[1], op != "or") if x[0] == "not" else (x, op == "or")
                out.extend(tuple(a for a in c if a != atom) + (atom,) for c in gs if (atom[0], not atom[1]) not in c)
        return out

    def delta_sum(self, old, v):
        """``v`` is ``old + d``: return d."""
        if v[0] == "bin" and v[1] == "+":
            if v[2] == old:
                return v[3]
            if v[3] == old:
                return v[2]
            d = self.delta_sum(old, v[2])
            if d is not None:
                return self.mk_bin("+", d, v[3])
        if is_const(old) and is_const(v) and isinstance(cval(v), int) and isinstance(cval(old), int) and not isinstance(cval(v), bool):
            return const(cval(v) - cval(old))
        if is_const(old) and cval(old) == 0 and not isinstance(cval(old), bool) and v[0] in ("bin", "call", "sub", "attr", "p", "elem", "phi", "sum"):
            return v  # 0 + d was folded to d
        if v[0] == "sum" and v[1] == old:
            return ("sum", ZERO) + v[2:]
        return None

    def mk_sum(self, start, alts, gens, conds):
        if len(alts) == 1:
            (d, cs), = alts.items()
            c = conj(conds, simplify_dnf(cs))
            if d[0] == "sum" and d[1] == ZERO:
                return ("sum", start, d[2], tuple(gens) + d[3], conj(c, d[4]))
            return ("sum", start, d, tuple(gens), c)
        elt = ("phi", tuple(sorted(((simplify_dnf(cs), d) for d, cs in alts.items()), key=digest)))
        allc = simplify_dnf([c for cs in alts.values() for c in cs])
        return ("sum", start, elt, tuple(gens), conj(conds, allc))

    def merge_obj(self, start, old, vals, gconds, gens, conds):
        entries = {}
        order = []
        for v, g in zip(vals, gconds):
            if v is None or v[: len(old)] != old:
                return start + (("unk", "mutated in loop", self.fresh()),)
            for e in v[len(old):]:
                if e not in entries:
                    order.append(e)
                entries.setdefault(e, []).append(g)
        out = list(start)
        for e in order:
            c = simplify_dnf(entries[e])
            if e[0] == "item":
                elt = e[1] if len(e) == 2 else ("tuple", (e[1], e[2]))
                out.append(("each", elt, tuple(gens), conj(conds, c)))
            elif e[0] == "each":
                out.append(("each", e[1], tuple(gens) + e[2], conj(conds, conj(c, e[3]))))
            elif e[0] == "ext":
                x = e[1]
                if x[0] == "comp":
                    out.append(("each", x[2], tuple(gens) + x[3], conj(conds, conj(c, x[4]))))
                else:
                    out.append(("each", ("elem", x, 0), tuple(gens) + (x,), conj(conds, c)))
            else:
                out.append(e)
        # two alternatives with opposite conditions and the same shape stay separate entries
        return tuple(out)

    def x_While(self, n, st):
        out = []
        work = [st]
        counters = {x.target.id for y in n.body for x in ast.walk(y) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        counters |= {x.targets[0].id for y in n.body for x in ast.walk(y) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp)
                     and any(isinstance(z, ast.Name) and z.id == x.targets[0].id for z in ast.walk(x.value))}
        for i in range(self.policy.unroll):
            nxt = []
            for s in work:
                if i > 0:
                    # any later round: how often a counter was increased is unknown
                    for name in sorted(counters):
                        v = s.frames.get(s.fid, {}).get(name)
                        if v is not None and is_const(v) and isinstance(cval(v), (int, float)):
                            s.frames[s.fid][name] = ("unk", "counter " + name, self.fresh())
                for s1, b in self.branch(n.test, s):
                    if isinstance(b, Raise):
                        out.append((s1, ("raise", b.exc)))
                    elif not b:
                        out.extend(self.exec_block(n.orelse, s1) if n.orelse else [(s1, ("next",))])
                    else:
                        self.emit(s1, "while", const(i), node=n)
                        for s2, o in self.exec_block(n.body, s1):
                            if o[0] in ("next", "continue"):
                                nxt.append(s2)
                            elif o[0] == "break":
                                out.append((s2, ("next",)))
                            else:
                                out.append((s2, o))
            work = nxt
        for s in work:
            # further iterations are not unrolled, but the loop may also stop here
            stops = False
            if not (isinstance(n.test, ast.Constant) and n.test.value):
                for s1, b in self.branch(n.test, s.fork()):
                    if not isinstance(b, Raise) and not b:
                        out.extend(self.exec_block(n.orelse, s1) if n.orelse else [(s1, ("next",))])
                        stops = True
            self.emit(s, "loopback", node=n)
            out.append((s, ("loopback",)))
        return out

    # try / with ---------------------------------------------------------------
    def x_Try(self, n, st):
        st.tries += 1
        res = self.exec_block(n.body, st)
        after = []
        for s, o in res:
            s.tries -= 1
            if o[0] == "next" and n.orelse:
                after.extend(self.exec_block(n.orelse, s))
            elif o[0] == "raise" and n.handlers:
                after.extend(self.handle(n, s, o[1]))
            else:
                after.append((s, o))
        if not n.finalbody:
            return after
        out = []
        for s, o in after:
            if o[0] == "loopback":
                out.append((s, o))
                continue
            if o[0] == "raise":
                s.excs = s.excs + (o[1],)
            for s2, o2 in self.exec_block(n.finalbody, s):
                if o[0] == "raise" and s2.excs:
                    s2.excs = s2.excs[:-1]
                out.append((s2, o if o2[0] == "next" else o2))
        return out

    x_TryStar = x_Try

    def exc_type(self, exc):
        """Dotted type of an exception term or None."""
        if exc[0] == "exc":
            return exc[1]
        if exc[0] in ("new", "cls"):
            return exc[1]
        if exc[0] == "g":
            return exc[1]
        if exc[0] == "call":
            f = exc[1]
            if f[0] in ("g", "cls"):
                return f[1]
        r = self.type_of(exc)
        if r and r[0] in ("C", "X"):
            return r[1]
        return None

    def match_exc(self, exc, sup):
        """True / False / None (maybe)."""
        t = self.exc_type(exc)
        if t is None:
            if sup in ("builtins.Exception", "builtins.BaseException"):
                return True
            return None
        r = self.p.is_subclass(t, sup)
        if r is False and self.p.is_subclass(sup, t):
            return None if exc[0] == "exc" else False
        return r

    def handler_types(self, st, h):
        if h is None:
            return ["builtins.BaseException"]
        if isinstance(h, ast.Tuple):
            return [self.p.resolve_expr(self.module(st), e) or "?" for e in h.elts]
        d = self.p.resolve_expr(self.module(st), h)
        if d is not None:
            m, exprs = self.p.global_var(d)
            if m is not None and exprs and len(exprs) == 1 and isinstance(exprs[0], ast.Tuple):
                return [self.p.resolve_expr(m, e) or "?" for e in exprs[0].elts]
        return [d or "?"]

    def handle(self, n, st, exc):
        out = []
        pending = st
        for h in n.handlers:
            matched = None
            types = self.handler_types(pending, h.type)
            verdicts = [self.match_exc(exc, t) for t in types]
            if True in verdicts:
                matched = True
                ht = types[verdicts.index(True)]
            elif None in verdicts:
                matched = None
                ht = types[verdicts.index(None)] if len(types) == 1 else None
            else:
                continue
            s = pending if matched else pending.fork()
            bound = exc
            if matched is None and ht is not None and exc[0] == "exc":
                bound = ("exc", ht, exc[2])
            self.emit(s, "catch", bound, ht, node=h)
            if h.name:
                self.set_name(s, h.name, bound)
            s.excs = s.excs + (bound,)
            for s2, o in self.exec_block(h.body, s):
                s2.excs = s2.excs[:-1] if s2.excs else s2.excs
                out.append((s2, o))
            if matched:
                return out
        out.append((pending, ("raise", exc)))
        return out

    def x_With(self, n, st):
        def go(i, s):
            if i == len(n.items):
                return self.exec_block(n.body, s)
            item = n.items[i]
            out = []
            ctxf = self.ctxmanager(item.context_expr, s)
            if ctxf is not None:
                func, argres = ctxf
                for s1, av in argres:
                    if isinstance(av, Raise):
                        out.append((s1, ("raise", av.exc)))
                    else:
                        out.extend(self.inline_ctx(s1, func, av, item, lambda s2: go(i + 1, s2), n))
                return out
            for s1, c in self.eval(item.context_expr, s):
                if isinstance(c, Raise):
                    out.append((s1, ("raise", c.exc)))
                    continue
                self.emit(s1, "enter", c, node=n)
                if isinstance(n, ast.AsyncWith):
                    self.emit(s1, "await", c, node=n)
                    self.suspend(s1)
                binds = [(s1, None)]
                if item.optional_vars is not None:
                    binds = self.assign(item.optional_vars, ("ctx", c) if c[0] in ("call",) else c, s1)
                for s2, o2 in binds:
                    if o2 is not None:
                        out.append((s2, o2))
                        continue
                    swallow = None
                    if c[0] == "call" and c[1] == ("g", "contextlib.suppress"):
                        swallow = [x[1] for x in c[2] if x[0] in ("g", "cls")]
                        s2.tries += 1
                    for s3, o in go(i + 1, s2):
                        if swallow is not None:
                            s3.tries -= 1
                        if o[0] == "loopback":
                            out.append((s3, o))
                            continue
                        self.emit(s3, "exit", c, o[1] if o[0] == "raise" else None, node=n)
                        if isinstance(n, ast.AsyncWith):
                            self.suspend(s3)
                        if swallow is not None and o[0] == "raise":
                            v = [self.match_exc(o[1], t) for t in swallow]
                            if True in v:
                                o = ("next",)
                            elif None in v:
                                out.append((s3.fork(), ("next",)))
                        out.append((s3, o))
            return out
        return go(0, st)

    x_AsyncWith = x_With

    def ctxmanager(self, e, st):
        """A call of a repository context manager which may be inlined."""
        if not isinstance(e, ast.Call):
            return None
        probe = self.eval(e.func, st.fork())
        if len(probe) != 1 or isinstance(probe[0][1], Raise):
            return None
        f = probe[0][1]
        func, selfterm = None, None
        if f[0] == "fn":
            func = self.p.functions.get(f[1])
        elif f[0] == "bm":
            func, selfterm = self.p.functions.get(f[2]), f[1]
        if func is None or not self.has_deco(func, "contextlib.contextmanager"):
            return None
        if not self.policy.inline(func) or func.qual in st.stack:
            return None
        out = []
        for s, a in self.eval_args(e, st):
            out.append((s, a if isinstance(a, Raise) else (selfterm,) + a))
        return func, out

    def inline_ctx(self, st, func, av, item, cont, n):
        selfterm, args, kwargs = av
        outer = (st.fid, st.stack, st.mods, st.tries)
        env = self.bind(st, func, selfterm, args, kwargs)
        fid = self.fresh()
        env["__func__"] = func
        env["__cls__"] = func.cls

        def hook(s, v):
            inner = (s.fid, s.stack, s.mods, s.tries)
            s.fid, s.stack, s.mods, _ = outer
            res = []
            binds = [(s, None)]
            if item.optional_vars is not None:
                binds = self.assign(item.optional_vars, v, s)
            for s2, o2 in binds:
                for s3, o in ([(s2, o2)] if o2 is not None else cont(s2)):
                    s3.fid, s3.stack, s3.mods, s3.tries = inner
                    if o[0] == "raise":
                        res.append((s3, Raise(o[1])))
                    elif o[0] == "loopback":
                        res.append((s3, Raise(("loopback",))))
                    else:
                        if o[0] != "next":
                            s3.heap[("ctxpending", fid)] = o
                        res.append((s3, NONE))
            return res
        env["__ctxhook__"] = hook
        st.frames[fid] = env
        st.fid = fid
        st.stack = st.stack + (func.qual,)
        st.mods = st.mods + (func.module,)
        self.inlined.add(func.qual)
        out = []
        for s, o in self.exec_block(func.node.body, st):
            pend = s.heap.pop(("ctxpending", fid), None)
            s.fid, s.stack, s.mods, s.tries = outer
            if o[0] in ("next", "ret"):
                out.append((s, pend or ("next",)))
            else:
                out.append((s, o))
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, stmt=False):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("expression %s at %s:%s is not supported" % (type(e).__name__, self.module(st).relpath, getattr(e, "lineno", 0)))
        return m(e, st)

    def then(self, results, f):
        out = []
        for s, v in results:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def eval_list(self, exprs, st):
        work = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vs in work:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.eval(e.value, s):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                            continue
                        v = self.reify(s2, v)
                        if v[0] in ("tuple", "list"):
                            nxt.append((s2, vs + tuple(v[1])))
                        else:
                            nxt.append((s2, vs + (("star", v),)))
                else:
                    for s2, v in self.eval(e, s):
                        nxt.append((s2, v if isinstance(v, Raise) else vs + (v,)))
            work = nxt
        return work

    def e_Constant(self, e, st):
        return [(st, const(e.value))]

    def e_Name(self, e, st):
        return [(st, self.lookup(st, e.id, e))]

    def e_Tuple(self, e, st):
        return self.then(self.eval_list(e.elts, st), lambda s, vs: [(s, ("tuple", vs))])

    def new_obj(self, st, kind, entries=()):
        if self.policy.opaque_containers and kind in ("list", "set"):
            items = tuple(("star", x[1]) if x[0] == "ext" else x[1] for x in entries)
            return ("call", ("g", "builtins." + kind), (("list", items),) if items else (), (), self.fresh())
        o = ("obj", kind, self.fresh())
        st.heap[o] = tuple(entries)
        return o

    def e_List(self, e, st):
        def f(s, vs):
            return [(s, self.new_obj(s, "list", [("ext", v[1]) if v[0] == "star" else ("item", v) for v in vs]))]
        return self.then(self.eval_list(e.elts, st), f)

    def e_Set(self, e, st):
        def f(s, vs):
            return [(s, self.new_obj(s, "set", [("ext", v[1]) if v[0] == "star" else ("item", v) for v in vs]))]
        return self.then(self.eval_list(e.elts, st), f)

    def e_Dict(self, e, st):
        work = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, acc in work:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                ks = [(s, None)] if k is None else self.eval(k, s)
                for s1, kv in ks:
                    if isinstance(kv, Raise):
                        nxt.append((s1, kv))
                        continue
                    for s2, vv in self.eval(v, s1):
                        if isinstance(vv, Raise):
                            nxt.append((s2, vv))
                        elif kv is None:
                            nxt.append((s2, acc + (("ext", self.reify(s2, vv)),)))
                        else:
                            nxt.append((s2, acc + (("item", self.reify(s2, kv), vv),)))
            work = nxt
        return self.then(work, lambda s, acc: [(s, self.new_obj(s, "dict", acc))])

    def e_JoinedStr(self, e, st):
        parts = []
        exprs = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(None)
                exprs.append(v.value)

        def f(s, vs):
            vs = list(vs)
            return [(s, self.mk_fmt([const(p) if p is not None else self.reify(s, vs.pop(0)) for p in parts]))]
        return self.then(self.eval_list(exprs, st), f)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def mk_fmt(self, parts):
        out = []
        for p in parts:
            items = p[1] if p[0] == "fmt" else (p,)
            for q in items:
                if is_const(q) and isinstance(cval(q), (str, int)) and not isinstance(cval(q), bool):
                    q = const(str(cval(q)))
                    if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                        out[-1] = const(cval(out[-1]) + cval(q))
                        continue
                    if cval(q) == "":
                        continue
                out.append(q)
        if not out:
            return const("")
        if len(out) == 1 and is_const(out[0]) and isinstance(cval(out[0]), str):
            return out[0]
        return ("fmt", tuple(out))

    def e_Starred(self, e, st):
        return self.then(self.eval(e.value, st), lambda s, v: [(s, ("star", v))])

    def e_NamedExpr(self, e, st):
        def f(s, v):
            self.set_name(s, e.target.id, v)
            return [(s, v)]
        return self.then(self.eval(e.value, st), f)

    def e_Lambda(self, e, st):
        return [(st, self.make_closure(st, e))]

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.branch(e.test, st):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.eval(e.body if b else e.orelse, s))
        return out

    def e_BoolOp(self, e, st):
        # value context
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        s = st
        for i, v in enumerate(e.values):
            marker = s.trace
            ps = s.fork()
            if self.policy.hazards is not None:
                # what the operands before it say holds where this one is evaluated
                for x in vals:
                    t, b = self.truth(s, x), op == "and"
                    while t[0] == "not":
                        t, b = t[1], not b
                    ps.conds[I(t)] = b
            probe = self.eval(v, ps)
            if len(probe) == 1 and self.policy.hazards is not None:
                probe[0][0].conds = dict(s.conds)
            if len(probe) == 1 and not isinstance(probe[0][1], Raise) and (i == 0 or not any(x.kind != "call" or x.a[4] != 0 for x in events_since(probe[0][0].trace, marker))):
                s = probe[0][0]
                vals.append(self.reify(s, probe[0][1]))
            else:
                return self.boolop_fork(e, op, st)
        return [(s, self.mk_bool(op, vals))]

    def boolop_fork(self, e, op, st):
        work = [(st, None)]
        out = []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s, _ in work:
                for s1, x in self.eval(v, s):
                    if isinstance(x, Raise) or last:
                        out.append((s1, x))
                        continue
                    for s2, b in self.branch_term(s1, x, v):
                        if b == (op == "or"):
                            out.append((s2, x))
                        else:
                            nxt.append((s2, None))
            work = nxt
        return out

    def mk_bool(self, op, vals):
        out = []
        for v in vals:
            t = self.static_truth(v)
            if t is not None:
                if op == "and" and not t or op == "or" and t:
                    out.append(v)
                    break
                if v is vals[-1]:
                    out.append(v)
                continue
            out.extend(v[1] if v[0] == op else (v,))
        if not out:
            return vals[-1]
        if len(out) == 1:
            return out[0]
        return (op, tuple(out))

    def e_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, self.mk_not(self.truth(s, v)))]
            if isinstance(e.op, ast.USub):
                if is_const(v) and isinstance(cval(v), (int, float)):
                    return [(s, const(-cval(v)))]
                return [(s, ("un", "-", v))]
            return [(s, ("un", type(e.op).__name__, v))]
        return self.then(self.eval(e.operand, st), f)

    def truth(self, st, t):
        """The condition a term stands for, as a canonical atom or combination."""
        t = self.reify(st, t)
        k = t[0]
        if k == "call" and t[1] in (("g", "builtins.len"), ("g", "builtins.bool")) and len(t[2]) == 1:
            return self.truth(st, t[2][0])
        if k == "call" and t[4] == 0 and t[1][0] == "g" and t[1][1] in ("builtins.list", "builtins.set", "builtins.tuple", "builtins.frozenset", "builtins.sorted") and len(t[2]) == 1:
            x = self.truth(st, t[2][0])
            return x
        if k == "comp":
            return self.simplify_exists(t[3], t[4])
        return t

    def static_truth(self, t):
        k = t[0]
        if k == "c":
            return bool(t[2])
        if k in ("list", "tuple", "set", "dict"):
            if any(isinstance(x, tuple) and x and x[0] == "star" for x in t[1]):
                return None
            return len(t[1]) > 0
        if k in ("fn", "cls", "clo", "bm", "partial", "new", "self", "coro"):
            return True
        if k == "fmt":
            return True if any(is_const(x) and cval(x) for x in t[1]) else None
        return None

    def mk_not(self, t):
        if t[0] == "not":
            return t[1]
        s = self.static_truth(t)
        if s is not None:
            return const(not s)
        if t[0] in ("and", "or"):
            return ("or" if t[0] == "and" else "and", tuple(self.mk_not(x) for x in t[1]))
        return ("not", t)

    def e_BinOp(self, e, st):
        def f(s, vs):
            a, b = (self.reify(s, v) for v in vs)
            c = self.class_of(a, s) if a[0] in ("self", "new", "evolve", "p", "attr", "sub", "elem", "call") else None
            if c is not None and type(e.op) in DUNDER:
                m = self.p.find_method(c, DUNDER[type(e.op)])
                if m is not None and self.policy.inline(m):
                    return self.call_func(s, m, a, [b], [], e)
            return [(s, self.mk_bin(BINOPS[type(e.op)], a, b))]
        return self.then(self.eval_list([e.left, e.right], st), f)

    def mk_bin(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == "+" and type(x) is type(y) and isinstance(x, (int, float, str, bytes, tuple)):
                    return const(x + y)
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    if op == "+":
                        return const(x + y)
                    if op == "-":
                        return const(x - y)
                    if op == "*":
                        return const(x * y)
                    if op == "/" and y:
                        return const(x / y)
                    if op == "//" and y:
                        return const(x // y)
                    if op == "%" and y:
                        return const(x % y)
                    if op == "**" and abs(y) < 64:
                        return const(x ** y)
            except Exception:
                pass
        if op == "+":
            if a == ZERO:
                return b
            if b == ZERO:
                return a
            if is_const(a) and isinstance(cval(a), str) or is_const(b) and isinstance(cval(b), str) or a[0] == "fmt" or b[0] == "fmt":
                return self.mk_fmt([a, b])
            if a[0] in ("list",) and b[0] in ("list",) or a[0] == "tuple" and b[0] == "tuple":
                return (a[0], a[1] + b[1])
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            return self.pct_fmt(cval(a), b)
        if op in ("*",) and digest(b) < digest(a) and a[0] not in ("list", "comp"):
            a, b = b, a
        return ("bin", op, a, b)

    def pct_fmt(self, s, b):
        args = list(b[1]) if b[0] == "tuple" else [b]
        parts = []
        i = 0
        buf = ""
        while i < len(s):
            if s[i] == "%" and i + 1 < len(s):
                if s[i + 1] == "%":
                    buf += "%"
                    i += 2
                    continue
                j = i + 1
                while j < len(s) and s[j] in "0123456789.-+# ":
                    j += 1
                if buf:
                    parts.append(const(buf))
                    buf = ""
                parts.append(args.pop(0) if args else ("unk", "format", 0))
                i = j + 1
                continue
            buf += s[i]
            i += 1
        if buf:
            parts.append(const(buf))
        return self.mk_fmt(parts)

    def brace_fmt(self, s, args, kwargs):
        import string
        parts = []
        auto = 0
        kw = dict(kwargs)
        try:
            for lit, name, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if name is None:
                    continue
                if name == "":
                    parts.append(args[auto])
                    auto += 1
                elif name.isdigit():
                    parts.append(args[int(name)])
                else:
                    parts.append(kw.get(name, ("unk", "format " + name, 0)))
        except Exception:
            return ("fmt", (const(s),) + tuple(args))
        return self.mk_fmt(parts)

    def e_Compare(self, e, st):
        def f(s, vs):
            vs = [self.reify(s, v) for v in vs]
            parts = [self.mk_cmp(s, op, a, b) for op, a, b in zip(e.ops, vs, vs[1:])]
            if self.policy.hazards is not None:
                out = [(s, parts[0] if len(parts) == 1 else self.mk_bool("and", parts))]
                for op, a, b in zip(e.ops, vs, vs[1:]):
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn)):
                        kind = "in" if isinstance(op, (ast.In, ast.NotIn)) else "<"
                        out += self.risk(s, "cmp", I(("cmp", kind, a, b)), None, e)[1:]
                return out
            if len(parts) == 1:
                return [(s, parts[0])]
            return [(s, self.mk_bool("and", parts))]
        return self.then(self.eval_list([e.left] + list(e.comparators), st), f)

    def mk_cmp(self, st, op, a, b):
        if isinstance(op, ast.NotEq):
            return self.mk_not(self.mk_cmp(st, ast.Eq(), a, b))
        if isinstance(op, ast.IsNot):
            return self.mk_not(self.mk_cmp(st, ast.Is(), a, b))
        if isinstance(op, ast.NotIn):
            return self.mk_not(self.mk_cmp(st, ast.In(), a, b))
        if isinstance(op, ast.Gt):
            return self.mk_cmp(st, ast.Lt(), b, a)
        if isinstance(op, ast.LtE):
            return self.mk_not(self.mk_cmp(st, ast.Lt(), b, a))
        if isinstance(op, ast.GtE):
            return self.mk_not(self.mk_cmp(st, ast.Lt(), a, b))
        both = is_const(a) and is_const(b)
        if isinstance(op, ast.Lt):
            if both:
                try:
                    return const(cval(a) < cval(b))
                except TypeError:
                    pass
            ln = ("g", "builtins.len")
            if callee(b) == ln and a == ZERO:  # 0 < len(x)
                return self.truth(st, b)
            if callee(a) == ln and b == const(1):  # len(x) < 1
                return self.mk_not(self.truth(st, a))
            if a == ZERO and b[0] == "bin" and b[1] == "-":
                return self.mk_cmp(st, op, b[3], b[2])
            if b == ZERO and a[0] == "bin" and a[1] == "-":
                return self.mk_cmp(st, op, a[2], a[3])
            return ("cmp", "<", a, b)
        if isinstance(op, ast.Eq):
            if both:
                return const(cval(a) == cval(b))
            if is_const(a):
                a, b = b, a
            elif not is_const(b) and digest(b) < digest(a):
                a, b = b, a
            if callee(a) == ("g", "builtins.len") and b == ZERO:
                return self.mk_not(self.truth(st, a))
            if b[0] in ("list", "tuple", "set", "dict") and not b[1] and a[0] in ("comp", "call"):
                return self.mk_not(self.truth(st, a))
            if a == b and a[0] in ("p", "g", "cls", "fn", "self"):
                return TRUE
            return ("cmp", "==", a, b)
        if isinstance(op, ast.Is):
            if both:
                return const(cval(a) is cval(b) or (cval(a) == cval(b) and type(cval(a)) == type(cval(b))))
            if is_const(a):
                a, b = b, a
            if b == NONE and a[0] in ("new", "fn", "cls", "clo", "tuple", "list", "dict", "set", "comp", "fmt", "self", "partial", "coro", "bm"):
                return FALSE
            if a == b:
                return TRUE
            return ("cmp", "is", a, b)
        if isinstance(op, ast.In):
            if is_const(a) and b[0] in ("tuple", "list", "set") and all(is_const(x) for x in b[1]):
                return const(a in b[1])
            if is_const(a) and b[0] == "dict" and all(is_const(k) for k, v in b[1]):
                return const(any(a == k for k, v in b[1]))
            # membership in keys() is membership in the mapping
            if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]:
                b = b[1][1]
            if b[0] == "call" and b[1][0] == "g" and b[1][1] in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset") and len(b[2]) == 1:
                b = b[2][0]
            if b[0] in ("tuple", "list", "set") and len(b[1]) == 1:
                return self.mk_cmp(st, ast.Eq(), a, b[1][0])
            return ("cmp", "in", a, b)
        raise AnalysisBroken("comparison")

    # branching ------------------------------------------------------------------
    def branch(self, e, st):
        """Decide an expression in condition context: [(st, bool | Raise)]."""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            work = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for s in work:
                    for s1, b in self.branch(v, s):
                        if isinstance(b, Raise):
                            out.append((s1, b))
                        elif b == is_and:
                            nxt.append(s1)
                        else:
                            out.append((s1, b))
                work = nxt
            return out + [(s, is_and) for s in work]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.branch(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for s, b in self.branch(e.test, st):
                if isinstance(b, Raise):
                    out.append((s, b))
                else:
                    out.extend(self.branch(e.body if b else e.orelse, s))
            return out
        out = []
        for s, v in self.eval(e, st):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.branch_term(s, v, e))
        return out

    def branch_term(self, st, t, node):
        t = I(self.truth(st, t))
        k = t[0]
        if k == "cmp" and t[1] == "in" and t[3][0] in ("dict", "tuple", "list", "set") and t not in st.conds and not is_const(t[2]):
            keys = literal_keys(t[3])
            if keys:
                # one of a few constants
                t = ("or", tuple(I(("cmp", "==", t[2], x)) for x in keys)) if len(keys) > 1 else I(("cmp", "==", t[2], keys[0]))
                return self.branch_term(st, t, node)
        if k == "not":
            return [(s, not b) for s, b in self.branch_term(st, t[1], node)]
        if k in ("and", "or"):
            work = [st]
            out = []
            for x in t[1]:
                nxt = []
                for s in work:
                    for s1, b in self.branch_term(s, x, node):
                        if b == (k == "and"):
                            nxt.append(s1)
                        else:
                            out.append((s1, b))
                work = nxt
            return out + [(s, k == "and") for s in work]
        if k == "phi":
            out = []
            for conds, v in t[1]:
                s = st.fork()
                ok = True
                if conds and conds[0] == "dnf":
                    alts = conds[1]
                else:
                    alts = (conds,)
                for alt in alts:
                    s = st.fork()
                    ok = True
                    for a, b in alt:
                        d = self.decide(s, a)
                        if d is None:
                            s.conds[a] = b
                            self.emit(s, "guard", a, b, node=node)
                        elif d != b:
                            ok = False
                            break
                    if ok:
                        out.extend(self.branch_term(s, v, node))
            return out
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        st.conds[t] = True
        self.emit(st, "guard", t, True, node=node)
        s2.conds[t] = False
        self.emit(s2, "guard", t, False, node=node)
        return [(st, True), (s2, False)]

    def decide(self, st, t):
        s = self.static_truth(t)
        if s is not None:
            return s
        if t in st.conds:
            return st.conds[t]
        if t[0] == "cmp":
            op, a, b = t[1:]
            if op == "is" and b == NONE and st.conds.get(a) is True:
                return False
            if op == "==" and is_const(b):
                for o, v in st.conds.items():
                    if v and o[0] == "cmp" and o[1] == "==" and o[2] == a and is_const(o[3]) and cval(o[3]) != cval(b):
                        return False
            if op == "<" and st.conds.get(("cmp", "<", b, a)) is True:
                return False
            if op == "<" and st.conds.get(("cmp", "==", a, b)) is True:
                return False
        elif st.conds.get(("cmp", "is", t, NONE)) is True:
            return False
        if t[0] == "call" and t[1] == ("g", "builtins.isinstance") and len(t[2]) == 2:
            return self.decide_isinstance(t[2][0], t[2][1])
        if t[0] == "exists":
            # fewer conditions: known false for the more general
            for o, v in st.conds.items():
                if v is False and o[0] == "exists" and o[1] == t[1] and set(o[2]) <= set(t[2]):
                    return False
                if v is True and o[0] == "exists" and o[1] == t[1] and set(t[2]) <= set(o[2]):
                    return True
        return None

    def decide_isinstance(self, x, c):
        cs = c[1] if c[0] == "tuple" else (c,)
        if x[0] in ("new", "exc"):
            xt = x[1]
            if xt is None:
                return None
            vs = [self.p.is_subclass(xt, y[1]) if y[0] in ("cls", "g") else None for y in cs]
            if True in vs:
                return True
            if x[0] == "new" and all(v is False for v in vs):
                return False
        if x[0] == "c":
            names = [y[1] for y in cs if y[0] == "g"]
            if len(names) == len(cs) and all(n.startswith("builtins.") for n in names):
                return any(isinstance(x[2], getattr(builtins, n[9:])) for n in names)
            if x[2] is None:
                return False
        if x[0] in ("list", "tuple", "dict", "set", "fmt"):
            names = {y[1] for y in cs if y[0] == "g"}
            mine = {"fmt": "builtins.str"}.get(x[0], "builtins." + x[0])
            if mine in names:
                return True
        if x[0] == "comp" and x[1] in ("list", "dict", "set"):
            if ("g", "builtins." + x[1]) in cs:
                return True
        return None

    # subscripts, attributes --------------------------------------------------
    def e_Subscript(self, e, st):
        def f(s, vs):
            b, i = vs
            if b[0] == "obj":
                if i[0] != "slice":
                    for entry in reversed(s.heap.get(b, ())):
                        if entry[0] == "item" and len(entry) == 3:
                            if entry[1] == self.reify(s, i):
                                return [(s, entry[2])]
                            if is_const(entry[1]) and is_const(i):
                                continue
                        break
                b = self.reify(s, b)
            i = self.reify(s, i)
            if ("item", b, i) in s.heap:
                return [(s, s.heap[("item", b, i)])]
            t = self.mk_sub(b, i)
            if t[0] == "sub" and b[0] == "dict" and literal_keys(b):
                out, rest = self.choose(s, b, i, e)
                for s2 in rest:
                    self.emit(s2, "subfail", t, node=e)
                    out.append((s2, Raise(("exc", "builtins.KeyError", t))))
                return out
            if s.tries and t[0] == "sub" and not is_const(i) and s.conds.get(I(("cmp", "in", i, b))) is not True:
                s2 = s.fork()
                self.emit(s2, "subfail", t, node=e)
                return [(s, t), (s2, Raise(("exc", "builtins.LookupError", t)))]
            if t[0] == "sub":
                return self.risk(s, "sub", t, t, e)
            return [(s, t)]
        return self.then(self.eval_list([e.value, e.slice], st), f)

    def choose(self, st, d, i, node):
        """Look up in a dictionary with a few constant keys: [(state, value)], [states without a match]."""
        out, work = [], [st]
        for k, v in d[1]:
            nxt = []
            for s in work:
                for s1, b in self.branch_term(s, I(("cmp", "==", i, k)), node):
                    if b:
                        out.append((s1, v))
                    else:
                        nxt.append(s1)
            work = nxt
        return out, work

    def e_Slice(self, e, st):
        def part(x):
            return x if x is not None else ast.Constant(value=None)
        return self.then(self.eval_list([part(e.lower), part(e.upper), part(e.step)], st), lambda s, vs: [(s, ("slice",) + tuple(self.reify(s, v) for v in vs))])

    def mk_sub(self, b, i):
        if is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
            n = cval(i)
            if b[0] in ("tuple", "list") and not any(x[0] == "star" for x in b[1]) and -len(b[1]) <= n < len(b[1]):
                return b[1][n]
            if b[0] == "c" and isinstance(b[2], (tuple, str)) and -len(b[2]) <= n < len(b[2]):
                return const(b[2][n])
            if b[0] == "call" and b[1] == ("g", "builtins.divmod") and len(b[2]) == 2 and n in (0, 1):
                return self.mk_bin("//" if n == 0 else "%", b[2][0], b[2][1])
        if b[0] == "sub" and b[2][0] == "slice" and is_const(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool) and cval(i) >= 0:
            # row[a:b][n] is row[a + n]
            lo, hi, step = b[2][1:]
            if step in (NONE, const(1)) and (lo == NONE or is_const(lo) and cval(lo) >= 0) and (hi == NONE or is_const(hi) and cval(hi) > cval(i) + (cval(lo) or 0)):
                return self.mk_sub(b[1], const(cval(i) + (cval(lo) or 0)))
        if i[0] == "slice" and b[0] in ("tuple", "list") and all(is_const(x) for x in i[1:]) and not any(x[0] == "star" for x in b[1]):
            return (b[0], b[1][slice(*(cval(x) for x in i[1:]))])
        if i[0] == "idx":
            # the element at the current position
            r = self.iteration(self.no_state, b)
            if r[0] != "literal" and not r[1] and r[0] == (i[1],):
                return r[2]
        if b[0] == "dict" and is_const(i):
            for k, v in reversed(b[1]):
                if k == i:
                    return v
        if b[0] == "comp" and b[1] == "dict" and b[2][0] == "tuple" and len(b[2][1]) == 2 and norm(b[2][1][0]) == norm(i):
            return b[2][1][1]
        if b[0] == "phi" and is_const(i):
            alts = [(c, self.mk_sub(v, i)) for c, v in b[1]]
            if len({v for c, v in alts}) == 1:
                return alts[0][1]
            return ("phi", tuple(sorted(alts, key=digest)))
        return ("sub", b, i)

    def e_Attribute(self, e, st):
        def f(s, b):
            return self.get_attr(s, b, e.attr, e)
        return self.then(self.eval(e.value, st), f)

    def undecorated_names(self, func):
        """Attributes by which the only decorator of a function gives access to the undecorated function."""
        if len(func.decorators) != 1:
            return ()
        d = func.decorators[0]
        g = self.p.functions.get(self.p.resolve_expr(func.module, d) or "")
        if g is None or not g.node.args.posonlyargs + g.node.args.args:
            return ()
        first = (g.node.args.posonlyargs + g.node.args.args)[0].arg
        out = []
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == first:
                out += [t.attr for t in x.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)]
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for y in x.decorator_list:
                    if isinstance(y, ast.Call) and self.p.resolve_expr(g.module, y.func) == "functools.wraps" and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == first:
                        out.append("__wrapped__")
        return out

    def get_attr(self, st, b, name, node, for_call=False):
        one = lambda v: [(st, v)]
        key = ("attr", b, name)
        if key in st.heap:
            return one(st.heap[key])
        k = b[0]
        if k == "g":
            return one(self.resolve_global(self.p.canonical(b[1] + "." + name)))
        if k in ("bm", "fn"):
            func = self.p.functions.get(b[2] if k == "bm" else b[1])
            if func is not None and name in self.undecorated_names(func):
                return one(("rawfn", func.qual))
        if k == "failure":
            if name == "value":
                return one(b[1])
            if name == "type":
                return one(("call", ("g", "builtins.type"), (b[1],), (), 0))
        if k == "new":
            for n, v in b[2]:
                if n == name:
                    return one(v)
            v = self.set_by_init(b, name)
            if v is not None:
                return one(v)
        if k == "evolve":
            for n, v in b[2]:
                if n == name:
                    return one(v)
            return self.get_attr(st, b[1], name, node, for_call)
        if k == "cls" and b[1] in self.p.classes:
            c = self.p.classes[b[1]]
            m = self.p.find_method(c, name)
            if m is not None:
                if self.has_deco(m, "builtins.classmethod"):
                    return one(("bm", b, m.qual))
                return one(("fn", m.qual))
            if b[1] + "." + name in self.p.classes:
                return one(("cls", b[1] + "." + name))
            for kc in self.p.mro(c):
                if name in kc.class_vars:
                    return one(self.class_var(kc, name, key))
            return one(key)
        if k == "fn":
            return one(key)
        c = self.class_of(b, st)
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                if self.has_deco(m, "builtins.property") or self.has_deco(m, "functools.cached_property"):
                    if self.policy.inline(m) and not self.is_interface(c) and m.qual not in st.stack and len(st.stack) < self.policy.max_depth:
                        return self.call_raw(st, m, b, [], [], node)
                    return one(key)
                if self.has_deco(m, "builtins.staticmethod"):
                    return one(("fn", m.qual))
                if self.has_deco(m, "builtins.classmethod"):
                    return one(("bm", ("cls", c.qual), m.qual))
                return one(("bm", b, m.qual))
            for kc in self.p.mro(c):
                if name in kc.class_vars and self.p.find_field(c, name)[0] is None:
                    return one(self.class_var(kc, name, key))
        return one(key)

    def set_by_init(self, new, name):
        """The argument which a constructor keeps, as it is, in an attribute."""
        c = self.p.classes.get(new[1])
        init = self.p.find_method(c, "__init__") if c is not None else None
        if init is None or not any(n.startswith("arg:") for n, v in new[2]):
            return None
        found = self.kept_by(c, init, name, {}, 0)
        return dict(new[2]).get("arg:" + found) if found else None

    def kept_by(self, c, f, name, args, depth):
        """
        The parameter of a constructor whose value it keeps, as it is, in an
        attribute; None if it does not set it, False if it is anything else.
        """
        params = [a.arg for a in f.node.args.args]
        me = params[0] if params else None
        if depth:
            me = next((k for k, v in args.items() if v is True), None)
        where = dict(args) if depth else {p: p for p in params[1:] + [a.arg for a in f.node.args.kwonlyargs]}
        found = None
        nested = {}
        value = lambda e: where.get(e.id, False) if isinstance(e, ast.Name) else False
        for s in f.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nested[s.name] = s
                continue
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else None
            call = s.value if isinstance(s, (ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) else None
            if ts is not None:
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == name:
                        if not (isinstance(t.value, ast.Name) and t.value.id == me):
                            return False
                        found = value(s.value)
                    elif isinstance(t, ast.Name):
                        where[t.id] = value(s.value)
                    else:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                where[n.id] = False
                            elif isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                                return False
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    where[n.id] = False
            if call is None:
                continue
            if isinstance(call.func, ast.Name) and call.func.id in nested and not call.args and not call.keywords and depth < 3:
                n = nested.pop(call.func.id)
                r = self.kept_by(c, types.SimpleNamespace(node=n, module=f.module), name, {**where, me: True}, depth + 1)
                if r is not None:
                    found = r
                continue
            if not any(isinstance(n, ast.Name) and n.id == me for n in ast.walk(call)):
                continue
            g, given = None, list(call.args)
            if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == me:
                g = self.p.find_method(c, call.func.attr)
                given = [call.func.value] + given
            elif isinstance(call.func, ast.Name):
                g = self.p.functions.get(f.module.name + "." + call.func.id)
            if g is None or depth > 3 or any(isinstance(a, ast.Starred) for a in given):
                continue
            names = [a.arg for a in g.node.args.args]
            if isinstance(call.func, ast.Attribute) and (g.node.decorator_list):
                return False
            passed = dict(zip(names, given))
            passed.update({k.arg: k.value for k in call.keywords if k.arg})
            inner = {k: True if isinstance(v, ast.Name) and v.id == me else value(v) for k, v in passed.items()}
            r = self.kept_by(c, g, name, inner, depth + 1)
            if r is not None:
                found = r
        for n in nested.values():
            if any(isinstance(x, ast.Attribute) and x.attr == name and not isinstance(x.ctx, ast.Load) for x in ast.walk(n)):
                return False
        return found

    def class_var(self, c, name, default):
        dotted = c.qual + "." + name
        if dotted in self.globals_cache:
            v = self.globals_cache[dotted]
            return v if v is not None else default
        self.globals_cache[dotted] = None
        st = new_state()
        st.mods = (c.module,)
        st.fid = "cls:" + c.qual
        st.frames[st.fid] = {}
        v = None
        try:
            rs = self.eval(c.class_vars[name], st)
            if len(rs) == 1 and not isinstance(rs[0][1], Raise):
                x = self.reify(rs[0][0], rs[0][1])
                if self.simple_value(x):
                    v = x
        except AnalysisBroken:
            pass
        self.globals_cache[dotted] = v
        return v if v is not None else default

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, st, kind, elts):
        marker0 = st.trace

        def go(i, s, gens, conds, at=()):
            """-> list of (state, value, generators, conditions, positions in literals) plus raises."""
            if i == len(e.generators):
                res = []
                for s2, vs in self.eval_list(elts, s):
                    if isinstance(vs, Raise):
                        res.append((s2, vs, gens, conds, at))
                    else:
                        vs = tuple(self.reify(s2, v) for v in vs)
                        res.append((s2, vs[0] if len(vs) == 1 else ("tuple", vs), gens, conds, at))
                return res
            g = e.generators[i]
            res = []
            for s1, it in self.iterables(self.eval(g.iter, s), e):
                if isinstance(it, Raise):
                    res.append((s1, it, gens, conds, at))
                    continue
                it = self.as_iterable(s1, it, e)
                r = self.iteration(s1, it)
                if r[0] == "literal":
                    alts = [((), (), item) for item in r[1]]
                else:
                    alts = [r]
                for pos, (gg, cc, item) in enumerate(alts):
                    s2 = s1.fork()
                    s2.levels = s2.levels + tuple(gg)
                    for s3, o in self.assign(g.target, item, s2):
                        states = [s3]
                        for cnd in g.ifs:
                            nxt = []
                            for s4 in states:
                                for s5, b in self.branch(cnd, s4):
                                    if isinstance(b, Raise):
                                        res.append((s5, b, gens + tuple(gg), conds, at + (pos,)))
                                    elif b:
                                        nxt.append(s5)
                            states = nxt
                        for s4 in states:
                            res.extend(go(i + 1, s4, gens + tuple(gg), conj(conds, cc), at + (pos,)))
            return res

        frame = dict(st.frames[st.fid])
        s0 = st.fork()
        results = go(0, s0, (), ())
        out = []
        entries = {}
        order = []
        subs = []
        for s, v, gens, conds, at in results:
            evs = events_since(s.trace, marker0)
            if isinstance(v, Raise):
                s.levels = st.levels
                s.frames[s.fid] = dict(frame)
                out.append((s, v))
                continue
            g = self.guards(evs)
            key = (v, gens, at if kind != "set" else ())
            if key not in entries:
                order.append(key)
            entries.setdefault(key, []).append(conj(conds, g))
            subs.append((gens, Sub(evs, "next")))
        m = st
        if order and any(gens for gens, sub in subs):
            g0 = next(gens for gens, sub in subs if gens)
            self.emit(m, "loop", g0, None, (), node=e)
            m.trace[1].b = tuple(sub for gens, sub in subs)
        if any(self.has_await(x) for gens, sub in subs for x in sub.events):
            self.suspend(m)
        # heap effects of inlined calls inside are ignored
        if not order:
            term = ("list", ()) if kind in ("list", "gen") else (kind, ())
        elif all(not key[1] for key in order):
            # only literals
            term = (kind if kind != "gen" else "list", tuple(key[0] for key in order))
            whens = [simplify_dnf(entries[key]) for key in order]
            if any(whens) and kind != "dict":
                term = ("seq", kind, tuple(("each", key[0], (), w) if w else ("item", key[0]) for key, w in zip(order, whens)))
            if kind == "dict":
                term = ("dict", tuple((self.mk_sub(key[0], const(0)), self.mk_sub(key[0], const(1))) for key in order))
        elif len(order) == 1:
            (v, gens, at), = order
            term = ("comp", kind, v, gens, simplify_dnf(entries[order[0]]))
        elif len({k[1:] for k in order}) == 1:
            gens = order[0][1]
            alls = simplify_dnf([c for k in order for c in entries[k]])
            elt = ("phi", tuple(sorted(((simplify_dnf(entries[k]), k[0]) for k in order), key=digest)))
            term = ("comp", kind, elt, gens, alls)
        else:
            term = ("seq", kind, tuple(("each", k[0], k[1], simplify_dnf(entries[k])) for k in order))
        out.append((m, term))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", [e.elt])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", [e.key, e.value])

    # ---------------------------------------------------------------- objects
    def obj_add(self, st, o, entry):
        st.heap[o] = st.heap.get(o, ()) + (entry,)

    def obj_extend(self, st, o, v):
        v = self.reify(st, v)
        if v[0] in ("list", "tuple", "set") and o[1] != "dict":
            for x in v[1]:
                self.obj_add(st, o, ("ext", x[1]) if x[0] == "star" else ("item", x))
        elif v[0] == "dict" and o[1] == "dict":
            for a, b in v[1]:
                self.obj_add(st, o, ("item", a, b))
        elif v[0] == "comp" and not (v[1] == "set" and o[1] != "set"):
            self.obj_add(st, o, ("each", v[2], v[3], v[4]))
        elif v[0] == "seq":
            for x in v[2]:
                self.obj_add(st, o, x)
        else:
            self.obj_add(st, o, ("ext", v))

    def reify(self, st, t, _seen=()):
        if not isinstance(t, tuple):
            return t
        t = I(t)
        if not t._o:
            return t
        if t[0] == "obj" and len(t) == 3:
            if t in _seen:
                return I(("unk", "cycle", 0))
            seen = _seen + (t,)
            kind = t[1]
            entries = tuple(tuple(self.reify(st, x, seen) if isinstance(x, tuple) else x for x in e) for e in st.heap.get(t, ()))
            return I(self.canon(kind, entries))
        return I(tuple(self.reify(st, x, _seen) if isinstance(x, tuple) else x for x in t))

    def canon(self, kind, entries):
        if all(e[0] == "item" for e in entries):
            if kind == "dict":
                d = {}
                for e in entries:
                    d.pop(e[1], None)
                    d[e[1]] = e[2]
                return ("dict", tuple(d.items()))
            return ("list" if kind == "gen" else kind, tuple(e[1] for e in entries))
        if len(entries) == 1:
            e = entries[0]
            if e[0] == "each":
                return ("comp", kind, e[1], e[2], e[3])
            if e[0] == "ext":
                if kind == "list" or kind == "set":
                    return self.mk_conv(kind, e[1])
                return e[1]
            if e[0] == "unk":
                return e
        if kind == "dict":
            merged = self.dict_override(entries)
            if merged is not None:
                return merged
        if 2 <= len(entries) <= 8 and all(e[0] == "each" and e[2] == entries[0][2] for e in entries) and all(
                exclusive(a[3], b[3]) for i, a in enumerate(entries) for b in entries[:i]):
            return ("comp", kind, ("phi", tuple(sorted(((e[3], e[1]) for e in entries), key=digest))), entries[0][2],
                    simplify_dnf([c for e in entries for c in (e[3][1] if e[3] and e[3][0] == "dnf" else (e[3],))]))
        return ("seq", kind, tuple(entries))

    def dict_override(self, entries):
        """
        Several rounds of assigning to the same keys: the last one wins.
        """
        cur = None
        for e in entries:
            if e[0] == "ext":
                x = e[1]
                if x[0] == "comp" and isinstance(x[2], tuple) and x[2][0] == "tuple":
                    e = ("each", x[2], x[3], x[4])
            if e[0] == "each" and e[1][0] == "phi":
                k = self.mk_sub(e[1], const(0))
                if k[0] != "phi":
                    e = ("each", ("tuple", (k, self.mk_sub(e[1], const(1)))), e[2], e[3])
            if e[0] != "each" or e[1][0] != "tuple" or len(e[1][1]) != 2:
                return None
            (k, v), gens, conds = e[1][1], e[2], e[3]
            if cur is None:
                cur = (k, v, gens, conds)
                continue
            k0, v0, gens0, conds0 = cur
            if k != k0 or gens != gens0 or (conds and conds[0] == "dnf") or (conds0 and conds0[0] == "dnf"):
                return None
            if not set(conds0) <= set(conds):
                if not set(conds) <= set(conds0) and not any((a, not b) in conds for a, b in conds0):
                    return None
                if set(conds) <= set(conds0):
                    cur = (k, v, gens, conds)
                    continue
                # disjoint alternatives
                alts = [(conds0, v0), (conds, v)]
                cur = (k, ("phi", tuple(sorted(alts, key=digest))), gens, simplify_dnf([conds0, conds]))
                continue
            extra = tuple(x for x in conds if x not in conds0)
            if not extra:
                cur = (k, v, gens, conds0)
                continue
            rest = simplify_dnf([((a, not b),) for a, b in extra])
            alts = [(conj(extra), v), (rest, v0)]
            if v == v0:
                continue
            cur = (k, ("phi", tuple(sorted(alts, key=digest))), gens, conds0)
        if cur is None:
            return None
        return ("comp", "dict", ("tuple", (cur[0], cur[1])), cur[2], cur[3])

    def mk_conv(self, kind, v):
        """list(v), set(v), ..."""
        if v[0] == "comp":
            if kind == "list" and v[1] in ("set", "dict"):
                if v[1] == "dict":
                    return ("comp", "list", self.mk_sub(v[2], const(0)), v[3], v[4])
                return ("call", ("g", "builtins.list"), (v,), (), 0)
            if kind == "dict" and v[1] == "dict":
                return v
            if v[1] == "dict" and kind == "set":
                return ("comp", "set", self.mk_sub(v[2], const(0)), v[3], v[4])
            return ("comp", kind, v[2], v[3], v[4])
        if v[0] in ("list", "tuple", "set") and kind != "dict":
            return ("list" if kind == "list" else kind, v[1])
        if v[0] == "dict" and kind == "dict":
            return v
        if v[0] in ("list", "tuple") and kind == "dict" and all(x[0] == "tuple" and len(x[1]) == 2 for x in v[1]):
            return ("dict", tuple((x[1][0], x[1][1]) for x in v[1]))
        if v[0] == "seq":
            return ("seq", kind, v[2])
        if v[0] == "call" and v[1] == ("g", "builtins." + kind):
            return v
        if v[0] == "call" and v[1][0] == "g" and v[1][1] in ("builtins.list", "builtins.tuple") and len(v[2]) == 1:
            return self.mk_conv(kind, v[2][0])
        return ("call", ("g", "builtins." + kind), (v,), (), 0)

    def obj_method(self, st, o, name, args, kwargs, node):
        kind = o[1]
        if kind in ("list", "set"):
            if name in ("append", "add") and len(args) == 1:
                self.obj_add(st, o, ("item", args[0]))
                return [(st, NONE)]
            if name in ("extend", "update") and len(args) == 1:
                self.obj_extend(st, o, args[0])
                return [(st, NONE)]
            if name == "clear":
                st.heap[o] = ()
                return [(st, NONE)]
            if name == "copy":
                return [(st, self.new_obj(st, kind, st.heap.get(o, ())))]
            if name == "sort" and not args:
                v = self.reify(st, o)
                st.heap[o] = (("ext", ("call", ("g", "builtins.sorted"), (v,), tuple((k, self.reify(st, x)) for k, x in kwargs), 0)),)
                return [(st, NONE)]
            if name in ("pop", "remove", "insert", "discard", "reverse"):
                before = self.reify(st, o)
                u = self.fresh()
                if name == "pop":
                    ent = st.heap.get(o, ())
                    if ent and all(x[0] == "item" for x in ent) and (not args or is_const(args[0]) and args[0] in (ZERO, const(-1))):
                        i = 0 if args and args[0] == ZERO else -1
                        v = ent[i][1]
                        st.heap[o] = ent[1:] if i == 0 else ent[:-1]
                        return [(st, v)]
                    st.heap[o] = (("ext", ("unk", "rest of " + show(before), u)),)
                    r = ("popped", before)
                    return [(st, r)]
                st.heap[o] = (("ext", ("unk", name, u)),)
                return [(st, NONE)]
        if kind == "dict":
            if name == "update" and (len(args) == 1 or kwargs):
                if args:
                    self.obj_extend(st, o, args[0])
                for k, v in kwargs:
                    self.obj_add(st, o, ("item", const(k), v))
                return [(st, NONE)]
            if name == "copy":
                return [(st, self.new_obj(st, kind, st.heap.get(o, ())))]
            if name == "clear":
                st.heap[o] = ()
                return [(st, NONE)]
            if name == "setdefault" and args:
                for en in st.heap.get(o, ()):
                    if en[0] == "item" and en[1] == self.reify(st, args[0]):
                        return [(st, en[2])]
                v = args[1] if len(args) > 1 else NONE
                self.obj_add(st, o, ("item", self.reify(st, args[0]), v))
                return [(st, v)]
            if name == "get" and args and is_const(args[0]):
                for en in reversed(st.heap.get(o, ())):
                    if en[0] == "item" and en[1] == args[0]:
                        return [(st, en[2])]
                    if not (en[0] == "item" and is_const(en[1])):
                        break
                else:
                    return [(st, args[1] if len(args) > 1 else NONE)]
            if name == "pop" and args:
                k = self.reify(st, args[0])
                ens = st.heap.get(o, ())
                if is_const(k) and all(en[0] == "item" and is_const(en[1]) for en in ens):
                    for en in reversed(ens):
                        if en[1] == k:
                            st.heap[o] = tuple(x for x in ens if x[1] != k)
                            return [(st, en[2])]
                    if len(args) > 1:
                        return [(st, args[1])]
                    return [(st, Raise(("exc", "builtins.KeyError", k)))]
            if name in ("pop", "popitem"):
                before = self.reify(st, o)
                st.heap[o] = (("ext", ("unk", "popped", self.fresh())),)
                return [(st, ("sub", before, self.reify(st, args[0])) if args else ("popped", before))]
        b = self.reify(st, o)
        return self.method_call(st, b, name, args, kwargs, node)

    # ------------------------------------------------------------------ calls
    def eval_args(self, e, st):
        """-> [(st, (args, kwargs) | Raise)]"""
        out = []
        for s, vs in self.eval_list(e.args, st):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            work = [(s, ())]
            for kw in e.keywords:
                nxt = []
                for s1, acc in work:
                    if isinstance(acc, Raise):
                        nxt.append((s1, acc))
                        continue
                    for s2, v in self.eval(kw.value, s1):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                        elif kw.arg is None:
                            rv = self.reify(s2, v)
                            if rv[0] == "dict" and all(is_const(k) for k, _ in rv[1]):
                                nxt.append((s2, acc + tuple((cval(k), x) for k, x in rv[1])))
                            else:
                                nxt.append((s2, acc + ((None, rv),)))
                        else:
                            nxt.append((s2, acc + ((kw.arg, v),)))
                work = nxt
            out.extend((s1, acc if isinstance(acc, Raise) else (list(vs), list(acc))) for s1, acc in work)
        return out

    def e_Call(self, e, st, awaited=False):
        def with_f(s, f):
            def with_args(s2, av):
                return self.call(s2, f, av[0], av[1], e, awaited)
            return self.then(self.eval_args(e, s), with_args)
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                env = st.frames.get(st.fid, {})
                c = env.get("__cls__")
                if c is not None:
                    for k in self.p.mro(c)[1:]:
                        if e.func.attr in k.methods:
                            f = ("bm", self.lookup(st, "self"), k.methods[e.func.attr].qual)
                            return with_f(st, f)
                return with_f(st, ("attr", ("g", "builtins.super"), e.func.attr))
            def with_base(s, b):
                if b[0] == "obj":
                    return self.then(self.eval_args(e, s), lambda s2, av: self.obj_method(s2, b, e.func.attr, av[0], av[1], e))
                return self.then(self.get_attr(s, b, e.func.attr, e, for_call=True), with_f)
            return self.then(self.eval(e.func.value, st), with_base)
        return self.then(self.eval(e.func, st), with_f)

    def call(self, st, f, args, kwargs, node, awaited=False):
        k = f[0]
        if k == "partial":
            return self.call(st, f[1], list(f[2]) + list(args), [x for x in f[3] if x[0] not in dict(kwargs)] + list(kwargs), node, awaited)
        if k == "fn":
            func = self.p.functions[f[1]]
            if func.cls is not None and not self.has_deco(func, "builtins.staticmethod") and args and func.parent is None:
                return self.call_func(st, func, args[0], args[1:], kwargs, node, f=f, awaited=awaited)
            return self.call_func(st, func, None, args, kwargs, node, f=f, awaited=awaited)
        if k == "rawfn":
            func = self.p.functions[f[1]]
            if func.cls is not None and args:
                return self.call_raw(st, func, args[0], args[1:], kwargs, node)
            return self.call_raw(st, func, None, args, kwargs, node)
        if k == "bm":
            func = self.p.functions[f[2]]
            return self.call_func(st, func, f[1], args, kwargs, node, f=("attr", f[1], func.name), awaited=awaited)
        if k == "clo":
            return self.call_closure(st, f, args, kwargs, node, awaited)
        if k == "cls":
            return self.construct(st, f, args, kwargs, node)
        if k == "g":
            return self.call_global(st, f, args, kwargs, node, awaited)
        if k == "attr":
            return self.method_call(st, f[1], f[2], args, kwargs, node, awaited)
        if k == "phi":
            out = []
            for conds, v in f[1]:
                s = st.fork()
                for a, b in (conds if not conds or conds[0] != "dnf" else ()):
                    self.emit(s, "guard", a, b, node=node)
                    s.conds[a] = b
                out.extend(self.call(s, v, list(args), list(kwargs), node, awaited))
            return out
        return self.opaque_call(st, f, args, kwargs, node, None, awaited)

    def risk(self, st, op, term, value, node):
        """The value, and a failure for every exception the operation is said to raise."""
        out = [(st, value)]
        if self.policy.hazards is not None and not ("hz", op, norm(term)) in st.heap:
            classes = self.policy.hazards(self, st, op, term) or ()
            for c in classes:
                s2 = st.fork()
                exc = ("exc", c, I(term))
                self.emit(s2, "raised", I(term), exc, node=node)
                out.append((s2, Raise(exc)))
            if classes:
                # what worked once works again
                st.heap[("hz", op, norm(term))] = True
        return out

    def iterables(self, states, node):
        if self.policy.hazards is None:
            return states
        return [y for s, v in states for y in ([(s, v)] if isinstance(v, Raise) else self.risk(s, "iter", I(("iter", self.reify(s, v))), v, node))]

    def opaque_call(self, st, f, args, kwargs, node, target, awaited=False, pure=False, raises=True):
        f = self.reify(st, f)
        a = tuple(self.reify(st, x) for x in args)
        kw = tuple(sorted(((n or "**", self.reify(st, x)) for n, x in kwargs), key=lambda p: p[0]))
        a, kw = self.canon_args(target, a, kw)
        if self.policy.rewrite is not None:
            v = self.policy.rewrite(self, st, ("call", f, a, kw, 0))
            if v is not None:
                return [(st, v)]
        term = ("call", f, a, kw, 0 if pure else self.fresh())
        self.emit(st, "call", term, node=node, target=target)
        if target is not None:
            self.opaque.add(target.qual)
        if self.policy.hazards is not None and self.policy.hazards(self, st, "call", term) is not None:
            return self.risk(st, "call", term, term, node)
        if pure or not raises:
            return [(st, term)]
        if awaited:
            return [(st, term)]
        if self.can_raise(st, term, target):
            s2 = st.fork()
            exc = ("exc", None, term)
            self.emit(s2, "raised", term, exc, node=node)
            return [(st, term), (s2, Raise(exc))]
        return [(st, term)]

    def canon_args(self, target, a, kw):
        """Keyword arguments of known functions become positional, in order."""
        if target is None or not kw or any(x[0] == "star" for x in a) or any(n == "**" for n, v in kw):
            return a, kw
        p = target.node.args
        names = [x.arg for x in p.posonlyargs + p.args]
        if target.cls is not None and not self.has_deco(target, "builtins.staticmethod") and not self.is_interface(target.cls):
            names = names[1:]
        d = dict(kw)
        a = list(a)
        while len(a) < len(names) and names[len(a)] in d:
            a.append(d.pop(names[len(a)]))
        return tuple(a), tuple(sorted(d.items()))

    def can_raise(self, st, term, target):
        if not (st.tries or self.policy.raise_all):
            return False
        n = fname(term[1])
        if n in NONRAISING_NAMES or n in self.policy.nonraising:
            return False
        f = term[1]
        if f[0] == "g" and (f[1].startswith("eliot.") or f[1].startswith("logging.")):
            return False
        if f[0] == "attr" and f[1][0] == "g" and f[1][1].startswith("_zkapauthorizer.eliot."):
            return False
        if f[0] == "cls":
            return False
        if f[0] == "g" and f[1].startswith("_zkapauthorizer.eliot."):
            return False
        if f[0] == "g":
            c = library_class(f[1])
            if c is not None and issubclass(c, BaseException):
                return False
        return True

    def construct(self, st, f, args, kwargs, node):
        c = self.p.classes[f[1]]
        init = self.p.find_method(c, "__init__")
        args = [x for x in args]
        fields = []
        if any((self.p.classes.get(k.qual).attrs_like) for k in self.p.mro(c)) and init is None:
            fs = [x for x in self.p.all_fields(c) if x.init]
            pos = [x for x in fs if not x.kw_only]
            given = {}
            if sum(v[0] == "star" for v in args) == 1:
                i = next(i for i, v in enumerate(args) if v[0] == "star")
                n = len([x for x in pos if x.default is None]) - (len(args) - 1)
                args = args[:i] + [("sub", args[i][1], const(j)) for j in range(max(0, n))] + args[i + 1:]
            for x, v in zip(pos, args):
                given[x.name] = v
            byinit = {x.init_name: x for x in fs}
            for n, v in kwargs:
                if n in byinit:
                    given[byinit[n].name] = v
            for x in self.p.all_fields(c):
                if x.name in given:
                    fields.append((x.name, given[x.name]))
                else:
                    d = self.default_value(c, x)
                    if d is not None:
                        fields.append((x.name, d))
        elif init is not None:
            names = [a.arg for a in init.node.args.args][1:]
            given = dict(zip(names, args))
            given.update({n: v for n, v in kwargs if n})
            fields = sorted(given.items())
            fields = [("arg:" + n, v) for n, v in fields]
        else:
            fields = [("args", ("tuple", tuple(args)))] + [(n or "**", v) for n, v in kwargs] if args or kwargs else []
        fields = tuple((n, self.reify(st, v) if v[0] != "obj" else v) for n, v in fields)
        term = ("new", f[1], fields, self.fresh())
        call = ("call", f, tuple(args), tuple(sorted((n or "**", v) for n, v in kwargs)), term[3])
        self.emit(st, "call", call, term, node=node, target=c)
        return [(st, term)]

    def default_value(self, c, fld):
        d = fld.default
        if d is None:
            return None
        if isinstance(d, tuple):
            return None
        st = new_state()
        st.mods = (c.module,)
        st.fid = "cls:" + c.qual
        st.frames[st.fid] = {}
        try:
            rs = self.eval(d, st)
        except AnalysisBroken:
            return None
        if len(rs) == 1 and not isinstance(rs[0][1], Raise):
            v = self.reify(rs[0][0], rs[0][1])
            if self.simple_value(v):
                return v
        return None

    def call_func(self, st, func, selfterm, args, kwargs, node, f=None, awaited=False, root=False):
        if f is None:
            f = ("fn", func.qual)
        if func.cls is not None and self.is_interface(func.cls):
            return self.opaque_call(st, f, args, kwargs, node, func, awaited)
        if not root and (not self.policy.inline(func) or func.qual in st.stack or len(st.stack) >= self.policy.max_depth):
            return self.opaque_call(st, f, args, kwargs, node, func, awaited)
        deco = []
        for d in func.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            dotted = self.p.resolve_expr(func.module, t)
            if dotted in TRANSPARENT or (isinstance(t, ast.Attribute) and t.attr in ("default", "validator", "setter")):
                continue
            deco.append(d)
        if not deco:
            return self.call_raw(st, func, selfterm, args, kwargs, node)
        # apply the decorators of the repository by interpretation
        v = ("rawfn", func.qual)
        results = [(st, v)]
        for d in reversed(deco):
            nxt = []
            for s, x in results:
                if isinstance(x, Raise):
                    nxt.append((s, x))
                    continue
                saved = (s.fid, s.mods)
                s.mods = s.mods + (func.module,)
                s.fid = None
                dvs = self.eval(d, s)
                for s2, dv in dvs:
                    s2.fid, s2.mods = saved
                    if isinstance(dv, Raise):
                        nxt.append((s2, dv))
                    elif dv[0] == "g" or dv[0] == "call":
                        # decorator of a library: opaque function value
                        nxt.append((s2, x))
                    else:
                        nxt.extend(self.call(s2, dv, [x], [], node))
            results = nxt
        full = ([selfterm] if selfterm is not None else []) + list(args)
        return self.then(results, lambda s, g: self.call(s, g, full, kwargs, node, awaited))

    def bind(self, st, func_or_node, selfterm, args, kwargs, module=None, fn_args=None):
        if isinstance(func_or_node, Func):
            a = func_or_node.node.args
            module = func_or_node.module
        else:
            a = func_or_node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if selfterm is not None:
            pos = [selfterm] + pos
        if any(x[0] == "star" for x in pos):
            i = next(i for i, x in enumerate(pos) if x[0] == "star")
            star = pos[i][1]
            pos = pos[:i] + [("sub", star, const(j)) for j in range(max(0, len(names) - i))] if not a.vararg else pos
        rest = []
        for i, v in enumerate(pos):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        kwrest = []
        allnames = names + [x.arg for x in a.kwonlyargs]
        for n, v in kwargs:
            if n in allnames and n not in env:
                env[n] = v
            else:
                kwrest.append((n, v))
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(rest))
            if len(rest) == 1 and rest[0][0] == "star":
                env[a.vararg.arg] = rest[0][1]
        if a.kwarg:
            if len(kwrest) == 1 and kwrest[0][0] is None:
                env[a.kwarg.arg] = kwrest[0][1]
            else:
                env[a.kwarg.arg] = ("dict", tuple((const(n), v) for n, v in kwrest))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in allnames:
            if n not in env:
                if n in defaults:
                    s = new_state()
                    s.mods = (module,)
                    s.fid = "def"
                    s.frames[s.fid] = {}
                    rs = self.eval(defaults[n], s)
                    env[n] = self.reify(rs[0][0], rs[0][1]) if len(rs) == 1 and not isinstance(rs[0][1], Raise) else ("unk", "default " + n, 0)
                else:
                    env[n] = ("unk", "missing argument " + n, 0)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if x.annotation is not None and v is not None and v[0] not in ("c", "obj", "self", "new", "cls", "fn", "clo", "tuple", "list", "dict", "unk"):
                if self.type_of(v) is None:
                    t = self.ann_type(module, x.annotation)
                    if t is not None and t[0] != "X":
                        self.term_types.setdefault(v, t)
        return env

    def call_raw(self, st, func, selfterm, args, kwargs, node, root=False):
        """Run the undecorated body of a repository function."""
        if not root:
            self.inlined.add(func.qual)
        if func.is_async and not root:
            return [(st, ("coro", ("rawfn", func.qual), ((selfterm,) if selfterm is not None else ()) + tuple(args), tuple(kwargs), self.fresh()))]
        env = self.bind(st, func, selfterm, args, kwargs)
        env["__func__"] = func
        env["__cls__"] = func.cls
        is_gen = func.own_yields() and not self.is_inline_cb(func) and not root and not self.has_deco(func, "contextlib.contextmanager")
        return self.run_body(st, func.node.body, env, func.qual, func.module, None, is_gen, self.is_inline_cb(func) and not root, node)

    def call_closure(self, st, f, args, kwargs, node, awaited=False):
        n, module, fid, chain, cls, func = self.closures[f[1]]
        qual = (func.qual if func is not None else module.name) + ".<" + getattr(n, "name", "lambda") + "#%d>" % n.lineno
        if qual in st.stack and st.stack.count(qual) > 1 or len(st.stack) > self.policy.max_depth + 6:
            return self.opaque_call(st, f, args, kwargs, node, None, awaited)
        if isinstance(n, ast.AsyncFunctionDef) and not getattr(self, "_running_coro", False):
            return [(st, ("coro", f, tuple(args), tuple(kwargs), self.fresh()))]
        env = self.bind(st, n, None, args, kwargs, module=module)
        env["__parent__"] = fid
        env["__snap__"] = chain
        env["__func__"] = func
        env["__cls__"] = cls
        if isinstance(n, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=n.body), n.body)]
            gen = icb = False
        else:
            body = n.body
            icb = any(self.p.resolve_expr(module, d.func if isinstance(d, ast.Call) else d) in INLINE_CB for d in n.decorator_list)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(n)) and not icb
        env["__icb__"] = icb
        return self.run_body(st, body, env, qual, module, None, gen, icb, node)

    def run_body(self, st, body, env, qual, module, parent, is_gen, icb, node):
        saved = (st.fid, st.stack, st.mods, st.levels, st.excs, st.tries)
        fid = self.fresh()
        st.frames[fid] = env
        st.fid = fid
        st.stack = st.stack + (qual,)
        st.mods = st.mods + (module,)
        st.excs = ()
        acc = None
        if icb:
            st.tries += 1
        if is_gen:
            acc = self.new_obj(st, "gen")
            env["__acc__"] = acc
        if is_gen:
            env["__acc__"] = acc
        out = []
        for s, o in self.exec_block(body, st):
            s.fid, s.stack, s.mods, s.levels, s.excs, s.tries = saved
            if fid not in self.closure_fids:
                s.frames.pop(fid, None)
            if o[0] == "ret":
                v = o[1]
            elif o[0] == "next":
                v = NONE
            elif o[0] == "raise":
                v = Raise(o[1])
            elif o[0] == "loopback":
                v = Raise(("loopback",))
            else:
                raise AnalysisBroken("break outside loop in %s" % qual)
            if is_gen and not isinstance(v, Raise):
                v = self.reify(s, acc)
            if icb:
                if isinstance(v, Raise) and v.exc == ("loopback",):
                    out.append((s, v))
                    continue
                d = ("dfr", self.fresh())
                s.heap[("dfr", d)] = ("fail", v.exc) if isinstance(v, Raise) else ("ok", v)
                v = d
            out.append((s, v))
        if is_gen:
            # the ways a generator can end are alternatives of its contents
            out = self.merge_gen(out)
        return out

    def merge_gen(self, out):
        return out

    def as_iterable(self, st, it, node):
        return it

    # awaiting ---------------------------------------------------------------
    def suspend(self, st):
        """Other code may run: forget what was known about mutable state."""
        for a in [a for a in st.conds if any(x[0] in ("attr", "sub") or (x[0] == "cmp" and x[1] == "in") for x in walk(a))]:
            del st.conds[a]

    def e_Await(self, e, st):
        if isinstance(e.value, ast.Call):
            res = self.e_Call(e.value, st, awaited=True)
        else:
            res = self.eval(e.value, st)
        return self.then(res, lambda s, v: self.do_await(s, v, e))

    def do_await(self, st, v, node):
        if v[0] == "coro":
            full = [x for x in v[2]]
            if v[1][0] == "rawfn":
                func = self.p.functions[v[1][1]]
                selfterm = None
                if func.cls is not None and not self.has_deco(func, "builtins.staticmethod"):
                    selfterm, full = full[0], full[1:]
                env = self.bind(st, func, selfterm, full, list(v[3]))
                env["__func__"] = func
                env["__cls__"] = func.cls
                return self.run_body(st, func.node.body, env, func.qual, func.module, None, False, False, node)
            n, module, fid, chain, cls, func = self.closures[v[1][1]]
            env = self.bind(st, n, None, full, list(v[3]), module=module)
            env["__parent__"] = fid
            env["__snap__"] = chain
            env["__func__"] = func
            env["__cls__"] = cls
            qual = (func.qual if func is not None else module.name) + ".<" + n.name + "#%d>" % n.lineno
            return self.run_body(st, n.body, env, qual, module, None, False, False, node)
        stt = st.heap.get(("dfr", v))
        if stt is not None:
            self.emit(st, "joined", v, node=node)
            if stt[0] == "ok":
                return [(st, stt[1])]
            return [(st, Raise(stt[1]))]
        self.emit(st, "await", v, node=node)
        self.suspend(st)
        rv = self.reify(st, v)
        if (st.tries or self.policy.raise_all) and v[0] not in ("c",):
            s2 = st.fork()
            exc = ("exc", None, rv)
            self.emit(s2, "raised", rv, exc, node=node)
            out = [(st, v), (s2, Raise(exc))]
            if self.policy.closing:
                s3 = st.fork()
                exc = ("exc", "builtins.GeneratorExit", rv)
                self.emit(s3, "raised", rv, exc, node=node)
                out.append((s3, Raise(exc)))
            return out
        return [(st, v)]

    def e_Yield(self, e, st):
        def f(s, v):
            env = s.frames.get(s.fid, {})
            if "__ctxhook__" in env:
                return env["__ctxhook__"](s, v)
            if "__acc__" in env:
                self.obj_add(s, env["__acc__"], ("item", self.reify(s, v)))
                return [(s, NONE)]
            func = env.get("__func__")
            if env.get("__icb__") or (self.is_inline_cb(func) and "__parent__" not in env):
                return self.do_await(s, v, e)
            self.emit(s, "yield", v, node=e)
            if s.tries or self.policy.raise_all:
                s2 = s.fork()
                exc = ("exc", None, ("yield", self.fresh()))
                self.emit(s2, "raised", v, exc, node=e)
                return [(s, ("unk", "sent", self.fresh())), (s2, Raise(exc))]
            return [(s, ("unk", "sent", self.fresh()))]
        if e.value is None:
            return f(st, NONE)
        if isinstance(e.value, ast.Call):
            env = st.frames.get(st.fid, {})
            func = env.get("__func__")
            if env.get("__icb__") or (self.is_inline_cb(func) and "__parent__" not in env):
                return self.then(self.e_Call(e.value, st, awaited=True), f)
        return self.then(self.eval(e.value, st), f)

    def e_YieldFrom(self, e, st):
        def f(s, v):
            env = s.frames.get(s.fid, {})
            if "__acc__" in env:
                self.obj_extend(s, env["__acc__"], v)
            else:
                self.emit(s, "yield", ("star", v), node=e)
            return [(s, NONE)]
        return self.then(self.eval(e.value, st), f)

    # library functions ---------------------------------------------------------
    def call_global(self, st, f, args, kwargs, node, awaited=False):
        d = f[1]
        ra = [self.reify(st, a) for a in args]
        kw = dict(kwargs)
        if d.startswith("builtins."):
            b = d[9:]
            r = self.builtin(st, b, args, ra, kw, node)
            if r is not None:
                return r
            if b in PURE_BUILTINS:
                term = ("call", f, tuple(ra), tuple(sorted((k or "**", self.reify(st, v)) for k, v in kwargs)), 0)
                if self.policy.hazards is not None and self.policy.hazards(self, st, "builtin", term) is not None:
                    return self.risk(st, "builtin", term, term, node)
                if b in ("int", "float", "iter", "next", "max", "min", "bytes", "str") and st.tries and ra and not is_const(ra[0]):
                    s2 = st.fork()
                    exc = ("exc", "builtins.ValueError", term)
                    if b in ("int", "float", "max", "min"):
                        self.emit(s2, "raised", term, exc, node=node)
                        return [(st, term), (s2, Raise(exc))]
                return [(st, term)]
            return self.opaque_call(st, f, args, kwargs, node, None, awaited)
        if d == "functools.partial" and args:
            return [(st, ("partial", args[0], tuple(args[1:]), tuple(kwargs)))]
        if d == "compose.compose" and args and not kwargs:
            return [(st, ("partial", ("g", "compose."), (("tuple", tuple(args)),), ()))]
        if d == "compose.":
            # the last of the composed functions gets the arguments, every other what follows it gave
            out = []
            for s, v in self.call(st, args[0][1][-1], list(args[1:]), list(kwargs), node):
                if isinstance(v, Raise) or len(args[0][1]) == 1:
                    out.append((s, v))
                else:
                    out.extend(self.call_global(s, f, [("tuple", args[0][1][:-1]), v], [], node, awaited))
            return out
        if d == "typing.cast" and len(args) == 2:
            return [(st, args[1])]
        if d in ("attr.evolve", "attrs.evolve") and args:
            base = ra[0]
            c = self.class_of(base, st)
            changes = {}
            for k, v in kwargs:
                n = k
                if c is not None:
                    for x in self.p.all_fields(c):
                        if x.init_name == k:
                            n = x.name
                changes[n] = v
            if base[0] == "new":
                fields = tuple((n, changes.pop(n) if n in changes else v) for n, v in base[2]) + tuple(sorted(changes.items()))
                return [(st, ("new", base[1], fields, self.fresh()))]
            t = ("evolve", base, tuple(sorted(changes.items())))
            if c is not None:
                self.term_types.setdefault(t, ("C", c.qual))
            return [(st, t)]
        if d == "twisted.internet.defer.returnValue" and args:
            return [(st, Raise(("retval", args[0])))]
        if d in ("twisted.internet.defer.succeed",):
            t = ("dfr", self.fresh())
            st.heap[("dfr", t)] = ("ok", args[0] if args else NONE)
            return [(st, t)]
        if d in ("twisted.internet.defer.fail",):
            t = ("dfr", self.fresh())
            st.heap[("dfr", t)] = ("fail", args[0][1] if args and args[0][0] == "failure" else (args[0] if args else ("exc", None, 0)))
            return [(st, t)]
        if d in ("twisted.internet.defer.maybeDeferred", "twisted.internet.defer.ensureDeferred", "twisted.internet.defer.Deferred.fromCoroutine") and args:
            t = ("dfr", self.fresh())
            done, inner = [], set()
            if d.endswith("maybeDeferred"):
                saved = st.tries
                st.tries += 1
                res = self.call(st, args[0], args[1:], kwargs, node)
                res2 = []
                for s, v in res:
                    if not isinstance(v, Raise) and v[0] == "coro":
                        self.emit(s, "detach", t, const("begin"), node=node)
                        got = self.do_await(s, v, node)
                        inner.update(id(x) for x, _ in got)
                        res2.extend(got)
                    elif not isinstance(v, Raise) and v[0] == "call":
                        # it may be a Deferred already
                        s.tries = saved
                        done.append((s, v))
                    else:
                        res2.append((s, v))
                res = res2
            else:
                saved = st.tries
                if ra[0][0] != "coro":
                    self.emit(st, "started", args[0], node=node)
                    return [(st, args[0])]
                st.tries += 1
                self.emit(st, "detach", t, const("begin"), node=node)
                res = self.do_await(st, args[0], node)
            out = done
            for s, v in res:
                s.tries = saved
                if not d.endswith("maybeDeferred") or id(s) in inner:
                    self.emit(s, "detach", t, const("end"), node=node)
                if isinstance(v, Raise) and v.exc == ("loopback",):
                    out.append((s, v))
                    continue
                if not isinstance(v, Raise) and s.heap.get(("dfr", v)) is not None:
                    out.append((s, v))
                    continue
                s.heap[("dfr", t)] = ("fail", v.exc) if isinstance(v, Raise) else ("ok", v)
                self.term_types.setdefault(t, ("X", "twisted.internet.defer.Deferred"))
                out.append((s, t))
            return out
        if d in ("twisted.python.failure.Failure",):
            return [(st, ("failure", args[0] if args else (st.excs[-1] if st.excs else ("exc", None, 0))))]
        if d in PURE_GLOBALS:
            term = ("call", f, tuple(ra), tuple(sorted((k or "**", self.reify(st, v)) for k, v in kwargs)), 0)
            return [(st, term)]
        return self.opaque_call(st, f, args, kwargs, node, None, awaited)

    def builtin(self, st, b, args, ra, kw, node):
        if b in ("str", "bytes") and len(ra) + len(kw) > 1 and self.policy.rewrite is not None:
            v = self.policy.rewrite(self, st, ("call", ("g", "builtins." + b), tuple(ra), tuple(kw.items()) if isinstance(kw, dict) else tuple(kw), 0))
            if v is not None:
                return [(st, v)]
        if b in ("list", "set", "tuple") and len(ra) == 1 and not kw and ra[0][0] == "call" and ra[0][1] == ("g", "builtins.iter") and len(ra[0][2]) == 1 and ra[0][2][0][0] in ("list", "tuple") and not self.advanced(st, ra[0]):
            args = ra = [ra[0][2][0]]
        if b in ("list", "set", "frozenset", "tuple", "dict"):
            if not args and not kw:
                if b in ("list", "set", "dict"):
                    return [(st, self.new_obj(st, b))]
                return [(st, ("tuple" if b == "tuple" else "set", ()))]
            if len(args) == 1 and not kw:
                v = ra[0]
                if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("items", "values", "keys") and not v[2]:
                    g, c, e = self.iteration(st, v) if self.iteration(st, v)[0] != "literal" else (None, None, None)
                    if g is not None:
                        if b == "dict" and v[1][2] == "items":
                            return [(st, self.new_obj(st, "dict", [("ext", v[1][1])]))]
                        v = ("comp", "gen", e, g, c)
                if b in ("list", "set") and self.policy.opaque_containers:
                    return [(st, self.new_obj(st, b, [("ext", v)]))]
                if b in ("list", "set", "dict"):
                    o = self.new_obj(st, b)
                    if v[0] == "comp" and v[1] == "dict" and b != "dict":
                        v = self.mk_conv(b, v)
                    if b == "dict" and v[0] in ("list", "tuple"):
                        v2 = self.mk_conv("dict", v)
                        v = v2
                    self.obj_extend(st, o, v)
                    return [(st, o)]
                if v[0] == "comp":
                    return [(st, ("comp", b, v[2], v[3], v[4]))]
                if b == "tuple" and v[0] in ("list", "tuple"):
                    return [(st, ("tuple", v[1]))]
                if b == "frozenset" and v[0] in ("list", "tuple", "set"):
                    return [(st, ("set", v[1]))]
            if b == "dict" and kw and not args:
                return [(st, self.new_obj(st, "dict", [("item", const(k), v) for k, v in kw.items()]))]
            return None
        if b in ("any", "all") and len(ra) == 1:
            v = ra[0]
            if v[0] == "comp":
                conds = self.as_conds(st, v[2], b == "any")
                if conds is not None:
                    ex = self.simplify_exists(v[3], conj(v[4], conds))
                    return [(st, ex if b == "any" else self.mk_not(ex))]
            if v[0] in ("list", "tuple"):
                return [(st, self.mk_bool("or" if b == "any" else "and", [self.truth(st, x) for x in v[1]]) if v[1] else const(b == "all"))]
            if v[0] == "seq" and all(x[0] == "item" or x[0] == "each" and not x[2] and not (x[3] and x[3][0] == "dnf") for x in v[2]):
                # finitely many, some of them only under a condition
                parts = []
                for x in v[2]:
                    lits = [t if want else self.mk_not(t) for t, want in (x[3] if x[0] == "each" else ())]
                    y = self.truth(st, x[1])
                    if b == "any":
                        parts.append(self.mk_bool("and", lits + [y]) if lits else y)
                    else:
                        parts.append(self.mk_bool("or", [self.mk_not(t) for t in lits] + [y]) if lits else y)
                return [(st, self.mk_bool("or" if b == "any" else "and", parts) if parts else const(b == "all"))]
            return None
        if b == "sum" and ra:
            v = ra[0]
            start = ra[1] if len(ra) > 1 else kw.get("start", ZERO)
            if v[0] == "comp":
                e = v[2]
                return [(st, ("sum", start, e, v[3], v[4]))]
            if v[0] in ("list", "tuple"):
                r = start
                for x in v[1]:
                    r = self.mk_bin("+", r, x)
                return [(st, r)]
            return [(st, ("sum", start, ("elem", v, 0), (v,), ()))]
        if b == "map" and len(ra) >= 2:
            return self.map_call(st, args, ra, node)
        if b == "filter" and len(ra) == 2:
            r = self.iteration(st, ra[1])
            if r[0] == "literal":
                return None
            paths = [(st.fork(), r[2])] if ra[0] == NONE else self.call(st.fork(), args[0], [r[2]], [], node)
            if any(isinstance(v, Raise) for s, v in paths):
                return None
            c = []
            for s, v in paths:
                g = self.guards(events_since(s.trace, st.trace))
                cc = self.as_conds(s, v, True)
                if cc is None:
                    return None
                c.append(conj(g, cc))
            return [(st, ("comp", "gen", r[2], r[0], conj(r[1], simplify_dnf(c))))]
        if b == "len" and len(ra) == 1:
            v = ra[0]
            if v[0] in ("list", "tuple", "dict") and not any(isinstance(x, tuple) and x and x[0] == "star" for x in v[1]):
                return [(st, const(len(v[1])))]
            if v[0] == "c" and isinstance(v[2], (str, bytes, tuple)):
                return [(st, const(len(v[2])))]
            return [(st, ("call", ("g", "builtins.len"), (v,), (), 0))]
        if b in ("str", "bytes", "int") and len(ra) == 1 and not kw:
            if b == "str" and ra[0][0] == "fmt":
                return [(st, ra[0])]
            if b == "str" and is_const(ra[0]) and isinstance(cval(ra[0]), str):
                return [(st, ra[0])]
        if b == "divmod" and len(ra) == 2:
            return [(st, ("tuple", (self.mk_bin("//", ra[0], ra[1]), self.mk_bin("%", ra[0], ra[1]))))]
        if b == "getattr" and len(ra) >= 2 and is_const(ra[1]) and isinstance(cval(ra[1]), str):
            return self.get_attr(st, args[0], cval(ra[1]), node)
        if b == "isinstance" and len(ra) == 2:
            c = ra[1]
            if c[0] == "c":
                return None
            return [(st, ("call", ("g", "builtins.isinstance"), (ra[0], c), (), 0))]
        if b == "next" and ra:
            return None
        if b == "setattr" and len(ra) == 3 and is_const(ra[1]):
            self.emit(st, "setattr", args[0], cval(ra[1]), args[2], node=node)
            st.heap[("attr", args[0], cval(ra[1]))] = args[2]
            return [(st, NONE)]
        return None

    def map_call(self, st, args, ra, node):
        rs = [self.iteration(st, x) for x in ra[1:]]
        if any(r[0] == "literal" for r in rs):
            if len(rs) == 1:
                work = [(st, ())]
                for item in rs[0][1]:
                    nxt = []
                    for s, acc in work:
                        if isinstance(acc, Raise):
                            nxt.append((s, acc))
                            continue
                        for s2, v in self.call(s, args[0], [item], [], node):
                            nxt.append((s2, v if isinstance(v, Raise) else acc + (v,)))
                    work = nxt
                return [(s, acc if isinstance(acc, Raise) else ("list", acc)) for s, acc in work]
            return None
        gens = tuple(g for r in rs for g in r[0])
        conds = conj(*[r[1] for r in rs])
        marker = st.trace
        b = st.fork()
        b.levels = b.levels + gens
        out = []
        entries = {}
        subs = []
        for s, v in self.call(b, args[0], [r[2] for r in rs], [], node):
            evs = events_since(s.trace, marker)
            if isinstance(v, Raise):
                s.levels = st.levels
                out.append((s, v))
                continue
            entries.setdefault(self.reify(s, v), []).append(self.guards(evs))
            subs.append(Sub(evs, "next"))
        self.emit(st, "loop", gens, None, conds, node=node)
        st.trace[1].b = tuple(subs)
        if entries:
            if len(entries) == 1:
                (v, cs), = entries.items()
                t = ("comp", "gen", v, gens, conds)
            else:
                elt = ("phi", tuple(sorted(((simplify_dnf(cs), v) for v, cs in entries.items()), key=digest)))
                t = ("comp", "gen", elt, gens, conds)
            out.append((st, t))
        return out

    def as_conds(self, st, t, want):
        """The truth of a term as a conjunction of conditions, or None."""
        t = self.truth(st, t)
        if t[0] == "not":
            return self.as_conds(st, t[1], not want)
        s = self.static_truth(t)
        if s is not None:
            return () if s == want else None
        if t[0] == ("and" if want else "or"):
            out = ()
            for x in t[1]:
                c = self.as_conds(st, x, want)
                if c is None:
                    return None
                out = conj(out, c)
            return out
        if t[0] == ("or" if want else "and"):
            alts = []
            for x in t[1]:
                c = self.as_conds(st, x, want)
                if c is None:
                    return None
                alts.append(c)
            # make the alternatives disjoint as short-circuit evaluation does
            return simplify_dnf(alts)
        if t[0] == "phi":
            alts = []
            for c, v in t[1]:
                vc = self.as_conds(st, v, want)
                if vc is None:
                    continue
                alts.append(conj(c, vc))
            if not alts:
                return None
            return simplify_dnf(alts)
        return ((t, want),)

    # method calls -------------------------------------------------------------
    def method_call(self, st, b, name, args, kwargs, node, awaited=False):
        f = ("attr", b, name)
        if b[0] == "obj":
            return self.obj_method(st, b, name, args, kwargs, node)
        ra = [self.reify(st, a) for a in args]
        if b[0] == "failure":
            if name in ("check", "trap"):
                return self.failure_check(st, b, name, ra, node)
            if name in ("getErrorMessage", "getTraceback", "printTraceback"):
                return [(st, ("call", f, tuple(ra), (), 0))]
            if name == "raiseException":
                return [(st, Raise(b[1]))]
        if name in DFR_METHODS and args:
            return self.dfr_method(st, b, name, args, kwargs, node)
        if is_const(b) and isinstance(cval(b), (str, bytes)):
            if name == "format":
                return [(st, self.brace_fmt(cval(b), ra, [(k, self.reify(st, v)) for k, v in kwargs]))]
            try:
                if name in ("encode", "decode", "strip", "lower", "upper") and all(is_const(x) for x in ra):
                    return [(st, const(getattr(cval(b), name)(*[cval(x) for x in ra])))]
                if name == "join" and len(ra) == 1 and ra[0][0] in ("list", "tuple") and all(is_const(x) for x in ra[0][1]):
                    return [(st, const(cval(b).join(cval(x) for x in ra[0][1])))]
            except Exception:
                pass
        if b[0] in ("comp", "seq", "dict", "list", "set", "tuple") and name == "copy":
            o = self.new_obj(st, b[1] if b[0] in ("comp", "seq") else b[0])
            self.obj_extend(st, o, b)
            return [(st, o)]
        if b[0] == "comp" and b[1] == "dict" and name in ("items", "keys", "values") and not args:
            elt = {"items": b[2], "keys": self.mk_sub(b[2], const(0)), "values": self.mk_sub(b[2], const(1))}[name]
            return [(st, ("comp", "list", elt, b[3], b[4]))]
        if b[0] == "dict" and name in ("items", "keys", "values") and not args:
            return [(st, ("list", tuple({"items": ("tuple", (k, v)), "keys": k, "values": v}[name] for k, v in b[1])))]
        if b[0] == "dict" and name == "get" and ra and is_const(ra[0]) and all(is_const(k) for k, v in b[1]):
            for k, v in b[1]:
                if k == ra[0]:
                    return [(st, v)]
            return [(st, ra[1] if len(ra) > 1 else NONE)]
        c = self.class_of(b, st)
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                return self.call_func(st, m, b, args, kwargs, node, f=f, awaited=awaited)
            fld, owner = self.p.find_field(c, name)
            if fld is not None:
                return self.opaque_call(st, f, args, kwargs, node, None, awaited)
        if name == "copy" and not args and not kwargs:
            return [(st, self.new_obj(st, "dict", [("ext", b)]))]
        pure = name in PURE_METHODS and c is None
        if c is None and name in MUTATORS | {"popleft", "appendleft", "extendleft"}:
            rb = I(self.reify(st, b))
            for a in [a for a in st.conds if a == rb or a[0] == "cmp" and any(x == rb or x == ("call", ("g", "builtins.len"), (rb,), (), 0) for x in a[2:4])]:
                del st.conds[a]
        return self.opaque_call(st, f, args, kwargs, node, None, awaited, pure=pure)

    def failure_check(self, st, b, name, ra, node):
        out = []
        exc = b[1]
        pending = st
        for t in ra:
            if t[0] not in ("cls", "g"):
                v = None
            else:
                v = self.match_exc(exc, t[1])
            if v is False:
                continue
            s = pending if v else pending.fork()
            self.emit(s, "guard", ("cmp", "isexc", exc, t), True, node=node)
            if v is None and exc[0] == "exc":
                s.heap[("exctype", exc)] = t
            out.append((s, t))
            if v:
                return out
        for t in ra:
            self.emit(pending, "guard", ("cmp", "isexc", exc, t), False, node=node)
        if name == "check":
            out.append((pending, NONE))
        else:
            out.append((pending, Raise(exc)))
        return out

    def dfr_method(self, st, b, name, args, kwargs, node):
        """Attach callbacks: the outcomes of the deferred are explored in order."""
        work = []
        stt = st.heap.get(("dfr", b))
        if b[0] == "coro":
            return self.opaque_call(st, ("attr", b, name), args, kwargs, node, None)
        if stt is None:
            s2 = st.fork()
            rb = self.reify(st, b)
            self.emit(st, "outcome", rb, "ok", node=node)
            st.heap[("dfr", b)] = ("ok", b)
            exc = ("exc", None, rb)
            self.emit(s2, "outcome", rb, "fail", node=node)
            self.emit(s2, "raised", rb, exc, node=node)
            s2.heap[("dfr", b)] = ("fail", exc)
            work = [st, s2]
        else:
            work = [st]
        out = []
        for s in work:
            kind, v = s.heap[("dfr", b)]
            fn, extra, kw = None, [], []
            if name == "addCallbacks":
                fn = args[0] if kind == "ok" else (args[1] if len(args) > 1 else None)
            elif name == "addCallback" and kind == "ok" or name == "addErrback" and kind == "fail" or name == "addBoth":
                fn, extra, kw = args[0], list(args[1:]), list(kwargs)
            if fn is None or fn == NONE:
                out.append((s, b))
                continue
            first = v if kind == "ok" else ("failure", v)
            self.emit(s, "cb", const("begin"), b, node=node)
            saved = s.tries
            s.tries += 1
            s.excs = s.excs + ((v,) if kind == "fail" else ())
            for s2, r in self.call(s, fn, [first] + extra, kw, node):
                s2.tries = saved
                if kind == "fail":
                    s2.excs = s2.excs[:-1] if s2.excs else s2.excs
                self.emit(s2, "cb", const("end"), b, node=node)
                if isinstance(r, Raise):
                    if r.exc == ("loopback",):
                        out.append((s2, r))
                        continue
                    s2.heap[("dfr", b)] = ("fail", r.exc)
                    out.append((s2, b))
                elif r[0] == "failure":
                    s2.heap[("dfr", b)] = ("fail", r[1])
                    out.append((s2, b))
                elif r[0] == "coro":
                    for s3, r3 in self.do_await(s2, r, node):
                        s3.heap[("dfr", b)] = ("fail", r3.exc) if isinstance(r3, Raise) else ("ok", r3)
                        out.append((s3, b))
                elif s2.heap.get(("dfr", r)) is not None:
                    s2.heap[("dfr", b)] = s2.heap[("dfr", r)]
                    out.append((s2, b))
                elif r[0] == "call" and r[4] != 0:
                    # maybe a deferred: it may still fail
                    s3 = s2.fork()
                    exc = ("exc", None, r)
                    self.emit(s3, "raised", r, exc, node=node)
                    s3.heap[("dfr", b)] = ("fail", exc)
                    out.append((s3, b))
                    s2.heap[("dfr", b)] = ("ok", r)
                    out.append((s2, b))
                else:
                    s2.heap[("dfr", b)] = ("ok", r)
                    out.append((s2, b))
        return out


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    raise AnalysisBroken("augmented assignment")


# ------------------------------------------------------------------- queries
def flat(events):
    """All events, also those inside loops, in order."""
    for e in events:
        if e.kind == "loop":
            yield e
            for s in e.b:
                yield from flat(s.events)
        else:
            yield e


def calls(events, name=None, pred=None):
    for e in flat(events):
        if e.kind == "call" and (name is None or (fname(e.a[1]) == name if isinstance(name, str) else fname(e.a[1]) in name)) and (pred is None or pred(e)):
            yield e
