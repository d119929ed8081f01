"""
P31: secrets do not leak into logs or errors.  Every function of the package is
followed by itself; what is made from a secret is tracked through calls,
results, fields and closures of the whole package to a fixed point, and no
logging call and no exception that leaves a function may receive any of it.
Failed grid requests carry their address only after it was scrubbed.
"""
import ast
import re

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import I, NONE, contains, fname, is_const, norm, walk

TECHNIQUE = "interprocedural taint analysis from secret sources to logging calls and escaping exceptions"
ASSUMPTIONS = [
    "exceptions raised by Twisted, Foolscap, treq, Tahoe-LAFS and SQLite do not contain the arguments they were given",
    "what the operations of an HTTP client, a remote reference or a database connection answer is not what they were given",
]

# Classes whose objects are secrets (or made of nothing else).
SECRET_CLASSES = re.compile(
    r"(^_zkapauthorizer\..*\.(RandomToken|UnblindedToken|Pass|EventStream|Change)$)"
    r"|(^_zkapauthorizer\.private\.Token$)"
    r"|(^challenge_bypass_ristretto\.(RandomToken|UnblindedToken|VerificationKey|VerificationSignature|TokenPreimage|SigningKey)\b)"
    r"|(^tahoe_capabilities\..*Capability$|^tahoe_capabilities\.(CHK|SSK|MDMF|LiteralRead|VerifyCap).*$)"
)
SECRET_CALLS = {"danger_real_capability_string", "get_private_config", "get_or_create_private_config", "invalid_or_unblind", "get_renewal_secret", "get_cancel_secret",
                "file_renewal_secret_hash", "file_cancel_secret_hash", "bucket_renewal_secret_hash", "bucket_cancel_secret_hash"}
SECRET_PARAMS = {"renew_secret", "renewal_secret", "cancel_secret", "secrets", "passes", "write_enabler", "auth_token"}
# What is remotely callable: the positions of secrets.
REMOTE = {"remote_allocate_buckets": (0, 2, 3), "remote_add_lease": (0, 2, 3), "remote_slot_testv_and_readv_and_writev": (0, 2), "onMessage": (0,)}
CLEAN = re.compile(
    r"^(builtins\.(len|bool|isinstance|issubclass|type|hasattr|id|callable|range)|hashlib\..*|hmac\.compare_digest|time\..*"
    r"|(.*\.)?timing_safe_compare|tahoe_capabilities\.digested_capability_string|challenge_bypass_ristretto\.PublicKey\.from_signing_key|_zkapauthorizer\.eliot\..*)$"
)
CLEAN_METHODS = {"blind", "digest", "hexdigest", "count", "startswith", "endswith", "isdigit"}
PLAIN = {"builtins.int", "builtins.bool", "builtins.float", "datetime.datetime", "datetime.timedelta", "builtins.None"}
PUBLIC_ATTRIBUTES = {"prefix", "suffix", "needed", "total", "size", "happy", "segment_size", "__class__"}
LOGGING = {"debug", "info", "warn", "warning", "error", "critical", "failure", "emit", "err", "msg", "exception", "log", "write_traceback", "writeTraceback",
           "write_failure", "writeFailure", "add_success_fields", "addSuccessFields", "add_action_context", "bind", "print", "print_exc", "print_exception", "start_action", "startAction", "start_task", "startTask", "as_task", "log_message"}
PARSERS = re.compile(r"^(tahoe_capabilities\..*_from_string|challenge_bypass_ristretto\.(SigningKey|RandomToken|UnblindedToken)\.decode_base64)$")
# Methods whose result is made from the arguments, too.
BUILDERS = {"child", "add", "set", "replace", "sibling", "click", "concat", "join", "format", "union"}
# Without another argument these log the exception being handled.
CURRENT = {"failure", "exception", "err", "print_exc", "write_traceback", "writeTraceback"}
CARRIER = "ReplicationAlreadySetup"
NOT_LOGGING = ("builtins.", "json.")


class Unit:
    """A function, or a function defined in it, with all its paths."""

    def __init__(self, key, func, it, paths, params, parent=None):
        self.key, self.func, self.it, self.paths, self.params, self.parent = key, func, it, paths, params, parent
        self.module = func.module
        self.memo = {}
        self.secret = None


def dotted(f):
    """The dotted name of a called thing, as far as it has one."""
    if f[0] in ("g", "fn", "cls"):
        return f[1]
    return None


def secret_annotation(program, module, ann, depth=0):
    """{"S"}: (contains) a secret.  {"C"}: a callable that gives one."""
    if ann is None or depth > 6:
        return frozenset()
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            try:
                return secret_annotation(program, module, ast.parse(ann.value, mode="eval").body, depth + 1)
            except SyntaxError:
                return frozenset()
        return frozenset()
    if isinstance(ann, ast.BinOp):
        return secret_annotation(program, module, ann.left, depth) | secret_annotation(program, module, ann.right, depth)
    if isinstance(ann, ast.Subscript):
        base = (program.resolve_expr(module, ann.value) or "").rsplit(".", 1)[-1]
        sl = ann.slice
        elts = list(sl.elts) if isinstance(sl, (ast.Tuple, ast.List)) else [sl]
        if base == "Callable":
            inner = secret_annotation(program, module, elts[-1], depth + 1)
            return frozenset({"C"}) if inner else frozenset()
        out = frozenset()
        for e in elts:
            out |= secret_annotation(program, module, e, depth + 1)
        return out
    if isinstance(ann, (ast.List, ast.Tuple)):
        out = frozenset()
        for e in ann.elts:
            out |= secret_annotation(program, module, e, depth + 1)
        return out
    d = program.resolve_expr(module, ann)
    if d is None:
        return frozenset()
    if SECRET_CLASSES.search(d):
        return frozenset({"S"})
    if d in program.classes:
        return frozenset({"class:" + d})
    m, exprs = program.global_var(d)
    if m is not None and exprs and len(exprs) == 1:
        return secret_annotation(program, m, exprs[0], depth + 1)
    return frozenset()


class Taint:
    def __init__(self, ctx, inline=()):
        self.ctx = ctx
        self.program = ctx.program
        self.inline = frozenset(inline)         # helpers judged where they are called
        self.units = []
        self.ptaint = {}            # (unit key, param) -> labels
        self.rets = {}              # unit key -> labels
        self.fields = {}            # (class, field) -> labels
        self.changed = False
        self.closures = {}          # (id of interpreter, closure) -> unit key
        self.build()
        rounds = 0
        self.changed = True
        while self.changed:
            self.changed = False
            rounds += 1
            if rounds > 30:
                raise AnalysisBroken("the flow of secrets does not settle")
            for u in self.units:
                self.flow(u)
        ctx.note("%d functions and closures, fixed point after %d rounds" % (len(self.units), rounds))

    # -------------------------------------------------------------- building
    def build(self):
        mods = sorted({m.name.split(".")[1] for m in self.program.modules.values() if "." in m.name and ".tests" not in m.name})
        atoms = tuple(m + ".*" for m in mods if m != "_json") + tuple("!" + q.split(".", 1)[1] for q in sorted(self.inline))
        for q, f in sorted(self.program.functions.items()):
            if ".tests" in q or f.parent is not None or q in self.inline:
                continue
            it, ps = self.ctx.run(f, atoms)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if f.cls is not None and not it.has_deco(f, "builtins.staticmethod") and names and not it.is_interface(f.cls):
                names = names[1:]
            names += [x.arg for x in a.kwonlyargs]
            params = [(n, p(n)) for n in names]
            u = Unit(q, f, it, ps, params)
            self.units.append(u)
            done = set()
            todo = [(cid, ps) for cid in it.closures]
            while todo:
                cid, paths = todo.pop(0)
                if cid in done:
                    continue
                done.add(cid)
                node, module, fid = it.closures[cid][:3]
                if module is not f.module:
                    continue
                st = next((x.st for x in paths if fid in x.st.frames), None)
                ca = node.args
                prm, args, kw = [], [], []
                for x in ca.posonlyargs + ca.args + ca.kwonlyargs:
                    t = I(("p", "%d:%s" % (cid, x.arg)))
                    ty = it.ann_type(module, x.annotation)
                    if ty is not None:
                        it.term_types.setdefault(t, ty)
                    prm.append((x.arg, t))
                    if x in ca.kwonlyargs:
                        kw.append((x.arg, t))
                    else:
                        args.append(t)
                for x in (ca.vararg, ca.kwarg):
                    if x is not None:
                        t = I(("p", "%d:%s" % (cid, x.arg)))
                        prm.append(("*" + x.arg, t))
                        if x is ca.vararg:
                            args.append(("star", t))
                        else:
                            kw.append((None, t))
                try:
                    cps = it.apply(("clo", cid), args, st, tuple(kw))
                except AnalysisBroken:
                    raise
                cu = Unit("%s.<%s@%d>" % (q, getattr(node, "name", "lambda"), node.lineno), f, it, cps, prm, parent=u)
                cu.node = node
                self.units.append(cu)
                self.closures[(id(it), cid)] = cu
                todo.extend((c, cps) for c in it.closures if c not in done)

    # ------------------------------------------------------------- recording
    def add(self, table, key, labels):
        labels = frozenset(x for x in labels)
        old = table.get(key, frozenset())
        if not labels <= old:
            table[key] = old | labels
            self.changed = True

    def flow(self, u):
        u.memo = {}
        for e in self.events(u):
            if e.kind == "call" and isinstance(e.a, tuple) and e.a[0] == "call":
                self.flow_call(u, e)
            elif e.kind == "setattr" and isinstance(e.a, tuple):
                t, v = e.a, e.b
                self.flow_set(u, e)
        out = frozenset()
        for x in u.paths:
            if x.kind == "return" and isinstance(x.value, tuple):
                out |= self.labels(u, x.value)
        self.add(self.rets, u.key, out)

    def events(self, u):
        for x in u.paths:
            yield from flat(x.events)

    def flow_set(self, u, e):
        base, name, v = e.a, e.b, e.c
        if not isinstance(name, str) or not isinstance(v, tuple):
            return
        ty = u.it.type_of(base)
        if ty and ty[0] == "C":
            self.add(self.fields, (ty[1], name), self.labels(u, v) & {"S", "C"})

    def flow_call(self, u, e):
        t, target = e.a, e.target
        if t[1][0] == "cls" or (isinstance(e.b, tuple) and e.b and e.b[0] == "new"):
            new = e.b
            if isinstance(new, tuple) and new[0] == "new":
                for n, v in new[2]:
                    if isinstance(v, tuple):
                        self.add(self.fields, (new[1], n), self.labels(u, v) & {"S", "C"})
                init = self.program.find_method(self.program.classes[new[1]], "__init__")
                if init is not None:
                    for n, v in new[2]:
                        self.add(self.ptaint, (init.qual, n[4:] if n.startswith("arg:") else n), self.labels(u, v) & {"S", "C"})
            return
        if target is None or not hasattr(target, "node") or not hasattr(target, "is_async"):
            return
        for n, v in self.bound(u, target, t):
            self.add(self.ptaint, (target.qual, n), self.labels(u, v) & {"S", "C"})

    def bound(self, u, target, t):
        """(parameter, argument) of a call of a repository function."""
        a = target.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if target.cls is not None and not u.it.has_deco(target, "builtins.staticmethod") and not u.it.is_interface(target.cls):
            names = names[1:]
        names = names[self.supplied(u, target, names, t):]
        out = []
        for i, v in enumerate(t[2]):
            if v[0] == "star":
                out.extend((n, v[1]) for n in names[i:])
                if a.vararg:
                    out.append((a.vararg.arg, v[1]))
                break
            if i < len(names):
                out.append((names[i], v))
            elif a.vararg:
                out.append((a.vararg.arg, v))
        for n, v in t[3]:
            if n == "**":
                # the arguments given by position are not given again
                given = sum(1 for x in t[2] if x[0] != "star")
                out.extend((x, v) for x in names[given:])
            elif n in names or any(x.arg == n for x in a.kwonlyargs):
                out.append((n, v))
            elif a.kwarg:
                out.append((a.kwarg.arg, v))
        return out

    def supplied(self, u, target, names, t):
        """How many leading arguments do decorators of the package supply?"""
        if not any((u.it.p.resolve_expr(target.module, d.func if isinstance(d, ast.Call) else d) or "").startswith("_zkapauthorizer.") for d in target.decorators):
            return 0
        if any(v[0] == "star" for v in t[2]) or any(n == "**" for n, v in t[3]):
            return 0
        required = len(names) - len(target.node.args.defaults)
        given = len(t[2]) + sum(1 for n, v in t[3] if n in names)
        return max(0, required - given)

    # ---------------------------------------------------------------- labels
    def labels(self, u, t):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            if isinstance(t, tuple):
                out = frozenset()
                for x in t:
                    if isinstance(x, tuple):
                        out |= self.labels(u, x)
                return out
            return frozenset()
        t = I(t)
        r = u.memo.get(t)
        if r is None:
            u.memo[t] = frozenset()
            r = u.memo[t] = self.compute(u, t)
        return r

    def many(self, u, ts):
        out = frozenset()
        for x in ts:
            if isinstance(x, tuple):
                out |= self.labels(u, x)
        return out

    def from_type(self, ty):
        if ty is None:
            return None
        if ty[0] in ("X", "C"):
            if SECRET_CLASSES.search(ty[1]):
                return frozenset({"S"})
            if ty[1] in PLAIN:
                return frozenset()
            return None
        if ty[0] in ("seq", "map", "tup"):
            inner = [x for x in (ty[1:] if ty[0] != "tup" else ty[1]) if x is not None]
            for x in inner:
                if self.from_type(x):
                    return frozenset({"S"})
            if inner and ty[0] == "seq" and self.from_type(inner[0]) == frozenset():
                return frozenset()
            return None
        if ty[0] == "callable":
            return frozenset({"C"}) if self.from_type(ty[1]) else None
        return None

    def holds(self, cls):
        """Does the text of an object of the class include secrets?"""
        c = self.program.classes.get(cls)
        if c is None:
            return False
        if not c.attrs_like and not self.program_is_exception(c):
            return False
        for f in self.program.all_fields(c):
            if no_repr(f):
                continue
            if "S" in self.field_labels(cls, f.name, seen=(cls,)):
                return True
        return False

    def program_is_exception(self, c):
        return any(b.rsplit(".", 1)[-1] in ("Exception", "BaseException", "ValueError", "RuntimeError", "TypeError", "KeyError") for k in self.program.mro(c) for b in k.bases)

    def field_labels(self, cls, name, seen=()):
        out = frozenset()
        c = self.program.classes.get(cls)
        if c is None:
            return self.fields.get((cls, name), frozenset())
        for k in self.program.mro(c):
            out |= self.fields.get((k.qual, name), frozenset())
        f, owner = self.program.find_field(c, name)
        if f is not None:
            if scrubbing(self.program, owner, f):
                return frozenset()
            for x in secret_annotation(self.program, owner.module, f.annotation):
                if x.startswith("class:"):
                    q = x[6:]
                    if q not in seen and self.holds_guard(q, seen):
                        out |= {"S"}
                else:
                    out |= {x}
        return out

    def holds_guard(self, cls, seen):
        c = self.program.classes.get(cls)
        if c is None or not c.attrs_like:
            return False
        return any("S" in self.field_labels(cls, f.name, seen + (cls,)) for f in self.program.all_fields(c) if not no_repr(f))

    def parsed(self, u):
        """What is parsed as a capability or a signing key is a secret to begin with."""
        if u.secret is None:
            u.secret = set()
            for e in self.events(u):
                if e.kind == "call" and isinstance(e.a, tuple) and e.a[0] == "call" and e.a[2]:
                    d = dotted(e.a[1]) or ""
                    if e.a[1][0] == "attr" and e.a[1][1][0] == "g":
                        d = e.a[1][1][1] + "." + e.a[1][2]
                    if not PARSERS.match(d):
                        continue
                    t = I(e.a[2][0])
                    if any((dotted(x[1]) or "").startswith("treq.") for x in walk(t) if x[0] == "call"):
                        # the answer to a request is one only if the request succeeded
                        continue
                    while t[0] not in ("c", "p"):
                        u.secret.add(t)
                        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("strip", "decode", "encode", "rstrip", "lstrip"):
                            t = I(t[1][1])
                        else:
                            break
        return u.secret

    def compute(self, u, t):
        k = t[0]
        if t in self.parsed(u):
            return frozenset({"S"})
        if k in ("c", "g", "cls", "unk"):
            return frozenset()
        if k == "fn":
            return frozenset({"C"}) if "S" in self.ret_labels(t[1]) else frozenset()
        if k == "clo":
            cu = self.closures.get((id(u.it), t[1]))
            return frozenset({"C"}) if cu is not None and "S" in self.rets.get(cu.key, ()) else frozenset()
        if k == "p":
            return self.parameter(u, t)
        if k == "self":
            return frozenset({"S"}) if SECRET_CLASSES.search(t[1]) else frozenset()
        ty = u.it.type_of(t)
        by_type = self.from_type(ty)
        if by_type is not None and not by_type:
            return by_type
        out = by_type or frozenset()
        if k == "attr":
            if t[2] in PUBLIC_ATTRIBUTES:
                return frozenset()
            base = u.it.type_of(t[1])
            if base and base[0] == "C" and base[1] in self.program.classes:
                if SECRET_CLASSES.search(base[1]):
                    f, owner = self.program.find_field(self.program.classes[base[1]], t[2])
                    m = self.program.find_method(self.program.classes[base[1]], t[2])
                    if m is None or u.it.has_deco(m, "builtins.property"):
                        return out | {"S"}
                out |= self.field_labels(base[1], t[2])
                m = self.program.find_method(self.program.classes[base[1]], t[2])
                if m is not None:
                    r = self.ret_labels(m.qual)
                    out |= (r & {"S"}) if u.it.has_deco(m, "builtins.property") else (frozenset({"C"}) if "S" in r else frozenset())
                return out
            if t[1][0] == "new":
                return out | next((self.labels(u, v) for n, v in t[1][2] if n == t[2]), frozenset())
            return out | (self.labels(u, t[1]) & {"S"})
        if k == "new":
            if SECRET_CLASSES.search(t[1]):
                return frozenset({"S"})
            c = self.program.classes[t[1]]
            if c.attrs_like or self.program_is_exception(c):
                fs = {f.name: f for f in self.program.all_fields(c)}
                for n, v in t[2]:
                    f = fs.get(n)
                    if f is not None and (no_repr(f) or scrubbing(self.program, c, f)):
                        continue
                    if "S" in self.labels(u, v):
                        out |= {"S"}
                given = {n for n, v in t[2]}
                if any("S" in self.field_labels(t[1], n) for n in fs if n not in given and not no_repr(fs[n])):
                    out |= {"S"}
            return out
        if k == "call":
            return out | self.of_call(u, t)
        if k == "coro":
            return out | self.of_call(u, ("call", t[1], t[2], t[3], 0))
        if k == "exc":
            o = t[2] if len(t) > 2 else None
            if isinstance(o, tuple) and o and o[0] == "call":
                d = dotted(o[1])
                if d and d.startswith("_zkapauthorizer.") or o[1][0] in ("attr",) and o[1][1][0] != "g":
                    return frozenset()
                if not d and o[1][0] != "attr":
                    return frozenset()
                return self.many(u, o[2]) & {"S"} | self.many(u, [v for n, v in o[3]]) & {"S"}
            return frozenset()
        if k == "cmp" or k in ("not", "exists", "and", "or"):
            return frozenset()
        if k == "comp":
            # what an element is made from, not what decides whether it is there
            return out | self.many(u, t[2:3] if isinstance(t[2], tuple) else ())
        if k == "sum":
            return out | self.many(u, t[1:3])
        if k in ("elem", "sub"):
            return out | (self.labels(u, t[1]) & {"S", "C"})
        if k == "phi":
            return out | self.many(u, [v for c, v in t[1]])
        if k == "partial":
            ls = self.labels(u, t[1]) if isinstance(t[1], tuple) else frozenset()
            return out | ls | (self.many(u, t[2]) & {"S"})
        if ty and ty[0] == "C" and self.holds(ty[1]):
            out |= {"S"}
        return out | self.many(u, t[1:])

    def parameter(self, u, t):
        out = frozenset()
        w = u
        while w is not None:
            for n, pt in w.params:
                if pt == t:
                    out |= self.ptaint.get((w.key, n), frozenset())
                    if n.startswith("*"):
                        out |= {"S"}
                    if n in SECRET_PARAMS:
                        out |= {"S"}
                    node = getattr(w, "node", None) or w.func.node
                    for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                        if x.arg == n:
                            out |= frozenset(y for y in secret_annotation(self.program, w.module, x.annotation) if not y.startswith("class:"))
                    if w.parent is None and w.func.cls is not None and w.func.name in REMOTE:
                        i = [m for m, _ in w.params].index(n)
                        if i in REMOTE[w.func.name]:
                            out |= {"S"}
                    if w.parent is None:
                        out |= {"P:" + n}
                    break
            else:
                w = w.parent
                continue
            break
        r = self.from_type(u.it.type_of(t))
        if r is not None:
            if not r:
                return frozenset()
            out |= r
        else:
            ty = u.it.type_of(t)
            if ty and ty[0] == "C" and self.holds(ty[1]):
                out |= {"S"}
        return out

    def ret_labels(self, qual):
        f = self.program.functions.get(qual)
        out = self.rets.get(qual, frozenset())
        if f is not None:
            out |= frozenset(x for x in secret_annotation(self.program, f.module, f.node.returns) if not x.startswith("class:"))
        return out

    def of_call(self, u, t):
        f = t[1]
        args = list(t[2]) + [v for n, v in t[3]]
        args = [x[1] if x[0] == "star" else x for x in args]
        name = fname(f) or ""
        d = dotted(f)
        if f[0] == "attr" and f[1][0] == "g":
            d = f[1][1] + "." + f[2]
        if d and CLEAN.match(d):
            return frozenset()
        if name.rsplit(".", 1)[-1] in SECRET_CALLS:
            return frozenset({"S"})
        if d and SECRET_CLASSES.search(d) and not d.startswith("_zkapauthorizer"):
            return frozenset({"S"})
        if f[0] == "cls":
            return self.many(u, args) & {"S"}
        if f[0] == "attr" and f[2].startswith("fetch"):
            return self.fetched(u, t)
        target = None
        if f[0] == "fn":
            target = self.program.functions.get(f[1])
        elif f[0] == "attr":
            ty = ("C", f[1][1]) if f[1][0] == "cls" else u.it.type_of(f[1])
            if ty and ty[0] == "C" and ty[1] in self.program.classes:
                target = self.program.find_method(self.program.classes[ty[1]], f[2])
        if target is not None:
            r = self.ret_labels(target.qual)
            out = r & {"S", "C"}
            for n, v in self.bound(u, target, t):
                if "P:" + n in r:
                    out |= self.labels(u, v)
            if f[0] == "attr" and SECRET_CLASSES.search(ty[1]) and target.name not in CLEAN_METHODS:
                out |= self.labels(u, f[1]) & {"S"}
            return out
        if f[0] == "attr" and f[1][0] != "g":
            if f[2] in CLEAN_METHODS:
                return frozenset()
            if f[2] in ("join", "format", "get", "setdefault", "pop") and f[1][0] in ("c", "fmt", "dict"):
                return (self.many(u, args) | self.labels(u, f[1])) & {"S", "C"}
            own = self.labels(u, f[1])
            if f[2] in BUILDERS:
                return (own | self.many(u, args)) & {"S"}
            out = own & {"S"}
            base = u.it.type_of(f[1])
            if base and base[0] == "C" and "C" in self.field_labels(base[1], f[2]):
                out |= {"S"}
            if base is not None and base[0] == "C" and not out:
                return frozenset()
            return out
        if f[0] == "g" or (f[0] == "attr" and f[1][0] == "g"):
            if d.startswith("_zkapauthorizer."):
                return frozenset()
            return self.many(u, args) & {"S", "C"} | {x for x in self.many(u, args) if x.startswith("P:")}
        # a value of the program is called
        fl = self.labels(u, f)
        out = frozenset({"S"}) if fl & {"C", "S"} else frozenset()
        if f[0] in ("p", "unk", "call", "clo"):
            out |= self.many(u, args) & {"S"}
        return out

    def fetched(self, u, t):
        """Rows of a query which selects tokens are secret."""
        base = norm(t[1][1])
        for e in self.events(u):
            if e.kind == "call" and e.a[0] == "call" and e.a[1][0] == "attr" and e.a[1][2] == "execute" and norm(e.a[1][1]) == base and e.a[2]:
                for x in walk(e.a[2][0]):
                    if is_const(x) and isinstance(x[2], str):
                        for cols in re.findall(r"select\s+(.*?)(?:\sfrom\s|$)", x[2], re.I | re.S):
                            if re.search(r"(?<![\w-])(token|text)(?![\w-])|\*", re.sub(r"count\s*\([^)]*\)", "", cols, flags=re.I), re.I):
                                return frozenset({"S"})
        return frozenset()


def no_repr(f):
    for n in ast.walk(f.node) if f.node is not None else ():
        if isinstance(n, ast.keyword) and n.arg == "repr" and isinstance(n.value, ast.Constant) and n.value.value is False:
            return True
    return False


def scrubbing(program, cls, f):
    """Is the field's value replaced by what a converter makes of it? (judged by the scrubbing rules)"""
    return cls.name == "TahoeAPIError" and f.name == "url"


# -- sinks ------------------------------------------------------------------
def is_sink(u, t):
    f = t[1]
    n = (fname(f) or "").rsplit(".", 1)[-1]
    if n not in LOGGING:
        return False
    if f[0] == "g":
        if f[1] == "builtins.print":
            return True
        return not f[1].startswith(NOT_LOGGING)
    if f[0] == "attr":
        if n == "bind" and not contains(f[1], ("g", "structlog")):
            return False
        ty = u.it.type_of(f[1])
        if ty and ty[0] == "C":
            c = u.it.p.classes.get(ty[1])
            if c is not None and u.it.p.find_method(c, n) is not None:
                return False
        return True
    return f[0] == "fn" and False


def raised_now(u, path, index):
    """What is being handled at a point of a path: the last exception seen before it."""
    for e in reversed(path[:index]):
        if e.kind == "catch":
            return next((x for x in (e.a, e.b, e.c) if isinstance(x, tuple)), None)
    return None


def check(ctx):
    ctx.rule("logging", "no logging call receives (or describes an exception made from) a capability, token, pass, lease secret, signing key or API token", minimum=15)
    ctx.rule("decorators", "no decorator that logs a call's arguments or result is used where one of them is secret", minimum=4)
    ctx.rule("errors", "no exception which leaves a function is made from a secret", minimum=20)
    ctx.rule("scrubbing", "the address in the error for a failed grid request has its capability replaced before it can be seen", minimum=3)
    T = Taint(ctx)
    helpers = set()
    while True:
        more = {u.func.qual for u, secret, what, where, path in raised(ctx, T) if secret and u.parent is None and ctx.program.inlinable(u.func)}
        if more <= helpers:
            break
        helpers |= more
        T = Taint(ctx, helpers)
    check_sinks(ctx, T)
    check_errors(ctx, T)
    check_decorators(ctx, T)


def own_event(u, e):
    return e.loc is not None and e.loc[0] == u.module.relpath


def check_sinks(ctx, T):
    for u in T.units:
        for path in u.paths:
            evs = list(flat(path.events))
            for i, e in enumerate(evs):
                if e.kind != "call" or not isinstance(e.a, tuple) or e.a[0] != "call" or not is_sink(u, e.a):
                    continue
                t = e.a
                name = (fname(t[1]) or "").rsplit(".", 1)[-1]
                construct = "%s: %s(%s)" % (base_key(u), name, first_text(t))
                args = list(t[2]) + [v for n, v in t[3]]
                leaked = next((x for x in args if "S" in T.labels(u, x)), None)
                if leaked is not None:
                    ctx.bad("logging", construct, e.loc, "a secret is logged", path)
                    continue
                if "S" in T.labels(u, t[1]) and t[1][0] == "attr" and "S" in T.labels(u, t[1][1]):
                    ctx.bad("logging", construct, e.loc, "a secret is logged", path)
                    continue
                if name in CURRENT and not any(mentions_failure(x) for x in args):
                    made = [x for x in evs[:i] if x.kind in ("raise", "raised") for x in (x.a, x.b) if isinstance(x, tuple)]
                    bad = next((x for x in made if carries(T, u, x)), None)
                    if bad is not None:
                        ctx.bad("logging", construct, e.loc, "the exception being logged is made from a secret", path)
                        continue
                ctx.ok("logging", construct)


def mentions_failure(x):
    return any(isinstance(y, tuple) and y and y[0] in ("failure", "exc", "new", "p") for y in walk(x))


def carries(T, u, x):
    """Can the exception be one whose text includes a secret?"""
    if x[0] == "call":
        return "S" in T.compute(u, I(("exc", None, x)))
    if x[0] in ("exc", "new"):
        return "S" in T.labels(u, x)
    return False


def base_key(u):
    while u.parent is not None:
        u = u.parent
    return u.key.split(".", 1)[1]


def first_text(t):
    for x in list(t[2]) + [v for n, v in t[3]]:
        for y in walk(x):
            if is_const(y) and isinstance(y[2], str) and len(y[2]) > 3:
                return repr(y[2])[:70]
    return ""


def raised(ctx, T):
    """(function, is the exception made from a secret, what, where, path) of every error raised"""
    program = ctx.program
    c = program.cls("tahoe.TahoeAPIError")
    for u in T.units:
        if u.module.name == "_zkapauthorizer._json":
            continue
        for path in u.paths:
            if path.kind != "raise" or not isinstance(path.value, tuple):
                continue
            v = path.value
            if v[0] not in ("new", "call"):
                continue
            what = v[1] if v[0] == "new" else (dotted(v[1]) or "")
            if v[0] == "new" and program.classes.get(v[1]) is c:
                continue
            where = next((e.loc for e in reversed(list(flat(path.events))) if e.kind == "raise"), u.func.loc())
            if v[0] == "new" and v[1].endswith("." + CARRIER):
                secret = False
            else:
                secret = "S" in (T.labels(u, v) if v[0] == "new" else T.many(u, list(v[2]) + [x for n, x in v[3]]))
            yield u, secret, what.rsplit(".", 1)[-1], where, path


def check_errors(ctx, T):
    c = ctx.program.cls("tahoe.TahoeAPIError")
    for u, secret, what, where, path in raised(ctx, T):
        ctx.check(not secret, "errors", "%s: %s" % (base_key(u), what), where, "the exception includes a secret", path)
    check_grid_errors(ctx, T, c)
    check_scrubbing(ctx, T, c)
    check_carrier(ctx, T)


def check_grid_errors(ctx, T, c):
    """Every failed request, with the helpers that build addresses or errors looked into."""
    called = {e.target.qual for u in T.units for e in T.events(u) if e.kind == "call" and hasattr(e.target, "qual")}
    other = tuple(m.name.split(".")[1] + ".*" for m in ctx.program.modules.values() if "." in m.name and ".tests" not in m.name and m is not c.module)
    for u in T.units:
        if u.parent is not None or u.module is not c.module:
            continue
        it, ps = ctx.run(u.func, other)
        w = Unit(u.key, u.func, it, ps, u.params)
        for path in ps:
            v = path.value
            if path.kind != "raise" or not isinstance(v, tuple) or v[0] != "new" or ctx.program.classes.get(v[1]) is not c:
                continue
            url = next((x for n, x in v[2] if n == "url"), None)
            if url is not None and url[0] == "p" and u.key in called:
                # judged where the address is made
                continue
            grid_error(ctx, T, w, v, "%s: %s" % (base_key(w), c.name), path)


def check_carrier(ctx, T):
    """The exception that brings the user's own capability to the user is not logged on its way."""
    carrier = ctx.program.cls("replicate." + CARRIER).qual
    cls = ctx.program.cls("resource.ReplicateResource")

    def hazards(it, st, op, term):
        if op == "call" and term[1][0] == "attr" and term[1][1] == ("self", cls.qual) and "C" in T.field_labels(cls.qual, term[1][2]):
            return (carrier,)
        return None

    m = ctx.program.find_method(cls, "render_POST")
    if m is None:
        raise AnalysisBroken("anchor vanished: ReplicateResource.render_POST")
    it, ps = ctx.run(m, hazards=hazards)
    u = Unit("resource", m, it, ps, [])
    for path in ps:
        evs = list(flat(path.events))
        for i, e in enumerate(evs):
            if e.kind == "call" and isinstance(e.a, tuple) and e.a[0] == "call" and is_sink(u, e.a):
                name = (fname(e.a[1]) or "").rsplit(".", 1)[-1]
                args = list(e.a[2]) + [v for n, v in e.a[3]]
                if name in CURRENT and not any(mentions_failure(x) for x in args) and any(shows_exception(y, carrier) for x in evs[:i] if x.kind == "raised" for y in (x.a, x.b)):
                    ctx.bad("logging", "the capability of an existing replica", e.loc, "the error with the capability of the existing replica is logged", path)
                    continue
                bad = any(shows_exception(x, carrier) for x in list(e.a[2]) + [v for n, v in e.a[3]])
                ctx.check(not bad, "logging", "the capability of an existing replica", e.loc, "the error with the capability of the existing replica is logged", path)
        if path.kind == "raise" and isinstance(path.value, tuple) and path.value[0] == "exc" and path.value[1] == carrier:
            ctx.bad("logging", "the capability of an existing replica", m.loc(), "the error with the capability of the existing replica is left to the web server to log", path)


def shows_exception(t, cls):
    """Does the value include the exception itself?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "exc":
        return t[1] == cls
    return any(shows_exception(x, cls) for x in t if isinstance(x, tuple))


def grid_error(ctx, T, u, v, construct, path):
    where = next((e.loc for e in reversed(list(flat(path.events))) if e.kind == "raise"), u.func.loc())
    for n, x in v[2]:
        if n != "url" and "S" in T.labels(u, x):
            ctx.bad("errors", construct, where, "the error includes a secret in %s" % n, path)
            return
    url = next((x for n, x in v[2] if n == "url"), None)
    if url is None or "S" not in T.labels(u, url):
        ctx.ok("errors", construct)
        return
    root, segs = segments(url) or (None, None)
    good = segs is not None and "S" not in T.labels(u, root) and len(segs) > 1 and is_const(segs[0]) and segs[0][2] == "uri" and all("S" not in T.labels(u, s) for i, s in enumerate(segs) if i != 1)
    ctx.check(good, "errors", construct, where, "the capability is not where it is scrubbed from the address (/uri/<capability>)", path)


def segments(url):
    """What is appended to the path of the root address, if nothing else is secret."""
    out = []
    t = url
    while t[0] == "call" and t[1][0] == "attr":
        n = t[1][2]
        if n == "child" and not t[3]:
            out = list(t[2]) + out
        elif n in ("add", "set"):
            for x in t[2]:
                if not (is_const(x) or x[0] == "p"):
                    return None
        else:
            break
        t = t[1][1]
    return t, out


def check_scrubbing(ctx, T, c):
    program = ctx.program
    where = (c.module.relpath, c.node.lineno)
    opts = attrs_options(program, c)
    own_str = program.find_method(c, "__str__")
    own_repr = program.find_method(c, "__repr__")
    # Exception.__new__ keeps the arguments as they were given.
    text = opts is not None and (opts.get("str") is True or own_str is not None)
    ctx.check(text, "scrubbing", "the text of TahoeAPIError", where, "the text of the error is what Exception makes of the arguments as they were given")
    if own_str is None and own_repr is None and opts is not None:
        ctx.check(opts.get("repr", True) is not False, "scrubbing", "the representation of TahoeAPIError", where, "the representation of the error is what Exception makes of the arguments as they were given")
    for m in (own_str, own_repr):
        if m is not None:
            it, ps = ctx.run(m)
            for x in ps:
                raw = any(y[0] == "attr" and y[2] == "args" or y[0] == "call" and "super" in str(y[1]) or y[0] == "g" and y[1].startswith("builtins.Exception")
                          for y in walk(x.value) if isinstance(y, tuple) and len(y) > 1 and isinstance(y[0], str))
                ctx.check(not raw, "scrubbing", "the representation of TahoeAPIError", m.loc(), "the text includes the arguments as they were given", x)
    f, owner = program.find_field(c, "url")
    if f is None:
        ctx.ok("scrubbing", "no address is kept")
        return
    conv = None
    for n in ast.walk(f.node) if f.node is not None else ():
        if isinstance(n, ast.keyword) and n.arg == "converter":
            conv = n.value
    if conv is None:
        init = program.find_method(c, "__attrs_post_init__") or program.find_method(c, "__init__")
        ctx.bad("scrubbing", "the address of TahoeAPIError", where, "the address is kept as it was given" if init is None else "the address is not replaced by a converter")
        return
    d = program.resolve_expr(owner.module, conv)
    m = program.functions.get(d) if d else None
    if m is None:
        if isinstance(conv, ast.Lambda):
            it = ctx.interp()
            ps = it.expression(owner.module, conv)
            ps = it.apply(ps[0].value, [p("url")])
            param = p("url")
        else:
            raise AnalysisBroken("anchor vanished: the converter of TahoeAPIError.url")
    else:
        it, ps = ctx.run(m)
        a = m.node.args
        param = p((a.posonlyargs + a.args)[0].arg)
    for x in ps:
        if x.kind == "raise":
            continue
        scrub_path(ctx, it, x, I(param), m.loc() if m is not None else where)


def scrub_path(ctx, it, x, url, where):
    v = norm(x.value)
    path = ("attr", url, "path")
    if v == norm(url):
        cs = {norm(k): b for k, b in x.st.conds.items()}
        first, second = norm(("sub", path, ("c", "int", 0))), norm(("sub", path, ("c", "int", 1)))
        why = None
        for k, b in cs.items():
            if not b and k[0] == "cmp" and k[1] in ("<", "<=") and is_const(k[2]) and k[3][0] == "call" and fname(k[3][1]) in ("builtins.len", "len") and contains(k[3], norm(path)):
                if k[2][2] <= (1 if k[1] == "<" else 2):
                    why = "a short path"
            if b and k[0] == "cmp" and k[1] in ("<", "<=") and is_const(k[3]) and k[2][0] == "call" and fname(k[2][1]) in ("builtins.len", "len") and contains(k[2], norm(path)):
                if k[3][2] <= (2 if k[1] == "<" else 1):
                    why = "a short path"
            if not b and k[0] == "cmp" and k[1] == "==" and first in k[2:4] and ("c", "str", "uri") in k[2:4]:
                why = "another kind of address"
            if b and k[0] == "call" and k[1] == ("attr", second, "startswith") and k[2] and is_const(k[2][0]) and str(k[2][0][2]).startswith("URI:SCRUBBED"):
                why = "already replaced"
            if not b and k[0] == "cmp" and k[1] == "==" and norm(("sub", path, ("slice", NONE, ("c", "int", 1), NONE))) in k[2:4]:
                why = "another kind of address"
        ctx.check(why is not None, "scrubbing", "address kept: %s" % (why or "otherwise"), where, "an address of the form /uri/<capability> is kept as it was", x)
        return
    bad = exposed(v, norm(url))
    ctx.check(not bad, "scrubbing", "address replaced", where, "the replaced address still includes the capability", x)


def exposed(t, url):
    """Does the term give away the second part of the path of the address?"""
    path = ("attr", url, "path")

    def go(t):
        if not isinstance(t, tuple) or not t:
            return False
        if t == url or t == path:
            return True
        if t[0] == "sub" and t[1] == path:
            i = t[2]
            if is_const(i) and isinstance(i[2], int) and i[2] != 1 and i[2] >= 0:
                return False
            if i[0] == "slice" and i[3] == NONE:
                lo, hi = (0 if i[1] == NONE else i[1][2] if is_const(i[1]) else None), (i[2][2] if is_const(i[2]) else None)
                if lo is not None and lo >= 2 or (lo == 0 and hi in (0, 1)):
                    return False
            return True
        if t[0] == "slice" and len(t) == 4 and t[1] == path:
            return not (is_const(t[2]) and isinstance(t[2][2], int) and t[2][2] >= 2)
        if t[0] == "attr" and t[1] == url and t[2] in ("scheme", "host", "port", "query", "fragment", "rooted"):
            return False
        if t[0] == "call":
            d = dotted(t[1]) or ""
            if CLEAN.match(d):
                return False
            if t[1][0] == "attr" and t[1][1] == url:
                # the same address with other parts
                if t[1][2] == "replace":
                    kw = dict(t[3])
                    given = t[2][2] if len(t[2]) > 2 else kw.get("path")
                    return given is None or go(given) or any(go(x) for x in t[2]) or any(go(v) for v in kw.values())
                return True
        return any(go(x) for x in t if isinstance(x, tuple))
    return go(t)


def attrs_options(program, c):
    """The constant options of the attrs decorator of a class."""
    for d in c.node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        q = program.resolve_expr(c.module, f) or ""
        if q.split(".")[0] in ("attr", "attrs"):
            out = {}
            for k in getattr(d, "keywords", ()):
                if isinstance(k.value, ast.Constant):
                    out[k.arg] = k.value.value
            return out
    return None


# -- decorators ---------------------------------------------------------------
def check_decorators(ctx, T):
    program = ctx.program
    units = {u.key: u for u in T.units}
    for u in T.units:
        if u.parent is not None:
            continue
        f = u.func
        for d in f.decorators:
            call = d if isinstance(d, ast.Call) else None
            q = program.resolve_expr(f.module, call.func if call else d) or ""
            kind = q.rsplit(".", 1)[-1]
            if kind not in ("log_call", "log_call_deferred", "log_call_coroutine", "inline_callbacks_logged") or not (q.startswith("eliot") or q.startswith("allmydata.") or q.startswith("_zkapauthorizer.")):
                continue
            construct = "%s of %s" % (kind, base_key(u))
            if kind == "log_call_coroutine":
                # judged as a function of the package
                ctx.ok("decorators", construct)
                continue
            given = {k.arg: k.value for k in call.keywords} if call else {}
            if kind == "log_call" and call is not None:
                for n, a in zip(("action_type", "include_args", "include_result"), call.args):
                    given.setdefault(n, a)
            given = through_wrapper(ctx, program, q, given)
            names = None
            if "include_args" in given and not is_none(given["include_args"]):
                names = constant_names(program, f.module, given["include_args"])
                if names is None:
                    raise AnalysisBroken("the arguments logged for %s cannot be read" % f.qual)
            result = kind != "log_call_deferred" and not (isinstance(given.get("include_result"), ast.Constant) and not given["include_result"].value)
            leaked = [n for n, t in u.params if (names is None or n in names) and "S" in T.labels(u, t)]
            ctx.check(not leaked, "decorators", construct, f.loc(), "the logged arguments include secrets: %s" % ", ".join(leaked))
            if result and "S" in T.ret_labels(f.qual):
                ctx.bad("decorators", construct + " (result)", f.loc(), "the logged result is secret")


def is_none(n):
    return isinstance(n, ast.Constant) and n.value is None


def constant_names(program, module, node):
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in node.elts):
        return {x.value for x in node.elts}
    d = program.resolve_expr(module, node) if isinstance(node, (ast.Name, ast.Attribute)) else None
    if d:
        m, exprs = program.global_var(d)
        if m is not None and exprs and len(exprs) == 1:
            return constant_names(program, m, exprs[0])
    return None


def through_wrapper(ctx, program, q, given):
    """What a wrapper of the package makes of the options it is given."""
    f = program.functions.get(q)
    if f is None:
        return given
    it, ps = ctx.run(f)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    out = {}
    for x in ps:
        for t in walk(x.value):
            if isinstance(t, tuple) and t and t[0] == "call" and isinstance(t[1], tuple) and dotted(t[1]) in ("eliot.log_call",):
                for n, v in t[3]:
                    if v[0] == "p" and v[1] in names:
                        if v[1] in given:
                            out[n] = given[v[1]]
                        else:
                            dflt = default_of(a, v[1])
                            if dflt is not None:
                                out[n] = dflt
                    elif is_const(v):
                        out[n] = ast.Constant(value=v[2])
                    else:
                        raise AnalysisBroken("the options of %s cannot be followed" % q)
                return out
    return given


def default_of(a, name):
    pos = a.posonlyargs + a.args
    for x, d in zip(reversed(pos), reversed(a.defaults)):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None
