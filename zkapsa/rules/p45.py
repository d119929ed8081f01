"""
P45: the values the wallet is made of are well-formed.  The validators of their
fields are followed for any value; whenever one lets a value pass, what it has
established on that path must imply the documented form.
"""
import ast
import re

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import arg, fname, is_call, p
from ..terms import I, NONE, norm, show, subst, walk

try:
    from re import _parser as sre
except ImportError:  # pragma: no cover
    import sre_parse as sre

TECHNIQUE = "what the field validators establish on every path on which they accept a value, decided over the domains of types, lengths and bounds"
ASSUMPTIONS = [
    "attrs runs the validators of all fields whenever an instance is made or evolved, as long as nothing in the package switches them off",
    "attr.validators.optional, instance_of, and_, in_ and matches_re do what their documentation says",
]
V = p("value")
STATES = ("Pending", "Redeeming", "Redeemed", "DoubleSpend", "Unpaid", "Error")
SQL = {"int", "float", "str", "bytes", "datetime", "NoneType"}
# (class, field, form)
FORMS = [
    ("model.Voucher", "number", ("base64", 44)),
    ("model.Voucher", "expected_tokens", ("int", 1)),
    ("model.Voucher", "created", ("maybe", ("aware",))),
    ("model.Voucher", "state", ("types", STATES)),
    ("model.UnblindedToken", "unblinded_token", ("base64", 128)),
    ("model.RandomToken", "token_value", ("base64", 128)),
    ("model.Pass", "preimage", ("base64", 88)),
    ("model.Pass", "signature", ("base64", 88)),
    ("model.Pending", "counter", ("int", 0)),
    ("model.Redeeming", "counter", ("int", 0)),
    ("model.Redeeming", "started", ("aware",)),
    ("model.Redeemed", "finished", ("aware",)),
    ("model.DoubleSpend", "finished", ("aware",)),
    ("model.Unpaid", "finished", ("aware",)),
    ("model.Error", "finished", ("aware",)),
    ("model.LeaseMaintenanceActivity", "started", ("aware",)),
    ("model.LeaseMaintenanceActivity", "finished", ("aware",)),
    ("replicate.Change", "arguments", ("each", tuple(sorted(SQL)))),
    ("_storage_client.ZKAPAuthorizerStorageClient", "pass_value", ("int", 1)),
    ("_storage_server.ZKAPAuthorizerStorageServer", "pass_value", ("int", 1)),
]
URLSAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
OFF = re.compile(r"^attrs?\.(validators\.)?(set_run_validators|set_disabled|disabled)$")


def check(ctx):
    ctx.rule("form", "a value which is not of the documented form is refused", minimum=len(FORMS))
    ctx.rule("good", "every length and bound which is documented is accepted", minimum=10)
    ctx.rule("class", "instances are made by the validating initialiser only and cannot be changed afterwards", minimum=10)
    ctx.rule("switch", "validation is switched off nowhere", minimum=1)
    ctx.rule("clock", "every time the wallet reads is timezone-aware", minimum=1)
    ctx.rule("encoding", "the base64 decoder refuses what is not base64 text", minimum=2)
    for cls, name, form in FORMS:
        one(ctx, cls, name, form)
    for cls in dict.fromkeys(c for c, _, _ in FORMS if c.split(".")[0] in ("model", "replicate")):
        immutable(ctx, cls)
    switch(ctx)
    clock(ctx)
    encoding(ctx)


# ------------------------------------------------------------------ validators
class Way:
    """One way in which a value is accepted: what is known then."""

    def __init__(self, facts=(), calls=()):
        self.facts = tuple(facts)
        self.calls = tuple(calls)

    def plus(self, other):
        return Way(self.facts + other.facts, self.calls + other.calls)


def both(a, b):
    return [x.plus(y) for x in a for y in b]


def ways_of_path(path, v):
    """What is known at the end of a path, in terms of V."""
    raised = {e.a for e in flat(path.events) if e.kind == "raised"}
    to = {v: V} if v != V else {}
    facts = [(I(subst(e.a, to)), e.b) for e in path.events if e.kind == "guard" and isinstance(e.b, bool)]
    calls = [I(subst(e.a, to)) for e in path.events if e.kind == "call" and e.a not in raised]
    return Way(facts, calls)


ACCEPT = [Way()]


def accepted(ctx, it, t, seen=0):
    """The ways in which a validator, given as a term, accepts V."""
    if seen > 8:
        raise AnalysisBroken("validators are nested too deeply")
    if t == NONE:
        return ACCEPT
    if t[0] in ("list", "tuple"):
        ways = ACCEPT
        for x in t[1]:
            ways = both(ways, accepted(ctx, it, x, seen + 1))
        return ways
    if t[0] == "call" and t[1][0] == "g" and re.match(r"attrs?\.(validators\.)?\w+$", t[1][1]):
        n = t[1][1].rsplit(".", 1)[1]
        if n == "optional":
            isnone = I(("cmp", "is", V, NONE))
            return [Way([(isnone, True)])] + both([Way([(isnone, False)])], accepted(ctx, it, t[2][0], seen + 1))
        if n == "instance_of":
            return [Way([(I(("call", ("g", "builtins.isinstance"), (V, t[2][0]), (), 0)), True)])]
        if n == "and_":
            return accepted(ctx, it, ("list", t[2]), seen + 1)
        if n == "or_":
            return [w for x in t[2] for w in accepted(ctx, it, x, seen + 1)]
        if n in ("ge", "gt", "le", "lt"):
            a, b = t[2][0], V
            op = "<=" if n in ("ge", "le") else "<"
            if n in ("le", "lt"):
                a, b = b, a
            return [Way([(I(("cmp", op, a, b)), True)])]
        if n == "in_":
            return [Way([(I(("cmp", "in", V, t[2][0])), True)])]
        if n in ("min_len", "max_len"):
            ln = I(("call", ("g", "builtins.len"), (V,), (), 0))
            a, b = (t[2][0], ln) if n == "min_len" else (ln, t[2][0])
            return [Way([(I(("cmp", "<=", a, b)), True)])]
        if n == "deep_iterable":
            member = arg(t, 0, "member_validator")
            if member[0] == "call" and fname(member[1]) == "instance_of":
                bad = I(("call", ("g", "builtins.isinstance"), (("elem", V, 0), member[2][0]), (), 0))
                return [Way([(I(("exists", (V,), ((bad, False),))), False)])]
            return ACCEPT
        return ACCEPT
    paths = it.apply(t, [p("inst"), p("attribute"), V])
    return [ways_of_path(x, V) for x in paths if x.kind == "return"]


def decorated(cls, name):
    """Methods of the class which are validators of a field."""
    for m in cls.methods.values():
        for d in m.decorators:
            if isinstance(d, ast.Attribute) and d.attr == "validator" and isinstance(d.value, ast.Name) and d.value.id == name:
                yield m


def field_ways(ctx, cls, f):
    it = ctx.interp(("_base64.*",), raise_all=True)
    ways = ACCEPT
    if isinstance(f.node, ast.Call):
        for k in f.node.keywords:
            if k.arg == "validator":
                it2, ps = ctx.snippet(cls.module.name.split(".", 1)[1], "def form():\n return %s\n" % ast.unparse(k.value), ("_base64.*",), raise_all=True)
                vals = {x.value for x in ps if x.kind == "return"}
                if len(vals) != 1:
                    raise AnalysisBroken("the validator of %s.%s has no single value" % (cls.qual, f.name))
                ways = both(ways, accepted(ctx, it2, vals.pop()))
            elif k.arg is None:
                raise AnalysisBroken("the options of %s.%s are not literal" % (cls.qual, f.name))
    for m in decorated(cls, f.name):
        ctx.functions.add(m.qual)
        ps = it.apply(("bm", p("inst"), m.qual), [p("attribute"), V])
        ways = both(ways, [ways_of_path(x, V) for x in ps if x.kind == "return"])
    post = cls.methods.get("__attrs_post_init__")
    if post is not None:
        v = I(("attr", p("inst"), f.name))
        ctx.functions.add(post.qual)
        ps = it.apply(("bm", p("inst"), post.qual), [])
        ways = both(ways, [ways_of_path(x, v) for x in ps if x.kind == "return"])
    return ways


# ------------------------------------------------------------------ deciding
def value_of(t, env):
    """The value of a term when V is a number or its length is known, else None."""
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[2]
    if t[0] == "call" and t[1] == ("g", "builtins.len") and len(t[2]) == 1:
        return env.get(("len", t[2][0]))
    if t[0] == "bin":
        a, b = value_of(t[2], env), value_of(t[3], env)
        if isinstance(a, int) and isinstance(b, int):
            return {"+": a + b, "-": a - b, "*": a * b, "%": a % b if b else None, "//": a // b if b else None}.get(t[1])
    return None


def truth(t, env):
    if t[0] == "cmp":
        a, b = value_of(t[2], env), value_of(t[3], env)
        if t[1] == "in" and t[3][0] in ("tuple", "list", "set") and a is not None:
            return any(value_of(x, env) == a for x in t[3][1])
        if is_number(a) and is_number(b):
            return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}.get(t[1])
        return None
    if t[0] == "not":
        x = truth(t[1], env)
        return None if x is None else not x
    if t[0] in ("and", "or"):
        xs = [truth(x, env) for x in t[1]]
        if t[0] == "and":
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    x = value_of(t, env)
    return bool(x) if is_number(x) else None


def is_number(x):
    return isinstance(x, int)


def possible(way, env):
    return all(truth(t, env) in (b, None) for t, b in way.facts)


def constants(ways):
    return {x[2] for w in ways for t, _ in w.facts for x in walk(t) if x[0] == "c" and isinstance(x[2], int) and not isinstance(x[2], bool)}


def types_of(ctx, t):
    """The names of the types in the second argument of isinstance."""
    if t[0] in ("tuple", "list"):
        r = set()
        for x in t[1]:
            s = types_of(ctx, x)
            if s is None:
                return None
            r |= s
        return r
    if t[0] == "cls":
        return {t[1].split(".", 1)[1].rsplit(".", 1)[-1]}
    if t[0] == "call" and t[1] == ("g", "builtins.type") and t[2] == (NONE,):
        return {"NoneType"}
    if t[0] == "g":
        if t[1].startswith("_zkapauthorizer."):
            mod, name = t[1].rsplit(".", 1)
            m = ctx.program.modules.get(mod)
            b = m.names.get(name) if m else None
            if b and b[0] == "var" and len(b[1]) == 1 and b[1][0] is not None:
                _, ps = ctx.snippet(mod.split(".", 1)[1], "def form():\n return %s\n" % ast.unparse(b[1][0]))
                if len(ps) == 1 and ps[0].kind == "return" and ps[0].value != t:
                    return types_of(ctx, ps[0].value)
            return None
        return {t[1].rsplit(".", 1)[1]}
    return None


def isinstances(ctx, way, v):
    """The narrowest set of types the value is known to have."""
    best = None
    for t, b in way.facts:
        if not b:
            continue
        if t[0] == "call" and t[1] == ("g", "builtins.isinstance") and len(t[2]) == 2 and t[2][0] == v:
            s = types_of(ctx, t[2][1])
        elif t[0] == "cmp" and t[1] in ("is", "==", "in") and is_call(t[2], "type") and t[2][2] == (v,):
            s = types_of(ctx, t[3])
        else:
            continue
        if s is not None and (best is None or len(s) < len(best)):
            best = s
    return best


def aware(ctx, way, v):
    s = isinstances(ctx, way, v)
    if s is None or not s <= {"datetime", "Arrow"}:
        return False
    zone = (I(("attr", v, "tzinfo")), I(("call", ("attr", v, "utcoffset"), (), (), 0)))
    for t, b in way.facts:
        t = norm(t)
        if t[0] == "cmp" and t[1] == "is" and t[2] in zone and t[3] == NONE and not b:
            return True
        if t[0] == "cmp" and t[1] == "is not" and t[2] in zone and t[3] == NONE and b:
            return True
    return False


STANDARD = {43: 45, 47: 95}


def translated(t):
    """What is replaced in V to make t: {from: to}, or None."""
    m = {}
    while t != V:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and len(t[2]) == 2 and all(x[0] == "c" and isinstance(x[2], bytes) and len(x[2]) == 1 for x in t[2]):
            m[t[2][0][2][0]] = t[2][1][2][0]
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "translate" and len(t[2]) == 1 and is_call(t[2][0], "maketrans") and all(x[0] == "c" for x in t[2][0][2]):
            a, b = (x[2] for x in t[2][0][2])
            m.update(zip(a, b))
            t = t[1][1]
        else:
            return None
    return m


def base64_text(way):
    """Is the value known to be base64; in which alphabets (None: is not)."""
    for t in way.calls:
        f = t[1]
        if f[0] not in ("g", "fn") or not t[2]:
            continue
        m = translated(t[2][0])
        if m is None:
            continue
        n = f[1]
        ok = m.items() <= STANDARD.items() or m.items() <= {b: a for a, b in STANDARD.items()}.items()
        if not ok:
            continue
        if n == "_zkapauthorizer._base64.urlsafe_b64decode":
            return {"url"} | ({"std"} if m == STANDARD else set())
        if n == "base64.b64decode" and any(k == "validate" and v == ("c", "bool", True) for k, v in t[3]):
            alt = arg(t, 1, "altchars")
            if alt is None or alt == NONE:
                return {"std"} | ({"url"} if m == {b: a for a, b in STANDARD.items()} else set())
            if alt == ("c", "bytes", b"-_"):
                return {"url"} | ({"std"} if m == STANDARD else set())
    return None


def one(ctx, short, name, form):
    cls = ctx.program.cls(short)
    ctx_loc = "%s:%d" % (cls.module.relpath, cls.node.lineno)
    f = next((x for x in ctx.program.all_fields(cls) if x.init_name == name), None)
    construct = "%s.%s" % (short, name)
    if f is None:
        ctx.bad("form", construct, ctx_loc, "there is no such field any more", None)
        return
    if f.node is not None:
        ctx_loc = "%s:%d" % (cls.module.relpath, f.node.lineno)
    ways = field_ways(ctx, cls, f)
    kind = form[0]
    if kind == "maybe":
        ways = [w for w in ways if (I(("cmp", "is", V, NONE)), True) not in w.facts]
        form = form[1]
        kind = form[0]
    if kind == "base64":
        n = form[1]
        sizes = sorted({0, 1, 2, 3, 4, n - 4, n - 3, n - 2, n - 1, n, n + 1, n + 2, n + 4, 2 * n} | {c + d for c in constants(ways) for d in (-1, 0, 1) if c + d >= 0})
        fits = [k for k in sizes if any(possible(w, {("len", V): k}) for w in ways)]
        ctx.check(fits and set(fits) <= {n}, "form", construct + ": length", ctx_loc, "a value of %s bytes is accepted, not of %d only" % (", ".join(map(str, fits[:4])) or "no number of", n))
        ctx.check(all(isinstances(ctx, w, V) is not None and isinstances(ctx, w, V) <= {"bytes"} for w in ways), "form", construct + ": type", ctx_loc, "a value which is not a byte string is accepted")
        alphabets = [base64_text(w) for w in ways if possible(w, {("len", V): n})]
        ctx.check(all(a is not None for a in alphabets), "form", construct + ": encoding", ctx_loc, "a value which is not base64 text is accepted")
        want = "url" if short == "model.Voucher" else "std"
        ctx.check(all(a is None or want in a for a in alphabets) and alphabets, "good", construct, ctx_loc, "what is made of %s base64 is not accepted" % {"url": "url-safe", "std": "standard"}[want])
    elif kind == "int":
        low = form[1]
        vals = sorted({-1000, -2, -1, 0, 1, 2, 3, 1000} | {c + d for c in constants(ways) for d in (-1, 0, 1)})
        wrong = [k for k in vals if k < low and any(possible(w, {V: k}) for w in ways)]
        ctx.check(not wrong, "form", construct + ": bound", ctx_loc, "%s is accepted" % (wrong[:1] or [""])[0])
        ctx.check(ways and all((isinstances(ctx, w, V) or {"?"}) <= {"int"} for w in ways), "form", construct + ": type", ctx_loc, "a value which is not an integer is accepted")
        refused = [k for k in vals if k >= low and not any(possible(w, {V: k}) for w in ways)]
        ctx.check(not refused, "good", construct, ctx_loc, "%s is refused" % (refused[:1] or [""])[0])
    elif kind == "aware":
        ctx.check(ways and all(aware(ctx, w, V) for w in ways), "form", construct, ctx_loc, "a time without a time zone, or what is no time, is accepted")
    elif kind == "types":
        got = [isinstances(ctx, w, V) for w in ways]
        ctx.check(got and all(g is not None and g <= set(form[1]) for g in got), "form", construct, ctx_loc, "a value which is none of %s is accepted" % ", ".join(form[1]))
        ctx.check(set(form[1]) <= set().union(*[g or set() for g in got]), "good", construct, ctx_loc, "not all of %s are accepted" % ", ".join(form[1]))
    elif kind == "each":
        got = [each(ctx, w) for w in ways]
        ctx.check(got and all(g is not None and g <= set(form[1]) for g in got), "form", construct, ctx_loc, "a sequence with an element which is none of %s is accepted" % ", ".join(form[1]))
        ctx.check(set(form[1]) - {"datetime"} <= set().union(*[g or set() for g in got]), "good", construct, ctx_loc, "an element of one of the types %s is refused" % ", ".join(form[1]))


def each(ctx, way):
    for t, b in way.facts:
        if t[0] == "exists" and b is False and t[1] == (V,) and len(t[2]) == 1:
            c, want = t[2][0]
            s = isinstances(ctx, Way([(c, not want)]), ("elem", V, 0))
            if s is not None:
                return s
    return None


# ------------------------------------------------------------------ instances
def immutable(ctx, short):
    cls = ctx.program.cls(short)
    where = "%s:%d" % (cls.module.relpath, cls.node.lineno)
    frozen, init = False, cls.attrs_like
    for d in cls.node.decorator_list:
        name = ctx.program.resolve_expr(cls.module, d.func if isinstance(d, ast.Call) else d) or ""
        if re.match(r"attrs?\.frozen$", name):
            frozen = True
        if isinstance(d, ast.Call):
            for k in d.keywords:
                off = isinstance(k.value, ast.Constant) and k.value.value is False
                if k.arg == "init" and not (isinstance(k.value, ast.Constant) and k.value.value is True):
                    init = False
                if k.arg == "frozen":
                    frozen = isinstance(k.value, ast.Constant) and k.value.value is True
    if "__init__" in cls.methods:
        n = cls.methods["__init__"].node
        init = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__attrs_init__" for x in ast.walk(n))
    if "__new__" in cls.methods:
        init = False
    ctx.check(init, "class", short + ": initialiser", where, "the initialiser does not validate the fields")
    ctx.check(frozen, "class", short + ": frozen", where, "an instance can be changed after its fields were validated")


def switch(ctx):
    models = {c.split(".")[1] for c, _, _ in FORMS}
    for name, m in sorted(ctx.program.modules.items()):
        if ".tests" in name:
            continue
        for n in ast.walk(m.tree):
            where = "%s:%d" % (m.relpath, getattr(n, "lineno", 0))
            if isinstance(n, (ast.Name, ast.Attribute)):
                d = ctx.program.resolve_expr(m, n) or ""
                if OFF.match(d):
                    ctx.bad("switch", name, where, "the validation of fields is switched off here (%s)" % d)
                if d == "builtins.object.__setattr__" or isinstance(n, ast.Attribute) and n.attr == "__setattr__" and isinstance(n.value, ast.Name) and n.value.id == "object":
                    ctx.bad("switch", name, where, "a field of a frozen object can be set here")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__new__":
                for a in [n.func.value] + n.args[:1]:
                    d = (ctx.program.resolve_expr(m, a) if isinstance(a, (ast.Name, ast.Attribute)) else None) or ""
                    if d.rsplit(".", 1)[-1] in models:
                        ctx.bad("switch", name, where, "an instance is made here without its fields being validated")
        ctx.ok("switch", name)


def clock(ctx):
    cls = ctx.program.cls("model.VoucherStore")
    f = next((x for x in ctx.program.all_fields(cls) if x.init_name == "now"), None)
    where = "%s:%d" % (cls.module.relpath, cls.node.lineno)
    if f is None:
        raise AnalysisBroken("anchor vanished: the clock of the wallet")
    conv = next((k.value for k in f.node.keywords if k.arg == "converter"), None) if isinstance(f.node, ast.Call) else None
    ok = conv is not None
    if ok:
        it, ps = ctx.snippet(cls.module.name.split(".", 1)[1], "def form(now):\n return (%s)(now)\n" % ast.unparse(conv), raise_all=True)
        for x in ps:
            if x.kind != "return":
                continue
            for y in it.apply(x.value, []):
                if y.kind == "return":
                    ok = ok and aware(ctx, ways_of_path(y, y.value), V)
    ctx.check(ok, "clock", "the wallet's clock", where, "a time without a time zone may be taken from the clock")


def encoding(ctx):
    f = ctx.func("_base64.urlsafe_b64decode")
    it, ps = ctx.run(f, (), raise_all=True)
    arg0 = p(f.node.args.args[0].arg)
    for x in ps:
        if x.kind != "return":
            continue
        pattern = None
        for e in x.events:
            if e.kind == "guard":
                t, b = e.a, e.b
                if t[0] == "cmp" and t[1] in ("is", "==") and t[3] == NONE:
                    t, b = t[2], not b
                if b and t[0] == "call":
                    got = match_call(ctx, t, arg0)
                    pattern = got if got is not None else pattern
        ctx.check(pattern is not None and only_base64(*pattern), "encoding", "urlsafe_b64decode: refuses", f.loc, "text is accepted which is not made of the base64 alphabet", x)
        v = x.value
        ok = v is not None and is_call(v, "b64decode") and v[2] and v[2][0] == arg0 and arg(v, 1, "altchars") == ("c", "bytes", b"-_")
        ok = ok or (v is not None and v[0] == "call" and v[1] == ("g", "base64.urlsafe_b64decode") and v[2] == (arg0,))
        ctx.check(ok, "encoding", "urlsafe_b64decode: result", f.loc, "the result is not the decoded text", x)


def match_call(ctx, t, arg0):
    """(method, pattern) of a regular expression the text was matched with."""
    f = t[1]
    if f[0] == "g":
        m = re.match(r"(_zkapauthorizer\.[\w.]+)\.(\w+)\.(match|fullmatch|search)$", f[1])
        if m and t[2] == (arg0,):
            b = ctx.program.modules[m.group(1)].names.get(m.group(2)) if m.group(1) in ctx.program.modules else None
            if b and b[0] == "var" and len(b[1]) == 1 and isinstance(b[1][0], ast.Call) and b[1][0].args and isinstance(b[1][0].args[0], ast.Constant) and len(b[1][0].args) == 1 and not b[1][0].keywords:
                return m.group(3), b[1][0].args[0].value
        m = re.match(r"re\.(match|fullmatch|search)$", f[1])
        if m and len(t[2]) == 2 and t[2][1] == arg0 and t[2][0][0] == "c":
            return m.group(1), t[2][0][2]
    if f[0] == "attr" and f[2] in ("match", "fullmatch", "search") and t[2] == (arg0,) and f[1][0] == "call" and f[1][1] == ("g", "re.compile") and len(f[1][2]) == 1 and f[1][2][0][0] == "c":
        return f[2], f[1][2][0][2]
    return None


def only_base64(method, pattern):
    """Does every text which matches consist of the url-safe alphabet and padding?"""
    ops = list(sre.parse(pattern))
    start = method in ("match", "fullmatch")
    end = method == "fullmatch"
    if ops and str(ops[0][0]) == "AT" and str(ops[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        start = True
        ops = ops[1:]
    if ops and str(ops[-1][0]) == "AT" and str(ops[-1][1]) in ("AT_END", "AT_END_STRING"):
        end = True
        ops = ops[:-1]
    return start and end and all(chars(o) <= URLSAFE | {61} for o in ops) and any(URLSAFE <= chars(o) for o in ops)


def chars(op):
    """The characters which a part of a pattern can match (None of it beyond: {-1})."""
    k, v = str(op[0]), op[1]
    if k == "LITERAL":
        return {v}
    if k == "IN":
        r = set()
        for kk, vv in v:
            if str(kk) == "LITERAL":
                r.add(vv)
            elif str(kk) == "RANGE":
                r |= set(range(vv[0], vv[1] + 1))
            else:
                return {-1}
        return r
    if k in ("MAX_REPEAT", "MIN_REPEAT"):
        r = set()
        for o in v[2]:
            r |= chars(o)
        return r
    if k == "SUBPATTERN":
        r = set()
        for o in v[3]:
            r |= chars(o)
        return r
    return {-1}
