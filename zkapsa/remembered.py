"""
Functions whose results are remembered (``functools.lru_cache`` and the like).

A remembered function runs once per argument and process.  The interpreter
analyses what the function does when it runs; that is also what happens at
every later call only if its result depends on nothing but its arguments and
it has no effects.  This is decided from its syntax, and that of what it calls.
"""
import ast
import builtins

CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property", "cached_property.cached_property", "cachetools.cached", "cachetools.cachedmethod"}

BUILTINS = {
    "abs", "all", "any", "bool", "bytes", "chr", "dict", "divmod", "enumerate", "filter", "float", "format", "frozenset",
    "getattr", "hasattr", "hash", "int", "isinstance", "issubclass", "iter", "len", "list", "map", "max", "min", "next", "object", "ord",
    "pow", "range", "repr", "reversed", "round", "set", "slice", "sorted", "str", "sum", "super", "tuple", "type", "zip",
}
LIBRARY = ("pyutil.mathutil.", "math.", "base64.", "binascii.", "hashlib.", "hmac.", "re.", "json.", "struct.", "itertools.", "functools.", "operator.", "collections.", "typing.",
           "datetime.timedelta", "datetime.datetime", "attr.", "attrs.", "hyperlink.", "cbor2.", "challenge_bypass_ristretto.", "allmydata.util.base32.",
           "allmydata.util.hashutil.", "tahoe_capabilities.", "urllib.parse.", "enum.", "decimal.", "fractions.", "string.", "textwrap.")
NOT_PURE = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today",
            "challenge_bypass_ristretto.RandomToken.create", "challenge_bypass_ristretto.random_signing_key"}
METHODS = {
    "encode", "decode", "split", "rsplit", "join", "strip", "lstrip", "rstrip", "format", "lower", "upper", "title", "replace",
    "startswith", "endswith", "partition", "rpartition", "hex", "fromhex", "get", "items", "keys", "values", "index", "count", "find",
    "copy", "total_seconds", "isoformat", "timestamp", "child", "to_text", "to_uri", "zfill", "isdigit", "union", "intersection",
    "difference", "issubset", "issuperset", "digest", "hexdigest", "match", "fullmatch", "search", "group", "groups", "to_bytes", "from_bytes",
    "encode_base64", "decode_base64", "preimage", "public_key", "rederive_unblinded_token", "derive_verification_key_sha512",
    "sign_sha512", "verify_sha512", "invalid_sha512", "sign", "get_config", "as_integer_ratio", "bit_length", "mean", "_asdict",
}


def remembers(program, func):
    for d in func.decorators:
        t = d.func if isinstance(d, ast.Call) else d
        if (program.resolve_expr(func.module, t) or "") in CACHES:
            return True
    return False


def impure(program, func, seen=()):
    """A node of the function (or of what it calls) with an effect, or which may give something else later."""
    if func.qual in seen:
        return None
    seen = seen + (func.qual,)
    local = local_names(func.node)
    for n in ast.walk(func.node):
        if n in func.decorators or isinstance(n, ast.FunctionDef) and n is func.node:
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Await, ast.Yield, ast.YieldFrom, ast.AsyncFor, ast.AsyncWith, ast.Delete, ast.With)):
            return n
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                        base = x.value
                        while isinstance(base, (ast.Attribute, ast.Subscript)):
                            base = base.value
                        if not (isinstance(base, ast.Name) and base.id in local):
                            return n
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and changes_later(program, func, n):
            return n
        if isinstance(n, ast.Call):
            bad = impure_call(program, func, n, local, seen)
            if bad is not None:
                return bad
    return None


def local_names(node):
    """Names assigned in a function, from something it made."""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def changes_later(program, func, n):
    """An attribute of the function's own object which is assigned outside its constructor."""
    if func.cls is None or not isinstance(n.value, ast.Name):
        return False
    a = func.node.args
    first = (a.posonlyargs + a.args)[:1]
    if not first or n.value.id != first[0].arg:
        return False
    for m in func.cls.methods.values():
        if m.name in ("__init__", "__attrs_post_init__"):
            continue
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr == n.attr and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
    m = program.find_method(func.cls, n.attr)
    return m is not None and any((program.resolve_expr(m.module, d) or "") == "builtins.property" for d in m.decorators) and impure(program, m) is not None


def impure_call(program, func, n, local, seen):
    f = n.func
    if isinstance(f, ast.Name) and hasattr(builtins, f.id) and program.resolve_expr(func.module, f) in (None, "builtins." + f.id):
        b = getattr(builtins, f.id)
        return None if f.id in BUILTINS or isinstance(b, type) and issubclass(b, BaseException) else n
    dotted = program.resolve_expr(func.module, f)
    if dotted:
        q = program.canonical(dotted)
        if q in program.functions:
            return n if impure(program, program.functions[q], seen) is not None else None
        if q in program.classes:
            c = program.classes[q]
            init = program.find_method(c, "__init__")
            return None if init is None or impure(program, init, seen) is None else n
        owner, _, name = q.rpartition(".")
        if owner in program.classes:
            m = program.find_method(program.classes[owner], name)
            if m is not None:
                return n if impure(program, m, seen) is not None else None
        if dotted in NOT_PURE:
            return n
        if dotted.startswith(LIBRARY):
            return None
        if not dotted.startswith("builtins."):
            return n
    if isinstance(f, ast.Attribute):
        if func.cls is not None and isinstance(f.value, ast.Name):
            a = func.node.args
            first = (a.posonlyargs + a.args)[:1]
            if first and f.value.id == first[0].arg:
                m = program.find_method(func.cls, f.attr)
                if m is not None:
                    return n if impure(program, m, seen) is not None else None
        if f.attr in METHODS:
            return None
        if f.attr in ("append", "extend", "add", "update", "setdefault", "insert", "sort", "reverse", "pop") and isinstance(f.value, ast.Name) and f.value.id in local:
            return None
    return n


def check(ctx):
    """Report the remembered functions among those the paths analysed run through or call."""
    for q in sorted(ctx.functions | ctx.inlined | ctx.called):
        func = ctx.program.functions.get(q)
        if func is None or not remembers(ctx.program, func):
            continue
        ctx.rule("not-remembered", "a function whose result is remembered has no effects and depends on nothing but its arguments", minimum=0)
        bad = impure(ctx.program, func)
        short = q.partition(".")[2]
        if bad is None:
            ctx.ok("not-remembered", short)
        else:
            ctx.bad("not-remembered", short, func.loc(), "its result is remembered, so that later calls do nothing and see nothing new; but what it does is not the same at every call (line %s: %s)" % (
                getattr(bad, "lineno", "?"), ast.unparse(bad)[:100]))
