"""
P30: HTTP requests are validated before they have any effect.  Every handler is
followed with the request's content as an unknown value: which operations on it
can fail, and how, is followed precisely; what is handed on must have been
established by the conditions on the path.
"""
import ast
import re
try:
    from re import _parser as sre_parse
except ImportError:  # before 3.11
    import sre_parse

from .store import *  # noqa: F401,F403
from ..loader import AnalysisBroken
from ..match import disjuncts, enumerate_events, p
from ..terms import I, mentions, norm, walk

TECHNIQUE = "exception-flow and guard analysis of every handler over the parsed request"
ASSUMPTIONS = [
    "json.loads fails with ValueError or RecursionError only, str.encode with UnicodeEncodeError, bytes.decode with UnicodeDecodeError, base64 decoding with ValueError",
    "Twisted answers with 404 for children that do not exist and with 405 for methods that are not allowed",
]
ATOMS = ("model.VoucherStore.*", "controller.PaymentController.*", "pricecalculator.PriceCalculator.*", "tahoe.*", "recover.*", "RecoverFactory.initiate_recovery", "resource.RecoverFactory.*")
LOADS = ("json.loads", "json.load")
CLIENT_ERRORS = {"BAD_REQUEST", "UNAUTHORIZED", "FORBIDDEN", "NOT_FOUND", "NOT_ALLOWED", "NOT_ACCEPTABLE", "UNSUPPORTED_MEDIA_TYPE", "REQUEST_ENTITY_TOO_LARGE", "CONFLICT", "GONE", "LENGTH_REQUIRED", "UNPROCESSABLE_ENTITY"}
PAGES = {"twisted.web.resource.ErrorPage": None, "twisted.web.resource._UnsafeErrorPage": None, "twisted.web.pages.errorPage": None, "twisted.web.resource.NoResource": 404, "twisted.web.resource._UnsafeNoResource": 404, "twisted.web.pages.notFound": 404, "twisted.web.resource.ForbiddenResource": 403, "twisted.web.pages.forbidden": 403}
ENCODINGS = ("ascii", "us-ascii", "utf-8", "utf8", "latin-1")


# -- the request's content ------------------------------------------------
def is_source(t):
    """Does the term stand for something the client chose?"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "read" and t[1][1][0] == "attr" and t[1][1][2] == "content":
        return True
    return t[0] == "p" and t[1].startswith("!")


def tainted(t):
    """Is the term made from the request's content (and not the answer of another part)?"""
    if not isinstance(t, tuple) or not t or t[0] == "exc":
        return False
    if is_source(t):
        return True
    if t[0] == "call":
        f = t[1]
        if f[0] == "attr":
            own = tainted(f[1])
            if own:
                return True
            if f[1][0] not in ("g", "c"):
                return False
        elif f[0] != "g":
            return False
        return any(tainted(x) for x in t[2]) or any(tainted(v) for n, v in t[3])
    return any(tainted(x) for x in t if isinstance(x, tuple))


def known(st, t):
    return st.conds.get(I(t))


def is_type(st, t, *names):
    for n in names:
        g = ("g", "builtins." + n)
        if known(st, ("call", ("g", "builtins.isinstance"), (t, g), (), 0)):
            return True
        ty = ("call", ("g", "builtins.type"), (t,), (), 0)
        for a, b in ((ty, g), (g, ty)):
            if known(st, ("cmp", "is", a, b)) or known(st, ("cmp", "==", a, b)):
                return True
    for c, b in st.conds.items():
        if b and c[0] == "call" and c[1] == ("g", "builtins.isinstance") and len(c[2]) == 2 and c[2][0] == t and c[2][1][0] == "tuple":
            if all(x[0] == "g" and x[1][9:] in names for x in c[2][1][1]):
                return True
    return False


def key_sets(t, d):
    """Is the term the keys of the mapping, as a set?"""
    while t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.set", "builtins.frozenset", "builtins.list", "builtins.sorted", "builtins.tuple") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "comp" and t[1] in ("set", "list") and t[2][0] == "elem" and t[3] == (t[2][1],) and not t[4]:
        t = t[3][0]
    return t == d or (t[0] == "call" and t[1] == ("attr", d, "keys") and not t[2])


def has_key(conds, d, k):
    for c, b in conds:
        if b and c[0] == "cmp" and c[1] == "in" and c[2] == k and key_sets(c[3], d):
            return True
        if b and c[0] == "cmp" and c[1] == "==":
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if key_sets(x, d) and y[0] in ("set", "list", "tuple") and k in y[1]:
                    return True
    return False


def hazards(it, st, op, t):
    """The exceptions with which an operation on the request's content can fail."""
    if op == "call":
        f = t[1]
        if f[0] == "attr" and f[2] == "get" and f[1][0] == "attr" and f[1][1][0] == "self" and any(tainted(x) for x in t[2]):
            return ("builtins.KeyError",)  # VoucherStore.get
        if f[0] == "g" and f[1] in LOADS:
            return ("builtins.ValueError", "builtins.RecursionError") if any(tainted(x) for x in t[2]) else None
        if f[0] == "g" and f[1].rsplit(".", 1)[-1] in ("b64decode", "urlsafe_b64decode", "standard_b64decode", "a2b_base64"):
            return ("builtins.ValueError",) if any(tainted(x) for x in t[2]) else None
        if is_source(t):
            return ()
        if fname(f) in ("match", "fullmatch") and not tainted(f):
            return ()
        if f[0] == "g" and any(tainted(x) for x in t[2]) and not f[1].startswith(("builtins.", "json.", "_zkapauthorizer.", "twisted.", "re.")):
            # some parser
            return ("builtins.Exception",)
        if f[0] == "fn" and any(tainted(x) for x in t[2]):
            return ("builtins.Exception",)
        if f[0] == "attr" and tainted(f[1]) and not is_read(t):
            x, name = f[1], f[2]
            if x[0] == "call" and fname(x[1]) in ("getRawHeaders",):
                return None
            out = ()
            if name == "decode":
                return ("builtins.UnicodeDecodeError",)
            if name == "encode":
                return ("builtins.UnicodeEncodeError",) + (() if texty(st, x) else ("builtins.AttributeError",))
            if of_json(x) and not is_type(st, x, "dict", "str", "list"):
                return ("builtins.AttributeError",)
            return ()
        return None
    if op == "sub":
        b, i = t[1], t[2]
        if not of_json(b):
            return ()
        if is_type(st, b, "dict"):
            return () if has_key(list(st.conds.items()), b, i) else ("builtins.KeyError",)
        if is_type(st, b, "list"):
            return ("builtins.IndexError",)
        return ("builtins.TypeError", "builtins.LookupError")
    if op == "cmp":
        k, a, b = t[1], t[2], t[3]
        if k == "in":
            return () if not of_json(b) or is_type(st, b, "dict", "list") else ("builtins.TypeError",)
        for x in (a, b):
            if of_json(x) and not is_type(st, x, "int", "float"):
                return ("builtins.TypeError",)
        return ()
    if op == "builtin":
        n = t[1][1][9:]
        if n in ("len", "set", "list", "tuple", "sorted", "sum", "min", "max", "iter", "frozenset", "enumerate", "reversed") and t[2]:
            x = t[2][0]
            return ("builtins.TypeError",) if of_json(x) and not is_type(st, x, "list", "dict", "str") else None
        if n in ("int", "float") and t[2] and tainted(t[2][0]):
            return ("builtins.ValueError", "builtins.TypeError", "builtins.OverflowError")
        return None
    if op == "iter":
        x = t[1]
        return ("builtins.TypeError",) if of_json(x) and not is_type(st, x, "list", "dict", "str") else ()
    return None


def is_read(t):
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("read", "getvalue", "seek", "close")


def texty(st, t):
    """Certainly a string?"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "decode":
        return True
    return not of_json(t) or is_type(st, t, "str")


def of_json(t):
    """A value inside of a parsed body, of a type not known from its form."""
    if t[0] == "call":
        if t[1][0] == "g" and t[1][1] in LOADS:
            return True
        return t[1][0] == "attr" and t[1][2] in ("get", "pop", "setdefault") and of_json(t[1][1])
    if t[0] == "sub":
        return of_json(t[1])
    if t[0] == "elem":
        return of_json(t[1])
    return False


# -- what a request that is acted on must satisfy --------------------------
class Conds:
    """What is known at an event."""

    def __init__(self, guards, calls):
        self.guards = list(guards)
        self.conds = {}
        for t, b in guards:
            while t[0] == "not":
                t, b = t[1], not b
            self.conds[I(t)] = b
        self.calls = calls


def body_item(ctx, rule, construct, e, path, k, t, key):
    """Is the term this property of the request's body, which was checked to be an object with exactly this one?"""
    d = item_of(t, key)
    ok = d is not None and d[0] == "call" and d[1][0] == "g" and d[1][1] in LOADS
    ctx.check(ok, rule, construct + ": what", e.loc, "what is handed on is not the `%s` of the request" % key, path)
    if not ok:
        return None
    ctx.check(is_type(k, d, "dict"), rule, construct + ": object", e.loc, "the request is acted on although its body may be no object", path)
    return d


def item_of(t, key):
    if t[0] == "sub" and t[2] == const(key):
        return t[1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("get", "pop") and t[2] and t[2][0] == const(key):
        return t[1][1]
    return None


def only_key(k, d, key):
    for c, b in k.guards:
        if b and c[0] == "cmp" and c[1] == "==":
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if key_sets(x, d) and y[0] in ("set", "list", "tuple", "dict") and len(y[1]) == 1 and y[1][0] == const(key):
                    return True
                if x[0] == "call" and x[1] == ("g", "builtins.len") and key_sets(x[2][0], d) and y == const(1) and has_key(k.guards, d, const(key)):
                    return True
    return False


def plain(t):
    """The text, not how it is encoded."""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("encode", "decode") and all(x[0] == "c" for x in t[2]):
        t = t[1][1]
    return t


def alphabet(ctx, t):
    """Characters which a successful match of the pattern allows, or None."""
    f = t[1]
    name = fname(f)
    if f[0] == "g" and not f[1].startswith("re."):
        f = ("attr", ("g", f[1].rsplit(".", 1)[0]), name)
    if f[0] not in ("attr", "g"):
        return None
    if name not in ("match", "fullmatch"):
        return None
    pattern = None
    if f[0] == "g" or f[1] == ("g", "re"):
        pattern = t[2][0] if t[2] else None
    else:
        pattern = f[1]
        if pattern[0] == "g":
            m, exprs = ctx.program.global_var(pattern[1])
            vs = ctx.expression(m, exprs[0]) if m is not None and exprs and len(exprs) == 1 else []
            pattern = vs[0].value if len(vs) == 1 else None
        if pattern is not None and pattern[0] == "call" and pattern[1] == ("g", "re.compile") and len(pattern[2]) == 1 and not pattern[3]:
            pattern = pattern[2][0]
    if pattern is None or not is_const(pattern) or not isinstance(cval(pattern), (bytes, str)):
        return None
    try:
        tree = sre_parse.parse(cval(pattern))
    except re.error:
        return None
    chars, ends = set(), [False]

    def go(items):
        for op, av in items:
            op = str(op)
            if op == "LITERAL":
                chars.add(av)
            elif op == "IN":
                for o, v in av:
                    if str(o) == "LITERAL":
                        chars.add(v)
                    elif str(o) == "RANGE":
                        chars.update(range(v[0], v[1] + 1))
                    else:
                        return False
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                if go(av[2]) is False:
                    return False
            elif op == "SUBPATTERN":
                if go(av[-1]) is False:
                    return False
            elif op == "BRANCH":
                if any(go(x) is False for x in av[1]):
                    return False
            elif op == "AT":
                if "END" in str(av):
                    ends[0] = True
            else:
                return False
        return True
    if go(tree) is False or not (name == "fullmatch" or ends[0]):
        return None
    return {chr(c) for c in chars}


ALPHABET = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")


def is_voucher(ctx, construct, e, path, k, t, text):
    """Was the text (known to be one unless ``text``) checked to be a voucher?"""
    root = plain(t)
    if text:
        ctx.check(is_type(k, root, "str"), "voucher", construct + ": text", e.loc, "what is taken for a voucher may be no string", path)
    sized = any(b and c[0] == "cmp" and c[1] == "==" and any(x[0] == "call" and x[1] == ("g", "builtins.len") and plain(x[2][0]) == root and y == const(44) for x, y in ((c[2], c[3]), (c[3], c[2]))) for c, b in k.conds.items())
    ctx.check(sized, "voucher", construct + ": length", e.loc, "what is taken for a voucher may have another length", path)
    matched = False
    for c, b in k.conds.items():
        if c[0] == "cmp" and c[1] == "is" and c[3] == ("c", "NoneType", None):
            c, b = c[2], not b
        if c[0] == "cmp" and c[1] == "is" and is_const(c[3]) and cval(c[3]) is None:
            c, b = c[2], not b
        if b and c[0] == "call" and c[2] and plain(c[2][-1]) == root and fname(c[1]) in ("match", "fullmatch"):
            a = alphabet(ctx, c)
            matched = matched or (a is not None and a - {"="} == ALPHABET)
    ctx.check(matched, "voucher", construct + ": characters", e.loc, "what is taken for a voucher may have other characters than those of a voucher", path)
    decoded = any(c[1][0] == "g" and c[1][1].rsplit(".", 1)[-1] in ("b64decode", "urlsafe_b64decode") and c[2] and plain(c[2][0]) == root for c in k.calls)
    ctx.check(decoded, "voucher", construct + ": encoding", e.loc, "what is taken for a voucher may not be base64-encoded", path)


def act_redeem(ctx, f, e, path, k, source):
    t = e.a[2][0] if e.a[2] else None
    if t is None:
        return
    root = plain(t)
    d = body_item(ctx, "voucher", "redeem", e, path, k, root, "voucher")
    if d is None:
        return
    ctx.check(only_key(k, d, "voucher"), "voucher", "redeem: only", e.loc, "a voucher is taken from a body which may have other properties", path)
    is_voucher(ctx, "redeem", e, path, k, t, True)


def act_get(ctx, f, e, path, k, source):
    t = e.a[2][0] if e.a[2] else None
    ok = t is not None and plain(t) == source
    ctx.check(ok, "voucher", "lookup: what", e.loc, "the voucher which is looked up is not the one in the path of the request", path)
    if ok:
        is_voucher(ctx, "lookup", e, path, k, t, False)


def act_calculate(ctx, f, e, path, k, source):
    t = strip_list(e.a[2][0]) if e.a[2] else None
    if t is None:
        return
    d = body_item(ctx, "price", "price", e, path, k, t, "sizes")
    if d is None:
        return
    v = any(b and c[0] == "cmp" and c[1] == "==" and c[3] == const(1) and item_of(c[2], "version") == d for c, b in k.conds.items())
    ctx.check(v, "price", "price: version", e.loc, "a price query of an unknown version is answered", path)
    ctx.check(is_type(k, t, "list"), "price", "price: list", e.loc, "the sizes of a price query may be no list", path)
    alts = [a for c, b in k.guards if not b and c[0] == "exists" and [strip_list(x) for x in c[1]] == [t] for a in disjuncts(c[2])]
    for what, facts in (("integers", {"int": False, "bool": False}), ("booleans", {"int": True, "bool": True}), ("negative", {"int": True, "bool": False, "neg": True})):
        ok = any(all(size_fact(c, t, facts) == b for c, b in a) for a in alts)
        ctx.check(ok, "price", "price: " + what, e.loc, {"integers": "sizes which are not integers", "booleans": "true and false", "negative": "negative sizes"}[what] + " are accepted in a price query", path)


def size_fact(c, sizes, facts):
    """Truth of a condition about one of the sizes."""
    el = lambda x: x[0] == "elem" and strip_list(x[1]) == sizes
    if c[0] == "not":
        v = size_fact(c[1], sizes, facts)
        return None if v is None else not v
    if c[0] == "call" and c[1] == ("g", "builtins.isinstance") and len(c[2]) == 2 and el(c[2][0]):
        cs = c[2][1][1] if c[2][1][0] == "tuple" else (c[2][1],)
        if any(x == ("g", "builtins.int") for x in cs) and facts["int"]:
            return True
        if any(x == ("g", "builtins.bool") for x in cs) and facts["bool"]:
            return True
        if all(x in (("g", "builtins.int"), ("g", "builtins.bool")) for x in cs):
            return False
        return None
    if c[0] == "cmp" and c[1] in ("is", "=="):
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x[0] == "call" and x[1] == ("g", "builtins.type") and el(x[2][0]):
                if y == ("g", "builtins.int"):
                    return facts["int"] and not facts["bool"]
                if y == ("g", "builtins.bool"):
                    return facts["bool"]
    if c[0] == "cmp" and c[1] == "<" and facts["int"]:
        if el(c[2]) and is_const(c[3]) and "neg" in facts and cval(c[3]) == 0:
            return facts["neg"]
        if el(c[3]) and is_const(c[2]) and "neg" in facts and cval(c[2]) == -1:
            return not facts["neg"]
    return None


def act_recover(ctx, f, e, path, k, source):
    t = e.a[2][0] if e.a[2] else None
    ok = t is not None and t[0] == "call" and t[1][0] == "g" and t[1][1].startswith("tahoe_capabilities.") and len(t[2]) == 1
    ctx.check(ok, "recovery", "recover: parsed", e.loc, "a recovery is started with something else than a parsed capability", path)
    if not ok:
        return
    if t[1][1] != "tahoe_capabilities.readonly_directory_from_string":
        good = any(b and c[0] == "call" and c[1] == ("g", "builtins.isinstance") and c[2][0] == t and c[2][1][0] == "g" and c[2][1][1].rsplit(".", 1)[-1] == "DirectoryReadCapability" for c, b in k.conds.items())
        ctx.check(good, "recovery", "recover: read-only directory", e.loc, "a recovery is started with another kind of capability", path)
    d = body_item(ctx, "recovery", "recover", e, path, k, t[2][0], "recovery-capability")
    if d is None:
        return
    ctx.check(only_key(k, d, "recovery-capability"), "recovery", "recover: only", e.loc, "a recovery is started for a body which may have other properties", path)
    ctx.check(is_type(k, t[2][0], "str"), "recovery", "recover: text", e.loc, "what is taken for a capability may be no string", path)


ACTS = {
    "PaymentController.redeem": act_redeem,
    "VoucherStore.get": act_get,
    "PriceCalculator.calculate": act_calculate,
    "RecoverFactory.initiate_recovery": act_recover,
}
# what only tells the client something
QUIET = ("list", "get_latest_lease_maintenance_activity", "incorporate_transient_state")


NAMES = {a.split(".")[1]: a for a in ACTS}


def act_of(e):
    """The part of the system a call goes to: ``Class.method``."""
    if e.kind != "call":
        return None
    if getattr(e.target, "qual", None) is not None:
        return ".".join(e.target.qual.split(".")[-2:])
    f = e.a[1]
    if f[0] == "attr" and f[1][0] == "attr" and f[1][1][0] == "self" and not any(e.a[1][2] == n for n in ("debug", "info", "warn", "error", "failure", "critical")):
        # what belongs to the handler
        return NAMES.get(f[2], f[1][2] + "." + f[2])
    return None


def client_error(t):
    if is_const(t) and isinstance(cval(t), int):
        return 400 <= cval(t) < 500
    return t[0] == "g" and t[1].rsplit(".", 1)[-1] in CLIENT_ERRORS


def page(t):
    """The response code of an error page: True, False, or 404."""
    if t[0] == "call" and t[1][0] in ("g", "cls") and t[1][1] in PAGES:
        code = PAGES[t[1][1]]
        if code is not None:
            return code
        return bool(t[2]) and client_error(t[2][0])
    return None


def refused(f, path):
    """Is the client told that its request was wrong?"""
    if f.name == "getChild":
        return bool(page(path.value))
    calls = [e.a for e in flat(path.events) if e.kind == "call"]
    if f.name == "onMessage":
        return any(fname(c[1]) == "sendClose" and is_const(arg(c, 0, "code") or NONE) and isinstance(cval(arg(c, 0, "code")), int) and 4000 <= cval(arg(c, 0, "code")) < 5000 for c in calls)
    v = path.value
    codes = [c[2][0] for c in calls if fname(c[1]) == "setResponseCode" and c[2]]
    said = bool(codes) and client_error(codes[-1])
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "render":
        return bool(page(v[1][1]))
    if v == ("g", "twisted.web.server.NOT_DONE_YET") or v == const(1):
        return said and any(fname(c[1]) == "finish" for c in calls)
    return said


def handlers(ctx):
    for c in ctx.program.classes.values():
        if ".tests." in c.qual:
            continue
        http = ctx.program.is_subclass(c.qual, "twisted.web.resource.Resource")
        ws = any(b.rsplit(".", 1)[-1] == "WebSocketServerProtocol" for b in bases(ctx, c))
        for n, m in c.methods.items():
            if http and (n.startswith("render") or n in ("getChild", "getChildWithDefault")) or ws and n == "onMessage":
                yield m


def bases(ctx, c):
    out = []
    for k in ctx.program.mro(c):
        for b in k.node.bases:
            d = ctx.program.resolve_expr(k.module, b)
            if d:
                out.append(d)
    return out


def check(ctx):
    ctx.rule("voucher", "a voucher is submitted or looked up only when it was found to be one", 10)
    ctx.rule("price", "prices are calculated only for lists of sizes", 7)
    ctx.rule("recovery", "a recovery is started only with a capability", 5)
    ctx.rule("refused", "any other request gives a client error and has no effect", 9)
    ctx.rule("unknown", "unknown vouchers give not-found, known ones their state", 2)
    ctx.rule("handler", "every handler which takes a request's content is known", 4)
    done = set()
    for f in handlers(ctx):
        done |= handler(ctx, f)
    for a in ACTS:
        ctx.check(a in done, "handler", a, None, "no request leads to %s" % a)


def handler(ctx, f):
    args = {}
    source = None
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if f.name in ("getChild", "getChildWithDefault", "onMessage") and len(names) > 1:
        source = ("p", "!" + names[1])
        args = {names[1]: source}
    it, paths = ctx.run(f, ATOMS, args=args, hazards=hazards)
    takes = source is not None or any(e.kind in ("call", "raised") and tainted(e.a) for x in paths for e in flat(x.events))
    name = ".".join(f.qual.split(".")[-2:])
    done = set()
    if not takes:
        return done
    for x in paths:
        acts = []
        calls = []
        for e, guards in enumerate_events(x.events):
            if e.kind != "call":
                continue
            a = act_of(e)
            if a in ACTS and any(tainted(y) for y in e.a[2]):
                k = Conds(guards, tuple(calls))
                acts.append(e)
                done.add(a)
                ACTS[a](ctx, f, e, x, k, source)
                said = [c for c in calls if (fname(c[1]) == "setResponseCode" and c[2] and client_error(c[2][0])) or fname(c[1]) == "sendClose"]
                ctx.check(not said, "refused", name + ": " + a, e.loc, "a request which is refused is acted on", x)
            elif a is not None and a.split(".")[-1] not in QUIET and any(tainted(y) for y in e.a[2]):
                ctx.bad("handler", name + ": " + a, e.loc, "the content of a request is handed to %s unchecked" % a, x)
            elif a is not None and a.split(".")[-1] not in QUIET:
                acts.append(e)
            calls.append(e.a)
        if x.kind == "raise":
            why = next((e for e in reversed(list(flat(x.events))) if e.kind == "raised"), None)
            ctx.bad("refused", name, why.loc if why is not None else f.loc(), "a request can make the handler fail (%s) instead of being refused" % show(x.value)[:100], x)
            continue
        looked = [e for e in acts if act_of(e) == "VoucherStore.get"]
        if looked:
            missing = any(e.kind == "raised" and e.a == looked[-1].a for e in flat(x.events))
            if missing:
                ctx.check(page(x.value) == 404, "unknown", "unknown", looked[-1].loc, "an unknown voucher does not give not-found", x)
            else:
                ctx.check(mentions(x.value, lambda y: y == looked[-1].a), "unknown", "known", looked[-1].loc, "what is shown for a voucher is not its state", x)
        elif not acts:
            ctx.check(refused(f, x), "refused", name, f.loc(), "a request that is not acted on is not refused with a client error", x)
        else:
            ctx.check(not refused(f, x), "refused", name + ": accepted", f.loc(), "a request which is refused has an effect", x)
    return done
