"""
P29: every HTTP resource is behind the node's API token.  The resource the
plugin gives to the node is followed from where it is built: what it is, which
checks it applies, and with what the presented token is compared.
"""
import ast

from .store import *  # noqa: F401,F403
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk

TECHNIQUE = "value flow of the resource tree into the authorization wrapper; dominance of the comparison; escape scan"
ASSUMPTIONS = [
    "twisted.web.guard.HTTPAuthSessionWrapper and twisted.cred.portal.Portal behave as documented: only a checker of a presented credential's interface can log in",
]
ATOMS = ("_plugin.ZKAPAuthorizer._get_store", "model.VoucherStore.*", "controller.PaymentController.*", "pricecalculator.PriceCalculator.*", "lease_maintenance.LeaseMaintenanceConfig.*")
WRAPPER = "twisted.web.guard.HTTPAuthSessionWrapper"
PORTAL = "twisted.cred.portal.Portal"
CONSTANT_TIME = ("cryptography.hazmat.primitives.constant_time.bytes_eq", "hmac.compare_digest", "secrets.compare_digest")
INTERNAL = {"cryptography.hazmat.primitives.constant_time"}


def check(ctx):
    ctx.rule("wrapper", "what the plugin gives to the node is the authorization wrapper, around everything", 4)
    ctx.rule("checker", "the only way in is a token which is compared as a whole, in constant time", 4)
    ctx.rule("scheme", "the credential is what was presented in the documented scheme", 2)
    ctx.rule("token", "the required token is the node's private API token, read for each request", 2)
    ctx.rule("only", "no other way to reach the resources is created", 2)
    parts = wrapper(ctx)
    for new, path, it in parts["checkers"]:
        checker(ctx, new, path, it)
    for cls in {n[1]: n for n, _, _ in parts["factories"]}.values():
        scheme(ctx, cls)
    for cls in {n[1]: n for n in parts["realms"]}.values():
        realm(ctx, cls)
    only(ctx, parts)


def new_class(ctx, t):
    return ctx.program.classes.get(t[1]) if t[0] == "new" else None


def wrapper(ctx):
    f = ctx.func("_plugin.ZKAPAuthorizer.get_client_resource")
    it, paths = ctx.run(f, ATOMS)
    out = {"checkers": [], "factories": [], "realms": [], "roots": set(), "tree": set()}
    seen = set()
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        if not (v[0] == "call" and v[1] == ("g", WRAPPER) and len(v[2]) >= 2):
            ctx.bad("wrapper", "returned", f.loc(), "the node is given resources which are not behind the authorization wrapper: %s" % show(v)[:120], path)
            continue
        portal, factories = v[2][0], strip_list(v[2][1])
        ok = portal[0] == "call" and portal[1] == ("g", PORTAL) and portal[2]
        ctx.check(bool(ok), "wrapper", "returned", f.loc(), "the authorization wrapper has no portal", path)
        if not ok:
            continue
        r = portal[2][0]
        cs = strip_list(portal[2][1]) if len(portal[2]) > 1 else None
        ctx.check(cs is not None and cs[0] in ("list", "tuple", "set") and len(cs[1]) == 1 and new_class(ctx, cs[1][0]) is not None, "checker", "the only one", f.loc(), "there are other ways to log in than the token checker", path)
        ctx.check(factories[0] in ("list", "tuple") and len(factories[1]) == 1 and new_class(ctx, factories[1][0]) is not None, "scheme", "the only one", f.loc(), "there are other authorization schemes", path)
        ctx.check(r[0] == "new" and new_class(ctx, r) is not None, "wrapper", "realm", f.loc(), "the realm of the wrapper is unknown", path)
        evs = list(flat(path.events))
        for e in evs:
            if e.kind == "call" and fname(e.a[1]) in ("registerChecker", "putChild") and receiver(e.a) in (portal, v):
                ctx.bad("checker" if fname(e.a[1]) == "registerChecker" else "wrapper", "changed", e.loc, "the authorization wrapper is changed after it was made", path)
            if e.kind == "setattr" and e.a in (portal, r) and not e.b.startswith("__"):
                ctx.bad("wrapper", "changed", e.loc, "the authorization wrapper is changed after it was made", path)
            if e.kind == "setattr" and e.a == v and e.b in ("_portal", "_credentialFactories", "render", "getChildWithDefault", "children", "isLeaf"):
                ctx.bad("wrapper", "changed", e.loc, "the authorization wrapper is changed after it was made", path)
        if cs is not None and cs[0] in ("list", "tuple", "set"):
            out["checkers"] += [(c, path, it) for c in cs[1] if new_class(ctx, c) is not None and (c[1],) not in seen and not seen.add((c[1],))]
        out["factories"] += [(c, path, it) for c in factories[1] if c[0] == "new"] if factories[0] in ("list", "tuple") else []
        out["realms"].append(r)
        # the tree is inside
        put = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "putChild"]
        out["tree"] |= {receiver(e.a) for e in put}
        inside = {x for x in walk(r)}
        changed = True
        while changed:
            changed = False
            for e in put:
                if receiver(e.a) in inside and not set(e.a[2]) <= inside:
                    inside |= {x for a in e.a[2] for x in walk(a)}
                    changed = True
        for e in put:
            ctx.check(receiver(e.a) in inside, "wrapper", "child %s" % (show(e.a[2][0]) if e.a[2] else "?"), e.loc, "a resource is put outside of the authorization wrapper", path)
        out["inside"] = len(put)
    ctx.check(bool(out["realms"]), "wrapper", "made", f.loc(), "no authorization wrapper is made")
    return out


def checker(ctx, new, path, it):
    cls = new_class(ctx, new)
    m = cls.methods.get("requestAvatarId")
    if m is None:
        raise AnalysisBroken("anchor vanished: %s.requestAvatarId" % cls.qual)
    # which credentials it accepts
    ifs = class_value(cls, "credentialInterfaces")
    names = [ctx.program.resolve_expr(cls.module, x) for x in ifs] if ifs is not None else None
    ctx.check(bool(names) and all(n in ctx.program.classes for n in names), "checker", "interfaces", (cls.module.relpath, cls.node.lineno), "credentials other than tokens are accepted")
    me = ("self", cls.qual)
    get = [n for n, v in new[2] if v[0] in ("clo", "partial", "bm", "fn")]
    cred = p([a.arg for a in m.node.args.posonlyargs + m.node.args.args][1])
    i2, paths = ctx.run(m)
    granted = 0
    for x in paths:
        if x.kind == "raise":
            ctx.ok("checker", "refused")
            continue
        if x.value[0] == "call" and fname(x.value[1]) == "fail":
            ctx.ok("checker", "refused")
            continue
        granted += 1
        ok = False
        for e in flat(x.events):
            if e.kind == "guard":
                t, b = e.a, e.b
                if t[0] == "not":
                    t, b = t[1], not b
                if t[0] == "call" and t[1][0] == "g" and t[1][1] in CONSTANT_TIME and b and len(t[2]) == 2:
                    sides = set(t[2])
                    presented = [s for s in t[2] if s[0] == "attr" and s[1] == cred]
                    required = [s for s in t[2] if s[0] == "call" and s[1][0] == "attr" and s[1][1] == me and s[1][2] in get and not s[2]]
                    ok = ok or (len(sides) == 2 and bool(presented) and bool(required))
        ctx.check(ok, "checker", "compared", m.loc(), "access is given although the presented token was not compared, in constant time and as a whole, with the required one", x)
    ctx.check(granted > 0, "checker", "granted", m.loc(), "access is never given")
    # the required token
    ctx.check(len(get) == 1, "token", "source", m.loc(), "the required token is fixed when the node starts")
    for n, v in new[2]:
        if n in get:
            for o in it.apply(v, (), path.st):
                ctx.paths += 1
                if o.kind != "return":
                    continue
                t = o.value
                while t[0] == "call" and t[1][0] == "attr" and fname(t[1]) in ("encode", "strip"):
                    t = t[1][1]
                ok = t[0] == "call" and fname(t[1]) == "get_private_config" and arg(t, 0, "name") == const("api_auth_token") and len(t[2]) + len(t[3]) == 1
                ctx.check(ok, "token", "read", m.loc(), "the required token is not the node's API token: %s" % show(o.value)[:100], o)


def class_value(cls, name):
    for s in cls.node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in ts) and isinstance(s.value, (ast.List, ast.Tuple, ast.Set)):
                return s.value.elts
    return None


def scheme(ctx, new):
    cls = new_class(ctx, new)
    m = cls.methods.get("decode")
    if m is None:
        raise AnalysisBroken("anchor vanished: %s.decode" % cls.qual)
    presented = p([a.arg for a in m.node.args.posonlyargs + m.node.args.args][1])
    it, paths = ctx.run(m)
    for x in paths:
        if x.kind == "return":
            ok = x.value[0] == "new" and [v for n, v in x.value[2]] == [presented]
            ctx.check(ok, "scheme", "presented", m.loc(), "the credential is not the token which was presented", x)
    v = None
    for s in cls.node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == "scheme" for t in ts):
                vs = ctx.expression(cls.module, s.value)
                v = vs[0].value if len(vs) == 1 else None
    ctx.check(v == const(b"tahoe-lafs"), "scheme", "name", (cls.module.relpath, cls.node.lineno), "the scheme is not the documented one")


def realm(ctx, new):
    cls = new_class(ctx, new)
    m = cls.methods.get("requestAvatar")
    if m is None:
        raise AnalysisBroken("anchor vanished: %s.requestAvatar" % cls.qual)
    it, paths = ctx.run(m)
    me = ("self", cls.qual)
    for x in paths:
        if x.kind == "return":
            ok = x.value[0] == "tuple" and len(x.value[1]) == 3 and x.value[1][0] == ("g", "twisted.web.resource.IResource") and x.value[1][1][0] == "attr" and x.value[1][1][1] == me
            ctx.check(ok, "wrapper", "avatar", m.loc(), "the realm gives out something else than the resources it protects", x)


def only(ctx, parts):
    """The tree, and what reaches into the wrapper, is used nowhere else."""
    tree = None
    for q in ("_zkapauthorizer.resource.authorizationless_resource_tree",):
        tree = ctx.program.functions.get(q)
    n = 0
    for m in ctx.program.modules.values():
        if ".tests" in m.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                r = ctx.program.resolve_expr(m, x)
                if r is None:
                    continue
                if r in ("twisted.web.server.Site", "twisted.web.resource.NoResource") and r.endswith("Site"):
                    ctx.bad("only", "site", (m.relpath, x.lineno), "another web server is set up")
                if r.startswith("twisted.") and r.rsplit(".", 1)[-1] in ("serverFromString", "TCP4ServerEndpoint", "TCP6ServerEndpoint", "listenWS"):
                    ctx.bad("only", "listens", (m.relpath, x.lineno), "another server is set up")
                if tree is not None and r == tree.qual and isinstance(x, ast.Name):
                    n += 1
                    q = owner(ctx, m, x)
                    ctx.check(q in ctx.functions or q in ctx.inlined, "only", "tree used by %s" % (q or m.name).split(".", 1)[-1], (m.relpath, x.lineno), "the unprotected resources are used without the authorization wrapper")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("listenTCP", "listenSSL", "listenUNIX", "listen"):
                ctx.bad("only", "listens", (m.relpath, x.lineno), "another server is set up")
    # whoever takes the wrapper apart is not used by anything
    apart = set()
    for q, g in ctx.program.functions.items():
        if ".tests." in q or g.parent is not None:
            continue
        if any(isinstance(x, ast.Attribute) and x.attr == "_portal" for x in ast.walk(g.node)):
            apart.add(q)
    for m in ctx.program.modules.values():
        if ".tests" in m.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and ctx.program.resolve_expr(m, x) in apart:
                ctx.bad("only", "taken apart", (m.relpath, x.lineno), "resources are taken out of the authorization wrapper")
    ctx.ok("only", "taken apart")
    ctx.ok("only", "listens")


def owner(ctx, m, x):
    best = None
    for q, g in ctx.program.functions.items():
        if g.module is m and g.parent is None and g.node.lineno <= x.lineno <= g.node.end_lineno:
            best = q
    return best
