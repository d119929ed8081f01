"""
P20: every path on which a redeemer is made that talks to an issuer has compared
the issuer of the storage server's announcement with the configured one and
found them equal, or was given no announcement; the storage client's redeemer is
always made from the announcement it was given; requests go to the issuer that
was compared; the server announces the issuer it is configured with.
"""
from .controller import *  # noqa: F401,F403

TECHNIQUE = "path rules and dataflow over enumerated paths"
ASSUMPTIONS = ["Tahoe-LAFS passes the storage server's own announcement to get_storage_client"]
KEY = "ristretto-issuer-root-url"


def check(ctx):
    ctx.rule("compared", "a redeemer which talks to an issuer is made only if the announced issuer equals the configured one or there is no announcement", 1)
    ctx.rule("announcement-used", "the storage client's redeemer is made from the announcement it was given", 2)
    ctx.rule("requests-go-there", "requests are sent to the configured issuer", 2)
    ctx.rule("server-announces", "a server announces the issuer it is configured with", 1)
    n = 0
    for q, c in sorted(ctx.program.classes.items()):
        f = c.methods.get("make")
        if f is None or not q.endswith("Redeemer") or ".tests" in q:
            continue
        n += making(ctx, c, f)
    if not n:
        raise AnalysisBroken("no redeemer talks to an issuer")
    passing(ctx)
    announcing(ctx)


def configured(t, f):
    return is_call(t, "get_config") and receiver(t) == p("node_config") and any(x == const(KEY) for x in walk(t)) and \
        any(k == "section" and v == p("section_name") for k, v in t[3]) or (is_call(t, "get_config") and t[2][:2] == (p("section_name"), const(KEY)))


def announced(t):
    return t == ("sub", p("announcement"), const(KEY)) or (is_call(t, "get") and receiver(t) == p("announcement") and t[2] in ((const(KEY),), (const(KEY), NONE)))


def equal(g, f):
    """Do the two have to be the same issuer when the condition holds?"""
    if g[0] != "cmp" or g[1] != "==":
        return False

    def inner(t):
        return t[2][0] if is_call(t, "from_text") and len(t[2]) == 1 else t
    a, b = g[2], g[3]
    if is_call(a, "from_text") != is_call(b, "from_text"):
        return False
    a, b = inner(a), inner(b)
    return (configured(a, f) and announced(b)) or (configured(b, f) and announced(a))


def making(ctx, c, f):
    it, paths = ctx.run(f)
    talks = False
    for path in paths:
        contacts = [(i, e) for i, e in enumerate(path.events) if e.kind == "call" and e.a[1][0] == "g" and fname(e.a[1]) in ("HTTPClient", "Agent", "ProxyAgent", "BrowserLikePolicyForHTTPS")]
        if not contacts and path.kind != "return":
            continue
        if not contacts:
            continue
        talks = True
        if path.kind != "return":
            continue
        gs = [(e.a, e.b) for e in path.events if e.kind == "guard"]
        none = any(g == ("cmp", "is", p("announcement"), NONE) and b is True for g, b in gs)
        same = any(equal(g, f) and b is True for g, b in gs)
        ctx.check(none or same, "compared", c.name, contacts[0][1].loc, "a redeemer is made without having found the announced issuer equal to the configured one", path)
        v = path.value
        roots = [x for k, x in (v[2] if v is not None and v[0] == "new" else ()) if any(configured(y, f) for y in walk(x))]
        ctx.check(len(roots) == 1, "requests-go-there", c.name + ": made", f.loc, "the redeemer is not made for the configured issuer", path)
        if len(roots) == 1:
            name = [k for k, x in v[2] if x == roots[0]][0]
            requests(ctx, c, I(("attr", ("self", c.qual), name)))
    return talks


def requests(ctx, c, root):
    f = ctx.program.find_method(c, "redeemWithCounter")
    it, paths = ctx.run(f)
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) in ("post", "get", "put", "request") and e.a[1][0] == "attr" and e.a[1][1][0] == "attr" and e.a[1][1][1][0] == "self":
                urls = [x for x in e.a[2] if contains(x, root)]
                ctx.check(bool(urls) and not any(is_const(y) and isinstance(cval(y), str) and "://" in cval(y) for y in walk(e.a)), "requests-go-there", c.name + ": sent", e.loc,
                          "a request is sent to %s" % show(e.a[2][0])[:200], path)


def passing(ctx):
    f = ctx.func("controller.get_redeemer")
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        ok = v[0] == "call" and p("announcement") in v[2] and list(v[2]).index(p("announcement")) == 2
        ok = ok or (v[0] == "call" and any(k == "announcement" and x == p("announcement") for k, x in v[3]))
        ctx.check(ok, "announcement-used", "get_redeemer", f.loc, "the redeemer is made without the announcement: %s" % show(v)[:200], path)
    f = ctx.func("_plugin.ZKAPAuthorizer.get_storage_client")
    it, paths = ctx.run(f, ("controller.get_redeemer", "_plugin.ZKAPAuthorizer._get_store", "_plugin.open_store", "config.*", "spending.*"))
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        n += 1
        made = [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "get_redeemer"]
        ok = bool(made) and all(arg(e.a, 2, "announcement") == p("announcement") for e in made)
        ctx.check(ok, "announcement-used", "get_storage_client", made[0].loc if made else f.loc, "the storage client is made without comparing the server's announcement", path)
    if not n:
        raise AnalysisBroken("get_storage_client never returns")


def announcing(ctx):
    f = ctx.func("_plugin.ZKAPAuthorizer.get_storage_server")
    it, paths = ctx.run(f, ("_storage_server.*",))
    n = 0
    for path in paths:
        for e in flat(path.events):
            new = e.b if e.kind == "call" and e.b is not None and e.b[0] == "new" else None
            if new is not None and new[1].endswith(".AnnounceableStorageServer"):
                n += 1
                a = field(new, "announcement")
                got = dict(a[1]).get(const(KEY)) if a is not None and a[0] == "dict" else None
                ctx.check(got is not None and got == ("sub", p("configuration"), const(KEY)), "server-announces", "get_storage_server", e.loc,
                          "the announced issuer is %s" % (show(got)[:200] if got is not None else None), path)
    if not n:
        raise AnalysisBroken("no server is announced")
