"""
P09: typestate of the disconnect notification of each bucket writer.  The
writers which leave the allocation are enumerated from its result; each has to
have passed notifyOnDisconnect(its disconnected) whose marker is remembered
under the writer; the close handler given to the backend withdraws exactly the
remembered one.
"""
from .server import *  # noqa: F401,F403
from .server import Server

TECHNIQUE = "typestate over enumerated paths"
ASSUMPTIONS = [
    "the wrapped storage server calls the registered close handlers with each bucket writer which is closed",
    "Foolscap calls what was given to notifyOnDisconnect when the connection is lost and never after dontNotifyOnDisconnect with the marker it returned",
]


def check(ctx):
    s = Server(ctx)
    ctx.rule("registered", "every bucket writer handed to the client is registered to be told when this client disconnects", 1)
    ctx.rule("remembered", "the request is remembered under the writer together with the connection it was made on", 1)
    ctx.rule("handler-installed", "the server is told by the backend of every writer which is closed", 1)
    ctx.rule("withdrawn", "when a known writer is closed exactly its own request is forgotten and withdrawn from its connection", 1)
    ctx.rule("unknown-ignored", "nothing is withdrawn for an unknown writer", 1)
    ctx.rule("nothing-else", "nothing else forgets or withdraws a request", 1)
    table, shape = allocation(ctx, s)
    if table is not None:
        h = handler(ctx, s)
        if h is not None:
            closing(ctx, s, h, table, shape)
            others(ctx, s, h, table)


def writer_terms(gen, writers):
    """How the writer of the current round of a loop over the writers is written, or None."""
    el = I(("elem", gen, 0))
    g = strip_list(gen)
    if is_call(g, "values") and receiver(g) == writers:
        return [el]
    if is_call(g, "items") and receiver(g) == writers:
        return [I(("sub", el, const(1))), I(("sub", writers, ("sub", el, const(0))))]
    if g == writers or (is_call(g, "keys") and receiver(g) == writers):
        return [I(("sub", writers, el))]
    return None


def allocation(ctx, s):
    it, paths = s.paths("allocate_buckets")
    f = s.method("remote_allocate_buckets")
    table = shape = None
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        made = [e for e in flat(path.events) if e.kind == "call" and s.is_backend_call(e.a) and fname(e.a[1]) == "allocate_buckets"]
        if not made:
            continue
        n += 1
        writers = I(("sub", made[-1].a, const(1)))
        good = kept = False
        for e in path.events:
            if e.kind != "loop" or len(e.a) != 1 or e.c:
                continue
            ts = writer_terms(e.a[0], writers)
            if ts is None:
                continue
            rounds = [registration(s, sub, ts) for sub in e.b]
            if rounds and all(r is not None for r in rounds):
                good = True
                where = [r for r in rounds if r[0] is not None]
                if len(where) == len(rounds) and len({(r[0], r[1]) for r in rounds}) == 1:
                    kept = True
                    table, shape = rounds[0][:2]
        ctx.check(good, "registered", "remote_allocate_buckets", made[-1].loc, "not every bucket writer made is registered for the disconnect of the client it is handed to", path)
        if good:
            ctx.check(kept, "remembered", "remote_allocate_buckets", made[-1].loc, "the request is not remembered under the bucket writer", path)
    if not n:
        raise AnalysisBroken("remote_allocate_buckets never allocates anything")
    return table, shape


def registration(s, sub, ts):
    """(table, shape) when the round registers its writer; (None, None) when it is not remembered."""
    if sub.kind not in ("next", "continue"):
        return None
    calls = [e for e in sub.events if e.kind == "call" and fname(e.a[1]) == "notifyOnDisconnect"]
    calls = [e for e in calls if receiver(e.a) == p("canary") and len(e.a[2]) == 1 and any(e.a[2][0] == ("attr", t, "disconnected") for t in ts)]
    if len(calls) != 1:
        return None
    marker = I(calls[0].a)
    for e in sub.events:
        if e.kind == "setitem" and e.a[0] == "attr" and e.a[1][0] == "self" and e.b in ts:
            v = e.c
            if v[0] == "tuple":
                fields = [("sub", const(i)) for i in range(len(v[1]))]
                vals = list(v[1])
            elif v[0] == "new":
                fields = [("attr", k) for k, x in v[2]]
                vals = [x for k, x in v[2]]
            else:
                continue
            if p("canary") in vals and marker in vals:
                return I(e.a), (fields[vals.index(p("canary"))], fields[vals.index(marker)])
    return None, None


def handler(ctx, s):
    """The method registered with the backend."""
    out = []
    f = ctx.program.find_method(s.cls, "__attrs_post_init__") or ctx.program.find_method(s.cls, "__init__")
    where = (s.cls.module.relpath, s.cls.node.lineno)
    if f is None:
        ctx.bad("handler-installed", s.cls.name, where, "nothing is registered when a server is made")
        return None
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        calls = [e for e in path.events if e.kind == "call" and fname(e.a[1]) == "register_bucket_writer_close_handler" and receiver(e.a) == s.original]
        ok = len(calls) == 1 and len(calls[0].a[2]) == 1 and calls[0].a[2][0][0] in ("bm", "clo")
        ctx.check(ok, "handler-installed", s.cls.name, calls[0].loc if calls else f.loc(), "the close handler is not registered with the backend exactly once", path)
        if ok:
            out.append(calls[0].a[2][0])
    if len(set(out)) != 1:
        return None
    h = out[0]
    if h[0] != "bm":
        raise AnalysisBroken("the close handler is not a method")
    return ctx.program.functions[h[2]]


def part(v, how):
    return I((how[0], v, how[1]))


def closing(ctx, s, f, table, shape):
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][1:]
    bw = p(names[0])
    it, paths = ctx.run(f)
    caught = any(e.kind == "catch" for path in paths if path.kind == "return" for e in flat(path.events))
    for path in paths:
        known = None
        removed, withdrawn, problem = [], [], None
        values = {I(("sub", table, bw))}
        for e in flat(path.events):
            if e.kind == "guard":
                g, b = e.a, e.b
                if g == ("cmp", "in", bw, table):
                    known = b
                elif g[0] == "cmp" and g[1] == "is" and g[3] == NONE and g[2] in values:
                    known = not b
                elif g in values:
                    known = b
            elif e.kind == "subfail" or e.kind == "raised":
                if table in walk(e.a):
                    known = False
            elif e.kind == "call":
                n, r = fname(e.a[1]), receiver(e.a)
                if r == table:
                    if n in ("pop", "get") and e.a[2][:1] == (bw,):
                        values.add(I(e.a))
                        if n == "pop":
                            removed.append(e)
                    elif n not in ("__contains__", "keys", "values", "items", "copy"):
                        problem = "%s is done to the table" % n
                elif n == "dontNotifyOnDisconnect":
                    withdrawn.append(e)
            elif e.kind == "delitem" and e.a == table:
                if e.b == bw:
                    removed.append(e)
                else:
                    problem = "another writer's request is forgotten"
            elif e.kind in ("setattr",) and I(("attr", e.a, e.b)) == table:
                problem = "the table is replaced"
            elif e.kind == "setitem" and e.a == table:
                problem = "a request is remembered"
        where = f.loc()
        if known is None and removed and path.kind == "raise" and not withdrawn:
            continue
        if known is False and path.kind == "raise" and caught:
            # some other failure of the table
            continue
        if known is None and removed and not caught and any(not (e.kind == "call" and len(e.a[2]) > 1) for e in removed):
            ctx.bad("unknown-ignored", f.name, removed[0].loc, "an unknown writer is an error", path)
            continue
        if known is False:
            ctx.check(not withdrawn and problem is None and path.kind == "return", "unknown-ignored", f.name, where,
                      problem or ("a notification is withdrawn for an unknown writer" if withdrawn else "an unknown writer is an error"), path)
            continue
        if path.kind == "raise" and len(removed) == 1 and not withdrawn:
            # the connection's own failure
            continue
        ok = problem is None and len(removed) >= 1 and len(withdrawn) == 1
        if ok:
            c = withdrawn[0].a
            ok = any(receiver(c) == part(v, shape[0]) and c[2] == (part(v, shape[1]),) for v in values)
        ctx.check(ok, "withdrawn", f.name, withdrawn[0].loc if withdrawn else where,
                  problem or "the request of the writer which was closed is not what is forgotten and withdrawn: forgotten %d times, withdrawn: %s" % (len(removed), ", ".join(show(e.a)[:150] for e in withdrawn) or "nothing"), path)


def others(ctx, s, h, table):
    n = 0
    for name, f in s.cls.methods.items():
        if f.qual == h.qual or name in ("remote_allocate_buckets",):
            continue
        if not any(getattr(x, "attr", None) in (table[2], "dontNotifyOnDisconnect") for x in ast_walk(f.node)):
            continue
        it, paths = ctx.run(f)
        for path in paths:
            for e in flat(path.events):
                bad = (e.kind == "call" and (fname(e.a[1]) == "dontNotifyOnDisconnect" or (receiver(e.a) == table and fname(e.a[1]) in ("pop", "clear", "popitem", "update", "setdefault"))))
                bad = bad or (e.kind in ("delitem", "setitem") and e.a == table) or (e.kind == "setattr" and I(("attr", e.a, e.b)) == table)
                if bad and f.qual not in ("",):
                    n += 1
                    if called_by(s, f, h):
                        continue
                    ctx.bad("nothing-else", f.name, e.loc, "%s also forgets or withdraws requests" % f.name, path)
    ctx.ok("nothing-else", "%d methods" % len(s.cls.methods))


def called_by(s, f, h):
    """Helpers used only by the handler or the allocation were analysed with them."""
    users = [g for g in s.cls.methods.values() if g.qual != f.qual and any(getattr(x, "attr", None) == f.name for x in ast_walk(g.node))]
    return bool(users) and all(u.qual == h.qual or u.name == "remote_allocate_buckets" for u in users)


def ast_walk(n):
    import ast
    return ast.walk(n)
