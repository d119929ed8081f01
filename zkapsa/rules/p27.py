"""
P27: one recovery at a time, and every requester learns how it ended.  A
request is followed along every path: what starts the recovery, who is put on
the list of clients, what they are told and when their connections are closed.
"""
import ast

from .store import *  # noqa: F401,F403
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk
from .p26 import stage_name, in_loops

TECHNIQUE = "typestate of the recovery and its list of clients along enumerated paths; escape scan for other writers"
ASSUMPTIONS = [
    "closing a WebSocket does not call back into the factory before it returns",
    "sendMessage of a connection which is closed raises Disconnected and nothing else",
]
FACTORY = "resource.RecoverFactory"
PROTO = "resource.RecoverProtocol"
ATOMS = ("model.VoucherStore.*", "recover.recover")
MUTATORS = ("append", "remove", "clear", "pop", "extend", "insert", "add", "discard", "__setitem__", "__delitem__")


def check(ctx):
    ctx.rule("one", "a recovery is started only when none was started before, with the requested capability", 3)
    ctx.rule("join", "a request for the same capability receives every update and is closed when the recovery ends", 3)
    ctx.rule("refuse", "a request for another capability is refused on its own connection and changes nothing", 2)
    ctx.rule("told", "each state change is sent to every client, whatever happens to the others", 3)
    ctx.rule("closed", "every client is closed when the recovery ends, also when it fails, and a failure is told first", 3)
    ctx.rule("list", "clients leave the list only when their own connection is lost", 2)
    roles = requests(ctx)
    listener(ctx, roles)
    protocol(ctx, roles)
    writers(ctx, roles)


def attr_of(t, me):
    return t[2] if t[0] == "attr" and t[1] == me else None


def starts(evs):
    return [i for i, e in enumerate(evs) if e.kind == "call" and fname(e.a[1]) == "call_if_empty"]


def is_none(e, me):
    """(attribute, truth of "it is None") of a guard."""
    if e.kind != "guard":
        return None
    t, b = e.a, e.b
    if t[0] == "not":
        t, b = t[1], not b
    if t[0] == "cmp" and t[1] in ("is", "==") and NONE in (t[2], t[3]):
        o = t[3] if t[2] == NONE else t[2]
        if attr_of(o, me):
            return attr_of(o, me), b
    if attr_of(t, me):
        return attr_of(t, me), not b
    return None


def same_cap(e, me, cap):
    """(attribute, truth of "the capability is the same") of a guard."""
    if e.kind != "guard":
        return None
    t, b = e.a, e.b
    if t[0] == "not":
        t, b = t[1], not b
    if t[0] == "cmp" and t[1] == "==":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            x, y = identity(x), identity(y)
            if y == cap and attr_of(x, me):
                return attr_of(x, me), b
    return None


def identity(t):
    """Look through what is different for different capabilities."""
    while t[0] == "call" and fname(t[1]) in ("danger_real_capability_string", "attenuate_reader") and len(t[2]) == 1:
        t = t[2][0]
    return t


def requests(ctx):
    f = ctx.func(FACTORY + ".initiate_recovery")
    me = ("self", f.cls.qual)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    cap, client = p(names[1]), p(names[2])
    it, paths = ctx.run(f, ATOMS)
    # the attributes by their roles
    deferreds, clients = set(), set()
    for path in paths:
        evs = list(flat(path.events))
        if starts(evs):
            deferreds |= {is_none(e, me)[0] for e in evs if is_none(e, me)}
        for e in evs:
            if e.kind == "call" and fname(e.a[1]) in ("append", "add") and e.a[2] == (client,) and attr_of(receiver(e.a), me):
                clients.add(attr_of(receiver(e.a), me))
    if len(clients) > 1:
        raise AnalysisBroken("several lists of clients: %s" % sorted(clients))
    CL = next(iter(clients), None)
    ctx.check(CL is not None, "join", "remembered", f.loc(), "the clients are not remembered")
    started = [x for x in paths if any(e.kind == "setattr" and e.a == me and e.b in deferreds for e in flat(x.events))]
    ctx.check(bool(started), "one", "remembered", f.loc(), "it is not remembered that a recovery was started")
    X = None
    if started:
        X = next(e.b for e in flat(started[0].events) if e.kind == "setattr" and e.a == me and e.b in deferreds)
    updates = set()
    for path in paths:
        evs = list(flat(path.events))
        st = starts(evs)
        begun = bool(st) or path in started
        none = [is_none(e, me)[1] for e in evs if is_none(e, me) and is_none(e, me)[0] == X]
        caps = [same_cap(e, me, cap) for e in evs if same_cap(e, me, cap)]
        if begun:
            start_path(ctx, f, path, me, cap, client, X, CL, none, st)
        elif any(b is False for a, b in caps):
            refused(ctx, f, path, client, caps)
        else:
            ctx.check(bool(caps), "refuse", "another capability", f.loc(), "a client joins whatever capability it asked for", path)
            updates |= joined(ctx, f, path, me, client, X, CL)
    for path in paths:
        evs = list(flat(path.events))
        if path in started:
            a = [e for e in evs if e.kind == "setattr" and e.a == me and any(s == cap for s in walk(e.c))]
            compared = {same_cap(e, me, cap)[0] for q in paths for e in flat(q.events) if same_cap(e, me, cap)}
            ctx.check(any(e.b in compared for e in a) or not compared, "one", "capability remembered", f.loc(), "the capability of the recovery is not remembered", path)
    ctx.check(any(not starts(list(flat(q.events))) and q not in started and any(same_cap(e, me, cap) and same_cap(e, me, cap)[1] is False for e in flat(q.events)) for q in paths),
              "refuse", "decided", f.loc(), "a request with another capability is not refused")
    ctx.check(bool(updates), "join", "progress", f.loc(), "a client which joins is not told what happened so far")
    caps = {same_cap(e, me, cap)[0] for q in paths for e in flat(q.events) if same_cap(e, me, cap)}
    return {"deferred": X, "clients": CL, "updates": updates, "caps": caps, "f": f, "me": me}


def start_path(ctx, f, path, me, cap, client, X, CL, none, st):
    evs = list(flat(path.events))
    ctx.check(True in none and False not in none, "one", "only when none", f.loc(), "a recovery is started although there is one already", path)
    ctx.check(len(st) <= 1, "one", "once", f.loc(), "several recoveries are started by one request", path)
    sets = [i for i, e in enumerate(evs) if e.kind == "setattr" and e.a == me and e.b == X and e.c != NONE]
    ctx.check(path.kind != "return" or bool(sets), "one", "kept", f.loc(), "it is not remembered that a recovery was started", path)
    lost = [e for e in evs if e.kind == "setattr" and e.a == me and e.b == X and e.c == NONE]
    ctx.check(not lost, "one", "kept", f.loc(), "it is forgotten that a recovery was started", path)
    add = [i for i, e in enumerate(evs) if e.kind == "call" and fname(e.a[1]) in ("append", "add") and e.a[2] == (client,) and attr_of(receiver(e.a), me) == CL]
    get = [i for i, e in enumerate(evs) if e.kind == "call" and attr_of(e.a[1], me) == "get_downloader"]
    first = min(st + get, default=None)
    ctx.check(bool(add) and (first is None or add[0] < first), "join", "first client", f.loc(), "the client is put on the list after the recovery has begun", path)
    for i in get:
        ctx.check(evs[i].a[2] == (cap,), "one", "capability", evs[i].loc, "something else than the requested capability is downloaded", path)
    ctx.check(path.kind == "return", "closed", "raises", f.loc(), "the request fails without an answer", path)
    # the end
    failures = [i for i, e in enumerate(evs) if e.kind == "raised" and (e.a in [evs[j].a for j in st + get])]
    end = max(failures + st + get + [i for i, e in enumerate(evs) if e.kind == "await"], default=-1)
    later = evs[end + 1:]
    # e.g. a broken connection while it is told
    if any(e.kind == "raised" for e in later):
        return
    closing = closes(path.events, me, CL)
    ctx.check(bool(closing), "closed", "failed" if failures else "done", f.loc(), "the clients are not closed when the recovery %s" % ("failed" if failures else "is done"), path)
    if failures:
        told = None
        for i, e in enumerate(evs):
            if i > failures[0] and e.kind == "setattr" and e.c is not None and e.c[0] == "new" and e.c[1].endswith(".RecoveryState"):
                told = e
                ctx.check(stage_name(field(e.c, "stage")) in ("import_failed", "download_failed"), "closed", "reported as", e.loc, "a recovery which failed is reported as %s" % stage_name(field(e.c, "stage")), path)
                r = field(e.c, "failure_reason")
                ctx.check(r is not None and r != NONE, "closed", "reason", e.loc, "a recovery which failed is reported without a reason", path)
        ctx.check(told is not None, "closed", "failure told", f.loc(), "the clients are not told that the recovery failed", path)
        if told is not None and closing:
            at = evs.index(told)
            ctx.check(at < evs.index(closing[0]), "closed", "order", told.loc, "the clients are told about the failure after they are closed", path)


def closes(events, me, CL):
    out = []
    for l in flat(events):
        if l.kind == "loop" and len(l.a) == 1 and not l.c:
            g = strip_list(l.a[0])
            if attr_of(g, me) == CL and l.b and all(s.kind in ("next", "continue") and any(x.kind == "call" and fname(x.a[1]) == "sendClose" and receiver(x.a) == ("elem", l.a[0], 0) for x in flat(s.events)) for s in l.b):
                out.append(l)
    return out


def joined(ctx, f, path, me, client, X, CL):
    evs = list(flat(path.events))
    updates = set()
    if path.kind == "raise":
        return updates
    add = [e for e in evs if e.kind == "call" and fname(e.a[1]) in ("append", "add") and e.a[2] == (client,) and attr_of(receiver(e.a), me) == CL]
    for l in evs:
        if l.kind == "loop" and len(l.a) == 1 and attr_of(strip_list(l.a[0]), me):
            u = attr_of(strip_list(l.a[0]), me)
            if not l.c and l.b and all(any(x.kind == "call" and fname(x.a[1]) == "sendMessage" and receiver(x.a) == client and x.a[2] and x.a[2][0] == ("elem", l.a[0], 0) for x in flat(s.events)) for s in l.b):
                updates.add(u)
    ctx.check(bool(updates), "join", "so far", f.loc(), "a client which joins is not told what happened so far", path)
    d = ("attr", me, X)
    ended = None
    asked = False
    for e in evs:
        if e.kind == "guard" and any(s == d for s in walk(e.a)) and not is_none(e, me):
            asked = True
            if e.a == ("attr", d, "called") or (e.a[0] == "not" and e.a[1] == ("attr", d, "called")):
                ended = e.b if e.a[0] == "attr" else not e.b
    shut = any(e.kind == "call" and fname(e.a[1]) == "sendClose" and receiver(e.a) == client for e in evs)
    hooked = any(e.kind == "call" and fname(e.a[1]) in ("addCallback", "addBoth", "addCallbacks", "addErrback") and receiver(e.a) == d for e in evs) or any(e.kind == "cb" for e in evs)
    if ended is not True:
        ctx.check(bool(add), "join", "listed", f.loc(), "a client which asks for the same recovery does not join it", path)
        ctx.check(asked or hooked, "join", "ended", f.loc(), "a client which asks after the recovery has ended is never closed", path)
    if ended is False and not hooked:
        ctx.check(not shut, "join", "early", f.loc(), "a client is closed although the recovery is still running", path)
    if ended is True:
        ctx.check(shut or hooked, "join", "late", f.loc(), "a client which asks after the recovery has ended is never closed", path)
    if ended is None and not hooked:
        ctx.check(not shut, "join", "early", f.loc(), "a client is closed although the recovery may still be running", path)
    for e in evs:
        if e.kind == "setattr" and e.a == me:
            ctx.bad("join", "changes", e.loc, "joining changes the running recovery", path)
    return updates


def refused(ctx, f, path, client, caps):
    evs = list(flat(path.events))
    for e in evs:
        if e.kind in ("setattr", "setitem", "delattr"):
            ctx.bad("refuse", "nothing else", e.loc, "a refused request changes the running recovery", path)
        if e.kind == "call":
            n = fname(e.a[1])
            r = receiver(e.a)
            if r == client:
                ctx.check(n in ("sendClose", "sendMessage", "dropConnection", "abortConnection"), "refuse", "own connection", e.loc, "a refused client is handled by %s()" % n, path)
            elif r is not None and n in MUTATORS and r != client:
                ctx.bad("refuse", "nothing else", e.loc, "a refused request changes the running recovery", path)
            elif n in ("sendClose", "sendMessage", "cancel", "errback", "callback"):
                ctx.bad("refuse", "nothing else", e.loc, "a refused request disturbs the running recovery", path)
    said = any(e.kind == "call" and fname(e.a[1]) in ("sendClose", "dropConnection", "abortConnection") and receiver(e.a) == client for e in evs)
    ctx.check(said or path.kind == "raise", "refuse", "refusal", f.loc(), "a refused request gets no answer", path)


def listener(ctx, roles):
    """What happens with each state change."""
    f = roles["f"]
    me = roles["me"]
    CL = roles["clients"]
    cls = f.cls
    d = None
    for m in cls.methods.values():
        if m.name.endswith("_default") or any(isinstance(x, ast.Attribute) and x.attr == "default" for x in m.decorators) or "default" in m.name:
            it, paths = ctx.run(m)
            for path in paths:
                if path.kind == "return" and path.value[0] == "new" and path.value[1].endswith(".StatefulRecoverer"):
                    d = (m, path.value)
    if d is None:
        raise AnalysisBroken("anchor vanished: the default recoverer of %s" % cls.qual)
    m, new = d
    found = [t for n, v in new[2] for t in walk(v) if t[0] in ("bm", "clo", "partial")]
    tops = [t for t in found if not any(t is not u and t in list(walk(u)) for u in found)]
    good = False
    for t in tops:
        ok = False
        if t[0] == "bm" and t[1] == me:
            g = ctx.program.functions[t[2]]
            state = p([a.arg for a in g.node.args.posonlyargs + g.node.args.args][1])
            it, paths = ctx.run(g)
            ok = True
            for path in paths:
                one_change(ctx, g, path, me, CL, roles["updates"], state)
        good = good or ok
    ctx.check(good, "told", "listens", m.loc(), "nobody tells the clients about state changes")


def one_change(ctx, g, path, me, CL, updates, state):
    evs = list(flat(path.events))
    sent = []
    for l in evs:
        if l.kind != "loop" or len(l.a) != 1 or attr_of(strip_list(l.a[0]), me) != CL:
            continue
        el = ("elem", l.a[0], 0)
        ok = bool(l.b) and not l.c
        for s in l.b:
            c = [x for x in flat(s.events) if x.kind == "call" and fname(x.a[1]) == "sendMessage" and receiver(x.a) == el]
            ok = ok and len(c) == 1 and s.kind in ("next", "continue")
            if c:
                sent.append(c[0])
        ctx.check(ok, "told", "every client", l.loc, "some clients are not told about a state change", path)
        # a closed connection does not keep the others from being told
        handled = any(any(x.kind == "catch" and covers(x.b, "Disconnected") for x in flat(s.events)) for s in l.b)
        ctx.check(handled, "told", "disconnected", l.loc, "a client which is being closed keeps the others from being told, and stops the recovery", path)
    if path.kind == "raise" and not sent and not any(e.kind == "loop" for e in evs):
        ctx.bad("told", "raises", g.loc(), "the clients are not told about a state change", path)
        return
    ctx.check(bool(sent) or path.kind == "raise", "told", "every client", g.loc(), "the clients are not told about a state change", path)
    kept = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "append" and attr_of(receiver(e.a), me) in updates]
    ctx.check(len(kept) == 1, "told", "kept", g.loc(), "the state change is not kept for clients which join later", path)
    for c in sent:
        if kept:
            ctx.check(c.a[2][0] == kept[0].a[2][0], "told", "same message", c.loc, "clients which join later are told something else", path)
        text = list(walk(c.a[2][0]))
        ok = ("attr", ("attr", state, "stage"), "name") in text and ("attr", state, "failure_reason") in text
        ctx.check(ok, "told", "message", c.loc, "the message does not carry the stage and the reason of a failure", path)


def covers(caught, name):
    names = caught if isinstance(caught, (tuple, list)) else (caught,)
    return any(str(n).rsplit(".", 1)[-1] in (name, "Exception", "BaseException") for n in names)


def protocol(ctx, roles):
    cls = ctx.program.cls(PROTO)
    me = ("self", cls.qual)
    CL = roles["clients"]
    f = cls.methods.get("onMessage")
    if f is None:
        raise AnalysisBroken("anchor vanished: %s.onMessage" % PROTO)
    payload = p([a.arg for a in f.node.args.posonlyargs + f.node.args.args][1])
    it, paths = ctx.run(f, (FACTORY + ".*",))
    n = 0
    for path in paths:
        evs = list(flat(path.events))
        reqs = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "initiate_recovery"]
        if reqs:
            n += 1
            for e in reqs:
                c, who = (list(e.a[2]) + [v for k, v in e.a[3]] + [None, None])[:2]
                ctx.check(who == me, "list", "itself", e.loc, "another client than the one which asked is told", path)
                ok = c is not None and c[0] == "call" and fname(c[1]) == "readonly_directory_from_string" and any(t == payload for t in walk(c))
                ctx.check(ok, "one", "the requested", e.loc, "the recovery does not use the capability in the request", path)
        elif path.kind == "return":
            ctx.check(any(e.kind == "call" and fname(e.a[1]) == "sendClose" and receiver(e.a) == me for e in evs), "refuse", "malformed", f.loc(), "a malformed request gets no answer", path)
    ctx.check(n > 0, "one", "asked", f.loc(), "requests do not reach the recovery")
    f = cls.methods.get("onClose")
    if f is None:
        ctx.bad("list", "lost", (cls.module.relpath, cls.node.lineno), "a lost connection stays on the list of clients")
        return
    it, paths = ctx.run(f, (FACTORY + ".*",))
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) in MUTATORS and receiver(e.a)[0] == "attr" and receiver(e.a)[2] == CL:
                ctx.check(fname(e.a[1]) in ("remove", "discard") and e.a[2] == (me,), "list", "itself", e.loc, "losing one connection removes others from the list", path)
            if e.kind == "setattr" and e.b in {CL, roles["deferred"]} | roles["caps"] | roles["updates"]:
                ctx.bad("list", "itself", e.loc, "losing one connection changes the running recovery", path)
            if e.kind == "call" and fname(e.a[1]) in ("cancel",):
                ctx.bad("list", "itself", e.loc, "losing one connection cancels the recovery of the others", path)
    gone = [x for x in paths if x.kind == "return"]
    ctx.check(any(any(e.kind == "call" and fname(e.a[1]) in ("remove", "discard") and e.a[2] == (me,) for e in flat(x.events)) for x in gone), "list", "lost", f.loc(), "a lost connection stays on the list of clients")


def writers(ctx, roles):
    """Everything which changes the list of clients, the updates or the recovery was analysed."""
    mod = roles["f"].module
    names = {roles["clients"], roles["deferred"]} | roles["updates"] | roles["caps"]
    names.discard(None)
    n = 0
    for m in ctx.program.modules.values():
        if ".tests" in m.name or m is not mod:
            continue
        parents = {}
        for x in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(x):
                parents[ch] = x
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Attribute) and x.attr in names):
                continue
            up = parents.get(x)
            mutated = not isinstance(x.ctx, ast.Load) or (isinstance(up, ast.Attribute) and up.attr in MUTATORS) or (isinstance(up, ast.Subscript) and not isinstance(up.ctx, ast.Load))
            if not mutated:
                continue
            n += 1
            q = owner(ctx, m, x)
            ctx.check(q in ctx.inlined or q in ctx.functions, "list", "changed by %s" % (q or m.name).split(".", 1)[-1], (m.relpath, x.lineno), ".%s is changed elsewhere" % x.attr)
    ctx.check(n > 0, "list", "changes", roles["f"].loc(), "nothing changes the list")
    # one factory, which is given to each connection
    made = 0
    for m in ctx.program.modules.values():
        if ".tests" in m.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and ctx.program.resolve_expr(m, x.func) == roles["f"].cls.qual:
                made += 1
                g = ctx.program.functions.get(owner(ctx, m, x) or "")
                ctx.check(g is None or g.cls is None, "one", "shared", (m.relpath, x.lineno), "there is a recovery factory for each request")
    ctx.check(made > 0, "one", "shared", roles["f"].loc(), "nobody creates the factory")
    b = roles["f"].cls.methods.get("buildProtocol")
    if b is not None:
        it, paths = ctx.run(b)
        for path in paths:
            if path.kind == "return" and path.value != NONE:
                ok = any(e.kind == "setattr" and e.a == path.value and e.b == "factory" and e.c == roles["me"] for e in flat(path.events)) or path.value[0] == "call"
                ctx.check(ok, "list", "factory", b.loc(), "a connection does not know the factory", path)


def owner(ctx, m, x):
    best = None
    for q, g in ctx.program.functions.items():
        if g.module is m and g.parent is None and g.node.lineno <= x.lineno <= g.node.end_lineno:
            best = q
    return best
