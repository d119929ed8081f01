"""
P28: replication keeps running until it is stopped.  One round of the endless
loop is followed from the start of the service, with everything it calls
inlined: which job was taken, what it does, and how it may end.
"""
from .store import *  # noqa: F401,F403
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk
from .p24 import SVC, self_field

TECHNIQUE = "enumeration of the ways through one round of the job loop; must-follow and escape of exceptions on each"
ASSUMPTIONS = [
    "DeferredQueue.get() fails only when it is cancelled",
    "cancelling the Deferred of a coroutine cancels the Deferred it waits for",
]
ATOMS = (
    "replicate.snapshot", "replicate.get_events", "replicate.prune_events_to", "replicate.AccumulatedChanges.*",
    "replicate._ReplicationCapableCursor.*", "replicate._ReplicationCapableConnection.*",
)


def check(ctx):
    ctx.rule("continue", "a job which fails is reported and the next one is waited for", 3)
    ctx.rule("stop", "the loop ends when the service is stopped, however its cancellation is reported", 4)
    ctx.rule("attempted", "every job which is put on the queue is attempted when it is taken from it", 4)
    ctx.rule("queued", "a requested job is put on the queue unless it is there already", 3)
    ctx.rule("startup", "at startup a snapshot or the events left over are uploaded", 3)
    ctx.rule("size", "after an event upload it is considered whether the replica has become too large", 3)
    ctx.rule("changes", "changes which matter request an upload when their transaction is over", 2)
    ctx.rule("summary", "a summary of changes says that they matter if any of them does, and how much there is of all of them", 4)
    ctx.rule("wired", "the service runs while the node runs", 3)
    rounds(ctx)
    stopped(ctx)
    policy(ctx)
    changes(ctx)
    summaries(ctx)
    wired(ctx)


class Round:
    """One way through the loop: the events before the job, the job and what follows."""

    def __init__(self, path, me):
        self.path = path
        evs = list(flat(path.events))
        self.get = None
        for i, e in enumerate(evs):
            if e.kind == "await" and e.a[0] == "call" and fname(e.a[1]) == "get" and receiver(e.a)[0] == "attr" and receiver(e.a)[1] == me:
                self.get = e.a
                self.before, self.after = evs[:i], evs[i + 1:]
                break
        if self.get is None:
            self.before, self.after = evs, []
        self.cancelled = any(e.kind == "raised" and e.a == self.get for e in evs)

    def job(self):
        """(value the job is known to have or None, values it is known not to have)"""
        no = set()
        for e in self.after:
            if e.kind == "guard" and e.a[0] == "cmp" and e.a[1] in ("==", "is") and self.get in (e.a[2], e.a[3]):
                o = e.a[3] if e.a[2] == self.get else e.a[2]
                if e.b:
                    return o, no
                no.add(o)
        return None, no


def puts(events, me):
    """Job values which are on the queue after the events, because of them or because they were there."""
    out = set()
    for e in events:
        if e.kind == "call" and fname(e.a[1]) == "put" and receiver(e.a)[0] == "attr" and receiver(e.a)[1] == me and e.a[2]:
            out.add(e.a[2][0])
        v = pending(e, me)
        if v is not None and v[1]:
            out.add(v[0])
    return out


def pending(e, me):
    if e.kind != "guard":
        return None
    t, b = e.a, e.b
    if t[0] == "not":
        t, b = t[1], not b
    if t[0] == "cmp" and t[1] == "in" and t[3][0] == "attr" and t[3][2] == "pending":
        return t[2], b
    return None


def rounds(ctx):
    f = ctx.func(SVC + ".startService")
    me = ("self", f.cls.qual)
    rep = self_field(ctx, SVC, type="Replica")
    it, paths = ctx.run(f, ATOMS, unroll=1)
    rs = [Round(x, me) for x in paths]
    live = [r for r in rs if r.get is not None]
    if not live:
        raise AnalysisBroken("no job is ever taken from a queue")
    # started
    for r in rs:
        never = any(e.kind == "guard" and running(e.a, me) and truth(e) is False for e in r.before)
        if r.get is None and r.path.kind in ("return", "loop") and not never:
            ctx.bad("attempted", "waits", f.loc(), "the service starts without waiting for jobs", r.path)
    # ends
    for r in live:
        exc = [(i, e) for i, e in enumerate(r.after) if e.kind in ("raised", "raise") and not r.cancelled]
        end = [(i, e) for i, e in enumerate(r.after) if e.kind == "catch"]
        if r.cancelled:
            ctx.check(r.path.kind != "loop", "stop", "while waiting", f.loc(), "the service goes on although waiting for a job was cancelled", r.path)
            continue
        uncaught = [e for i, e in exc]
        if not uncaught:
            over = any(e.kind == "guard" and running(e.a, me) and truth(e) is False for e in r.after)
            ctx.check(r.path.kind == "loop" or over, "continue", "success", f.loc(), "no further jobs are done after one was done", r.path)
            continue
        caught = [e for i, e in end]
        what = cancel_error(caught)
        stopping = [e for i, e in enumerate(r.after) if i > exc[0][0] and e.kind == "guard" and running(e.a, me)] + [e for e in r.before if e.kind == "guard" and running(e.a, me)]
        down = any(running(e.a, me) and truth(e) is False for e in stopping)
        if what:
            ctx.check(r.path.kind != "loop", "stop", "cancelled job", caught[0].loc, "the service goes on although its job was cancelled", r.path)
            continue
        if r.path.kind == "loop":
            ctx.check(any(truth(e) is True for e in stopping), "stop", "in disguise", uncaught[0].loc, "the service waits for another job forever when its cancellation is reported by another exception than CancelledError", r.path)
            said = any(e.kind == "call" and fname(e.a[1]) in ("failure", "err", "error", "critical", "write_traceback", "exception", "warn") for e in r.after[exc[0][0]:])
            ctx.check(said, "continue", "reported", uncaught[0].loc, "a job fails without a report", r.path)
            ctx.ok("continue", "next job")
        else:
            ctx.check(down, "continue", "next job", uncaught[0].loc, "replication ends when a job fails", r.path)
    # what the jobs do
    values = {}
    did = {}
    for r in live:
        if r.cancelled:
            continue
        v, no = r.job()
        did.setdefault(v, []).append(r)
    roles = {}
    for v, group in did.items():
        for r in group:
            k = kind_of(r, rep)
            if k:
                roles.setdefault(k, set()).add(v)
    for k in ("events", "snapshot", "consider", "startup"):
        vs = roles.get(k, set())
        ctx.check(len(vs) == 1 and None not in vs, "attempted", k, f.loc(), "no job is for this: %s" % k if not vs else "the job for this is unclear: %s" % k)
    role = {k: next(iter(v)) for k, v in roles.items() if len(v) == 1}
    for v, group in did.items():
        if v is None:
            continue
        for r in group:
            if r.path.kind not in ("loop", "return"):
                continue
            if any(e.kind == "raised" for e in r.after):
                continue
            k = kind_of(r, rep)
            if role.get("events") == v:
                ctx.check(k == "events" or empty_events(r), "attempted", "event upload", f.loc(), "a job to upload events does not", r.path)
                if k == "events" and "consider" in role:
                    up = max(i for i, e in enumerate(r.after) if e.kind == "await" and fname(e.a[1]) == "upload")
                    ctx.check(role["consider"] in puts(r.after[up:], me), "size", "considered", f.loc(), "the size of the replica is not considered after an event upload", r.path)
            elif role.get("snapshot") == v:
                ctx.check(k == "snapshot", "attempted", "snapshot upload", f.loc(), "a job to upload a snapshot does not", r.path)
            elif role.get("consider") == v:
                consider(ctx, f, r, me, rep, role)
            elif role.get("startup") == v:
                startup(ctx, f, r, me, rep, role)
            else:
                ctx.bad("attempted", "unknown", f.loc(), "a job does nothing: %s" % show(v), r.path)
    # every value which is put is attempted
    for r in rs:
        for v in puts(r.before + r.after, me):
            if v[0] == "c":
                ctx.check(v in role.values(), "attempted", "put %s" % {b: a for a, b in role.items()}.get(v, show(v)), f.loc(), "a job is put on the queue for which there is no work", r.path)
        queue_rule(ctx, f, r.before + r.after, me, r.path)
    for r in live:
        if "startup" in role:
            ctx.check(role["startup"] in puts(r.before, me), "startup", "job", f.loc(), "the replica is not examined when the service starts", r.path)
    # the requests
    for name, k in (("queue_event_upload", "events"), ("queue_snapshot_upload", "snapshot")):
        g = f.cls.methods.get(name)
        if g is None or k not in role:
            continue
        it, ps = ctx.run(g, ATOMS)
        for x in ps:
            evs = list(flat(x.events))
            ctx.check(role[k] in puts(evs, me), "queued", name, g.loc(), "the requested job is not put on the queue", x)
            queue_rule(ctx, g, evs, me, x)
    ctx.role = role


def queue_rule(ctx, f, evs, me, path):
    """A job which was found not to be waiting is put on the queue."""
    for i, e in enumerate(evs):
        v = pending(e, me)
        if v is not None and not v[1]:
            ok = any(x.kind == "call" and fname(x.a[1]) == "put" and x.a[2] == (v[0],) for x in evs[i:i + 6])
            ctx.check(ok, "queued", "put", e.loc, "a requested job is dropped although it is not waiting yet", path)


def truth(e):
    return e.b if e.a[0] != "not" else not e.b


def running(t, me):
    if t[0] == "not":
        t = t[1]
    return t == ("attr", me, "running")


def cancel_error(caught):
    return any(e.a[0] != "call" and "CancelledError" in str(e.a) for e in caught) or any("CancelledError" in str(e.b) for e in caught)


def kind_of(r, rep):
    """What a round did with the replica."""
    for e in r.after:
        if e.kind == "call" and fname(e.a[1]) == "upload" and receiver(e.a) == rep and e.a[2]:
            return "snapshot" if e.a[2][0] == const("snapshot") else "events"
    for e in r.after:
        if e.kind == "call" and fname(e.a[1]) == "should_snapshot":
            return "consider"
    for e in r.after:
        if e.kind == "guard" and listed(e.a, rep) is not None:
            return "startup"
    return None


def listed(t, rep):
    """Is this the question whether there is a snapshot in the replica?"""
    if t[0] == "not":
        return listed(t[1], rep)
    if t[0] == "cmp" and t[1] == "in" and t[2] == const("snapshot"):
        return any(x[0] == "call" and fname(x[1]) in ("entry_lister", "list") for x in walk(t[3])) or None
    return None


def empty_events(r):
    """Did the round find that there are no events?"""
    for e in r.after:
        if e.kind == "guard" and any(x[0] == "call" and fname(x[1]) in ("get_events", "highest_sequence") for x in walk(e.a)):
            return True
        if e.kind == "loop" and any(x[0] == "call" and fname(x[1]) == "get_events" for g in e.a for x in walk(g)):
            return True
    return False


def consider(ctx, f, r, me, rep, role):
    for e in r.after:
        if e.kind == "guard":
            t, b = e.a, e.b
            if t[0] == "not":
                t, b = t[1], not b
            if t[0] == "call" and fname(t[1]) == "should_snapshot":
                if b:
                    ctx.check(role.get("snapshot") in puts(r.after, me), "size", "snapshot", e.loc, "no snapshot is requested although the replica has become too large", r.path)
                else:
                    ctx.ok("size", "no snapshot")
                a, c = arg(t, 0, "snapshot_size"), arg(t, 1, "replica_sizes")
                ok = a is not None and any(x[0] == "call" and fname(x[1]) in ("snapshot", "statements_to_snapshot") for x in walk(a))
                ctx.check(ok, "size", "of a new snapshot", e.loc, "the size of the replica is not compared with the size of a new snapshot", r.path)
                s = strip_list(c) if c is not None else None
                ok = s is not None and s[0] == "comp" and s[2][0] == "attr" and s[2][2] == "size" and sized(s)
                ctx.check(ok, "size", "of the replica", e.loc, "the size of the replica is not the sizes of its snapshot and its event streams", r.path)
                return
    ctx.bad("size", "policy", f.loc(), "the size of the replica is not considered", r.path)


def sized(comp):
    """Are snapshots and event streams counted?"""
    snap = stream = not comp[4]
    for alt in disjuncts(comp[4]):
        pos = [t for t, b in alt if b]
        if any(t[0] == "cmp" and t[1] == "==" and const("snapshot") in (t[2], t[3]) for t in pos) and not any(is_call(t, "startswith") for t in pos):
            snap = True
        if any(is_call(t, "startswith") and t[2] and is_const(t[2][0]) and "event-stream-".startswith(str(cval(t[2][0]))) for t in pos):
            stream = True
        if any(t[0] == "cmp" and t[1] == "in" and const("snapshot") in (t[2], t[3]) for t in pos):
            snap = True
    return snap and stream


def startup(ctx, f, r, me, rep, role):
    """Along one way through the startup job: is what is missing requested?"""
    have = None
    left = []
    for i, e in enumerate(r.after):
        if e.kind != "guard":
            continue
        if listed(e.a, rep):
            have = e.b if e.a[0] != "not" else not e.b
            have = bool(have)
        c = [x for x in walk(e.a) if x[0] == "attr" and x[2] in ("important", "size") and from_database(x[1], r, me)]
        if c:
            left.append((c[0][2], wanted(e, c[0])))
    asked = puts(r.after, me)
    if have is None:
        ctx.bad("startup", "snapshot", f.loc(), "it is not determined whether there is a snapshot", r.path)
    elif not have:
        ctx.check(role.get("snapshot") in asked, "startup", "snapshot", f.loc(), "no snapshot is requested although there is none in the replica", r.path)
    elif role.get("snapshot") in asked:
        ctx.ok("startup", "snapshot anyway")
    elif any(w for n, w in left):
        ctx.check(role.get("events") in asked, "startup", "events", f.loc(), "events which are left over are not uploaded", r.path)
    elif role.get("events") in asked:
        ctx.ok("startup", "events anyway")
    else:
        ctx.check({n for n, w in left} == {"important", "size"}, "startup", "considered", f.loc(), "events which are left over are not uploaded", r.path)


def wanted(e, t):
    """Does the guard say that an upload is wanted?"""
    g, b = e.a, e.b
    if g[0] == "not":
        g, b = g[1], not b
    if g == t:
        return bool(b)
    if g[0] == "cmp" and g[1] in ("<", "<="):
        big = any(x == t for x in walk(g[3]))
        return bool(b) if big else not b
    if g[0] == "cmp" and g[1] in (">", ">="):
        big = any(x == t for x in walk(g[2]))
        return bool(b) if big else not b
    return bool(b)


def from_database(t, r, me):
    """Is the summary the one which was made of the events in the database?"""
    if t[0] == "call" and fname(t[1]) == "from_connection":
        return True
    if t[0] == "attr" and t[1] == me:
        last = None
        for e in r.before + r.after:
            if e.kind == "setattr" and e.a == me and e.b == t[2]:
                last = e.c
        return last is not None and last[0] == "call" and fname(last[1]) == "from_connection"
    return False


def stopped(ctx):
    f = ctx.func(SVC + ".stopService")
    me = ("self", f.cls.qual)
    start = ctx.func(SVC + ".startService")
    it, ps = ctx.run(start, ATOMS, unroll=1)
    kept = {}
    for x in ps:
        for e in flat(x.events):
            if e.kind == "setattr" and e.a == me:
                kept.setdefault(e.b, e)
    it, paths = ctx.run(f, ATOMS)
    for path in paths:
        evs = list(flat(path.events))
        cancels = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "cancel"]
        none = [(e.a[2] if e.a[3] == NONE else e.a[3]) for e in evs if e.kind == "guard" and e.a[0] == "cmp" and e.a[1] in ("is", "==") and NONE in (e.a[2], e.a[3]) and e.b]
        none += [e.a for e in evs if e.kind == "guard" and e.a[0] == "attr" and e.b is False]
        idle = any(t[0] == "attr" and t[1] == me for t in none)
        sup = [i for i, e in enumerate(evs) if e.kind == "call" and fname(e.a[1]) == "stopService"]
        ctx.check(bool(sup) or path.kind == "raise", "stop", "marked", f.loc(), "the service is not marked as stopped", path)
        if idle:
            ctx.ok("stop", "idle")
            continue
        ok = len(cancels) == 1 and receiver(cancels[0].a)[0] == "attr" and receiver(cancels[0].a)[1] == me
        ctx.check(ok, "stop", "cancel", f.loc(), "the work of the service is not cancelled when it is stopped", path)
        if ok and path.kind == "return":
            d = receiver(cancels[0].a)
            ctx.check(any(t == d for t in walk(path.value)), "stop", "waited for", f.loc(), "nobody learns when the service has stopped", path)
            if sup:
                ctx.check(sup[0] < evs.index(cancels[0]), "stop", "marked first", f.loc(), "the service is cancelled before it is marked as stopped", path)
            ctx.check(d[2] in kept, "stop", "the work", f.loc(), "something else than the work of the service is cancelled", path)


def policy(ctx):
    """A snapshot is wanted when the replica is large compared with it, not the other way round."""
    n = 0
    for q, f in sorted(ctx.program.functions.items()):
        if f.name != "should_snapshot" or ".tests." in q or f.cls is None or any("Protocol" in ast_text(b) for b in f.cls.node.bases):
            continue
        n += 1
        it, paths = ctx.run(f, ("api.required_passes_for_data", "required_passes_for_data"))
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        new, old = p(names[1]), p(names[2])
        for path in paths:
            if path.kind != "return":
                continue
            t = path.value
            flip = False
            if t[0] == "not":
                t, flip = t[1], True
            ok = t[0] == "cmp" and t[1] in ("<", "<=", ">", ">=")
            if ok:
                small, large = (t[2], t[3]) if t[1] in ("<", "<=") else (t[3], t[2])
                if flip:
                    small, large = large, small
                ok = any(x == new for x in walk(small)) and any(x == old or x == ("elem", old, 0) for x in walk(large)) and not any(x == old for x in walk(small))
            ctx.check(ok, "size", "policy", f.loc(), "snapshots are not taken when the replica has become large", path)
    ctx.check(n > 0, "size", "policy", ("src/_zkapauthorizer/_plugin.py", 1), "there is no policy for snapshots")


def ast_text(n):
    import ast
    return ast.unparse(n)


def changes(ctx):
    """Observed changes which matter lead to an upload."""
    cls = ctx.program.cls(SVC)
    me = ("self", cls.qual)
    # the observer is what startService registers
    start = ctx.func(SVC + ".startService")
    it, ps = ctx.run(start, ATOMS, unroll=1)
    obs = None
    for x in ps:
        for e in flat(x.events):
            if e.kind == "call" and fname(e.a[1]) == "add_mutation_observer" and e.a[2] and e.a[2][0][0] == "bm":
                obs = ctx.program.functions[e.a[2][0][2]]
    if obs is None:
        raise AnalysisBroken("the service does not observe changes in a way which is understood")
    role = getattr(ctx, "role", {})
    it, paths = ctx.run(obs, ATOMS + ("replicate.add_events",))
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        evs = list(flat(path.events))
        w = []
        for e in evs:
            if e.kind == "guard":
                c = [x for x in walk(e.a) if x[0] == "attr" and x[2] in ("important", "size")]
                if c:
                    w.append((c[0][2], wanted(e, c[0])))
        queued = role.get("events") in puts(evs, me)
        for o in it.apply(path.value, (), path.st):
            ctx.paths += 1
            if o.kind == "return" and role.get("events") in puts(list(flat(o.events)), me):
                queued = True
        if any(x for k, x in w):
            n += 1
            ctx.check(queued, "changes", "upload", obs.loc(), "changes which matter do not lead to an upload", path)
        elif not queued:
            ctx.check({k for k, x in w} == {"important", "size"}, "changes", "considered", obs.loc(), "it is not considered whether changes matter", path)
        ctx.check(not any(e.kind == "call" and fname(e.a[1]) == "put" for e in evs), "changes", "after the transaction", obs.loc(), "an upload is requested while the transaction may still fail", path)
    ctx.check(n > 0, "changes", "upload", obs.loc(), "no changes lead to an upload")


def summaries(ctx):
    """The summaries of changes: of those in the database, and of statements, and of two summaries."""
    S = "replicate.AccumulatedChanges"
    qual = ctx.program.cls(S).qual

    def made(f, path):
        v = path.value
        if not ctx.check(v[0] == "new" and v[1] == qual, "summary", f.name, f.loc(), "the summary is %s" % show(v)[:100], path):
            return None
        return dict(v[2])

    f = ctx.func(S + ".from_connection")
    it, paths = ctx.run(f, ("replicate.get_events",))
    for path in paths:
        if path.kind != "return":
            continue
        d = made(f, path)
        if d is None:
            continue
        evs = list(flat(path.events))
        got = {norm(e.a) for e in evs if e.kind == "call" and fname(e.a[1]) == "get_events"}
        every = {("attr", g, "changes") for g in got}
        v, known = d.get("important"), {norm(e.a): e.b for e in evs if e.kind == "guard"}
        ok = v is not None and (exists_important(v, every) or v[0] == "c" and any(exists_important(t, every) and b == v[2] for t, b in known.items()))
        ctx.check(ok, "summary", "left over, important", f.loc(), "whether what is left over matters is %s" % (show(v)[:120] if v else None), path)
        ctx.check(measured(d.get("size"), got, every), "summary", "left over, size", f.loc(), "the size of what is left over is %s" % show(d.get("size"))[:120], path)
    f = ctx.func(S + ".from_statements")
    names = [x.arg for x in f.node.args.args][-2:]
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        d = made(f, path)
        if d is None:
            continue
        v = d.get("important")
        while v is not None and v[0] == "call" and v[1] == ("g", "builtins.bool"):
            v = v[2][0]
        ctx.check(v == ("p", names[0]), "summary", "statements, important", f.loc(), "whether statements matter is %s" % (show(v)[:120] if v else None), path)
        ctx.check(measured(d.get("size"), (), {("p", names[1])}), "summary", "statements, size", f.loc(), "the size of statements is %s" % show(d.get("size"))[:120], path)
    f = ctx.func(S + ".__add__")
    other = ("p", f.node.args.args[1].arg)
    me = ("self", qual)
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        d = made(f, path)
        if d is None:
            continue
        known = [(norm(e.a), e.b) for e in flat(path.events) if e.kind == "guard"]
        for a in (False, True):
            for b in (False, True):
                env = {norm(("attr", me, "important")): a, norm(("attr", other, "important")): b}
                if all(truth_of(t, env) in (w, None) for t, w in known):
                    ctx.check(truth_of(d["important"], env) is (a or b), "summary", "sum, important", f.loc(), "whether two groups of changes matter is %s" % show(d["important"])[:120], path)
        z = d.get("size")
        ctx.check(z is not None and z[0] == "bin" and z[1] == "+" and {norm(z[2]), norm(z[3])} == {norm(("attr", me, "size")), norm(("attr", other, "size"))}, "summary", "sum, size", f.loc(), "the size of two groups of changes is %s" % show(z)[:120], path)


def exists_important(t, every):
    """Does the term ask whether any of the changes is important?"""
    t = norm(t)
    while t[0] == "call" and t[1] == ("g", "builtins.bool"):
        t = t[2][0]
    if t[0] != "exists" or not t[1] or norm(t[1][0]) not in every or len(t[1]) != 1:
        return False
    conds = t[2]
    if len(conds) != 1:
        return False
    c = conds[0]
    c, b = c if isinstance(c[0], tuple) else (c, True)
    return b is True and norm(c)[0] == "attr" and c[2] == "important" and norm(c[1])[0] == "elem" and norm(c[1][1]) in every


def measured(t, got, every):
    """Is it the size of everything: of all of it encoded, or the sum over all of it?"""
    if t is None:
        return False
    n = norm(t)
    if n[0] == "sum":
        return not n[4] and len(n[3]) == 1 and norm(n[3][0]) in every and any(x[0] == "call" and x[1] == ("g", "builtins.len") for x in walk(n[2]))
    if n[0] == "call" and fname(n[1]) == "seek":
        end = len(n[2]) == 2 and n[2][0] == ("c", "int", 0) and n[2][1] in (("g", "os.SEEK_END"), ("g", "io.SEEK_END"), ("c", "int", 2))
        return end and any(contains(n, x) for x in every)
    if n[0] == "call" and (n[1] == ("g", "builtins.len") or fname(n[1]) == "tell" or fname(n[1]) == "getbuffer"):
        return any(contains(n, x) for x in every)
    return False


def truth_of(t, env):
    t = norm(t)
    if t in env:
        return env[t]
    if t[0] == "c":
        return bool(t[2])
    if t[0] == "not":
        v = truth_of(t[1], env)
        return None if v is None else not v
    if t[0] in ("or", "and"):
        vs = [truth_of(x, env) for x in t[1]]
        want = t[0] == "or"
        return want if want in vs else None if None in vs else not want
    if t[0] == "bin" and t[1] in ("|", "&", "or", "and"):
        a, b = truth_of(t[2], env), truth_of(t[3], env)
        return None if a is None or b is None else (a or b) if t[1] in ("|", "or") else (a and b)
    if t[0] == "call" and t[1] == ("g", "builtins.bool"):
        return truth_of(t[2][0], env)
    if t[0] == "call" and t[1] in (("g", "builtins.any"), ("g", "builtins.max")) and t[2]:
        xs = t[2][0][1] if t[2][0][0] in ("tuple", "list") else t[2]
        vs = [truth_of(x, env) for x in xs]
        return None if None in vs else any(vs)
    return None


def wired(ctx):
    cls = ctx.program.cls("_plugin.ZKAPAuthorizer")
    me = ("self", cls.qual)
    n = 0
    todo = ctx.program.climb(("replication_service",), lambda f: not f.module.name.endswith(".replicate"))
    for m in todo:
        it, paths = ctx.run(m, ("replicate.replication_service",))
        seen, problems = False, []
        for path in paths:
            evs = list(flat(path.events))
            if path.kind == "raise":
                continue
            for c in [e.a for e in evs if e.kind == "call" and fname(e.a[1]) == "replication_service"]:
                seen = True
                parents = [e.a[2][0] for e in evs if e.kind == "call" and fname(e.a[1]) == "setServiceParent" and receiver(e.a) == c]
                parents += [receiver(e.a) for e in evs if e.kind == "call" and fname(e.a[1]) == "addService" and e.a[2] == (c,)]
                if not parents:
                    problems.append(("parent", "the replication service is never started", path))
                if not all(t[0] == "attr" and t[1] == me for t in parents):
                    problems.append(("kept", "the replication service belongs to something unknown", path))
        if problems and todo.send(True):
            continue
        for what, why, path in problems:
            ctx.bad("wired", what, m.loc(), why, path)
        if seen:
            n += 1
            for what in ("parent", "kept"):
                if what not in [x[0] for x in problems]:
                    ctx.ok("wired", what)
    ctx.check(n > 0, "wired", "created", (cls.module.relpath, cls.node.lineno), "no replication service is created")
    ok = False
    todo = ctx.program.climb(("addSystemEventTrigger", "callWhenRunning"), lambda f: f.module is cls.module)
    for m in todo:
        it, paths = ctx.run(m)
        problems = []
        for path in paths:
            evs = list(flat(path.events))
            on = [e.a[2][0] for e in evs if e.kind == "call" and fname(e.a[1]) == "callWhenRunning" and e.a[2]]
            off = [e.a[2] for e in evs if e.kind == "call" and fname(e.a[1]) == "addSystemEventTrigger" and len(e.a[2]) >= 3]
            v = path.value
            if ("attr", v, "startService") not in on:
                problems.append(("started", "the services are not started with the node", path))
            if (const("before"), const("shutdown"), ("attr", v, "stopService")) not in [tuple(x[:3]) for x in off]:
                problems.append(("stopped", "the services are not stopped with the node", path))
        if problems and todo.send(True):
            continue
        ok = True
        for what, why, path in problems:
            ctx.bad("wired", what, m.loc(), why, path)
        for what in ("started", "stopped"):
            if what not in [x[0] for x in problems]:
                ctx.ok("wired", what)
    ctx.check(ok, "wired", "started", (cls.module.relpath, cls.node.lineno), "the services are not started with the node")


def walk_ast(n):
    import ast
    return ast.walk(n)
