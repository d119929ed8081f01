"""
P35: exactly the leases about to expire are renewed, on every server.  The
operation of the lease maintenance service is followed through its loops over
servers and storage indexes; every way through the inner loop has to look at
the share statistics and to renew exactly when the earliest expiration is
nearer than the configured minimum.
"""
from ..interp import flat
from ..loader import AnalysisBroken
from ..match import arg, p
from ..terms import I, contains, fname, is_const, norm, walk
from .store import CURSOR, Store, statements

TECHNIQUE = "path rules over the loops of lease maintenance, with the renewal condition brought into linear normal form"
ASSUMPTIONS = [
    "a storage server answers stat_shares with one entry for each storage index it was asked about, in their order",
    "the lease expiration of shares and datetime.utcfromtimestamp refer to the same (UTC) clock",
]
MAINTAIN = "lease_maintenance.maintain_leases_from_root"
VISIT = p("VISIT")
COPY = {"builtins.list", "builtins.tuple", "builtins.iter"}


def method(t):
    return t[1][2] if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "attr" else None


def plain(t):
    while True:
        if t[0] == "call" and t[1][0] == "g" and t[1][1] in COPY and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def check(ctx):
    ctx.rule("every server", "each connected server is asked about every visited storage index", minimum=3)
    ctx.rule("every object", "the answer for each storage index is looked at", minimum=1)
    ctx.rule("condition", "a lease is renewed if and only if the share whose lease expires first has less than the minimum time remaining", minimum=3)
    ctx.rule("secrets", "the renewed lease is the uploader's: same object, same server, secrets derived in the way Tahoe-LAFS does", minimum=3)
    ctx.rule("failure", "a request that fails makes the run fail", minimum=3)
    ctx.rule("finished", "the run is reported as finished after everything else, once, and not if it failed", minimum=2)
    ctx.rule("observed", "all sizes of the shares found for an object are recorded", minimum=1)
    ctx.rule("recorded", "the store keeps the passes which observed shares cost, per run, and reports the run which finished last", minimum=5)
    ctx.rule("configured", "the node's own servers, secrets, clock, store and minimum lease time are used", minimum=5)
    run(ctx, False)
    run(ctx, True)
    configured(ctx)
    recorded(ctx)


def operation(ctx, **kw):
    it, ps = ctx.run(MAINTAIN, ("lease_maintenance.visit_storage_indexes_from_root", "lease_maintenance.iter_storage_indexes"), **kw)
    out = []
    for x in ps:
        if x.kind != "return":
            continue
        made = [e for e in flat(x.events) if e.kind == "call" and (fname(e.a[1]) or "").endswith("visit_storage_indexes_from_root")]
        if not made:
            raise AnalysisBroken("the operation of lease maintenance is not made from a traversal")
        f = made[0].a[2][0] if made[0].a[2] else dict(made[0].a[3])["visit_assets"]
        ctx.paths += 1
        out.extend((it, y) for y in it.apply(f, [VISIT], x.st))
    return out


class Round:
    """What is found on the way to one place: the enclosing loops."""

    def __init__(self, e, loops, events):
        self.e, self.loops, self.events = e, loops, events


def places(events, loops=()):
    """(event, enclosing loops with the branch taken, events of that branch)"""
    for e in events:
        if e.kind == "loop":
            for s in e.b:
                yield from places(s.events, loops + ((e, s),))
        yield Round(e, loops, events)


def is_servers(t):
    return method(t) == "get_connected_servers" and t[1][1] == p("storage_broker")


def source_gens(t):
    """The collections an element runs over, through list() and comprehensions."""
    t = plain(t)
    return t


def run(ctx, failing):
    where = ctx.func("lease_maintenance.renew_leases").loc()
    n = 0
    for it, path in operation(ctx, raise_all=failing):
        rounds = list(places(path.events))
        stats = [r for r in rounds if r.e.kind == "call" and method(r.e.a) == "stat_shares"]
        renewals = [r for r in rounds if r.e.kind == "call" and method(r.e.a) == "add_lease"]
        finishes = [r for r in rounds if r.e.kind == "call" and method(r.e.a) == "finish"]
        if failing:
            if path.kind == "return":
                for r in rounds:
                    if r.e.kind == "raised" and method(r.e.a) in ("stat_shares", "add_lease", "observe", "list") or r.e.kind == "raised" and (fname(r.e.a[1]) or "") == "iter_storage_indexes":
                        ctx.bad("failure", "%s" % (method(r.e.a) or fname(r.e.a[1])), r.e.loc, "the run goes on as if the request had succeeded", path)
            else:
                ctx.check(not finishes or raised_by(path, "finish"), "finished", "not after a failure", where, "a failed run is reported as finished", path)
                for e in flat(path.events):
                    if e.kind == "raised" and isinstance(e.a, tuple) and e.a[0] == "call":
                        ctx.ok("failure", method(e.a) or fname(e.a[1]) or "call")
            continue
        if path.kind != "return":
            continue
        n += 1
        known = [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "iter_storage_indexes"]
        ok = len(known) == 1 and known[0].a[2] == (VISIT,)
        ctx.check(ok, "every server", "the objects", where, "the objects to maintain are not those visited", path)
        if not ok:
            continue
        indexes = known[0].a
        awaited = [norm(r.e.a) for r in rounds if r.e.kind == "await"]
        # servers
        if not stats:
            ctx.bad("every server", "the servers", where, "no server is asked about shares", path)
            continue
        for r in stats:
            server = r.e.a[1][1]
            outer = [(l, s) for l, s in r.loops]
            good = len(outer) == 1 and len(outer[0][0].a) == 1 and is_servers(plain(base_of(outer[0][0].a[0]))) and not filtered(outer[0][0])
            good = good and all(any(x.kind == "call" and method(x.a) == "stat_shares" for x in flat(s.events)) for s in outer[0][0].b)
            good = good and not any(e.kind == "loopexit" and e.a == outer[0][0].a for e in path.events)
            good = good and server[0] == "call" and method(server) == "get_storage_server" and is_servers(plain(base_of(server[1][1])))
            ctx.check(good, "every server", "the servers", r.e.loc, "not every connected server is asked", path)
            asked = plain(r.e.a[2][0]) if r.e.a[2] else None
            ctx.check(asked is not None and norm(asked) == norm(indexes) and norm(r.e.a) in awaited, "every server", "about everything", r.e.loc, "the server is not asked about every object", path)
            objects(ctx, it, path, r, indexes, server, awaited, where)
        for r in renewals:
            if len(r.loops) < 2:
                ctx.bad("condition", "only for the objects", r.e.loc, "a lease is renewed without looking at the shares", path)
        ok = len(finishes) == 1 and not finishes[0].loops and after_all(path, finishes[0].e) and finishes[0].e.a[1][1][0] == "call" and finishes[0].e.a[1][1][1] == p("progress")
        ctx.check(ok, "finished", "after everything else", where, "the run is not reported as finished after all objects were handled on all servers", path)
        starts = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == p("progress")]
        ctx.check(len(starts) == 1, "finished", "one run", where, "not exactly one run is recorded", path)
    if not n and not failing:
        raise AnalysisBroken("lease maintenance never finishes")


def raised_by(path, name):
    v = path.value
    return v[0] == "exc" and len(v) > 2 and isinstance(v[2], tuple) and method(v[2]) == name


def base_of(t):
    """The collection an element belongs to."""
    while t[0] in ("elem",):
        t = plain(t[1])
    t = plain(t)
    if t[0] == "comp" and len(t[3]) == 1 and not conds_of(t):
        return base_of(t[3][0])
    return t


def conds_of(comp):
    c = comp[4]
    if c and c[0] == "dnf":
        return [x for alt in c[1] for x in alt]
    return [x for x in c if x]


def filtered(loop):
    c = loop.c
    if not c:
        return False
    if c and c[0] == "dnf":
        return any(alt for alt in c[1])
    return True


def after_all(path, e):
    i = [id(x) for x in path.events].index(id(e)) if any(x is e for x in path.events) else -1
    return i >= 0 and not any(x.kind in ("loop", "await") for x in path.events[i + 1:])


def objects(ctx, it, path, r, indexes, server, awaited, where):
    """The loop over the answers."""
    answer = r.e.a
    loops = [e for e in r.events if e.kind == "loop" and any(e2.kind == "call" and method(e2.a) in ("add_lease", "observe") for s in e.b for e2 in flat(s.events))]
    if len(loops) != 1:
        ctx.bad("every object", "answers", r.e.loc, "the answers are not looked at one by one", path)
        return
    loop = loops[0]
    gens = [plain(g) for g in loop.a]
    pairs = len(gens) == 1 and gens[0][0] == "zip" and [norm(plain(x)) for x in gens[0][1]] in ([norm(indexes), norm(answer)], [norm(answer), norm(indexes)])
    counted = len(gens) == 1 and norm(gens[0]) in (norm(indexes), norm(answer)) or len(gens) == 1 and gens[0][0] == "call" and fname(gens[0][1]) in ("enumerate", "range") and contains(gens[0], indexes)
    whole = (pairs or counted) and not filtered(loop) and not any(e.kind == "loopexit" and e.a == loop.a for e in flat(path.events))
    ctx.check(whole, "every object", "answers", loop.loc, "not every answer is looked at", path)
    if not whole:
        return
    for s in loop.b:
        evs = list(flat(s.events))
        guards = [(e.a, e.b) for e in evs if e.kind == "guard"]
        renewed = [e for e in evs if e.kind == "call" and method(e.a) == "add_lease"]
        seen = [e for e in evs if e.kind == "call" and method(e.a) == "observe"]
        empty = any(is_answer(a, answer) and not b or emptiness(a, answer) is not None and emptiness(a, answer) == b for a, b in guards)
        nonempty = any(is_answer(a, answer) and b or emptiness(a, answer) is not None and emptiness(a, answer) != b for a, b in guards)
        if s.kind not in ("next", "continue"):
            ctx.bad("every object", "answers", loop.loc, "the rest of the answers is not looked at", path)
            continue
        if empty:
            ctx.check(not renewed, "condition", "no shares", loop.loc, "a lease is renewed although the server has no shares", path)
            continue
        verdicts = [decides(it, path, a, b, answer, nonempty) for a, b in guards]
        verdicts = [v for v in verdicts if v is not None]
        if not verdicts:
            ctx.bad("condition", "expiration", loop.loc, "whether a lease is renewed does not depend on the earliest expiration and the minimum time remaining", path)
            continue
        want = verdicts[-1]
        ctx.check(bool(renewed) == want and len(renewed) <= 1, "condition", "renewed" if want else "not renewed", loop.loc,
                  "the lease is %s" % ("not renewed although it is about to expire" if want else "renewed although it is not about to expire"), path)
        sizes = [e for e in seen if e.a[2] and all_sizes(e.a[2][0], answer)]
        ctx.check(len(sizes) == 1 and len(seen) == 1, "observed", "sizes", loop.loc, "not the sizes of all shares of the object are recorded, once", path)
        ctx.check(all(e.a[1][1][0] == "call" and e.a[1][1][1] == p("progress") for e in seen), "observed", "by the run", loop.loc, "not recorded for this run", path)
        for e in renewed:
            secrets(ctx, path, e, indexes, answer, server, awaited)


def is_answer(t, answer):
    """The statistics of one object."""
    if t[0] == "call" and fname(t[1]) in ("len", "bool", "dict", "list") and len(t[2]) == 1:
        t = t[2][0]
    return position(t) and norm(plain(t[1])) == norm(answer)


def position(t):
    """Is this the current element of the collection it is taken from?"""
    return t[0] == "elem" or t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] == "idx"


def emptiness(t, answer):
    """The truth of a condition that means there are no shares."""
    if t[0] == "cmp" and t[1] in ("==", "is") and len(t) > 3:
        a, b = t[2], t[3]
        for x, y in ((a, b), (b, a)):
            if is_answer(x, answer) and (is_const(y) and y[2] in (0, None) or y[0] == "dict" and not y[1]):
                return True
    return None


def linear(t):
    """{atom: coefficient} of a sum."""
    out = {}
    if t[0] == "bin" and t[1] in ("+", "-"):
        for k, v in linear(t[2]).items():
            out[k] = out.get(k, 0) + v
        for k, v in linear(t[3]).items():
            out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return out
    if t[0] == "call" and method(t) == "total_seconds":
        return linear(t[1][1])
    if t[0] == "call" and method(t) == "timestamp":
        return linear(t[1][1])
    return {norm(t): 1}


def decides(it, path, t, b, answer, nonempty):
    """True: about to expire, False: not, None: the condition is about something else."""
    if t[0] == "exists":
        # some share is about to expire
        c = t[2]
        alts = c[1] if c and c[0] == "dnf" else (c,)
        if len(t[1]) == 1 and (norm(plain(strip_values(t[1][0]))) and is_answer(plain(strip_values(t[1][0])), answer)) and len(alts) == 1 and len(alts[0]) == 1:
            a, tb = alts[0][0]
            kind = comparison(it, path, a, answer, each=True)
            if kind is True and tb:
                return b
        return None
    kind = comparison(it, path, t, answer, each=False)
    if kind is None:
        return None
    return kind == b


def strip_values(t):
    if t[0] == "call" and method(t) in ("values", "items"):
        return t[1][1]
    return t


def comparison(it, path, t, answer, each):
    """True if the comparison says that the time remaining is less than the minimum, False for its opposite."""
    if t[0] != "cmp" or t[1] != "<":
        return None
    total = linear(t[2])
    for k, v in linear(t[3]).items():
        total[k] = total.get(k, 0) - v
    total = {k: v for k, v in total.items() if v}
    exp = [k for k in total if is_expiration(it, path, k, answer, each)]
    now = [k for k in total if k[0] == "call" and k[1] == p("get_now")]
    least = [k for k in total if k == p("min_lease_remaining")]
    if len(exp) != 1 or len(now) != 1 or len(least) != 1 or len(total) != 3:
        return None
    signs = (total[exp[0]], total[now[0]], total[least[0]])
    if signs == (1, -1, -1):
        return True
    return None


def is_expiration(it, path, t, answer, each):
    """utcfromtimestamp of the earliest lease expiration."""
    if t[0] != "call" or fname(t[1]) != "utcfromtimestamp" or len(t[2]) != 1:
        return False
    x = t[2][0]
    if each:
        return x[0] == "attr" and x[2] == "lease_expiration" and any(is_answer(y, answer) for y in walk(x) if y and y[0] in ("elem", "sub"))
    if x[0] == "call" and fname(x[1]) == "min" and len(x[2]) == 1 and not dict(x[3]).get("key"):
        c = x[2][0]
        return c[0] == "comp" and not conds_of(c) and len(c[3]) == 1 and c[2][0] == "attr" and c[2][2] == "lease_expiration" and is_answer(plain(strip_values(plain(c[3][0]))), answer)
    if x[0] == "attr" and x[2] == "lease_expiration":
        m = x[1]
        if m[0] == "call" and fname(m[1]) == "min" and len(m[2]) == 1:
            key = dict(m[3]).get("key")
            return is_answer(plain(strip_values(plain(m[2][0]))), answer) and key is not None and by_expiration(it, path, key)
        if m[0] == "sub" and is_const(m[2]) and m[2][2] == 0 and m[1][0] == "call" and fname(m[1][1]) == "sorted":
            key = dict(m[1][3]).get("key")
            return is_answer(plain(strip_values(plain(m[1][2][0]))), answer) and key is not None and by_expiration(it, path, key) and "reverse" not in dict(m[1][3])
    return False


def by_expiration(it, path, key):
    if key[0] == "call" and fname(key[1]) == "attrgetter":
        return is_const(key[2][0]) and key[2][0][2] == "lease_expiration"
    x = p("share")
    st = path.st.fork()
    try:
        vs = [y.value for y in it.apply(key, [x], st) if y.kind == "return"]
    except Exception:
        return False
    return bool(vs) and all(v == ("attr", x, "lease_expiration") for v in vs)


def all_sizes(t, answer):
    t = plain(t)
    return t[0] == "comp" and t[1] != "set" and len(t[3]) == 1 and not conds_of(t) and t[2][0] == "attr" and t[2][2] == "size" and is_answer(plain(strip_values(plain(t[3][0]))), answer)


def secrets(ctx, path, e, indexes, answer, server, awaited):
    t = e.a
    ctx.check(norm(t[1][1]) == norm(server), "secrets", "server", e.loc, "the lease is renewed on another server", path)
    ctx.check(norm(t) in awaited, "failure", "add_lease awaited", e.loc, "nobody waits for the renewal", path)
    si, renew, cancel = (arg(t, 0, "storage_index"), arg(t, 1, "renew_secret"), arg(t, 2, "cancel_secret"))
    good = si is not None and position(si) and norm(plain(si[1])) == norm(indexes)
    ctx.check(good, "secrets", "object", e.loc, "another object's lease is renewed", path)
    ctx.check(is_secret(renew, "renewal", si, server), "secrets", "renew secret", e.loc, "the renew secret is not the uploader's", path)
    ctx.check(is_secret(cancel, "cancel", si, server), "secrets", "cancel secret", e.loc, "the cancel secret is not the uploader's", path)


def is_secret(t, kind, si, server):
    if t is None or t[0] != "call" or fname(t[1]) != "bucket_%s_secret_hash" % kind or len(t[2]) != 2:
        return False
    inner, seed = t[2]
    if seed[0] != "call" or method(seed) != "get_lease_seed" or norm(seed[1][1]) != norm(server):
        return False
    if inner[0] != "call" or fname(inner[1]) != "file_%s_secret_hash" % kind or len(inner[2]) != 2 or norm(inner[2][1]) != norm(si):
        return False
    own = inner[2][0]
    return own[0] == "call" and method(own) == "get_%s_secret" % kind and own[1][1] == p("secret_holder")


# -- where it is put together -------------------------------------------------
def configured(ctx):
    f = ctx.func("_plugin._create_maintenance_service")
    names = [a.arg for a in f.node.args.args]
    reactor, node, store = [p(n) for n in names]
    it, ps = ctx.run(f, ("lease_maintenance.maintain_leases_from_root", "lease_maintenance.lease_maintenance_service", "lease_maintenance.LeaseMaintenanceConfig.*"))
    formal = [a.arg for a in ctx.func(MAINTAIN).node.args.args]
    n = 0
    for path in ps:
        for e in flat(path.events):
            if e.kind != "call" or fname(e.a[1]) != "maintain_leases_from_root":
                continue
            n += 1
            g = dict(zip(formal, e.a[2]))
            g.update(dict(e.a[3]))
            v = g.get("storage_broker")
            ctx.check(v is not None and method(v) == "get_storage_broker" and v[1][1] == node, "configured", "servers", e.loc, "not the servers of the node", path)
            v = g.get("secret_holder")
            ctx.check(v == ("attr", node, "_secret_holder"), "configured", "secrets", e.loc, "not the secrets of the node", path)
            v = g.get("progress")
            ok = v is not None and (v == ("attr", store, "start_lease_maintenance") or v[0] == "bm" and v[2].endswith("start_lease_maintenance"))
            ctx.check(ok, "configured", "store", e.loc, "the activity is not recorded in the store", path)
            v = g.get("min_lease_remaining")
            ok = v is not None and v[0] == "attr" and v[2] == "min_lease_remaining" and v[1][0] == "call" and fname(v[1][1]) == "from_node_config" and v[1][2] == (("attr", node, "config"),)
            ctx.check(ok, "configured", "minimum", e.loc, "not the configured minimum lease time", path)
            v = g.get("get_now")
            ok = v is not None and is_utc_now(it, path, v, reactor)
            ctx.check(ok, "configured", "clock", e.loc, "not the current time in UTC", path)
    if not n:
        raise AnalysisBroken("the lease maintenance operation is not made by the plugin")
    f = ctx.func("lease_maintenance.LeaseMaintenanceConfig.from_node_config")
    it, ps = ctx.run(f, ("config.read_duration",))
    for path in ps:
        v = path.value
        got = dict(v[2]).get("min_lease_remaining") if v[0] == "new" else None
        ok = got is not None and got[0] == "call" and fname(got[1]) == "read_duration" and any(is_const(x) and x[2] == "lease.min-time-remaining" for x in got[2])
        ctx.check(ok, "configured", "option", f.loc(), "the minimum lease time is not read from its option", path)


def is_utc_now(it, path, f, reactor):
    try:
        vs = it.apply(f, [], path.st)
    except AnalysisBroken:
        return False
    # read at every call, not once
    read = [e.a for e in flat(path.events) if e.kind == "call" and method(e.a) == "seconds"]
    if any(y in read for x in vs if x.kind == "return" for y in walk(x.value)):
        return False
    return bool(vs) and all(x.kind == "return" and x.value[0] == "call" and fname(x.value[1]) == "utcfromtimestamp" and method(x.value[2][0]) == "seconds" and x.value[2][0][1][1] == reactor for x in vs)


# -- the record of the run ------------------------------------------------------
TABLE = "lease-maintenance-spending"


def recorded(ctx):
    s = Store(ctx, "model.LeaseMaintenance")
    own = ("self", s.cls.qual)
    rowid = None
    it, ps = s.paths("start")
    for path in ps:
        if path.kind != "return":
            continue
        ex = [x for x in statements(path) if x.stmt.table == TABLE]
        ok = len(ex) == 1 and ex[0].stmt.kind == "insert"
        sets = [e for e in flat(path.events) if e.kind == "setattr" and e.a == own]
        ids = [e for e in sets if e.c[0] == "attr" and e.c[2] == "lastrowid"]
        ok = ok and len(ids) == 1
        if ok:
            rowid = ids[0].b
            row = dict(zip(ex[0].stmt.columns, ex[0].stmt.values))
            ok = value(ex[0], row.get("count")) == ("c", "int", 0) and is_now(value(ex[0], row.get("started"))) and ("finished" not in row or is_none(value(ex[0], row["finished"])))
        ctx.check(ok, "recorded", "start", s.method("start").loc, "the start of a run is not recorded as a new unfinished one", path)
    if rowid is None:
        return
    own_row = I(("attr", own, rowid))
    f = s.method("observe")
    sizes = p(f.node.args.args[-1].arg)
    it, ps = s.paths("observe", CURSOR + ("storage_common.*",))
    for path in ps:
        if path.kind != "return":
            continue
        ex = [x for x in statements(path) if x.stmt.table == TABLE]
        ok = len(ex) == 1 and ex[0].stmt.kind == "update" and list(ex[0].stmt.sets) == ["count"] and not ex[0].gens
        if ok:
            e = ex[0].stmt.sets["count"]
            parts = [e[2], e[3]] if e[0] in ("+", "bin", "op") and len(e) == 4 else [e[1], e[2]] if e[0] == "+" else []
            cols = [x for x in parts if x[0] == "col" and x[1] == "count"]
            vals = [ex[0].value(x) for x in parts if x[0] != "col"]
            ok = len(cols) == 1 and len(vals) == 1 and vals[0] is not None and vals[0][0] == "call" and fname(vals[0][1]) == "required_passes" and vals[0][2][1:] == (sizes,) and vals[0][2][0][0] == "attr" and vals[0][2][0][1] == own
            ok = ok and ex[0].equals("id") == own_row
        ctx.check(ok, "recorded", "observe", f.loc, "what an observation costs is not added to the run", path)
    f = s.method("finish")
    it, ps = s.paths("finish")
    for path in ps:
        if path.kind != "return":
            continue
        ex = [x for x in statements(path) if x.stmt.table == TABLE]
        ok = len(ex) == 1 and ex[0].stmt.kind == "update" and list(ex[0].stmt.sets) == ["finished"] and is_now(ex[0].value(ex[0].stmt.sets["finished"])) and ex[0].equals("id") == own_row
        ctx.check(ok, "recorded", "finish", f.loc, "the end of the run is not recorded", path)
    v = Store(ctx)
    f = v.method("start_lease_maintenance")
    it, ps = v.paths("start_lease_maintenance", CURSOR + ("model.LeaseMaintenance.*",))
    me = ("self", v.cls.qual)
    for path in ps:
        new = path.value
        ok = path.kind == "return" and new is not None and new[0] == "new" and new[1] == s.cls.qual and any(x[0] == "attr" and x[1] == me and x[2] == "pass_value" for k, x in new[2])
        ok = ok and any(e.kind == "call" and fname(e.a[1]) == "start" for e in flat(path.events))
        ctx.check(ok, "recorded", "a new run", f.loc, "a run is not started with the store's pass value", path)
    f = v.method("get_latest_lease_maintenance_activity")
    it, ps = v.paths("get_latest_lease_maintenance_activity")
    for path in ps:
        ex = [x for x in statements(path) if x.stmt.table == TABLE]
        if not ex:
            continue
        st = ex[0].stmt
        cols = [c[1] if c[0] == "col" else None for c in (x[0] if x and isinstance(x[0], tuple) else x for x in st.columns)]
        ok = st.kind == "select" and any(w[0] in ("isnot", "notnull", "is not", "not") and "finished" in str(w) for w in st.where) and "finished" in str(st.order) and "desc" in str(st.order).lower()
        ctx.check(ok, "recorded", "latest", f.loc, "not the run which finished last: %r %r" % (st.where, st.order), path)
        new = path.value
        if path.kind == "return" and new is not None and new[0] == "new":
            want = {"started": "started", "passes_required": "count", "finished": "finished"}
            for k, x in new[2]:
                while x[0] == "call" and x[2] and x[1][0] == "g":
                    x = x[2][0]
                pos = x[2][2] if x[0] == "sub" and is_const(x[2]) else x[2] if x[0] == "elem" and len(x) > 2 else None
                good = k in want and len(cols) == 3 and isinstance(pos, int) and pos < 3 and cols[pos] == want[k]
                ctx.check(good, "recorded", "latest: %s" % k, f.loc, "another column is reported as %s" % k, path)


def value(ex, e):
    return ex.value(e)


def is_now(t):
    return t is not None and t[0] == "call" and t[1][0] == "attr" and "now" in t[1][2]


def is_none(t):
    return t is not None and is_const(t) and t[2] is None
