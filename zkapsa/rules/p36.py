"""
P36: lease maintenance keeps being scheduled and never overlaps itself.  The
service made by lease_maintenance_service is taken apart: what its start
schedules, what the scheduled function does on every outcome of the operation,
what stopping it does, and where the intervals come from.
"""
from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import I, contains, fname, is_const, norm, walk
from .p35 import is_utc_now, linear, method

TECHNIQUE = "typestate of the delayed call over all outcomes of the operation, plus term rules for the intervals"
ASSUMPTIONS = [
    "a service which was stopped is not started again before the run which was going on then is over",
    "logging does not fail",
    "the operation reports its end through the Deferred or coroutine it returns",
]
SERVICE = "lease_maintenance.lease_maintenance_service"
READ, WRITE = "lease_maintenance.read_time_from_path", "lease_maintenance.write_time_to_path"
BASE = "twisted.application.service.Service."


def check(ctx):
    ctx.rule("start", "starting the service schedules one run, and does not begin one", minimum=3)
    ctx.rule("next", "after a run, whatever its outcome, exactly one next run is scheduled unless the service was stopped", minimum=4)
    ctx.rule("stop", "stopping the service cancels the scheduled run", minimum=3)
    ctx.rule("interval", "the interval is drawn from the configured distribution for each run and can be scheduled", minimum=4)
    ctx.rule("first", "the first run is due one interval after the recorded time of the last one", minimum=3)
    ctx.rule("record", "the time is recorded after every run, in the form in which it is read", minimum=5)
    ctx.rule("attached", "a node has one maintenance service, which it starts and stops", minimum=4)
    service(ctx)
    stamps(ctx)
    configured(ctx)
    attached(ctx)


def service(ctx):
    f = ctx.func(SERVICE)
    it, ps = ctx.run(f, (READ, WRITE))
    made = [x for x in ps if x.kind == "return"]
    if not made:
        raise AnalysisBroken("no lease maintenance service is made")
    first = made[0].value
    if first[0] != "new":
        raise AnalysisBroken("the lease maintenance service is not an object of a known class")
    cls = first[1]
    if any(x.value[0] != "new" or x.value[1] != cls for x in made):
        raise AnalysisBroken("different lease maintenance services are made")
    t = Timer(ctx, cls)
    t.run()
    names = [a.arg for a in f.node.args.args]
    for path in made:
        fields = dict(path.value[2])
        Fields(ctx, f, it, path, fields, t, names).run()


class Timer:
    """The class of the service, analysed on its own."""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.me = ("self", cls)
        self.short = cls.split(".", 1)[1]
        self.initial = self.operation = self.sample = self.slot = None

    def method(self, name):
        return self.ctx.func("%s.%s" % (self.short, name))

    def later(self, e):
        return e.kind == "call" and method(e.a) == "callLater"

    def field(self, t):
        """The name of the field a term is taken from."""
        return t[2] if t and t[0] == "attr" and t[1] == self.me else None

    def run(self):
        ctx = self.ctx
        f = self.method("startService")
        it, ps = ctx.run(f)
        where = f.loc()
        for path in ps:
            if path.kind != "return":
                ctx.bad("start", "starts", where, "starting fails", path)
                continue
            calls = [e for e in flat(path.events) if self.later(e)]
            ok = len(calls) == 1 and len(calls[0].a[2]) >= 2
            ctx.check(ok, "start", "one run scheduled", where, "not exactly one run is scheduled when the service starts", path)
            if not ok:
                continue
            call = calls[0].a
            src = seconds_of(call[2][0])
            self.initial = self.field(src) if src else None
            ctx.check(self.initial is not None, "start", "after the first interval", where, "the first run is not scheduled after the first interval in seconds", path)
            ctx.check(self.field(call[1][1]) is not None or call[1][1][0] == "g", "start", "on the reactor", where, "the run is not scheduled on the reactor", path)
            sets = [e for e in flat(path.events) if e.kind == "setattr" and e.a == self.me and norm(e.c) == norm(call)]
            ctx.check(len(sets) == 1, "stop", "the scheduled run is kept", where, "the scheduled run is not remembered, so that it cannot be cancelled", path)
            self.slot = sets[0].b if len(sets) == 1 else None
            ctx.check(base_called(path, "startService", self.me), "start", "running", where, "the service does not know that it was started", path)
            if self.slot is None:
                continue
            other = [e for e in flat(path.events) if e.kind == "call" and self.field(e.a[1]) is not None]
            ctx.check(not other, "start", "no run at once", where, "something is called when the service starts", path)
            self.stop()
            self.a_run(it, path, call)

    def stop(self):
        ctx = self.ctx
        f = self.method("stopService")
        it, ps = ctx.run(f)
        slot = ("attr", self.me, self.slot)
        # whether the run is over is asked of the call itself
        self.guarded = False
        for path in ps:
            if path.kind != "return":
                ctx.bad("stop", "cancelled", f.loc(), "stopping fails", path)
                continue
            evs = list(flat(path.events))
            cancels = [e for e in evs if e.kind == "call" and method(e.a) == "cancel" and norm(e.a[1][1]) == norm(slot)]
            idle = False
            for e in evs:
                if e.kind != "guard":
                    continue
                if is_none_test(e.a, slot):
                    idle = idle or e.b
                elif norm(e.a) == norm(slot):
                    idle = idle or not e.b
                elif method(e.a) == "active" and norm(e.a[1][1]) == norm(slot):
                    self.guarded = True
                    idle = idle or not e.b
            ctx.check(idle or len(cancels) == 1, "stop", "cancelled", f.loc(), "a scheduled run is not cancelled", path)
            ctx.check(not (idle and cancels), "stop", "only if scheduled", f.loc(), "a run which is not scheduled is cancelled", path)
            ctx.check(base_called(path, "stopService", self.me), "stop", "not running", f.loc(), "the service does not know that it was stopped", path)

    def a_run(self, it, path, call):
        ctx = self.ctx
        slot = ("attr", self.me, self.slot)

        def hazards(it_, st, op, term):
            return ["Exception"] if term[0] == "call" and self.field(term[1]) is not None and not (self.sample and self.field(term[1]) == self.sample) else ()

        outs = self.variants(it, path, call, None)
        # what the run calls: the operation is what happens before the next run is scheduled, the rest draws the interval
        for x in outs:
            nexts = [e for e in flat(x.events) if self.later(e)]
            for e in nexts:
                src = seconds_of(e.a[2][0])
                if src is not None and src[0] == "call" and self.field(src[1]):
                    self.sample = self.field(src[1])
        called = {self.field(e.a[1]) for x in outs for e in flat(x.events) if e.kind == "call" and self.field(e.a[1]) is not None and e.a[1][0] == "attr"}
        called -= {self.sample}
        where = self.method("startService").loc()
        if len(called) != 1:
            ctx.bad("next", "the operation", where, "a run does not consist of the operation (calls %s)" % sorted(called))
            return
        self.operation = called.pop()
        ctx.check(self.sample is not None, "interval", "drawn for each run", where, "the interval to the next run is not drawn for it", outs[0])
        for x in self.variants(it, path, call, hazards):
            evs = list(flat(x.events))
            ops = [i for i, e in enumerate(evs) if e.kind == "call" and self.field(e.a[1]) == self.operation]
            loc = evs[ops[0]].loc if ops else where
            ctx.check(len(ops) == 1, "next", "the operation", loc, "a run does not perform the operation once", x)
            if len(ops) != 1:
                continue
            i = ops[0]
            op = evs[i].a
            failed = any(e.kind == "raised" and norm(e.a) == norm(op) for e in evs[i:])
            done = over(evs, op)
            ends = [k for k in range(i, len(evs)) if done[k]]
            nexts = [k for k, e in enumerate(evs) if self.later(e)]
            stopped = any(e.kind == "guard" and self.is_running(e.a) and not e.b for e in evs[i:])
            asked = any(e.kind == "guard" and self.is_running(e.a) and e.b and done[k] for k, e in enumerate(evs))
            what = "after a failed run" if failed else "after a run"
            early = [k for k in nexts if not done[k]]
            ctx.check(not early, "next", "not while one is going on", loc, "the next run is scheduled while the operation may still be going on", x)
            if stopped:
                ctx.check(not nexts, "next", "not when stopped", loc, "a run is scheduled although the service was stopped", x)
            else:
                ctx.check(len(nexts) == 1, "next", what, loc, "%s %s scheduled" % (what, "no next run is" if not nexts else "more than one run is"), x)
                ctx.check(not nexts or asked, "next", "only while the service runs", loc, "the next run is scheduled without asking whether the service was stopped meanwhile", x)
            for k in nexts:
                e = evs[k]
                src = seconds_of(e.a[2][0])
                fresh = src is not None and src[0] == "call" and self.field(src[1]) is not None and any(norm(y.a) == norm(src) for y in evs[i:] if y.kind == "call")
                ctx.check(fresh, "interval", "drawn for each run", e.loc, "the interval to the next run is not drawn for it", x)
                ctx.check(norm(I(e.a[2][1:])) == norm(I(call[2][1:])), "next", "the same again", e.loc, "something else is scheduled", x)
                ctx.check(norm(e.a[1]) == norm(call[1]), "next", "on the reactor", e.loc, "not scheduled on the reactor", x)
                kept = [y for y in evs[k:] if y.kind == "setattr" and y.a == self.me and y.b == self.slot]
                ctx.check(bool(kept) and norm(kept[-1].c) == norm(e.a), "stop", "the next run is kept", e.loc, "the next run is not remembered, so that it cannot be cancelled", x)
            cleared = [y for y in evs[:i] if y.kind == "setattr" and y.a == self.me and y.b == self.slot]
            ctx.check(self.guarded or bool(cleared) and is_const(cleared[-1].c) and cleared[-1].c[2] is None, "stop", "during a run", loc, "stopping the service during a run cancels the call which began it", x)

    def variants(self, it, path, call, hazards):
        out = []
        pol = it.policy
        old = pol.hazards
        if hazards is not None:
            pol.hazards = hazards
        try:
            for y in it.apply(call[2][1], list(call[2][2:]), path.st.fork()):
                seen = [id(e) for e in path.events]
                y.events = [e for e in y.events if id(e) not in seen]
                out.append(y)
        finally:
            pol.hazards = old
        self.ctx.paths += len(out)
        return out

    def is_running(self, t):
        return t == ("attr", self.me, "running")


def base_called(path, name, me):
    for e in flat(path.events):
        if e.kind == "call":
            n = fname(e.a[1]) or method(e.a)
            if n == name and (e.a[2][:1] == (me,) or e.a[1][0] == "attr" and (e.a[1][1] == ("g", "builtins.super") or e.a[1][1][0] == "call")):
                return True
    return False


def is_none_test(t, slot):
    return t[0] == "cmp" and t[1] in ("is", "==") and any(norm(x) == norm(slot) for x in t[2:]) and any(is_const(x) and x[2] is None for x in t[2:])


def seconds_of(t):
    """The timedelta whose seconds are given."""
    if method(t) == "total_seconds" and not t[2]:
        return t[1][1]
    return None


def zero(t):
    return t[0] == "call" and fname(t[1]) == "timedelta" and all(is_const(x) and x[2] == 0 for x in t[2]) and all(is_const(x) and x[2] == 0 for k, x in t[3]) or is_const(t) and t[2] == 0


def not_negative(t):
    if any(zero(x) for x in alternatives(t) or ()):
        return True
    return t[0] == "call" and fname(t[1]) == "timedelta" and not t[2] and len(t[3]) == 1 and not_negative(t[3][0][1])


def over(evs, op):
    """For each event, whether the operation is known to be over by then."""
    scopes, waiting, out, given = [[None, False]], set(), [], False
    want = norm(op)
    for e in evs:
        if e.kind == "detach" or e.kind == "cb":
            begin = is_const(e.b if e.kind == "detach" else e.a) and (e.b if e.kind == "detach" else e.a)[2] == "begin"
            token = e.a if e.kind == "detach" else e.b
            if begin:
                scopes.append([token, e.kind == "cb" and (norm(token) == want or token in waiting)])
            elif len(scopes) > 1:
                token, done = scopes.pop()
                if done:
                    waiting.add(token)
        elif e.kind == "outcome":
            given = True
        elif e.kind in ("await", "raised", "joined") and isinstance(e.a, tuple):
            if norm(e.a) == want and not (given and e.kind == "raised") or e.a in waiting:
                scopes[-1][1] = True
            given = False
        out.append(any(x[1] for x in scopes))
    return out


def alternatives(t):
    """The arguments of max()."""
    if t[0] == "call" and fname(t[1]) == "max" and len(t[2]) > 1:
        return list(t[2])
    return None


class Fields:
    """What the service is made of."""

    def __init__(self, ctx, f, it, path, fields, timer, names):
        self.ctx, self.f, self.it, self.path, self.fields, self.t = ctx, f, it, path, fields, timer
        (self.maintain, self.reactor, self.last, self.random, self.config) = [p(n) for n in names]

    def run(self):
        ctx, t, path, where = self.ctx, self.t, self.path, self.f.loc()
        if None in (t.initial, t.operation, t.sample):
            return
        read = [e for e in path.events if e.kind == "call" and (fname(e.a[1]) or "") == "read_time_from_path"]
        ok = bool(read) and all(e.a[2] == (self.last,) for e in read)
        ctx.check(ok, "first", "the recorded time", where, "the time of the last run is not read", path)
        if not ok:
            return
        when = read[0].a
        known = None
        for e in path.events:
            if e.kind == "guard":
                if is_none_test(e.a, when):
                    known = not e.b
                elif norm(e.a) == norm(when):
                    known = e.b
        initial = self.fields[t.initial]
        if known is None:
            ctx.bad("first", "the recorded time", where, "the first run does not depend on whether there was a last one", path)
        elif known:
            parts = alternatives(initial)
            inner = [x for x in parts or () if not zero(x)]
            ctx.check(parts is not None and len(inner) == 1 and len(parts) == 2, "interval", "first: not in the past", where, "the first run may be scheduled in the past", path)
            x = inner[0] if inner else initial
            total = linear(x)
            plus = [k for k, v in total.items() if v == 1]
            minus = [k for k, v in total.items() if v == -1]
            ok = len(total) == 3 and len(plus) == 2 and len(minus) == 1 and norm(when) in plus
            ok = ok and self.is_now(minus[0]) and all(k == norm(when) or self.is_sample(k) for k in plus)
            ctx.check(ok, "first", "after the last run", where, "the first run is not due one interval after the last one", path)
        else:
            ctx.check(self.is_sample(initial), "first", "without a last run", where, "without a last run the first one is not due after one interval", path)
        # each time
        sample = self.fields[t.sample]
        for y in self.it.apply(sample, [], path.st.fork()):
            ok = y.kind == "return" and self.is_sample(y.value)
            ctx.check(ok, "interval", "as configured", where, "the interval is not drawn from the configured distribution", y)
            ok = y.kind == "return" and not_negative(y.value)
            ctx.check(ok, "interval", "not negative", where, "the interval may be negative, for which nothing can be scheduled", y)
            drawn = [e.a for e in path.events if e.kind == "call" and method(e.a) == "uniform"]
            ok = y.kind == "return" and not any(z in drawn for z in walk(y.value))
            ctx.check(ok, "interval", "drawn for each run", where, "the same interval is used for each run", y)
        self.operation()

    def is_now(self, k):
        return k[0] == "call" and fname(k[1]) == "utcfromtimestamp" and method(k[2][0]) == "seconds" and k[2][0][1][1] == self.reactor

    def is_sample(self, x):
        """max(0, uniformly distributed around the mean)"""
        parts = alternatives(x)
        if parts is not None:
            rest = [y for y in parts if not zero(y)]
            return len(rest) == 1 and len(parts) == 2 and self.is_sample(rest[0])
        if x[0] != "call" or fname(x[1]) != "timedelta":
            return False
        args = dict(x[3])
        n = args.get("seconds")
        if x[2] or len(args) != 1 or n is None:
            return False
        parts = alternatives(n)
        if parts is not None:
            n = [y for y in parts if not zero(y)][0]
        if method(n) != "uniform" or norm(n[1][1]) != norm(self.random) or len(n[2]) != 2:
            return False
        mean, width = ("attr", self.config, "crawl_interval_mean"), ("attr", self.config, "crawl_interval_range")
        got = []
        for y in n[2]:
            total = {}
            for k, v in linear(y).items():
                if k[0] == "bin" and k[1] in ("//", "/") and is_const(k[3]):
                    for k2, v2 in linear(k[2]).items():
                        total[k2] = total.get(k2, 0) + v * v2 / k[3][2]
                else:
                    total[k] = total.get(k, 0) + v
            got.append(tuple(sorted((show_key(k, mean, width), v) for k, v in total.items() if v)))
        return got == [(("mean", 1), ("width", -0.5)), (("mean", 1), ("width", 0.5))]

    def operation(self):
        """The operation runs the maintenance and then records the time."""
        ctx, path, where = self.ctx, self.path, self.f.loc()
        op = self.fields[self.t.operation]
        pol = self.it.policy
        old = pol.hazards

        def hazards(it_, st, o, term):
            return ["Exception"] if term[0] == "call" and norm(term[1]) == norm(self.maintain) else ()

        pol.hazards = hazards
        try:
            outs = self.it.apply(op, [], path.st.fork())
        finally:
            pol.hazards = old
        for y in outs:
            evs = list(flat(y.events))
            runs = [i for i, e in enumerate(evs) if e.kind == "call" and norm(e.a[1]) == norm(self.maintain)]
            ok = len(runs) == 1
            ctx.check(ok, "next", "maintenance", where, "the operation does not perform the maintenance once", y)
            if not ok:
                continue
            i = runs[0]
            failed = any(e.kind == "raised" and norm(e.a) == norm(evs[i].a) for e in evs)
            done = over(evs, evs[i].a)
            ends = [k for k in range(i, len(evs)) if done[k]]
            writes = [k for k, e in enumerate(evs) if e.kind == "call" and fname(e.a[1]) == "write_time_to_path"]
            what = "after a failed run" if failed else "after a run"
            ok = len(writes) == 1 and done[writes[0]]
            ctx.check(ok, "record", what, where, "%s its time is not recorded" % what, y)
            for k in writes:
                ok = evs[k].a[2][0] == self.last and self.is_now(evs[k].a[2][1]) and any(norm(e.a) == norm(evs[k].a[2][1][2][0]) for e in evs[ends[0] if ends else 0:] if e.kind == "call")
                ctx.check(ok, "record", "the time", where, "it is not the current time which is recorded where it is read", y)


def show_key(k, mean, width):
    return "mean" if k == norm(mean) else "width" if k == norm(width) else repr(k)


# -- the file ---------------------------------------------------------------------
def stamps(ctx):
    f = ctx.func(WRITE)
    where_, when = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f)
    codec = None
    for path in ps:
        calls = [e.a for e in flat(path.events) if e.kind == "call" and method(e.a) == "setContent"]
        ok = path.kind == "return" and len(calls) == 1 and calls[0][1][1] == where_ and len(calls[0][2]) == 1
        v = calls[0][2][0] if ok else None
        if ok:
            ok = method(v) == "encode" and method(v[1][1]) == "isoformat" and v[1][1][1][1] == when and not v[1][1][2] and not v[1][1][3]
        ctx.check(ok, "record", "written", f.loc(), "the time is not written, as a whole, in ISO 8601 form", path)
    f = ctx.func(READ)
    where_ = p(f.node.args.args[0].arg)
    it, ps = ctx.run(f, hazards=lambda it_, st, op, t: ["FileNotFoundError", "PermissionError"] if op != "await" and t[0] == "call" and method(t) in ("getContent", "open") else ())
    for path in ps:
        caught = [e for e in path.events if e.kind == "catch"]
        v = path.value
        if path.kind == "return":
            if is_const(v) and v[2] is None:
                ok = missing(path, where_)
                ctx.check(ok, "record", "no last run", f.loc(), "a time which cannot be read passes for there being none", path)
            else:
                inner = v
                while inner[0] == "call" and inner[1][0] == "g" and fname(inner[1]) in ("parse_datetime", "fromisoformat") and inner[2] and not inner[3]:
                    inner = inner[2][0]
                ok = inner is not v and method(inner) in ("decode", "strip") and contains(inner, where_) and not caught
                ctx.check(ok, "record", "read", f.loc(), "the time is not read in the form in which it was written", path)


def missing(path, where_):
    for e in path.events:
        if e.kind == "guard" and e.a[0] == "cmp" and e.a[1] == "==" and e.b and any(x[0] == "g" and x[1] == "errno.ENOENT" for x in e.a[2:]) and any(x[0] == "attr" and x[2] == "errno" for x in e.a[2:]):
            return True
        if e.kind == "catch" and "FileNotFoundError" in str(e.b):
            return True
        if e.kind == "guard" and method(e.a) in ("exists", "isfile") and not e.b and e.a[1][1] == where_:
            return True
    return False


# -- the options --------------------------------------------------------------------
OPTIONS = {"crawl_interval_mean": "lease.crawl-interval.mean", "crawl_interval_range": "lease.crawl-interval.range"}


def configured(ctx):
    f = ctx.func("lease_maintenance.LeaseMaintenanceConfig.from_node_config")
    it, ps = ctx.run(f, ("config.read_duration",))
    for path in ps:
        v = path.value
        for name, option in sorted(OPTIONS.items()):
            got = dict(v[2]).get(name) if v[0] == "new" else None
            ok = got is not None and got[0] == "call" and fname(got[1]) == "read_duration" and any(is_const(x) and x[2] == option for x in list(got[2]) + [y for k, y in got[3]])
            ctx.check(ok, "interval", option, f.loc(), "%s is not read from its option" % name, path)
    f = ctx.func("config.read_duration")
    cfg, option, default = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f)
    for path in ps:
        v = path.value
        if path.kind != "return" or v == default:
            if path.kind == "return":
                given = any(e.kind == "guard" and (e.a[0] == "cmp" and any(is_const(x) and x[2] is None for x in e.a[2:]) and e.b) for e in path.events)
                ctx.check(given, "interval", "the default", f.loc(), "the default is used although the option is set", path)
            continue
        ok = v[0] == "call" and fname(v[1]) == "timedelta" and [k for k, x in v[3]] == ["seconds"] and not v[2]
        n = v[3][0][1] if ok else None
        ok = ok and n[0] == "call" and fname(n[1]) in ("int", "float") and len(n[2]) == 1 and method(n[2][0]) == "get_config" and any(x == option for x in list(n[2][0][2]) + [y for k, y in n[2][0][3]])
        ctx.check(ok, "interval", "in seconds", f.loc(), "the option is not read as a number of seconds", path)


# -- the service of a node ------------------------------------------------------------
def attached(ctx):
    f = ctx.func("_plugin._create_maintenance_service")
    reactor, node, store = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f, ("lease_maintenance.maintain_leases_from_root", SERVICE, "lease_maintenance.LeaseMaintenanceConfig.*"))
    formal = [a.arg for a in ctx.func(SERVICE).node.args.args]
    n = 0
    for path in ps:
        for e in flat(path.events):
            if e.kind != "call" or fname(e.a[1]) != "lease_maintenance_service":
                continue
            n += 1
            g = dict(zip(formal, e.a[2]))
            g.update(dict(e.a[3]))
            op, rea, last, rnd, config = [g.get(x) for x in formal]
            ctx.check(op is not None and op[0] == "call" and fname(op[1]) == "maintain_leases_from_root", "attached", "operation", e.loc, "the service does not maintain leases", path)
            ctx.check(rea == reactor, "attached", "reactor", e.loc, "not the node's reactor", path)
            ok = last is not None and last[0] == "call" and fname(last[1]) == "FilePath" and method(last[2][0]) == "get_private_path" and contains(last[2][0], node) and len(last[2][0][2]) == 1 and is_const(last[2][0][2][0])
            ctx.check(ok, "attached", "last run", e.loc, "the time of the last run is not kept in a file of the node's own", path)
            ok = config is not None and config[0] == "call" and fname(config[1]) == "from_node_config" and config[2] == (("attr", node, "config"),)
            ctx.check(ok, "attached", "configuration", e.loc, "not the node's configuration", path)
            ok = norm(path.value) == norm(e.a)
            ctx.check(ok, "attached", "returned", e.loc, "the service is not handed out", path)
    if not n:
        raise AnalysisBroken("the lease maintenance service is not made by the plugin")
    f = ctx.func("_plugin._maybe_attach_service")
    reactor, node, store, name, make = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f, hazards=lambda it_, st, op, t: ["KeyError"] if t[0] == "call" and method(t) == "getServiceNamed" else ())
    for path in ps:
        if path.kind != "return":
            continue
        evs = list(flat(path.events))
        there = any(e.kind == "call" and method(e.a) == "getServiceNamed" and e.a[1][1] == node and e.a[2] == (name,) for e in evs)
        absent = any(e.kind == "catch" for e in evs)
        parents = [e for e in evs if e.kind == "call" and method(e.a) == "setServiceParent"]
        ctx.check(there, "attached", "at most one", f.loc(), "it is not asked whether there is a service of that name", path)
        if absent:
            failed = any(e.kind == "catch" and "Key" not in str(e.b) for e in evs)
            ok = len(parents) == 1 and parents[0].a[2] == (node,) and parents[0].a[1][1][0] == "call" and parents[0].a[1][1][1] == make
            ctx.check(ok or failed, "attached", "to the node", f.loc(), "the service is not attached to the node", path)
        else:
            ctx.check(not parents, "attached", "at most one", f.loc(), "a second service is attached", path)
