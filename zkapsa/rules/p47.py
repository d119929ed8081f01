"""
P47: the server's metrics reach the configured file.  All paths of the
function which makes a storage server are split by what they know about the
two options; with both, one repeating call is made, on the plugin's reactor,
started with the configured interval and never stopped; its function is then
run by the interpreter with every call possibly failing: each run writes the
collection of metrics which the new server also registers its metrics with,
to the configured file, and never raises.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import arg, fname, loc
from ..terms import NONE, const, contains, norm, show, walk

TECHNIQUE = "path enumeration of the server's construction, and application of the function it schedules with every call possibly failing"
ASSUMPTIONS = [
    "LoopingCall repeats its function until it raises or is stopped",
    "write_to_textfile replaces the file in one step",
]
MAKE = "_plugin.ZKAPAuthorizer.get_storage_server"
SERVER = "_storage_server.ZKAPAuthorizerStorageServer"
INTERVAL, FILE = "prometheus-metrics-interval", "prometheus-metrics-path"
WRITE = "prometheus_client.write_to_textfile"
COLLECTED = {"prometheus_client." + x for x in ("Histogram", "Counter", "Gauge", "Summary", "Info", "Enum")}


def check(ctx):
    ctx.rule("scheduled", "with a file and an interval configured, the writing of metrics is repeated at that interval on the plugin's reactor", minimum=3)
    ctx.rule("not-scheduled", "nothing is written unless both are configured", minimum=1)
    ctx.rule("writes", "each time the server's own metrics are written to the configured file", minimum=2)
    ctx.rule("survives", "a failure to write does not end the repetition", minimum=1)
    ctx.rule("registered", "the server's metrics are in the collection which is written", minimum=2)
    ctx.rule("backend", "the server works on the storage server which Tahoe-LAFS supplies", minimum=1)
    f = ctx.func(MAKE)
    it, paths = ctx.run(MAKE, ("server.*", "config.*"), raise_all=True, opaque_containers=True)
    both = 0
    for path in paths:
        if path.kind != "return":
            continue
        server = made(ctx, path)
        registry = server and value(ctx, server, "registry")
        given = server and value(ctx, server, "original")
        ctx.check(given is not None and given[0] == "call" and given[1] == ("p", f.node.args.args[2].arg) and not given[2], "backend", "wrapped", f.loc(), "the server works on %s" % (show(given)[:100] if given else None), path)
        ctx.check(registry is not None and registry[0] in ("call", "new"), "registered", "collection", f.loc(), "the server is not given a collection of metrics", path)
        loops = [e for e in flat(path.events) if e.kind == "call" and (fname(e.a[1]) or "").rsplit(".", 1)[-1] in ("LoopingCall", "TimerService")]
        if not configured(path):
            ctx.check(not loops, "not-scheduled", "unconfigured", f.loc(), "metrics are written although no file or no interval is configured", path)
            continue
        both += 1
        if not ctx.check(len(loops) == 1, "scheduled", "repeated", f.loc(), "the writing of metrics is scheduled %d times" % len(loops), path):
            continue
        schedule(ctx, it, path, loops[0], registry)
    if not both:
        ctx.bad("scheduled", "repeated", f.loc(), "no path does anything for a configured file and interval")
    own_metrics(ctx)


def made(ctx, path):
    q = ctx.program.cls(SERVER).qual
    return next((x for x in walk(path.value) if x[0] == "new" and x[1] == q), None)


def value(ctx, new, init_name):
    cls = ctx.program.cls(SERVER)
    for n, v in new[2]:
        f, _ = ctx.program.find_field(cls, n)
        if (f.init_name if f is not None else n) == init_name:
            return v
    return None


def option_of(t, seen=()):
    """The configuration option a term is (a conversion of), if it is one."""
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.int", "builtins.float", "builtins.str") and len(t[2]) == 1:
        return option_of(t[2][0])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[1][1][0] == "p" and t[2] and t[2][0][0] == "c":
        if len(t[2]) == 1 or t[2][1] == NONE:
            return t[2][0][2]
    if t[0] == "sub" and t[1][0] == "p" and t[2][0] == "c":
        return t[2][2]
    return None


def configured(path):
    """Does the path know that neither option is missing?"""
    known = set()
    for e in flat(path.events):
        if e.kind != "guard":
            continue
        t, b = e.a, e.b
        while t[0] == "not":
            t, b = t[1], not b
        if t[0] == "cmp" and t[1] == "is" and NONE in t[2:4] and not b:
            known.add(option_of(t[2] if t[3] == NONE else t[3]))
        elif t[0] == "cmp" and t[1] == "in" and b and t[2][0] == "c":
            known.add(t[2][2])
        elif option_of(t) and b:
            known.add(option_of(t))
    return {INTERVAL, FILE} <= known


def schedule(ctx, it, path, e, registry):
    loop = e.a
    events = list(flat(path.events))
    timer = (fname(loop[1]) or "").endswith("TimerService")
    if timer:
        raise AnalysisBroken("the writing of metrics is scheduled in a way which is not known")
    starts = [x for x in events if x.kind == "call" and x.a[1] == ("attr", loop, "start")]
    ctx.check(len(starts) == 1, "scheduled", "started", loc(e), "the repetition is started %d times" % len(starts), path)
    for s in starts:
        n = arg(s.a, 0, "interval")
        ctx.check(n is not None and option_of(n) == INTERVAL, "scheduled", "interval", loc(s), "the interval is %s" % (show(n)[:100] if n else None), path)
    clocks = [x.c for x in events if x.kind == "setattr" and x.a == loop and x.b == "clock"]
    me = ("self", ctx.program.cls("_plugin.ZKAPAuthorizer").qual)
    ctx.check(clocks == [("attr", me, "reactor")] if clocks else False, "scheduled", "clock", loc(e), "the repetition does not use the plugin's reactor", path)
    ctx.check(not any(x.kind == "call" and x.a[1] == ("attr", loop, "stop") for x in events), "scheduled", "not stopped", loc(e), "the repetition is stopped", path)
    # what is run each time
    function = arg(loop, 0, "f")
    args, kwargs = list(loop[2][1:]), [(k, v) for k, v in loop[3] if k != "f"]
    rs = it.apply(function, args, path.st, kwargs)
    ctx.account(it, None, rs)
    wrote = False
    for r in rs:
        ctx.check(r.kind == "return", "survives", "each write", loc(e), "a failure while the metrics are written ends the repetition", r)
        new = [x for x in flat(r.events) if x.kind == "call" and is_write(x.a)]
        for x in new:
            wrote = True
            target, what = arg(x.a, 0, "path"), arg(x.a, 1, "registry")
            ctx.check(target is not None and option_of(target) == FILE, "writes", "file", loc(x), "the metrics are written to %s" % (show(target)[:100] if target else None), r)
            ctx.check(what is not None and registry is not None and norm(what) == norm(registry) and what[-1] == registry[-1], "writes", "collection", loc(x), "what is written is not the server's collection of metrics", r)
        failed = any(x.kind == "raised" for x in flat(r.events))
        if r.kind == "return" and not failed:
            ctx.check(len(new) == 1, "writes", "each time", loc(e), "the metrics are written %d times" % len(new), r)
    ctx.check(wrote, "writes", "at all", loc(e), "nothing is written")


def is_write(t):
    return fname(t[1]) in (WRITE, "write_to_textfile") or t[1] == ("g", WRITE) or (fname(t[1]) or "").endswith(".write_to_textfile")


def own_metrics(ctx):
    """Every metric the server's class or its helpers make is registered with the given collection."""
    n = 0
    for m in ctx.program.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            d = ctx.program.resolve_expr(m, node.func)
            if d not in COLLECTED and not (d and d.startswith("prometheus_client.") and d.rsplit(".", 1)[1] in {x.rsplit(".", 1)[1] for x in COLLECTED}):
                continue
            func = inside(ctx, m, node)
            where = "%s:%s" % (m.relpath, node.lineno)
            what = func.qual.partition(".")[2] if func else m.name
            reg = next((k.value for k in node.keywords if k.arg == "registry"), None)
            if func is None or func.cls is None:
                ctx.check(reg is not None and func is not None, "registered", what, where, "a metric is made outside of the server")
                n += 1
                continue
            it, paths = ctx.run(func, ())
            own = {("attr", ("self", func.cls.qual), f.name) for f in ctx.program.all_fields(func.cls) if f.init_name == "registry"}
            for path in paths:
                for t in [e.a for e in flat(path.events) if e.kind == "call"] + [x for x in walk(path.value) if x[0] == "call"]:
                    if t[1][0] == "g" and t[1][1].rsplit(".", 1)[-1] == d.rsplit(".", 1)[1] and t[1][1].startswith("prometheus_client"):
                        n += 1
                        r = dict(t[3]).get("registry")
                        ctx.check(r in own, "registered", what, where, "the metric is registered with %s" % (show(r)[:80] if r else "the default collection"), path)
    if not n:
        ctx.bad("registered", "metrics", "/repo/src/_zkapauthorizer", "the server makes no metrics")


def inside(ctx, m, node):
    best = None
    for f in ctx.program.functions.values():
        if f.module is m and f.node.lineno <= node.lineno <= f.node.end_lineno and f.parent is None:
            if best is None or f.node.lineno > best.node.lineno:
                best = f
    return best
