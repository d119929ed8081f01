"""
P46: wrapping for logging changes nothing.  The package's logging decorators
(and the one which supplies the connection to the server) are applied by the
interpreter to an unknown function, which is then called with unknown
arguments, with every call possibly failing.  On every path the function is
run once, with just these arguments, and what the caller gets is its result or
the exception it raised.  What is given to a library's decorator is such a
decorator of Eliot's, with the function itself.
"""
from ..interp import flat
from ..match import p
from ..terms import contains, norm, show

TECHNIQUE = "symbolic application of each wrapper to an unknown function, over all normal and failing paths"
ASSUMPTIONS = [
    "Eliot's own decorators and actions call the function once and pass on its result or exception, also when a log message cannot be written",
]
LIBRARY = {
    "eliot.log_call", "allmydata.util.eliotutil.log_call_deferred", "eliot.twisted.log_call_deferred",
    "allmydata.util.eliotutil.inline_callbacks", "eliot.twisted.inline_callbacks",
}
DEFERREDS = {"fromCoroutine", "ensureDeferred", "maybeDeferred"}
# the wrapper, and how it is used on functions of which kind
WRAPPERS = (
    ("eliot", "log_call", "log_call(action_type='T', include_args=['a'])", False),
    ("eliot", "log_call, result not logged", "log_call(action_type='T', include_args=[], include_result=False)", False),
    ("eliot", "log_call_deferred", "log_call_deferred('T')", False),
    ("eliot", "log_call_coroutine", "log_call_coroutine('T')", True),
)
F, X, Y, S = p("F"), p("X"), p("Y"), p("S")


def check(ctx):
    ctx.rule("once", "the wrapped function is run exactly once, with the caller's arguments", minimum=5)
    ctx.rule("result", "the caller gets the result of the function", minimum=5)
    ctx.rule("failure", "the caller gets the exception which the function raised", minimum=2)
    for module, name, use, coro in WRAPPERS:
        source = "%sdef s(F, X, Y):\n    return %s%s(F)(X, k=Y)" % ("async " if coro else "", "await " if coro else "", use)
        it, paths = ctx.snippet(module, source, raise_all=True)
        judge(ctx, name, paths, (X,), coro)
    source = "async def s(F, S, X, Y):\n    return await with_rref(F)(S, X, k=Y)"
    it, paths = ctx.snippet("_storage_client", source, raise_all=True)
    judge(ctx, "with_rref", paths, (S, "rref", X), True)


def judge(ctx, name, paths, args, awaited):
    returned = False
    for path in paths:
        events = list(flat(path.events))
        if path.kind == "return" and through_library(path.value):
            ctx.ok("once", name)
            ctx.ok("result", name)
            returned = True
            continue
        runs = [e for e in events if e.kind == "call" and (e.a[1] == F or any(contains(x, F) for x in e.a[2]) and not is_adapter(e.a) and not decorates(e.a))]
        failed = [e for e in events if e.kind == "raised"]
        own = [e for e in failed if e.a[1] == F]
        for e in runs:
            ctx.check(e.a[1] == F and given(e.a, args), "once", name, e.loc, "the function is run as %s" % show(e.a)[:120], path)
        if path.kind == "return":
            returned = True
            ctx.check(len(runs) == 1, "once", name, loc_of(events), "the function is run %d times" % len(runs), path)
            if len(runs) == 1:
                ctx.check(not own, "failure", name, runs[0].loc, "the function failed and the caller is not told", path)
                waited = any(e.kind == "await" and norm(e.a) == norm(runs[0].a) for e in events)
                ctx.check(waited or not awaited, "result", name, runs[0].loc, "the result of the function is not waited for", path)
                ctx.check(norm(strip(path.value)) == norm(runs[0].a), "result", name, runs[0].loc, "the caller gets %s" % show(path.value)[:120], path)
        elif path.kind == "raise":
            # (logging is assumed not to fail)
            if own and failed[-1] is own[-1]:
                ctx.check(path.value == own[-1].b and len(runs) == 1, "failure", name, own[0].loc, "the function failed; what reaches the caller is another exception", path)
            elif not failed:
                ctx.bad("result", name, loc_of(events), "an exception is raised although nothing failed", path)
    ctx.check(returned, "result", name, "/repo/src/_zkapauthorizer", "no path returns what the function returns")


def given(call, args):
    if len(call[2]) != len(args) or tuple(call[3]) != (("k", Y),):
        return False
    for x, a in zip(call[2], args):
        if a == "rref":
            # a reference got from the client object for this call
            if not (x[0] == "call" and x[1] == ("attr", S, "_rref") and not x[2] or contains(x, S)):
                return False
        elif x != a:
            return False
    return True


def is_adapter(call):
    f = call[1]
    name = f[2] if f[0] == "attr" else f[1] if isinstance(f[1], str) else ""
    return name.rsplit(".", 1)[-1] in DEFERREDS


def strip(t):
    while t[0] == "call" and t[1] != F and is_adapter(t) and len(t[2]) == 1:
        t = t[2][0]
    return t


def decorates(w):
    """Is this an application of a decorator of Eliot's to F?"""
    if not (w[0] == "call" and w[2] == (F,) and not w[3]):
        return False
    d = w[1]
    while d[0] == "call":
        d = d[1]
    return d[0] == "g" and d[1] in LIBRARY


def through_library(t):
    """The result of a decorator of Eliot's applied to F, called with the arguments."""
    if not (t[0] == "call" and t[2] == (X,) and tuple(t[3]) == (("k", Y),)):
        return False
    return decorates(t[1])


def loc_of(events):
    return next((e.loc for e in events if e.loc), "/repo/src/_zkapauthorizer")
