"""
P18: when the controller is made, every stored voucher that may be redeemed is
redeemed and a looping call for the retries is started on the given clock; the
retry visits every failed and unpaid voucher and leaves out only active ones
and ones whose state does not allow redemption; attempts are started, not
waited for, so that no failure reaches the loop; every failed request is
recorded according to its kind, and the latest record is the one shown.
"""
from .controller import *  # noqa: F401,F403
from .controller import ATOMS, PC, Controller, looked_up, membership, member_guard
from .p16 import MARK, told
from .p17 import is_should

TECHNIQUE = "path rules over enumerated paths; dataflow of the looping call's function, clock and interval"
ASSUMPTIONS = ["twisted's LoopingCall calls its function at each interval until it raises or is stopped",
               "reading vouchers from the local database does not fail"]
VIEW = (PC + ".redeem", PC + ".get_voucher")


def check(ctx):
    c = Controller(ctx)
    ctx.rule("startup-redeems", "when the controller is made every stored voucher which may be redeemed is redeemed", 1)
    ctx.rule("retries-are-scheduled", "a looping call with a positive interval on the controller's clock is started and never stopped", 1)
    ctx.rule("retry-covers", "each retry visits every voucher with a failed and every one with an unpaid attempt", 2)
    ctx.rule("retry-redeems", "each visited voucher which is not active and may be redeemed is redeemed", 1)
    ctx.rule("attempts-are-independent", "attempts are started without being waited for", 2)
    ctx.rule("outcome-recorded", "each failed request is recorded according to its kind", 3)
    ctx.rule("latest-outcome-shown", "the outcome shown is the latest one", 2)
    function = startup(ctx, c)
    retry(ctx, c, function)
    outcomes(ctx, c)
    shown(ctx, c)


def redeems(e):
    return e.kind == "call" and e.a[1][0] == "attr" and fname(e.a[1]) == "redeem" and e.a[1][1][0] == "self"


def attempts_in(e):
    return any(redeems(x) for x in flat([e]))


def startup(ctx, c):
    f = ctx.program.find_method(c.cls, "__attrs_post_init__") or ctx.program.find_method(c.cls, "__init__")
    if f is None:
        raise AnalysisBroken("anchor vanished: nothing runs when a PaymentController is made")
    it, paths = ctx.run(f, ATOMS + VIEW)
    function = None
    for path in paths:
        if path.kind != "return":
            continue
        ends_early(ctx, c, path, "startup", lambda x: c.is_store_call(x, "list"))
        loops = [e for e in path.events if e.kind == "loop" and attempts_in(e) and any(c.is_store_call(g, "list") for gen in e.a for g in walk(gen))]
        ctx.check(bool(loops), "startup-redeems", "visits", f.loc, "the stored vouchers are not visited", path)
        for e in loops:
            whole = e.a and all(covers(c, g, lambda x: c.is_store_call(x, "list")) for g in e.a) and only_excused(c, e.c)
            ctx.check(whole, "startup-redeems", "visits", e.loc, "not all stored vouchers are visited: %s" % show(e.a[0])[:200], path)
            for s in e.b:
                visit(ctx, c, path, f, s, "startup-redeems", "startup", e.loc)
        calls = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == ("g", "twisted.internet.task.LoopingCall")]
        ok = len(calls) == 1
        if ok:
            lc = calls[0].a
            function = lc[2][0]
            clocks = [e for e in path.events if e.kind == "setattr" and e.a == lc and e.b == "clock"]
            starts = [e for e in path.events if e.kind == "call" and e.a[1] == ("attr", lc, "start")]
            stops = [e for e in path.events if e.kind == "call" and e.a[1][0] == "attr" and e.a[1][1] == lc and fname(e.a[1]) not in ("start",)]
            ok = len(starts) == 1 and not stops and len(clocks) == 1 and path.events.index(clocks[0]) < path.events.index(starts[0]) and \
                clocks[0].c[0] == "attr" and clocks[0].c[1][0] == "self" and positive(arg(starts[0].a, 0, "interval"))
        ctx.check(ok, "retries-are-scheduled", "LoopingCall", f.loc, "no looping call is started with the controller's clock and a positive interval", path)
    # nobody else stops the looping call
    for m in ctx.program.modules.values():
        if m.name != c.cls.module.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "stop" and "retry" in ast.unparse(x.func.value):
                ctx.bad("retries-are-scheduled", "stop", (m.relpath, x.lineno), "the retries are stopped")
    if function is None:
        raise AnalysisBroken("no looping call was found")
    return function


def ends_early(ctx, c, path, where, base):
    """A loop over vouchers which is left in the middle."""
    for e in path.events:
        if e.kind == "loopexit" and any(covers(c, g, base) for g in e.a):
            ctx.bad("attempts-are-independent", where + " goes on", e.loc, "the vouchers after this one are left out (%s)" % e.b, path)


def positive(t):
    if t is None:
        return False
    if is_const(t):
        return isinstance(cval(t), (int, float)) and cval(t) > 0
    if is_call(t, "total_seconds"):
        d = receiver(t)
        if d[0] == "call" and d[1][0] == "g" and d[1][1] == "datetime.timedelta":
            vals = list(d[2]) + [v for k, v in d[3]]
            return bool(vals) and all(is_const(v) and cval(v) >= 0 for v in vals) and any(cval(v) > 0 for v in vals)
    return False


def visit(ctx, c, path, f, s, rule, where, loc):
    """One iteration over vouchers: is the attempt started, or why not."""
    calls = [e for e in s.events if redeems(e)]
    started = [e for e in s.events if e.kind == "started"]
    waits = [e for e in flat(s.events) if e.kind in ("await", "yield")]
    why = any(e.kind == "guard" and excused(c, e.a, not e.b) for e in s.events)
    if calls:
        n = arg(calls[0].a, 0, "voucher")
        ok = len(calls) == 1 and len(calls[0].a[2]) + len(calls[0].a[3]) == 1 and is_number(c, n)
        ctx.check(ok, rule, where + " redeems the voucher", calls[0].loc, "the voucher redeemed is %s" % show(n)[:200], path)
        ctx.check(any(x.a == calls[0].a for x in started) and not waits, "attempts-are-independent", where, calls[0].loc,
                  "the attempt is %s" % ("waited for" if waits else "not started"), path)
    else:
        ctx.check(why, rule, where, loc, "a voucher is left out although it is not active and may be redeemed", path)
    ctx.check(s.kind in ("next", "continue"), "attempts-are-independent", where + " goes on", loc, "the vouchers after this one are left out (%s)" % s.kind, path)


def is_number(c, n):
    if n[0] == "attr" and n[2] == "number":
        n = n[1]
    return n[0] == "elem"


def retry(ctx, c, function):
    f = callee(ctx, function)
    it, paths = ctx.run(f, ATOMS + VIEW)
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        n += 1
        ends_early(ctx, c, path, "retry", lambda x: x in (c.errors, c.unpaid))
        sources = []
        for e in path.events:
            if e.kind != "loop" or not attempts_in(e):
                continue
            src = [m for m in (c.errors, c.unpaid) for g in e.a if covers(c, g, lambda x: x == m) and only_excused(c, e.c)]
            sources += src
            for m in (c.errors, c.unpaid):
                for g in (e.a if e.target is None else (e.target,)):
                    if live(g, m):
                        ctx.bad("attempts-are-independent", "retry goes through the record", e.loc, "the record is gone through while attempts change it", path)
            if src:
                for s in e.b:
                    visit(ctx, c, path, f, s, "retry-redeems", "retry", e.loc)
        for m, what in ((c.errors, "failed"), (c.unpaid, "unpaid")):
            early = any(e.kind == "guard" and e.b is False and e.a == m for e in path.events)
            ctx.check(m in sources or early, "retry-covers", what, f.loc, "%s vouchers are not visited by the retry" % what, path)
    if not n:
        raise AnalysisBroken("the retry never returns")


def callee(ctx, function):
    if function[0] in ("bm", "fn", "func"):
        for x in function[1:]:
            if isinstance(x, str):
                f = ctx.program.functions.get(x) if hasattr(ctx.program, "functions") else None
                if f is not None:
                    return f
                owner, name = x.rsplit(".", 1)
                cls = ctx.program.classes.get(owner)
                if cls is not None:
                    return ctx.program.find_method(cls, name)
    raise AnalysisBroken("the function of the looping call is %s" % show(function)[:200])


def covers(c, g, base):
    """Do the elements of g include all of the base's which may be redeemed?"""
    if base(g):
        return True
    if is_call(g, ("keys", "copy")) and receiver(g) is not None:
        return base(receiver(g))
    if g[0] == "bin" and g[1] in ("+", "|"):
        return covers(c, g[2], base) or covers(c, g[3], base)
    if g[0] == "call" and g[1][0] == "g" and g[1][1] in ("itertools.chain", "builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset", "builtins.dict"):
        return any(covers(c, x, base) for x in g[2])
    if is_call(g, "union") and receiver(g) is not None:
        return covers(c, receiver(g), base) or any(covers(c, x, base) for x in g[2])
    if g[0] == "seq":
        return any(x[0] == "ext" and covers(c, x[1], base) for x in g[2])
    if g[0] == "comp":
        return is_number(c, g[2]) and len(g[3]) == 1 and covers(c, g[3][0], base) and only_excused(c, g[4])
    return strip_list(g) != g and covers(c, strip_list(g), base)


def only_excused(c, conds):
    """Are all which do not meet the conditions active or not to be redeemed?"""
    return any(all(excused(c, t, b) for t, b in d) for d in disjuncts(conds or ()))


def excused(c, t, b):
    """Is a voucher left out by the condition active or not to be redeemed?"""
    if is_should(t):
        return b is True
    m = member_guard(t, b, c.active)
    return m is not None and m[1] is False


def live(g, m):
    """Is the record itself gone through, while attempts change it?"""
    if g == m or (is_call(g, ("keys", "items", "values")) and receiver(g) == m):
        return True
    if g[0] == "call" and g[1] == ("g", "itertools.chain"):
        return any(live(x, m) for x in g[2])
    return False


def recorded(c, e):
    """Which record the event makes for the voucher."""
    if e.kind == "setitem" and e.a in (c.unpaid, c.errors) and c.of_voucher(e.b):
        return "unpaid" if e.a == c.unpaid else "error"
    if e.kind == "call" and c.is_store_call(e.a, MARK) and c.of_voucher(arg(e.a, 0, "voucher")):
        return "spent"
    return None


def outcomes(ctx, c):
    order = display_order(ctx, c)
    for path, a in c.attempts():
        if a.outcome != "failed":
            continue
        info = told(a.after)
        made = [recorded(c, e) for e in a.after if recorded(c, e)]
        broken = any(e.kind == "raised" and e.a != a.call for e in a.after)
        want = "spent" if info.get("AlreadySpent") is True else "unpaid" if info.get("Unpaid") is True else "error"
        if broken and (want in made or not made):
            continue
        ctx.check(made == [want], "outcome-recorded", want, a.loc, "a failed request (%s) is recorded as %s" % (want, ", ".join(made) or "nothing"), path)
        if made == [want] and want in ("unpaid", "error"):
            for other in order[:order.index(want)]:
                m = c.unpaid if other == "unpaid" else c.errors
                gone = any((e.kind == "delitem" and e.a == m and c.of_voucher(e.b)) or
                           (e.kind == "call" and is_call(e.a, "pop") and receiver(e.a) == m and c.of_voucher(e.a[2][0])) for e in a.after) or \
                    any(t is not None and t[1] is False and c.of_voucher(t[0]) for t in (membership(e, m) for e in path.events))
                ctx.check(gone, "latest-outcome-shown", want, a.loc, "an older %s outcome hides this one (%s)" % (other, want), path)
            if order.index(want) == 0:
                ctx.ok("latest-outcome-shown", want)


def display_order(ctx, c):
    """Which of the records is looked at first when a voucher is shown."""
    f = ctx.func(PC + ".incorporate_transient_state")
    it, paths = ctx.run(f, ATOMS)
    first = []
    for path in paths:
        for e in path.events:
            for name, m in (("unpaid", c.unpaid), ("error", c.errors)):
                t = membership(e, m)
                if t is not None and name not in first:
                    first.append(name)
    if set(first) != {"unpaid", "error"}:
        raise AnalysisBroken("incorporate_transient_state does not look at both records")
    return first


def shown(ctx, c):
    f = ctx.func(PC + ".incorporate_transient_state")
    it, paths = ctx.run(f, ATOMS)
    v = p(f.node.args.args[1].arg)
    number = I(("attr", v, "number"))
    for path in paths:
        if path.kind != "return":
            continue
        facts = {}
        for e in flat(path.events):
            for name, m in (("active", c.active), ("unpaid", c.unpaid), ("error", c.errors)):
                t = membership(e, m)
                if t is not None and t[0] == number:
                    facts.setdefault(name, t[1])
        hit = [k for k in facts if facts[k]]
        if not hit or hit[0] == "active":
            continue
        st = dict(path.value[2]).get("state") if path.value[0] in ("evolve", "new") else None
        m = c.unpaid if hit[0] == "unpaid" else c.errors
        ok = st is not None and any(looked_up(t, m) == number for t in walk(st))
        ctx.check(ok, "latest-outcome-shown", "shows " + hit[0], f.loc, "the recorded outcome is not shown", path)
