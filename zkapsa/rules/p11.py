"""
P11: on every path of the client's paying operations (the retry loop is followed
for two rounds whose state is tracked), the passes which are marked invalid, the
ones asked for in their place, the ones sent again and the ones spent are traced
back to the group which was sent and to the answer of the server.
"""
from .client import *  # noqa: F401,F403
from .client import Client

TECHNIQUE = "dataflow over enumerated paths of the retry loop"
ASSUMPTIONS = ["the positions in MorePassesRequired refer to the list of passes which was sent (P01)"]
MPR = "storage_common.MorePassesRequired"


def check(ctx):
    c = Client(ctx)
    ctx.rule("only-rejected", "what is marked invalid is exactly the part of the group sent at the positions which the server's answer to it named", 3)
    ctx.rule("replaced", "the rejected passes are replaced by as many new ones, which join the accepted ones", 3)
    ctx.rule("retried-with-them", "the operation is done again with the accepted and the new passes", 3)
    ctx.rule("none-named", "when the server named no pass nothing is invalidated and its error is passed on", 3)
    ctx.rule("only-this-error", "only this error of the server leads to another attempt", 3)
    ctx.rule("spent", "after success of a lease or write the passes sent are spent, after an allocation those which the shares really allocated cost", 3)
    ctx.rule("rest-returned", "after an allocation the others are returned", 1)
    for op in PAYING:
        one(ctx, c, op)


def group_of(e):
    """The group whose passes a remote call sends."""
    for a in list(e.a[2][1:]) + [v for k, v in e.a[3]]:
        t = strip_list(a)
        if t[0] == "comp" and len(t[3]) == 1 and t[3][0][0] == "attr" and t[3][0][2] == "passes":
            return I(t[3][0][1])
    return None


def rejected(t):
    """The exception whose named positions the term is, or None."""
    t = strip_set(t)
    if t[0] == "attr" and t[2] == "signature_check_failed":
        return t[1]
    return None


def failure_known(events, exc):
    """Is it known whether the server named any passes?"""
    want = I(("attr", exc, "signature_check_failed"))
    out = None
    for e in events:
        if e.kind != "guard":
            continue
        g, b = e.a, e.b
        n = ("call", ("g", "builtins.len"), (want,), (), 0)
        if g == want:
            out = b
        elif g[0] == "cmp" and g[1] == "==" and ZERO in g[2:4] and any(same(x, n) for x in g[2:4]):
            out = not b
        elif less(g) is not None and less(g)[0] == ZERO and same(less(g)[1], n):
            out = b
        elif less(g) is not None and same(less(g)[0], n) and less(g)[1] == const(1):
            out = not b
    return out


def one(ctx, c, op):
    it, paths = c.paths(op)
    f = c.method(op)
    for path in paths:
        if c.is_group_none(path):
            continue
        evs = list(flat(path.events))
        failed = [I(e.a) for e in evs if e.kind == "raised"]
        sent = None          # the last call of the operation
        exc = None           # MorePassesRequired it failed with
        other = False        # it failed in another way
        splits = {}          # group terms made by split: (group, exception)
        num = None
        expanded = None
        for i, e in enumerate(evs):
            if e.kind == "call" and e.a[1] == c.get_passes:
                num = e.a[2][1] if len(e.a[2]) > 1 else arg(e.a, 1, "num_passes")
                first = I(e.a)
            elif e.kind == "call" and fname(e.a[1]) == "callRemote" and e.a[2][:1] == (const(op),):
                g = group_of(e)
                if sent is not None:
                    who = exc
                    ctx.check(who is not None and not other, "only-this-error", op, e.loc, "the operation is attempted again after another failure", path)
                    if who is not None:
                        ctx.check(failure_known(evs[:i], who) is True, "none-named", op + ": retry", e.loc, "the operation is attempted again although the server named no pass", path)
                    ctx.check(expanded is not None and g == expanded, "retried-with-them", op, e.loc, "the passes sent again are not the accepted ones and their replacements", path)
                else:
                    ctx.check(num is not None and g == first, "retried-with-them", op + ": first", e.loc, "the passes sent are not the ones acquired", path)
                sent, exc, other, splits, expanded = (I(e.a), g), None, False, {}, None
            elif e.kind == "raised" and sent is not None and I(e.a) == sent[0]:
                other = True
            elif e.kind == "catch" and sent is not None and other and exc is None and names_mpr(e):
                exc, other = I(e.a), False
            elif e.kind == "call" and e.a[1][0] == "attr":
                n, r = fname(e.a[1]), receiver(e.a)
                if r is None:
                    continue
                r = I(r)
                if n == "split" and sent is not None and r == sent[1]:
                    who = rejected(e.a[2][0]) if e.a[2] else None
                    splits[I(("sub", e.a, const(0)))] = ("chosen", e.a[2][0], who)
                    splits[I(("sub", e.a, const(1)))] = ("rest", e.a[2][0], who)
                elif n == "mark_invalid":
                    x = splits.get(r)
                    ok = exc is not None and x is not None and x[0] == "chosen" and x[2] == exc
                    ctx.check(ok, "only-rejected", op, e.loc, "the passes marked invalid are not the ones the server named in its answer", path)
                    ctx.check(exc is not None and failure_known(evs[:i], exc) is not False, "none-named", op + ": invalid", e.loc, "passes are marked invalid although the server named none", path)
                elif n == "expand":
                    x = splits.get(r)
                    ok = exc is not None and x is not None and x[0] == "rest" and x[2] == exc
                    ctx.check(ok, "replaced", op, e.loc, "the group which gets new passes is not that of the accepted ones", path)
                    if ok:
                        by = arg(e.a, 0, "by_amount")
                        ctx.check(as_many(by, r, exc, num, splits, sent[1]), "replaced", op + ": number", e.loc, "the number of new passes is %s" % show(by)[:200], path)
                    marked = [y for y in evs[:i] if y.kind == "call" and fname(y.a[1]) == "mark_invalid" and I(receiver(y.a)) in splits]
                    ctx.check(bool(marked), "only-rejected", op + ": before", e.loc, "the rejected passes are replaced without having been marked invalid", path)
                    expanded = I(e.a)
        if exc is not None and sent is not None and path.kind == "raise" and failure_known(evs, exc) is False:
            last = [e for e in evs if e.kind == "raised"]
            own = path.value == exc or (last and I(last[-1].a) != sent[0])
            ctx.check(own, "none-named", op, f.loc(), "the error of the server is not passed on", path)
        if exc is not None and path.kind == "return":
            ctx.bad("none-named", op + ": swallowed", f.loc(), "the operation succeeds although the server refused it", path)
        spending(ctx, c, op, evs, sent, failed, path)


def names_mpr(e):
    s = show(e.a) + " " + (show(e.b) if isinstance(e.b, tuple) else str(e.b))
    return MPR.rsplit(".", 1)[1] in s


def as_many(by, okay, exc, num, splits, group):
    if by is None:
        return False
    n = norm(by)
    wants = []
    lens = lambda t: ("call", ("g", "builtins.len"), (t,), (), 0)
    acc = lens(I(("attr", okay, "passes")))
    wants.append(("bin", "-", num, acc))
    wants.append(("bin", "-", lens(I(("attr", group, "passes"))), acc))
    wants.append(lens(I(("attr", exc, "signature_check_failed"))))
    for t, x in splits.items():
        if x[0] == "chosen":
            wants.append(lens(I(("attr", t, "passes"))))
    return any(same(by, I(w)) for w in wants)


def spending(ctx, c, op, evs, sent, failed, path):
    marks = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "mark_spent" and e.a[1][0] == "attr"]
    for e in marks:
        r = I(receiver(e.a))
        if op != "allocate_buckets":
            ctx.check(sent is not None and r == sent[1], "spent", op, e.loc, "the passes spent are not the ones which were sent", path)
            continue
        ok = False
        if sent is not None and r[0] == "sub" and is_call(r[1], "split") and I(receiver(r[1])) == sent[1]:
            sel = r[1][2][0]
            ok = r[2] == const(0) and first_n(sel, c, sent[0])
        ctx.check(ok, "spent", op, e.loc, "the passes spent are not as many as the shares allocated cost: %s" % show(r)[-200:], path)
        if ok and path.kind == "return":
            rest = I(("sub", r[1], const(1)))
            back = [x for x in evs if x.kind == "call" and fname(x.a[1]) == "reset" and I(receiver(x.a)) == rest]
            ctx.check(len(back) >= 1, "rest-returned", op, e.loc, "the passes which were not needed are not returned", path)


def first_n(sel, c, call):
    """range(price of the shares allocated)"""
    sel = strip_set(sel)
    if not is_call(sel, "range") or sel[2][:-1] not in ((), (ZERO,)):
        return False
    n = sel[2][-1]
    writers = I(("sub", call, const(1)))
    if is_call(n, "required_passes") and n[2][0] == c.pass_value:
        r = repeat(n[2][1])
        return r is not None and r[0] == p("allocated_size") and keys(r[1]) == writers
    if n[0] == "bin" and n[1] == "*":
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if is_call(a, "required_passes") and a[2] == (c.pass_value, ("list", (p("allocated_size"),))) and lenof(b) is not None and keys(lenof(b)) == writers:
                return True
    return False
