"""
P01: must-pass-through.  On every path of a paying remote operation each call
that changes stored data is preceded by the decision "number of valid passes <
price of the operation" taken on its negative branch; the positive branch only
raises MorePassesRequired with the right counts.
"""
from .server import *  # noqa: F401,F403
from .server import Server, is_price, valid_of, failed_of

ASSUMPTIONS = [
    "required_passes and get_required_new_passes_for_mutable_write compute the price (decided by P07) and "
    "validate_passes partitions the passes (decided by P03)",
]


def sufficient(s, op, guards, validations):
    """The known fact that the passes pay for the operation: (validation, price)."""
    reasons = []
    for term, truth in guards:
        ab = less(term)
        if ab is None:
            continue
        if truth is False:       # not (len(valid) < price)
            have, need = ab
        else:
            continue
        have = lenof(have)
        if have is None or have[0] != "attr" or have[2] != "valid":
            continue
        v = have[1]
        if v not in validations:
            continue
        reason = is_price(s, op, need)
        if reason is None:
            return (v, need), None
        reasons.append("the number of valid passes is compared with %s, but %s" % (show(need), reason))
    return None, (reasons or ["the number of valid passes was not compared with the price before"])[0]


def check(ctx):
    s = Server(ctx)
    ctx.rule("paid-before-granted", "every backend change is dominated by 'not (len(valid passes) < full price)' for the same operation", 4)
    ctx.rule("passes-of-the-request", "the passes counted are the passes presented with the request", 3)
    ctx.rule("rejected-with-counts", "when there are too few valid passes only MorePassesRequired(valid, required, rejected) leaves the operation", 3)
    ctx.rule("rejected-without-effect", "an insufficiently paid operation changes nothing", 3)
    for op in s_paying():
        it, paths = s.paths(op)
        f = s.method("remote_" + op)
        granted = rejected = False
        for path in paths:
            vs = [e.a for e in s.validations(path)]
            for e, guards in enumerate_events(path.events):
                if e.kind != "call" or not s.is_grant(e.a):
                    continue
                granted = True
                fact, reason = sufficient(s, op, guards, vs)
                ctx.check(fact is not None, "paid-before-granted", "%s: %s" % (op, fname(e.a[1])), e.loc,
                          "%s is reached without enough passes: %s" % (show(e.a)[:200], reason), path)
            for e in s.validations(path):
                ctx.check(arg(e.a, 1, "passes") == p("passes"), "passes-of-the-request", op, e.loc,
                          "validates %s instead of the presented passes" % show(arg(e.a, 1, "passes") or NONE), path)
            # the rejecting branch
            for i, e in enumerate(path.events):
                if e.kind == "guard" and e.b is True and less(e.a) is not None:
                    have, need = less(e.a)
                    have = lenof(have)
                    if have is None or have[0] != "attr" or have[2] != "valid" or have[1] not in vs:
                        continue
                    rejected = True
                    v = path.value
                    good = (
                        path.kind == "raise" and v[0] == "new" and v[1].endswith(".MorePassesRequired")
                        and same(field(v, "valid_count") or NONE, ("call", ("g", "builtins.len"), (valid_of(have[1]),), (), 0))
                        and same(field(v, "required_count") or NONE, need)
                        and same(strip_set(field(v, "signature_check_failed") or NONE), failed_of(have[1]))
                    )
                    ctx.check(good, "rejected-with-counts", op, e.loc,
                              "too few valid passes end the operation with %s %s" % (path.kind, show(v)[:300] if v else ""), path)
                    effects = [x for x in flat(path.events) if x.kind == "call" and (s.is_grant(x.a) or receiver(x.a) in (s.spender, s.histogram))]
                    ctx.check(not effects, "rejected-without-effect", op, effects[0].loc if effects else e.loc,
                              "a rejected operation still does %s" % (show(effects[0].a)[:200] if effects else ""), path)
        if not granted:
            raise AnalysisBroken("remote_%s never reaches the backend" % op)
        if not rejected:
            ctx.bad("rejected-with-counts", op, f.loc, "no path rejects the operation for lack of passes")


def s_paying():
    from .server import PAYING
    return PAYING
