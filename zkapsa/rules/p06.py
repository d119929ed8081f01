"""
P06: event order.  On every path of a paying operation the calls that record
spending are located; they must follow the backend's successful change, occur
exactly once on a path that returns and not at all on a path that rejects, and
name the server's public key and the valid passes (for an allocation: the
prefix that pays for the shares really allocated).
"""
from .server import *  # noqa: F401,F403
from .server import ATOMS, PAYING, Server, is_price

ASSUMPTIONS = ["Histogram.observe and ISpender.mark_as_spent record what they are given"]


def check(ctx):
    s = Server(ctx)
    ctx.rule("recorded-once-on-success", "a successful paying operation records the spent passes once and updates the metric once", 6)
    ctx.rule("recorded-after-change", "spending is recorded only after the backend performed the operation", 6)
    ctx.rule("nothing-recorded-on-failure", "a path on which the backend was not reached or failed records nothing", 3)
    ctx.rule("records-valid-passes", "the passes recorded are the valid passes that pay for what was done, under the server's public key", 3)
    ctx.rule("records-price", "the metric is updated with the number of passes the operation cost", 3)
    ctx.rule("public-key-derived", "the public key is derived from the signing key in use", 1)
    ctx.rule("spender-keeps-all", "the spender adds all passes to those spent under that key", 1)
    ctx.rule("free-records-nothing", "no other remote operation records spending", 1)
    for op in PAYING:
        f = s.method("remote_" + op)
        for raise_all in (False, True):
            it, paths = ctx.run(f, ATOMS, raise_all=raise_all)
            for path in paths:
                one(ctx, s, op, f, path, raise_all)
    for f in s.remotes():
        op = f.name[len("remote_"):]
        if op in PAYING:
            continue
        it, paths = ctx.run(f, ())
        found = [(e, q) for q in paths for e in flat(q.events) if e.kind == "call" and receiver(e.a) in (s.spender, s.histogram)]
        ctx.check(not found, "free-records-nothing", op, found[0][0].loc if found else f.loc, "a free operation records spending", found[0][1] if found else None)
    key(ctx, s)
    spender(ctx)


def one(ctx, s, op, f, path, raise_all):
    evs = list(flat(path.events))
    raised = [e.a for e in evs if e.kind == "raised"]
    done = None
    vs = [e.a for e in s.validations(path)]
    spent, observed = [], []
    for e in evs:
        if e.kind != "call":
            continue
        c = e.a
        if receiver(c) == s.original and s.is_grant(c) and c not in raised:
            done = c
        elif receiver(c) == s.spender:
            ctx.check(done is not None, "recorded-after-change", op + ": spender", e.loc, "passes are recorded as spent before the backend performed the operation", path)
            spent.append(e)
        elif receiver(c) == s.histogram:
            ctx.check(done is not None, "recorded-after-change", op + ": metric", e.loc, "the metric is updated before the backend performed the operation", path)
            observed.append(e)
    if path.kind == "raise" and done is None:
        ctx.check(not spent and not observed, "nothing-recorded-on-failure", op, (spent + observed)[0].loc if spent or observed else f.loc,
                  "a failed operation records spending", path)
    if raise_all:
        return
    if path.kind == "raise":
        return
    ctx.check(len(spent) == 1 and fname(spent[0].a[1]) == "mark_as_spent", "recorded-once-on-success", op + ": spender", spent[1].loc if len(spent) > 1 else f.loc,
              "the spent passes are recorded %d times" % len(spent), path)
    ctx.check(len(observed) == 1, "recorded-once-on-success", op + ": metric", observed[1].loc if len(observed) > 1 else f.loc,
              "the metric is updated %d times" % len(observed), path)
    in_loop = [e for e in spent + observed if e not in path.events]
    if in_loop:
        ctx.bad("recorded-once-on-success", op + ": loop", in_loop[0].loc, "spending is recorded repeatedly", path)
    cost = None
    for e in spent:
        k, ps = arg(e.a, 0, "public_key"), arg(e.a, 1, "passes")
        ok, cost = paid_with(s, op, strip_list(ps or NONE), vs, done)
        ctx.check(ok and k == s.public_key, "records-valid-passes", op, e.loc, "records %s under %s" % (show(ps or NONE)[:300], show(k or NONE)), path)
    for e in observed:
        n = arg(e.a, 0, "amount")
        ok = is_cost(s, op, n, done) or (op != "allocate_buckets" and is_price(s, op, n) is None)
        if not ok and lenof(n) is not None:
            x = strip_list(lenof(n))
            if op != "allocate_buckets":
                ok = x[0] == "attr" and x[2] == "valid" and x[1] in vs
            else:
                ok = paid_with(s, op, x, vs, done)[0]
        ctx.check(ok, "records-price", op, e.loc, "the metric is updated with %s" % show(n)[:300], path)


def is_cost(s, op, n, done):
    """The price of the shares the backend really allocated."""
    if op != "allocate_buckets" or done is None:
        return False
    writers = ("sub", done, const(1))
    if is_call(n, "required_passes") and n[2][0] == s.pass_value:
        r = repeat(n[2][1])
        return r is not None and r[0] == p("allocated_size") and keys(r[1]) == writers
    if n[0] == "bin" and n[1] == "*":
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if is_call(a, "required_passes") and a[2] == (s.pass_value, ("list", (p("allocated_size"),))) and lenof(b) is not None and keys(lenof(b)) == writers:
                return True
    return False


def paid_with(s, op, ps, vs, done):
    if op != "allocate_buckets":
        return ps[0] == "attr" and ps[2] == "valid" and ps[1] in vs, None
    if ps[0] == "sub" and ps[2][0] == "slice":
        v, lo, hi, step = ps[1], ps[2][1], ps[2][2], ps[2][3] if len(ps[2]) > 3 else NONE
    elif is_call(ps, "islice") and len(ps[2]) == 2:
        v, lo, hi, step = ps[2][0], NONE, ps[2][1], NONE
    else:
        return False, None
    v = strip_list(v)
    ok = v[0] == "attr" and v[2] == "valid" and v[1] in vs and lo in (NONE, ZERO) and step in (NONE, const(1)) and is_cost(s, op, hi, done)
    return ok, hi


def key(ctx, s):
    name = s.public_key[2]
    good = False
    where = s.cls.loc if hasattr(s.cls, "loc") else None
    for n, f in s.cls.methods.items():
        import ast
        if any(ast.unparse(d) == name + ".default" for d in f.decorators):
            it, paths = ctx.run(f)
            where = f.loc
            good = all(q.kind == "return" and is_call(q.value, "from_signing_key") and q.value[2] == (s.key,) for q in paths)
    ctx.check(good, "public-key-derived", name, where, "the public key passes are recorded under is not derived from the signing key")


def spender(ctx):
    f = ctx.func("server.spending.RecordingSpender.mark_as_spent")
    it, paths = ctx.run(f)
    for path in paths:
        ok = False
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == "extend" and e.a[2] == (p("passes"),):
                r = receiver(e.a)
                ok = ok or (mentions(r, lambda x: is_call(x, "encode_base64") and receiver(x) == p("public_key")) and mentions(r, lambda x: x[0] == "attr" and x[2] == "spent_tokens"))
            if e.kind == "loop":
                for sub in e.b:
                    for x in sub.events:
                        if x.kind == "call" and fname(x.a[1]) == "append" and x.a[2] == (("elem", p("passes"), 0),):
                            ok = ok or mentions(receiver(x.a), lambda y: y[0] == "attr" and y[2] == "spent_tokens")
            if e.kind == "setitem" and contains(e.c or NONE, p("passes")):
                ok = ok or (mentions(e.a, lambda x: x[0] == "attr" and x[2] == "spent_tokens") and contains(e.c, ("attr", e.a, "x")) )
        ctx.check(path.kind == "return" and ok, "spender-keeps-all", f.name, f.loc, "not all of the passes are recorded under the given key", path)
