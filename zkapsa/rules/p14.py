"""
P14: dataflow of blinding material.  The random tokens of every request to the
redeemer are the result of storing tokens for the same voucher and counter;
storing returns the tokens already stored, or stores all of those newly made
and returns these; nothing else makes, removes or changes stored tokens, and
what is sent to the issuer is derived from the given tokens only; each token is
made separately from fresh randomness.
"""
from .controller import *  # noqa: F401,F403
from .controller import Controller, call_sites, owned
from .store import Store, fetched, sql_sites, statements

TECHNIQUE = "dataflow over enumerated paths with a SQL statement reader"
ASSUMPTIONS = ["the transaction around storing has committed when it returns (P21)", "blinding by the Ristretto library is a function of the token"]
MAKE = "random_tokens_for_voucher"


def check(ctx):
    c = Controller(ctx)
    s = Store(ctx)
    ctx.rule("stored-before-sent", "the tokens of a request are those returned by storing them for the same voucher and counter before", 1)
    ctx.rule("stored-ones-reused", "if tokens are stored for the voucher and counter, all of them and no others are returned, in the order in which they were stored, and none is made", 2)
    ctx.rule("new-ones-stored", "tokens are made only if none are stored, and every token returned was stored for the voucher and counter", 2)
    ctx.rule("committed", "storing ends its transaction before it returns", 1)
    ctx.rule("made-only-for-storing", "tokens are made only to be stored", 1)
    ctx.rule("only-success-removes", "stored tokens are changed or removed only by storing what they were redeemed for", 1)
    ctx.rule("fresh", "as many tokens as asked for are made, each from randomness of its own", 1)
    ctx.rule("sent-derived", "what is sent to the issuer derives from the given tokens", 2)
    for path, a in c.attempts():
        t = a.tokens
        ok = t is not None and c.is_store_call(strip_list(t), "add")
        why = "the tokens of the request are %s" % (show(t)[:200] if t is not None else None)
        if ok:
            t = strip_list(t)
            v, n = arg(t, 0, "voucher"), arg(t, 2, "counter")
            ok = c.of_voucher(v) and n == a.counter and any(e.kind == "call" and e.a == t for e in a.before)
            why = "the tokens were stored for %s, %s but are used for counter %s" % (show(v), show(n), show(a.counter))
        ctx.check(ok, "stored-before-sent", "redeem", a.loc, why, path)
        v = a.voucher
        ctx.check(v is not None and c.of_voucher(I(("attr", v, "number"))), "stored-before-sent", "redeem: voucher", a.loc,
                  "the request is for another voucher: %s" % show(v), path)
    for path in c.paths():
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == MAKE:
                ctx.bad("made-only-for-storing", "redeem", e.loc, "tokens are made which are not made by storing", path)
    adding(ctx, s)
    s.paths("insert_unblinded_tokens_for_voucher")
    for owner, m, node in call_sites(ctx.program, MAKE):
        delegating = delegates(ctx.program, owner, MAKE)
        ctx.check(delegating or owned(ctx, owner), "made-only-for-storing", owner.split(".", 1)[1], (m.relpath, node.lineno), "tokens are made outside of a redemption")
    for owner, m, node, st in sql_sites(ctx.program):
        if st.table == "tokens" and st.mutates and st.kind not in ("create", "alter") and not m.name.endswith(".schema"):
            ctx.check(owned(ctx, owner) and st.kind in ("insert", "delete"), "only-success-removes", "%s: %s" % (owner.split(".", 1)[1], st.kind), (m.relpath, node.lineno),
                      "a statement outside of redemption changes the stored tokens")
    sending(ctx)
    fresh(ctx)


def show_order(e):
    return repr(e).lower()


def empty_rows(guards, rows):
    """True/False when the guards say that the rows are (not) empty."""
    n = I(("call", ("g", "builtins.len"), (rows,), (), 0))
    for g, b in guards:
        g = norm(g)
        if g == norm(("cmp", "<", ZERO, n)):
            return not b
        if g == norm(("cmp", "==", n, ZERO)):
            return b
        if g == norm(rows) or g == norm(n):
            return not b
    return None


def adding(ctx, s):
    f = s.method("add")
    it, paths = s.paths("add")
    reused = made = 0
    for path in paths:
        xs = statements(path)
        makes = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == p("get_tokens")]
        inserts = [x for x in xs if x.stmt.table == "tokens" and x.stmt.mutates]
        selects = [(e, x) for e, x in fetched(path, xs) if x is not None and x.stmt.kind == "select" and x.stmt.tables == ["tokens"]]
        good = [(e, x) for e, x in selects if x.stmt.limit is None and len(x.stmt.where) == 2 and fname(e.a[1]) == "fetchall"
                and is_voucher(x.equals("voucher")) and x.equals("counter") == p("counter")]
        for e, x in good:
            stored = all("rowid" in show_order(o) and d == "asc" for o, d in x.stmt.order[:1])
            ctx.check(stored and not x.stmt.limit, "stored-ones-reused", "add: order", x.loc,
                      "the stored tokens are returned in another order than they had when they were made", path)
        guards = tuple((e.a, e.b) for e in flat(path.events) if e.kind == "guard")
        state = None
        for e, x in good:
            state = empty_rows(guards, e.a)
        if makes:
            made += 1
            ctx.check(state is True, "new-ones-stored", "add: only if none stored", makes[0].loc, "new tokens are made although tokens may be stored for this voucher and counter", path)
        if path.kind != "return":
            continue
        if not makes:
            reused += 1
            v = path.value
            rows = strip_list(v)
            ok = bool(good) and state is False and not inserts and rows[0] == "comp" and rows[4] == () and len(rows[3]) == 1 and rows[3][0] == good[-1][0].a
            if ok:
                cell = I(("sub", ("elem", rows[3][0], 0), const(0)))
                text = field(rows[2], "token_value")
                ok = text is not None and contains(text, cell) and is_call(text, "encode")
            ctx.check(ok, "stored-ones-reused", "add", f.loc, "the tokens returned are not exactly those stored for the voucher and counter", path)
        else:
            ok = len(makes) == 1 and strip_list(path.value) == makes[0].a and len(inserts) == 1
            if ok:
                x = inserts[0]
                cols = dict(zip(x.stmt.columns, [x.value(v) for v in x.stmt.values]))
                e = I(("elem", makes[0].a, 0))
                t = cols.get("text")
                ok = x.stmt.kind == "insert" and x.stmt.conflict in (None, "abort", "fail", "rollback") and tuple(strip_list(g) for g in x.gens) == (makes[0].a,) and not x.conds and \
                    is_voucher(cols.get("voucher")) and cols.get("counter") == p("counter") and t is not None and is_call(t, "decode") and receiver(t) == ("attr", e, "token_value")
                after = [e for e in path.events if e.kind == "exit" or (e.kind == "call" and fname(e.a[1]) in ("commit", "__exit__"))]
                order = list(flat(path.events))
                done = any(order.index(e) > order.index(x.ev) for e in after if e in order)
                ctx.check(done, "committed", "add", x.loc, "the new tokens are not committed when they are returned", path)
            ctx.check(ok, "new-ones-stored", "add", f.loc, "not every token returned was stored for the voucher and counter", path)
    if not (reused and made):
        raise AnalysisBroken("add: reused on %d, made on %d paths" % (reused, made))


def is_voucher(t):
    return t is not None and (t == p("voucher") or (is_call(t, "decode") and receiver(t) == p("voucher")) or (is_call(t, "str") and t[2] and t[2][0] == p("voucher")))


def sending(ctx):
    f = ctx.func("controller.RistrettoRedeemer.redeemWithCounter")
    it, paths = ctx.run(f)
    n = 0
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) in ("create",) and "RandomToken" in show(e.a[1]):
                ctx.bad("sent-derived", "no fresh material", e.loc, "a request makes its own random tokens", path)
            if e.kind == "call" and fname(e.a[1]) in ("post", "put", "request"):
                n += 1
                body = e.a
                blinds = [x for x in walk(body) if is_call(x, "blind")]
                ok = bool(blinds) and all(strip_roots(receiver(x)) == {p("random_tokens")} for x in blinds)
                ctx.check(ok, "sent-derived", "request", e.loc, "the request is not made of the given random tokens", path)
                ctx.check(contains(body, p("counter")) and contains(body, I(("attr", p("voucher"), "number"))), "sent-derived", "request: voucher and counter", e.loc,
                          "the request does not name the voucher and counter the tokens are stored for", path)
    if not n:
        raise AnalysisBroken("redeemWithCounter sends nothing")


def strip_roots(t):
    return {x for x in walk(t) if x[0] in ("p", "self")}


def fresh(ctx):
    """The redeemer which talks to an issuer makes each token separately."""
    f = ctx.func("controller.RistrettoRedeemer." + MAKE)
    it, paths = ctx.run(f, ())
    count = ("p", f.node.args.args[-1].arg)
    for path in paths:
        if path.kind != "return":
            continue
        t = path.value
        if t[0] == "call" and t[1] == ("g", "builtins.list") and len(t[2]) == 1:
            t = t[2][0]
        ok = t[0] == "comp" and len(t[3]) == 1 and not t[4] and norm(t[3][0]) == norm(("call", ("g", "builtins.range"), (count,), (), 0))
        if not ctx.check(ok, "fresh", "number", f.loc(), "the tokens made are %s" % show(t)[:120], path):
            continue
        shared = {e.a for e in path.events if e.kind == "call"}
        made = [x for x in walk(t[2]) if x[0] == "call" and x[1] == ("g", "challenge_bypass_ristretto.RandomToken.create")]
        ctx.check(len(made) > 0 and not any(x in shared for x in made), "fresh", "each", f.loc(), "the tokens are not made separately" if made else "the tokens are not random", path)
