"""
P16: who may write a voucher's state, when and under which conditions.  All
statements which set it are found; marking double-spent is conditional on the
stored state being pending and happens only for the issuer's already-spent
outcome; storing redeemed tokens happens only with the answer to a request
made for a voucher just read as pending; other failures write nothing.
"""
from .controller import *  # noqa: F401,F403
from .controller import Controller, call_sites, feasible, owned, under
from .p14 import is_voucher
from .store import Store, sql_sites, statements

TECHNIQUE = "path rules over enumerated paths with a SQL statement reader; completeness over all statements in the package"
ASSUMPTIONS = ["no second redemption of the voucher runs in between (P17), and no other process writes the database"]
INSERT, MARK = "insert_unblinded_tokens_for_voucher", "mark_voucher_double_spent"


def told(events):
    """{short type name: bool}: what is known about the failure that was caught."""
    out = {}
    for e in events:
        if e.kind == "guard" and e.a[0] == "cmp" and e.a[1] == "isexc":
            out.setdefault(e.a[3][1].split(".")[-1], e.b)
        elif e.kind == "guard" and e.a[0] == "call" and e.a[1] == ("g", "builtins.isinstance") and e.a[2][0][0] == "exc":
            out.setdefault(show(e.a[2][1]).split(".")[-1], e.b)
        elif e.kind == "catch" and e.b is not None and not str(e.b).startswith("builtins."):
            out.setdefault(str(e.b).split(".")[-1], True)
    return out


def check(ctx):
    c = Controller(ctx)
    s = Store(ctx)
    ctx.rule("state-writers", "only storing redeemed tokens and marking double-spent set the state of a voucher, and adding one never replaces one", 3)
    ctx.rule("double-spend-only-pending", "marking double-spent changes only the named voucher and only if it is pending, and fails otherwise", 2)
    ctx.rule("double-spend-only-told", "a voucher is marked double-spent only when the issuer answered that it was already redeemed", 1)
    ctx.rule("redeemed-state", "storing tokens makes the voucher redeemed when it is complete and leaves it pending otherwise", 2)
    ctx.rule("redeemed-needs-result", "tokens are stored only after the request was answered", 1)
    ctx.rule("only-pending-redeemed", "a request is made only for a voucher just read as pending", 1)
    ctx.rule("failures-write-nothing", "any other failure leaves the stored voucher as it is", 1)
    marking(ctx, s)
    storing(ctx, s)
    s.paths("add")
    for path, a in c.attempts():
        info = told(a.after)
        answered = False
        for e in a.after:
            if e.kind == "await" and e.a == a.call:
                answered = True
            if e.kind == "raised" and e.a == a.call:
                answered = False
            if e.kind == "call" and e.a[1][0] == "attr" and e.a[1][1] == c.store:
                n = fname(e.a[1])
                if n == MARK:
                    before = a.after[:a.after.index(e)]
                    ctx.check(a.outcome == "failed" and told(before).get("AlreadySpent") is True and c.of_voucher(arg(e.a, 0, "voucher")), "double-spend-only-told", "redeem", e.loc,
                              "a voucher is marked double-spent although the issuer did not say so", path)
                elif n == INSERT:
                    ctx.check(answered and contains(e.a, a.term), "redeemed-needs-result", "redeem", e.loc, "tokens are stored although the request was not answered", path)
                elif n not in ("now", "get", "list") and a.outcome == "failed":
                    ctx.bad("failures-write-nothing", "redeem: %s" % n, e.loc, "a failed attempt changes the wallet", path)
        if a.outcome == "failed" and info.get("AlreadySpent") is not True:
            wrote = [e for e in a.after if e.kind == "call" and c.is_store_call(e.a, MARK)]
            ctx.check(not wrote, "failures-write-nothing", "redeem", a.loc, "a failed attempt changes the stored voucher", path)
        # the voucher was read and found pending, and nothing ran in between
        v = a.voucher
        ok = v is not None and c.is_store_call(v, "get") and v[2] == (p("voucher"),)
        if ok:
            pend = [g for g, b in a.guards if b is True and is_pending(g, v)]
            reads = [i for i, e in enumerate(a.before) if e.kind == "call" and e.a == v]
            waits = [i for i, e in enumerate(a.before) if any(x.kind in ("await", "yield") for x in flat([e]))]
            ok = bool(pend) and (not waits or (bool(reads) and reads[-1] > waits[-1]))
        ctx.check(ok, "only-pending-redeemed", "redeem", a.loc, "a request is made for a voucher which was not just read as pending", path)
    for name in (INSERT, MARK):
        for owner, m, node in call_sites(ctx.program, name):
            ctx.check(owned(ctx, owner), "state-writers", "%s from %s" % (name, owner.split(".", 1)[1]), (m.relpath, node.lineno), "the state of vouchers is changed outside of a redemption")
    for owner, m, node, st in sql_sites(ctx.program):
        if st.table != "vouchers" or not st.mutates or m.name.endswith(".schema") or st.kind in ("create", "alter"):
            continue
        ok = owned(ctx, owner) and (st.kind == "update" or (st.kind == "insert" and st.conflict not in ("replace",) and "state" not in (st.columns or ())))
        ctx.check(ok, "state-writers", "%s: %s" % (owner.split(".", 1)[1], st.kind), (m.relpath, node.lineno), "a voucher is changed, replaced or deleted here")


def is_pending(g, v):
    if g[0] == "call" and g[1] == ("g", "builtins.isinstance") and g[2][0] == ("attr", v, "state"):
        return g[2][1][0] == "cls" and g[2][1][1].endswith(".Pending")
    return False


def marking(ctx, s):
    f = s.method(MARK)
    it, paths = s.paths(MARK)
    returned = failed = 0
    for path in paths:
        xs = [x for x in statements(path) if x.stmt.mutates]
        if path.kind == "return":
            returned += 1
            ok = len(xs) == 1 and xs[0].stmt.kind == "update" and xs[0].stmt.table == "vouchers"
            if ok:
                x = xs[0]
                conds = list(x.stmt.where)
                v = x.value(x.stmt.sets.get("state"))
                ok = len(conds) == 2 and is_voucher(x.equals("number")) and x.equals("state") == const("pending") and v == const("double-spend") and set(x.stmt.sets) <= {"state", "finished"}
            changed = rowcount(path)
            ctx.check(ok, "double-spend-only-pending", "statement", xs[0].loc if xs else f.loc, "marking does not change exactly the named voucher if it is pending", path)
            if changed is not None:
                ctx.check(changed is True, "double-spend-only-pending", "fails otherwise", f.loc, "marking ends normally although no voucher was changed", path)
            elif not checked_before(path, xs):
                ctx.bad("double-spend-only-pending", "fails otherwise", f.loc, "marking ends normally although no voucher may have been changed", path)
        elif path.value is not None and path.value[0] != "exc" and rowcount(path) is False:
            failed += 1
    if not returned:
        raise AnalysisBroken("%s never returns" % MARK)


def rowcount(path):
    """True/False when the path knows that rows were (not) changed."""
    for e in flat(path.events):
        if e.kind == "guard":
            t, b = e.a, e.b
            if t[0] == "cmp" and t[1] == "==" and t[3] == ZERO and t[2][0] == "attr" and t[2][2] == "rowcount":
                return not b
            if t[0] == "cmp" and t[1] == "==" and t[3] == const(1) and t[2][0] == "attr" and t[2][2] == "rowcount":
                return b
            if t[0] == "cmp" and t[1] == "<" and t[3] == const(1) and t[2][0] == "attr" and t[2][2] == "rowcount":
                return not b
            if t[0] == "cmp" and t[1] == "<" and t[2] == ZERO and t[3][0] == "attr" and t[3][2] == "rowcount":
                return b
            if t[0] == "attr" and t[2] == "rowcount":
                return b
    return None


def checked_before(path, xs):
    """Was the state selected and compared with pending before?"""
    return any(e.kind == "guard" and e.b is True and e.a[0] == "cmp" and e.a[1] == "==" and const("pending") in e.a[2:] for e in flat(path.events))


def storing(ctx, s):
    f = s.method(INSERT)
    it, paths = s.paths(INSERT)
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        ups = [x for x in statements(path) if x.stmt.mutates and x.stmt.table == "vouchers"]
        guards = tuple((e.a, e.b) for e in flat(path.events) if e.kind == "guard")
        sets = [x for x in ups if "state" in x.stmt.sets]
        for truth, want in ((True, "redeemed"), (False, "pending")):
            facts = {p("completed"): truth}
            if not feasible(guards, facts):
                continue
            n += 1
            if not sets:
                ctx.check(not truth, "redeemed-state", "completed=%s" % truth, f.loc, "a complete voucher is not marked redeemed", path)
                continue
            x = sets[0]
            v = x.value(x.stmt.sets["state"])
            v = under(v, facts) if v is not None else None
            ctx.check(len(sets) == 1 and v == const(want) and is_voucher(x.equals("number")), "redeemed-state", "completed=%s" % truth, x.loc,
                      "the state becomes %s" % (show(v) if v is not None else None), path)
    if not n:
        raise AnalysisBroken("%s never returns" % INSERT)
