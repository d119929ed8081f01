"""
P15: one successful step is one transaction which stores all unblinded tokens,
removes the random tokens of the step's counter and advances the counter by
one; a redemption visits the counters from the stored one up to the number of
groups in order, stops at the first step that does not succeed, and only the
step of the last group completes the voucher.
"""
from .controller import *  # noqa: F401,F403
from .controller import Controller, bodies, feasible, under
from .p14 import MAKE, is_voucher
from .store import Store, boundaries, fetched, sql_sites, statements

TECHNIQUE = "dataflow and path rules over enumerated paths with a SQL statement reader"
ASSUMPTIONS = ["each store method is one transaction (P21)"]
INSERT = "insert_unblinded_tokens_for_voucher"


def check(ctx):
    c = Controller(ctx)
    s = Store(ctx)
    ctx.rule("step-is-atomic", "all changes of a step happen in one transaction", 1)
    ctx.rule("step-stores-all", "every unblinded token of the step is stored", 1)
    ctx.rule("step-advances", "the counter is advanced by exactly one", 1)
    ctx.rule("step-removes-used", "exactly the random tokens of the voucher and the step's counter are removed", 1)
    ctx.rule("counters-in-order", "a redemption goes through the counters from its start to the number of groups one by one", 1)
    ctx.rule("starts-where-stopped", "it starts at 0 for an unknown voucher and at the stored counter otherwise", 2)
    ctx.rule("stops-on-failure", "no further counter is tried after a step which did not succeed", 2)
    ctx.rule("complete-at-last", "the voucher is complete exactly with the last group", 1)
    ctx.rule("shares-add-up", "the numbers of tokens of all groups add up to the voucher's", 2)
    ctx.rule("counter-is-persisted", "the stored state of a pending voucher has the counter of the database", 2)
    ctx.rule("counter-changes-only-by-steps", "no other statement changes the counter", 1)
    storing(ctx, s)
    looping(ctx, c)
    shares(ctx, c)
    state(ctx)
    for owner, m, node, st in sql_sites(ctx.program):
        if st.kind == "update" and st.table == "vouchers" and "counter" in st.sets and not m.name.endswith(".schema"):
            ctx.check(owned(ctx, owner), "counter-changes-only-by-steps", owner.split(".", 1)[1], (m.relpath, node.lineno), "the counter is changed outside of a step")


def storing(ctx, s):
    f = s.method(INSERT)
    it, paths = s.paths(INSERT)
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        n += 1
        xs = [x for x in statements(path)]
        muts = [x for x in xs if x.stmt.mutates]
        ctx.check(not any(boundaries(path, a, b) for a, b in zip(muts, muts[1:])), "step-is-atomic", INSERT, f.loc, "a transaction ends between the changes of one step", path)
        toks = [x for x in muts if x.stmt.table == "unblinded-tokens"]
        ok = len(toks) == 1 and toks[0].stmt.kind == "insert" and toks[0].stmt.conflict in (None, "abort", "fail", "rollback") and \
            tuple(strip_list(g) for g in toks[0].gens) == (p("unblinded_tokens"),) and not toks[0].conds
        if ok:
            x = toks[0]
            t = dict(zip(x.stmt.columns, [x.value(v) for v in x.stmt.values])).get("token")
            ok = t is not None and is_call(t, "decode") and receiver(t) == ("attr", ("elem", x.gens[0], 0), "unblinded_token")
        ctx.check(ok, "step-stores-all", INSERT, toks[0].loc if toks else f.loc, "not every unblinded token is stored", path)
        ups = [x for x in muts if x.stmt.table == "vouchers" and "counter" in x.stmt.sets]
        ok = len(ups) == 1 and len(ups[0].stmt.where) == 1 and is_voucher(ups[0].equals("number")) and is_increment(ups[0].stmt.sets["counter"])
        ctx.check(ok, "step-advances", INSERT, ups[0].loc if ups else f.loc, "the counter of the voucher is not advanced by exactly one", path)
        dels = [x for x in muts if x.stmt.table == "tokens"]
        ok2 = False
        if ok and len(dels) == 1 and dels[0].stmt.kind == "delete" and len(dels[0].stmt.where) == 2 and is_voucher(dels[0].equals("voucher")):
            ok2 = is_step_counter(path, xs, ups[0], dels[0])
        ctx.check(ok2, "step-removes-used", INSERT, dels[0].loc if dels else f.loc, "the random tokens removed are not those of the voucher and the step's counter", path)
    if not n:
        raise AnalysisBroken("%s never returns" % INSERT)


def is_increment(e):
    return e[0] == "+" and any(a[:2] == ("col", "counter") and b == ("num", 1) for a, b in ((e[1], e[2]), (e[2], e[1])))


def is_step_counter(path, xs, up, d):
    """Does the delete name the counter before the update?"""
    got = d.equals("counter")
    if got is None:
        for w in d.stmt.where:
            # counter = (SELECT counter [- 1] FROM vouchers WHERE number = ?)
            if w[0] == "=" and w[1][:2] == ("col", "counter") and w[2][0] == "select":
                sel = w[2][1]
                if sel.table == "vouchers" and len(sel.columns) == 1:
                    col = sel.columns[0]
                    after = d.order > up.order
                    if after:
                        return col[0] == "-" and col[1][:2] == ("col", "counter") and col[2] == ("num", 1)
                    return col[:2] == ("col", "counter")
        return False
    for e, x in fetched(path, xs):
        if x is None or x.stmt.kind != "select" or x.stmt.table != "vouchers" or len(x.stmt.columns) != 1:
            continue
        if x.stmt.columns[0][:2] != ("col", "counter") or not is_voucher(x.equals("number")):
            continue
        cell = I(("sub", e.a, const(0)))
        if fname(e.a[1]) == "fetchall":
            cell = I(("sub", cell, const(0)))
        pos, neg, k = linear(got)
        if list(pos) == [cell] and not neg:
            return k == (-1 if x.order > up.order else 0)
    return False


def looping(ctx, c):
    for path, a in c.attempts():
        n = a.counter
        good = False
        if n is not None and n[0] == "elem" and is_call(n[1], "range"):
            r = n[1]
            lo, hi = (const(0), r[2][0]) if len(r[2]) == 1 else (r[2][0], r[2][1])
            good = hi == c.groups and (len(r[2]) < 3 or r[2][2] == const(1))
        elif n is not None:
            lo = n
            good = any(norm(g) == norm(("cmp", "<", n, c.groups)) and b is True for g, b in a.guards)
            pos, neg, k = linear(n)
            lo = const(0) if not pos else pos[0]
        ctx.check(good, "counters-in-order", "redeem", a.loc, "the counter of the request is %s" % (show(n)[:200] if n is not None else None), path)
        if not good:
            continue
        known = any(e.kind == "catch" and "KeyError" in str(e.b) for e in path.events)
        if lo == const(0):
            ctx.check(known, "starts-where-stopped", "unknown voucher", a.loc, "a redemption starts at 0 although the voucher is already known", path)
        else:
            if lo[0] == "call" and lo[1][0] == "attr" and fname(lo[1]) == "start_at_counter" and not lo[2]:
                st = lo[1][1]
            else:
                st = lo[1] if lo[0] == "attr" and lo[2] == "counter" else ("?",)
            ok = st[0] == "attr" and st[2] == "state" and c.is_store_call(st[1], "get") and st[1][2] == (p("voucher"),)
            ctx.check(ok, "starts-where-stopped", "known voucher", a.loc, "a redemption starts at %s instead of the stored counter" % show(lo)[:200], path)
        # what follows the attempt
        done = a.outcome == "answered" and any(e.kind == "call" and c.is_store_call(e.a, INSERT) for e in a.after) and \
            not any(e.kind == "raised" and c.is_store_call(e.a, INSERT) for e in a.after)
        again = a.kind in ("next", "continue")
        if not done:
            ctx.check(not again, "stops-on-failure", "after %s" % ("an answer which was not stored" if a.outcome == "answered" else "a failure"), a.loc,
                      "the redemption goes on to the next counter although this step did not succeed", path)
        else:
            ctx.check(again or n[0] != "elem", "counters-in-order", "goes on", a.loc, "the redemption stops after a successful step", path)
            for i, e in enumerate(a.after):
                if e.kind == "call" and c.is_store_call(e.a, INSERT):
                    v = arg(e.a, 3, "completed")
                    last = is_last(v, n, c.groups, a.guards + tuple((x.a, x.b) for x in a.after[:i] if x.kind == "guard"))
                    ctx.check(last, "complete-at-last", "redeem", e.loc, "the voucher is completed when %s" % (show(v)[:200] if v is not None else None), path)


def is_last(v, n, groups, guards):
    if v is None:
        return False
    forms = [("cmp", "==", ("bin", "+", n, const(1)), groups), ("cmp", "==", n, ("bin", "-", groups, const(1))),
             ("cmp", "==", groups, ("bin", "+", n, const(1))), ("cmp", "==", ("bin", "-", groups, const(1)), n),
             ("cmp", "==", ("bin", "-", groups, n), const(1)), ("cmp", "==", ("bin", "+", const(1), n), groups)]
    for a, b in ((("bin", "+", n, const(1)), groups), (n, ("bin", "-", groups, const(1)))):
        forms.append(("not", ("cmp", "<", a, b)))
    forms = [norm(I(x)) for x in forms]
    if norm(v) in forms:
        return True
    for x in forms:
        ok = True
        for truth in (True, False):
            facts = {}
            facts[x] = truth
            if feasible([(norm(g), b) for g, b in guards], facts) and under(norm(v), facts) != const(truth):
                ok = False
        if ok:
            return True
    return False


def shares(ctx, c):
    """
    A group's share is total // groups, plus 1 if its counter is below
    total % groups; over all counters below groups that adds up to the total.
    """
    vs = ctx.program.cls(VS)
    atoms = tuple(VS + "." + n for k in ctx.program.mro(vs) for n in k.methods if n != "add")
    f = ctx.program.find_method(c.cls, "redeem")
    n = 0
    for path in ctx.run(f, atoms)[1]:
        for events, gens, kind, before in bodies(path):
            for i, e in enumerate(events):
                if e.kind != "call" or fname(e.a[1]) != MAKE:
                    continue
                n += 1
                voucher, counter, num = arg(e.a, 0, "voucher"), arg(e.a, 1, "counter"), arg(e.a, 2, "count")
                total = field(voucher, "expected_tokens") if voucher is not None and voucher[0] == "new" else None
                if total is None or counter is None or num is None:
                    ctx.bad("shares-add-up", "redeem", e.loc, "the tokens are made with %s" % show(e.a)[:200], path)
                    continue
                guards = before + tuple((x.a, x.b) for x in events[:i] if x.kind == "guard")
                q, r = I(("bin", "//", total, c.groups)), I(("bin", "%", total, c.groups))
                dm = I(("call", ("g", "builtins.divmod"), (total, c.groups), (), 0))
                lt = I(("cmp", "<", counter, r))
                ok = True
                for truth in (True, False):
                    facts = {lt: truth}
                    if not feasible(guards, facts):
                        continue
                    v = subst(num, {I(("sub", dm, const(0))): q, I(("sub", dm, const(1))): r})
                    pos, neg, k = linear(under(v, facts))
                    if (lt, truth) not in guards and lt in pos:
                        pos, k = [x for x in pos if x != lt], k + truth
                    ok = ok and [norm(x) for x in pos] == [norm(q)] and not neg and k == int(truth)
                ctx.check(ok, "shares-add-up", "redeem", e.loc, "a group has %s tokens" % show(num)[:200], path)
                known = path_total(path, c)
                ctx.check(total in known, "shares-add-up", "of the voucher's total", e.loc, "the number of tokens divided is %s" % show(total)[:200], path)
    if not n:
        raise AnalysisBroken("no tokens are made in a redemption")


def path_total(path, c):
    """What the voucher's number of tokens may be."""
    if any(e.kind == "catch" and "KeyError" in str(e.b) for e in path.events):
        return [p("num_tokens"), I(("attr", ("self", c.cls.qual), "default_token_count"))]
    return [I(("attr", e.a, "expected_tokens")) for e in flat(path.events) if e.kind == "call" and c.is_store_call(e.a, "get")]


def state(ctx):
    f = ctx.func("model.Pending.start_at_counter")
    it, paths = ctx.run(f)
    fld = I(("attr", ("self", f.cls.qual), "counter"))
    for path in paths:
        ctx.check(path.kind == "return" and path.value == fld, "counter-is-persisted", "Pending.start_at_counter", f.loc, "a pending voucher starts at %s" % (show(path.value) if path.value else path.kind), path)
    # the row of a pending voucher
    s = Store(ctx)
    for op in ("get", "list"):
        it, paths = s.paths(op)
        n = 0
        for path in paths:
            xs = statements(path)
            for x in xs:
                if x.stmt.kind == "select" and x.stmt.table == "vouchers":
                    cols = [cc[1] if cc[0] == "col" else None for cc in x.stmt.columns]
                    if path.kind != "return" or path.value is None:
                        continue
                    for t in walk(path.value):
                        if t[0] == "new" and t[1].endswith(".Pending"):
                            v = field(t, "counter")
                            i = position(v)
                            n += 1
                            ctx.check(i is not None and i < len(cols) and cols[i] == "counter", "counter-is-persisted", op, x.loc,
                                      "the counter of a pending voucher is read from column %r" % (cols[i] if i is not None and i < len(cols) else show(v)), path)
        if not n:
            raise AnalysisBroken("VoucherStore.%s makes no pending voucher" % op)


def position(t):
    """Which cell of a row the term is."""
    if t is None or t[0] != "sub":
        return None
    i = t[2]
    if not (is_const(i) and isinstance(cval(i), int)):
        return None
    base = t[1]
    if base[0] == "sub" and base[2][0] == "slice":
        lo = base[2][1]
        if is_const(lo) and isinstance(cval(lo), int):
            return cval(lo) + cval(i)
        if lo == NONE or lo is None:
            return cval(i)
        return None
    return cval(i)
