"""
P13: dataflow from the issuer's public key to the spendable flag.  The flag
handed to the wallet with redeemed tokens is membership of the answer's own
key in the configured set; the wallet stores flag, key and tokens together,
adds the number of tokens to the counter the flag selects, and no other
statement sets the flag.
"""
from .controller import *  # noqa: F401,F403
from .controller import Controller, call_sites, feasible, owned, under
from .store import Store, fetched, sql_sites, statements
from .p12 import available

TECHNIQUE = "dataflow over enumerated paths with a SQL statement reader"
ASSUMPTIONS = ["tokens of wallets older than the schema version which introduced groups are taken to be spendable (schema upgrade)"]
INSERT = "insert_unblinded_tokens_for_voucher"


def check(ctx):
    c = Controller(ctx)
    s = Store(ctx)
    ctx.rule("flag-is-membership", "redeemed tokens are stored as spendable exactly if the key of the issuer's answer is one of the allowed keys, with that key and those tokens", 1)
    ctx.rule("only-redemption-stores", "tokens enter the wallet only through the redemption of a voucher", 1)
    ctx.rule("allowed-keys-configured", "the allowed keys are the configured ones", 2)
    ctx.rule("group-records-flag", "the tokens are stored in a new group which carries the flag and the key", 2)
    ctx.rule("counted-by-flag", "the voucher's value grows by the number of tokens if they are spendable and its sequestered value otherwise", 4)
    ctx.rule("only-spendable-out", "tokens are selected for spending and counted as available only from spendable groups", 2)
    ctx.rule("flag-never-changes", "no other statement sets the flag", 1)
    flag(ctx, c)
    keys_(ctx, c)
    storing(ctx, s)
    for op in ("get_unblinded_tokens", "count_unblinded_tokens"):
        it, paths = s.paths(op)
        for path in paths:
            for x in statements(path):
                if x.stmt.kind == "select" and "unblinded-tokens" in x.stmt.tables:
                    joined, spendable, unused, extra = available(x.stmt)
                    ctx.check(joined and spendable, "only-spendable-out", op, x.loc, "tokens of groups which are not spendable are selected")
    for owner, m, node, st in sql_sites(ctx.program):
        if "redemption-groups" in (st.table,) and st.mutates and st.kind not in ("create", "alter"):
            if m.name.endswith(".schema"):
                continue
            ctx.check(st.kind == "insert" and owned(ctx, owner), "flag-never-changes", "%s: %s" % (owner.split(".", 1)[1], st.kind), (m.relpath, node.lineno),
                      "a statement outside of storing redeemed tokens changes the groups")
    for owner, m, node in call_sites(ctx.program, INSERT):
        ctx.check(owned(ctx, owner), "only-redemption-stores", owner.split(".", 1)[1], (m.relpath, node.lineno), "tokens are stored outside of a redemption")


def flag(ctx, c):
    allowed = self_field(ctx, PC, name="allowed_public_keys")
    n = 0
    for path, a in c.attempts():
        for i, e in enumerate(a.after):
            if e.kind == "call" and c.is_store_call(e.a, INSERT):
                n += 1
                key = I(("attr", a.term, "public_key"))
                member = I(("cmp", "in", key, allowed))
                guards = a.guards + tuple((x.a, x.b) for x in a.after[:i] if x.kind == "guard")
                v, k, toks, spend = arg(e.a, 0, "voucher"), arg(e.a, 1, "public_key"), arg(e.a, 2, "unblinded_tokens"), arg(e.a, 4, "spendable")
                ok = c.of_voucher(v) and k == key and strip_list(toks) == ("attr", a.term, "unblinded_tokens") and spend is not None
                why = "the voucher, key or tokens stored are not those of the answer"
                for truth in (True, False):
                    facts = {member: truth}
                    if ok and feasible(guards, facts) and under(spend, facts) != const(truth):
                        ok, why = False, "tokens of a key which is %sallowed are stored with spendable = %s" % ("" if truth else "not ", show(spend)[:200])
                ctx.check(ok, "flag-is-membership", "redeem", e.loc, why, path)
    if not n:
        raise AnalysisBroken("redeem stores no tokens")


def keys_(ctx, c):
    f = ctx.func("storage_common.get_configured_allowed_public_keys")
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        gets = [x for x in walk(v) if is_call(x, "get_config")]
        ok = len({norm(g) for g in gets}) == 1 and any(y == const("allowed-public-keys") for g in gets for y in walk(g)) and \
            not mentions(v, lambda x: x[0] == "bin" or (is_const(x) and x[2] in ("",) and False))
        ctx.check(ok, "allowed-keys-configured", "get_configured_allowed_public_keys", f.loc, "the allowed keys are not (only) those of the configuration: %s" % show(v)[:200], path)
    # who makes controllers
    n = 0
    todo = ctx.program.climb(("PaymentController",), lambda f: f.cls is not c.cls)
    for fn in todo:
        it, paths = ctx.run(fn, ("storage_common.*", "controller.get_redeemer", "resource.authorizationless_resource_tree", "private.*"))
        made = []
        for path in paths:
            for e in flat(path.events):
                new = e.b if e.kind == "call" and e.b is not None and e.b[0] == "new" else None
                if new is not None and new[1] == c.cls.qual:
                    got = field(new, "allowed_public_keys")
                    ok = got is not None and is_call(strip_set(got), "get_configured_allowed_public_keys") and has_set_only(got)
                    made.append((ok, got, e, path))
        if not all(ok for ok, got, e, path in made) and todo.send(True):
            continue
        for ok, got, e, path in made:
            n += 1
            ctx.check(ok, "allowed-keys-configured", fn.qual.split(".", 1)[1], e.loc, "a controller is made with the allowed keys %s" % (show(got)[:160] if got else None), path)
    if not n:
        raise AnalysisBroken("nobody makes a PaymentController")


def has_set_only(t):
    return not mentions(t, lambda x: x[0] in ("bin", "phi", "comp"))


def storing(ctx, s):
    f = s.method(INSERT)
    it, paths = s.paths(INSERT)
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        xs = statements(path)
        groups = [x for x in xs if x.stmt.table == "redemption-groups" and x.stmt.kind == "insert"]
        toks = [x for x in xs if x.stmt.table == "unblinded-tokens" and x.stmt.mutates]
        ok = len(groups) == 1 and len(toks) == 1 and toks[0].stmt.kind == "insert"
        if ok:
            n += 1
            g, t = groups[0], toks[0]
            cols = dict(zip(g.stmt.columns, [g.value(v) for v in g.stmt.values]))
            tc = dict(zip(t.stmt.columns, [t.value(v) for v in t.stmt.values]))
            guards = tuple((e.a, e.b) for e in flat(path.events) if e.kind == "guard")
            for truth in (True, False):
                facts = {p("spendable"): truth}
                if feasible(guards, facts):
                    v = under(cols.get("spendable"), facts) if cols.get("spendable") is not None else None
                    ctx.check(v is not None and is_const(v) and bool(cval(v)) == truth, "group-records-flag", "spendable=%s" % truth, g.loc,
                              "the group's flag is %s" % (show(v) if v is not None else None), path)
            ctx.check(cols.get("public-key") == p("public_key"), "group-records-flag", "key", g.loc, "the group's key is not the key of the answer", path)
            last = tc.get("redemption-group")
            fresh = last is not None and last[0] == "attr" and last[2] == "lastrowid" and not any(g.order < x.order < t.order and x.stmt.kind == "insert" for x in xs)
            ctx.check(fresh, "group-records-flag", "tokens in the new group", t.loc, "the tokens are not stored in the new group", path)
        else:
            ctx.bad("group-records-flag", "statements", f.loc, "tokens are stored without (or with more than) one new group", path)
        ups = [x for x in xs if x.stmt.table == "vouchers" and x.stmt.kind == "update"]
        for truth in (True, False):
            facts = {p("spendable"): truth}
            guards = tuple((e.a, e.b) for e in flat(path.events) if e.kind == "guard")
            if not feasible(guards, facts):
                continue
            for col, mine in (("token-count", True), ("sequestered-count", False)):
                got = [increase(x, col, facts) for x in ups if col in x.stmt.sets]
                want = I(("call", ("g", "builtins.len"), (p("unblinded_tokens"),), (), 0)) if truth is mine else const(0)
                good = (len(got) == 1 and got[0] is not None and norm(got[0]) == norm(want)) or (not got and want == const(0))
                ctx.check(good, "counted-by-flag", "%s, spendable=%s" % (col, truth), ups[0].loc if ups else f.loc,
                          "[%s] grows by %s" % (col, show(got[0]) if got and got[0] is not None else got), path)
    if not n:
        raise AnalysisBroken("no tokens are inserted")


def increase(x, col, facts):
    """What is added to a column."""
    e = x.stmt.sets[col]
    if e[0] != "+":
        return None
    for a, b in ((e[1], e[2]), (e[2], e[1])):
        if a[0] == "fn" and a[1] in ("coalesce", "ifnull") and a[2][:2] == ("col", col) and a[3] == ("num", 0) or a[:2] == ("col", col):
            v = x.value(b)
            return under(v, facts) if v is not None else None
    return None

