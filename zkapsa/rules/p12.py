"""
P12: the statements executed by the wallet's token operations are read and
judged by table, condition and bound values: what is selected for spending,
what is marked in use, what is deleted and for exactly which tokens; and no
other function executes a statement that changes these tables.
"""
from .store import *  # noqa: F401,F403
from .store import Store, fetched, named_token, owner_functions, sql_sites, statements

TECHNIQUE = "dataflow over enumerated paths with a SQL statement reader; completeness over all statements in the package"
ASSUMPTIONS = [
    "SQLite executes the statements as written; [in-use] is a table of the process's only connection (temporary)",
    "statements run in the transaction which P21 establishes",
]
OPS = ("get_unblinded_tokens", "discard_unblinded_tokens", "invalidate_unblinded_tokens", "reset_unblinded_tokens")
TOKENS, USED, INVALID = "unblinded-tokens", "in-use", "invalid-unblinded-tokens"
KEY = {TOKENS: "token", USED: "unblinded-token", INVALID: "token"}


def available(st):
    """Which of the three conditions of an available token a select has, and what else."""
    joined = spendable = unused = False
    extra = []
    for c in st.where:
        if c[0] == "=" and {x[1:] for x in c[1:] if x[0] == "col"} == {("redemption-group", TOKENS), ("rowid", "redemption-groups")}:
            joined = True
        elif c[0] == "=" and c[1][:2] == ("col", "spendable") and c[2] == ("num", 1):
            spendable = True
        elif c[0] == "col" and c[1] == "spendable":
            spendable = True
        elif c[0] == "not" and c[1][0] == "in" and c[1][1][:2] == ("col", "token") and c[1][2] == ("table", USED):
            unused = True
        elif c[0] == "in" and c[1][:2] == ("col", "redemption-group") and c[2][0] == "select" and c[2][1].table == "redemption-groups":
            joined = True
            spendable = spendable or any(w[0] == "=" and w[1][:2] == ("col", "spendable") and w[2] == ("num", 1) for w in c[2][1].where)
        elif c[0] == "not" and c[1][0] == "exists" and c[1][1].table == USED and any(
                w[0] == "=" and {x[1] for x in w[1:] if x[0] == "col"} == {"token", "unblinded-token"} for w in c[1][1].where):
            unused = True
        else:
            extra.append(c)
    return joined, spendable, unused, extra


def check(ctx):
    s = Store(ctx)
    ctx.rule("hands-out-available", "tokens handed out are selected from those of a spendable group which are not in use, at most as many as asked for", 1)
    ctx.rule("enough-or-nothing", "with fewer tokens than asked for nothing is marked and the call fails", 2)
    ctx.rule("marked-in-use", "exactly the tokens handed out are marked in use in the same transaction", 2)
    ctx.rule("counts-available", "the number of available tokens is counted with the conditions of handing out", 1)
    ctx.rule("discard", "spent tokens are removed from the wallet and from the tokens in use", 2)
    ctx.rule("invalidate", "invalid tokens are recorded and removed from the wallet and the tokens in use", 3)
    ctx.rule("reset", "returned tokens are no longer in use and stay in the wallet", 2)
    ctx.rule("exactly-named", "each change affects exactly the tokens named by the caller", 5)
    ctx.rule("nobody-else", "no other function changes the tables of tokens", 5)
    getting(ctx, s)
    counting(ctx, s)
    for op, gone in (("discard_unblinded_tokens", (USED, TOKENS)), ("invalidate_unblinded_tokens", (USED, TOKENS)), ("reset_unblinded_tokens", (USED,))):
        changing(ctx, s, op, gone)
    # other writers
    it, paths = s.paths("insert_unblinded_tokens_for_voucher")
    known = owner_functions(ctx)
    for owner, m, node, st in sql_sites(ctx.program):
        if st.mutates and st.table in (TOKENS, USED, INVALID, "redemption-groups") and st.kind not in ("create", "alter"):
            schema = m.name.endswith(".schema") and st.table == "redemption-groups" and st.kind == "insert"
            ctx.check(schema or any(owner == k or owner.startswith(k + ".") for k in known), "nobody-else", "%s: %s %s" % (owner.split(".", 1)[1], st.kind, st.table),
                      (m.relpath, node.lineno), "a statement outside of the wallet's token operations changes [%s]" % st.table)


def getting(ctx, s):
    f = s.method("get_unblinded_tokens")
    it, paths = s.paths("get_unblinded_tokens")
    count = p("count")
    failed = False
    for path in paths:
        xs = statements(path)
        marks = [x for x in xs if x.stmt.mutates]
        if path.kind == "raise":
            if path.value is not None and path.value[0] == "new" and path.value[1].endswith("NotEnoughTokens"):
                failed = True
                ctx.check(not marks, "enough-or-nothing", "not enough", marks[0].loc if marks else f.loc, "tokens are marked although the call fails", path)
            continue
        if path.kind != "return":
            ctx.bad("hands-out-available", f.name, f.loc, "ends with %s" % path.kind, path)
            continue
        if returns_nothing(path, count):
            continue
        value = strip_list(path.value)
        if value[0] != "comp" or len(value[3]) != 1 or value[4] != ():
            ctx.bad("hands-out-available", f.name, f.loc, "returns %s" % show(path.value)[:200], path)
            continue
        rows = value[3][0]
        src = [x for e, x in fetched(path, xs) if same(strip_list(rows), e.a)]
        if not ctx.check(len(src) == 1 and src[0] is not None and src[0].stmt.kind == "select", "hands-out-available", "rows", f.loc, "the tokens handed out do not come from the database", path):
            continue
        q = src[0]
        j, sp, un, extra = available(q.stmt)
        cols = [c[1] for c in q.stmt.columns if c[0] == "col"]
        text = I(("sub", ("elem", rows, 0), const(cols.index("token") if "token" in cols else -1)))
        good = "token" in cols and q.stmt.columns[0][2] in (TOKENS, None)
        ctx.check(good and sp and j, "hands-out-available", "spendable", q.loc, "tokens of groups which are not spendable are selected", path)
        ctx.check(not extra, "hands-out-available", "nothing else", q.loc, "available tokens are left out by %s" % (extra[:1],), path)
        ctx.check(un, "hands-out-available", "not in use", q.loc, "tokens which are in use are selected", path)
        ctx.check(q.value(q.stmt.limit) == count if q.stmt.limit else False, "hands-out-available", "as many as asked for", q.loc, "the number of tokens selected is not limited to the number asked for", path)
        ctx.check(mentions(value[2], lambda x: x == text) and value[2][0] == "new", "hands-out-available", "tokens", q.loc, "the tokens returned are %s" % show(value[2])[:200], path)
        lits = [(e.a, e.b) for e in path.events if e.kind == "guard"]
        enough = any(enough_rows(a, b, rows, count) for a, b in lits)
        ctx.check(enough, "enough-or-nothing", "enough", q.loc, "fewer tokens than asked for may be handed out", path)
        ins = [x for x in marks if x.stmt.kind == "insert" and x.stmt.table == USED]
        ok = len(ins) == 1 and len(ins[0].gens) == 1 and same(strip_list(ins[0].gens[0]), strip_list(rows)) and only_this(ins[0].conds)
        if ok:
            v = ins[0].value(column_value(ins[0].stmt, "unblinded-token", 0))
            e = ("elem", ins[0].gens[0], 0)
            ok = v is not None and same(v, ("sub", ("elem", ins[0].gens[0], 0), text[2])) or ins[0].row == e
            # through the token object
            ok = ok or (v is not None and mentions(v, lambda x: x == I(("sub", e, text[2]))))
        elif len(ins) == 1 and ins[0].gens == () and same(value, value):
            ok = False
        ctx.check(ok, "marked-in-use", "exactly those", ins[0].loc if ins else f.loc, "the tokens marked in use are not those handed out", path)
        ctx.check(all(x in ins for x in marks), "marked-in-use", "nothing else", f.loc, "handing out tokens changes something else", path)
        if ins:
            ctx.check(not boundaries(path, q, ins[0]), "marked-in-use", "same transaction", ins[0].loc, "another user of the wallet may get the same tokens in between", path)
    if not failed:
        ctx.bad("enough-or-nothing", "not enough", f.loc, "the call never fails for lack of tokens")


def returns_nothing(path, count):
    """Asked for no tokens, returned none."""
    v = path.value
    if v is None or v not in (("list", ()), ("tuple", ())):
        return False
    return any(e.kind == "guard" and ((e.a == count and e.b is False) or (e.a == ("cmp", "==", count, ZERO) and e.b)) for e in path.events)


def only_this(conds):
    return not conds


def enough_rows(t, b, rows, count):
    ab = less(t)
    if ab is not None:
        n = lenof(ab[0])
        if n is not None and same(strip_list(n), strip_list(rows)) and ab[1] == count and b is False:
            return True
    if t[0] == "cmp" and t[1] == "==" and b is True:
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y == count and lenof(x) is not None and same(strip_list(lenof(x)), strip_list(rows)):
                return True
    return False


def column_value(st, column, position):
    if st.values is None:
        return None
    if st.columns:
        return st.values[st.columns.index(column)] if column in st.columns else None
    return st.values[position] if position < len(st.values) else None


def counting(ctx, s):
    f = s.method("count_unblinded_tokens")
    it, paths = s.paths("count_unblinded_tokens")
    for path in paths:
        if path.kind != "return":
            continue
        xs = statements(path)
        sel = [x for x in xs if x.stmt.kind == "select"]
        ok = len(sel) == 1 and len(sel[0].stmt.columns) == 1 and sel[0].stmt.columns[0][:2] == ("fn", "count") and sel[0].stmt.limit is None
        if ok:
            j, sp, un, extra = available(sel[0].stmt)
            ok = j and sp and un and not extra
        ctx.check(ok and mentions(path.value, lambda x: is_call(x, FETCHES)), "counts-available", f.name, sel[0].loc if sel else f.loc, "the number reported is not that of the tokens which can be handed out", path)


def changing(ctx, s, op, gone):
    rule = op.split("_")[0]
    f = s.method(op)
    it, paths = s.paths(op)
    done = False
    for path in paths:
        if path.kind == "raise":
            continue
        xs = statements(path)
        if not [x for x in xs if x.stmt.mutates]:
            empty = any(e.kind == "guard" and e.a in (p("unblinded_tokens"), ) and e.b is False for e in path.events)
            ctx.check(empty, rule, f.name, f.loc, "a call leaves the wallet as it is", path)
            continue
        done = True
        scratch = {}
        removed = {}
        recorded = False
        for i, x in enumerate(xs):
            st = x.stmt
            if not st.mutates:
                continue
            if st.kind == "insert":
                v = x.value(column_value(st, KEY.get(st.table, "unblinded-token"), 0))
                good = named_token(v, x.gens, "unblinded_tokens") and not x.conds and st.sub is None
                ctx.check(good, "exactly-named", "%s: insert %s" % (op, st.table), x.loc, "what is put into [%s] is not exactly the tokens named" % st.table, path)
                scratch[st.table] = i
                if st.table == INVALID:
                    recorded = good
                if st.table in (TOKENS, USED):
                    ctx.bad(rule, "%s: insert %s" % (op, st.table), x.loc, "adds to [%s]" % st.table, path)
            elif st.kind == "delete" and st.table in KEY and st.table != INVALID:
                ok = False
                if len(st.where) == 1:
                    c = st.where[0]
                    if c[0] == "in" and c[1][:2] == ("col", KEY[st.table]) and c[2][0] == "table":
                        t = c[2][1]
                        # the table holds exactly the named tokens (or tokens invalidated before)
                        ok = t in scratch and (t == INVALID or any(y.stmt.kind == "delete" and y.stmt.table == t and not y.stmt.where for y in xs[i + 1:]))
                    elif c[0] == "=" and c[1][:2] == ("col", KEY[st.table]):
                        ok = named_token(x.value(c[2]), x.gens, "unblinded_tokens") and not x.conds
                ctx.check(ok, "exactly-named", "%s: delete %s" % (op, st.table), x.loc, "the rows removed from [%s] are not exactly the tokens named" % st.table, path)
                removed[st.table] = ok
            elif st.kind == "delete" and st.table not in KEY and not st.where and st.table in set(scratch) | {"to-discard", "to-reset"}:
                pass
            else:
                ctx.bad(rule, "%s: %s %s" % (op, st.kind, st.table), x.loc, "also changes [%s]" % st.table, path)
        for t in gone:
            ctx.check(t in removed, rule, "%s from %s" % (op, t), f.loc, "the tokens are not removed from [%s]" % t, path)
        for t in removed:
            ctx.check(t in gone, rule, "%s keeps %s" % (op, t), f.loc, "the tokens are removed from [%s]" % t, path)
        if rule == "invalidate":
            ctx.check(recorded, rule, "recorded", f.loc, "the invalid tokens are not recorded", path)
    if not done:
        ctx.bad(rule, f.name, f.loc, "the operation changes nothing")
