"""
P25: recovery from a snapshot and event objects.  The replay is followed with
all its helpers inlined from what is downloaded to the statements which are
executed: which, in which order, under which conditions, and with what.
"""
import itertools

from .store import *  # noqa: F401,F403
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk
from . import p24

TECHNIQUE = "value flow and order along enumerated paths; conditions of each replayed statement decided over all cases"
ASSUMPTIONS = [
    "sqlite_sequence in a snapshot holds the highest sequence number which had been given to an event when it was taken",
    "a Tahoe-LAFS operation of the client returns normally only if it succeeded (P37)",
]
SEQTABLE = "sqlite_sequence"


def check(ctx):
    ctx.rule("complete", "the snapshot and every event object listed in the replica are downloaded and handed to the import", 3)
    ctx.rule("names", "recovery looks for what replication uploads", 2)
    ctx.rule("empty", "the tables which exist are dropped before the snapshot is loaded", 1)
    ctx.rule("snapshot", "every statement of the snapshot is executed once, tables before rows, before any event", 3)
    ctx.rule("order", "event objects are replayed in the order of their sequence numbers", 1)
    ctx.rule("once", "a change is replayed only if neither the snapshot nor an earlier event object includes it", 2)
    ctx.rule("all", "every other change is replayed, with its own arguments", 2)
    ctx.rule("one transaction", "the import neither begins nor ends a transaction, nor waits, and uses only the cursor it was given", 1)
    replay(ctx)
    downloads(ctx)
    names(ctx)


# --- the replay -----------------------------------------------------------------

class Run:
    """One execution of a statement, with everything it depends on."""

    def __init__(self, e, gens, conds, subs, at):
        self.e, self.gens, self.conds, self.subs, self.at = e, gens, conds, subs, at
        self.sql = arg(e.a, 0, "statement")
        self.row = arg(e.a, 1, "row")


def runs(path, cursor):
    out = []
    n = [0]

    def go(events, gens, conds, subs, top):
        conds = list(conds)
        for i, e in enumerate(events):
            n[0] += 1
            at = top if top is not None else i
            if e.kind == "guard":
                conds.append((e.a, e.b))
            elif e.kind == "loop":
                for cs in (disjuncts(e.c) or [()]):
                    for s in e.b:
                        go(s.events, gens + tuple(e.a), conds + list(cs), subs + (s,), at)
            elif e.kind == "call" and is_execute(e.a) and receiver(e.a) == cursor:
                out.append(Run(e, gens, tuple(conds), subs, at))
    go(path.events, (), (), (), None)
    return out


def replay(ctx):
    f = ctx.func("recover.recover")
    params = [a.arg for a in f.node.args.args]
    if len(params) != 3:
        raise AnalysisBroken("anchor changed: the parameters of recover.recover")
    snap, data, cursor = (p(x) for x in params)
    it, paths = ctx.run(f)
    fields = event_fields(ctx)
    n = 0
    for path in paths:
        for e in flat(path.events):
            if e.kind == "await":
                ctx.bad("one transaction", "await", e.loc, "the import waits for something", path)
            if e.kind == "call" and fname(e.a[1]) in ("commit", "rollback", "executescript", "__exit__", "cursor"):
                ctx.bad("one transaction", fname(e.a[1]), e.loc, "the import uses %s" % fname(e.a[1]), path)
            if e.kind == "call" and is_execute(e.a) and receiver(e.a) != cursor:
                ctx.bad("one transaction", "cursor", e.loc, "a statement of the import is executed on another cursor", path)
            if e.kind == "catch":
                ctx.bad("all", "failures", e.loc, "the failure of a statement is ignored", path)
        if path.kind != "return":
            continue
        n += 1
        one_path(ctx, it, f, path, snap, data, cursor, fields)
    ctx.check(n > 0, "one transaction", "import", f.loc(), "the import never succeeds")


def event_fields(ctx):
    """Where the parts of a change are in its serialised form."""
    it, paths = ctx.run("replicate.EventStream.to_bytes")
    for path in paths:
        for x in walk(path.value) if path.kind == "return" else ():
            if x[0] == "tuple" and len(x[1]) >= 3 and all(y[0] == "attr" for y in x[1]):
                return {y[2]: i for i, y in enumerate(x[1])}
    raise AnalysisBroken("anchor vanished: the serialised form of an event")


def loaded(t, source, key):
    """Is it what the source was loaded to, under the key?"""
    t = strip_list(t)
    if t[0] == "sub" and t[2] == const(key):
        d = t[1]
        return is_call(d, "load") and any(x == source for x in walk(d)) or is_call(d, "loads") and any(x == source for x in walk(d))
    return False


def one_path(ctx, it, f, path, snap, data, cursor, fields):
    events = list(path.events)
    snapcall = I(("call", snap, (), (), 0))
    drops, loads, reads, replays = [], [], [], []
    for r in runs(path, cursor):
        t = r.sql
        st = read_sql(cval(t)) if t is not None and is_const(t) and isinstance(cval(t), str) else None
        if st is not None and st.kind == "select":
            reads.append((r, st))
        elif st is not None and st.kind in ("begin", "commit", "rollback"):
            ctx.bad("one transaction", "statement", r.e.loc, "the import executes %s" % st.kind.upper(), path)
        elif t is not None and (t[0] == "fmt" or t[0] == "add") and "DROP TABLE" in str([cval(x) for x in walk(t) if is_const(x)]).upper():
            drops.append(r)
        elif t is not None and t[0] == "elem" and t[1][0] == "sub" and t[1][2] == const("statements"):
            loads.append(r)
        elif t is not None and t[0] == "sub" and t[1][0] == "elem" and t[1][1][0] == "sub" and t[1][1][2] == const("events"):
            replays.append(r)
        elif st is not None and st.kind == "pragma":
            continue
        else:
            ctx.bad("all", "other statements", r.e.loc, "the import executes something else: %s" % show(t)[:80], path)
    dropping(ctx, f, path, drops, loads)
    snapshot(ctx, f, path, loads)
    base = base_number(ctx, path, reads, loads, replays)
    ctx.check(bool(replays), "all", "events", f.loc(), "the changes of the event objects are not replayed", path)
    for r in replays:
        ctx.check(all(l.at < r.at for l in loads), "snapshot", "before events", r.e.loc, "changes are replayed before the snapshot is loaded", path)
        events_of = r.sql[1][1]
        elem = r.sql[1]
        src = [g for g in walk(events_of) if g == ("elem", data, 0)]
        ctx.check(bool(src), "complete", "replayed", r.e.loc, "what is replayed is not from the given event objects", path)
        ok = r.sql == ("sub", elem, const(fields.get("statement"))) and r.row == ("sub", elem, const(fields.get("arguments")))
        ctx.check(ok, "all", "statement and arguments", r.e.loc, "a change is replayed as %s with %s" % (show(r.sql)[-30:], show(r.row)[-30:] if r.row else ""), path)
        order(ctx, it, path, r, data, events_of, elem, fields)
        bounds(ctx, it, f, path, r, base, events_of, elem, fields)
    # every combination of conditions leads to a replay
    if replays:
        covered_cases(ctx, path, f, replays, fields)


def dropping(ctx, f, path, drops, loads):
    for d in drops:
        conds = [c for c in d.conds if not ignorable(c)]
        ok = all(t[0] == "cmp" and t[1] in ("==", "in") and not pol and SEQTABLE in str([cval(x) for x in walk(t) if is_const(x)]) for t, pol in conds if mentions_elem(t, d.gens))
        ctx.check(ok and len(conds) <= 2, "empty", "all tables", d.e.loc, "some tables which existed are kept", path)
        ctx.check(all(d.at < l.at for l in loads), "empty", "before", d.e.loc, "tables are dropped after the snapshot was loaded", path)
    ctx.check(bool(drops), "empty", "dropped", f.loc(), "the tables which exist are not dropped", path)


def mentions_elem(t, gens):
    return any(x[0] == "elem" for x in walk(t))


def ignorable(c):
    """Conditions which only reject malformed data."""
    t, pol = c
    return any(x == ("g", "builtins.isinstance") for x in walk(t)) or (any(is_call(x, "get") and x[2] and x[2][0] == const("version") or x[0] == "sub" and x[2] == const("version") for x in walk(t)))


CASES = [(True, None), (False, "BEGIN TRANSACTION;"), (False, "COMMIT;"), (False, None)]


def statement_truth(t, elem, case):
    """A condition on a statement, in one of the cases."""
    create, frame = case
    if is_call(t, "startswith") and receiver(t) == elem and t[2]:
        pre = cval(t[2][0]) if is_const(t[2][0]) else None
        return create if pre in ("CREATE TABLE", "CREATE TABLE ") else None
    if t[0] == "cmp" and t[1] == "==" and elem in (t[2], t[3]):
        other = t[3] if t[2] == elem else t[2]
        return (cval(other) == frame) if is_const(other) and frame_word(cval(other)) else None
    if t[0] == "cmp" and t[1] == "in" and t[2] == elem:
        c = t[3]
        if c[0] == "call" and c[2]:
            c = c[2][0]
        if c[0] in ("tuple", "list", "set") and all(is_const(x) and frame_word(cval(x)) for x in c[1]):
            return frame in [cval(x) for x in c[1]]
        return None
    if t[0] == "not":
        v = statement_truth(t[1], elem, case)
        return None if v is None else not v
    if t[0] in ("and", "or"):
        vs = [statement_truth(x, elem, case) for x in t[1]]
        if t[0] == "or":
            return True if True in vs else None if None in vs else False
        return False if False in vs else None if None in vs else True
    return None


def frame_word(v):
    return v in ("BEGIN TRANSACTION;", "COMMIT;")


def snapshot(ctx, f, path, loads):
    ctx.check(bool(loads), "snapshot", "loaded", f.loc(), "the statements of the snapshot are not executed", path)
    times = {}
    where = {}
    for l in loads:
        elem = l.sql
        ctx.check(l.row is None or l.row in (I(("tuple", ())), I(("list", ()))), "snapshot", "arguments", l.e.loc, "statements of the snapshot are given arguments", path)
        ctx.check(len(l.gens) == 1 and strip_list(l.gens[0]) == elem[1], "snapshot", "loop", l.e.loc, "the statements of the snapshot are not executed one by one: %s" % ", ".join(show(g)[:60] for g in l.gens), path)
        for case in CASES:
            ok = True
            for t, pol in l.conds:
                if ignorable((t, pol)) or not any(x == elem for x in walk(t)):
                    continue
                v = statement_truth(t, elem, case)
                if v is None:
                    ctx.bad("snapshot", "every statement", l.e.loc, "whether a statement of the snapshot is executed depends on %s" % show(t)[:80], path)
                    return
                ok = ok and v == pol
            if ok:
                times[case] = times.get(case, 0) + 1
                where[case] = l.at
    for case in CASES:
        # the same way may be listed several times, once for each alternative
        got = times.get(case, 0)
        if case[1] is not None:
            ctx.check(got == 0, "one transaction", "frame of the snapshot", f.loc(), "BEGIN or COMMIT of the snapshot is executed", path)
        else:
            what = "tables" if case[0] else "rows"
            ctx.check(got >= 1 and len({l.at for l in loads if runs_in(l, case)}) == 1, "snapshot", what, f.loc(), "%s of the snapshot are restored %d times" % (what, got), path)
    a, b = where.get(CASES[0]), where.get(CASES[3])
    if a is not None and b is not None:
        ctx.check(a < b, "snapshot", "tables first", f.loc(), "rows are inserted before the tables they refer to exist", path)


def runs_in(l, case):
    elem = l.sql
    return all(statement_truth(t, elem, case) == pol for t, pol in l.conds if not ignorable((t, pol)) and any(x == elem for x in walk(t)))


def base_number(ctx, path, reads, loads, replays):
    """The terms for the last change included in the snapshot, along this path."""
    out = []
    execs = statements(path)
    byev = {id(x.ev): x for x in execs}
    got = {}
    for e, x in fetched(path, execs):
        if x is not None:
            got[e.a] = x
    at = {id(r.e): r.at for r, st in reads}
    for rows, x in got.items():
        if x.stmt.table == SEQTABLE and x.equals("name") == const("event-stream") and len(x.stmt.columns or ()) == 1 and p24.column(x, "seq") == 0:
            when = at.get(id(x.ev))
            good = when is not None and all(l.at < when for l in loads) and all(when < r.at for r in replays)
            out.append((rows, good, x))
    return out


def is_base(t, base, path):
    """Is the term what the snapshot says, or a number below all others where it says nothing?"""
    t = p24.strip_int(t)
    if is_const(t) and isinstance(cval(t), int) and cval(t) <= 0:
        return nothing_known(path, base)
    if t[0] == "or":
        return any(is_base(x, base, path) for x in t[1])
    for rows, good, x in base:
        if t in (I(("sub", ("sub", rows, const(0)), const(0))), I(("sub", rows, const(0))), I(("sub", ("elem", rows, 0), const(0)))) and good:
            return True
    return False


def nothing_known(path, base):
    """The path on which the snapshot has no number: no such table, or no such row."""
    if any(e.kind == "guard" and not e.b and any(e.a == rows or contains(e.a, rows) for rows, good, x in base) for e in path.events):
        return True
    for e, x in fetched(path, statements(path)):
        if x is not None and x.stmt.table == "sqlite_master" and any(g.kind == "guard" and not g.b and contains(g.a, e.a) for g in path.events):
            return any(SEQTABLE in str(c) for c in x.stmt.where)
    return False


def contains(t, sub):
    return any(x == sub for x in walk(t))


def prev_base(t):
    """The value before the loops of a variable which they change."""
    n = 0
    while t[0] == "prev":
        t = t[2]
        n += 1
    return t, n


def bounds(ctx, it, f, path, r, base, events_of, elem, fields):
    seq = I(("sub", elem, const(fields.get("sequence"))))
    lower = []
    for t, pol in r.conds:
        if t[0] == "cmp" and t[1] in ("<", ">=", ">", "<=") and seq in (t[2], t[3]):
            x, op = (t[2], t[1]) if t[3] == seq else (t[3], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[t[1]])
            strict = (op == "<" and pol) or (op == ">=" and not pol)
            lower.append((x, strict))
    included = repeated = False
    msg = "changes which the snapshot includes are replayed"
    for x, strict in lower:
        b, n = prev_base(x)
        if not strict:
            continue
        if is_base(b, base, path) and monotone(r, x):
            included = True
        if n and advances(r, x, events_of, seq):
            repeated = True
    if any(t[0] == "cmp" and t[1] == "in" and t[2] == seq and not pol and any(y[0] == "prev" for y in walk(t[3])) for t, pol in r.conds):
        repeated = True
    ctx.check(included, "once", "snapshot", r.e.loc, msg + ("" if lower else ": there is no condition on the sequence number"), path)
    ctx.check(repeated, "once", "event objects", r.e.loc, "a change which two event objects contain is replayed twice", path)


def carries(r, x):
    """(way through the loop, what it leaves) for each loop which changes the variable."""
    for s in r.subs:
        for t, new in s.carry:
            if t == x or (t[0] == "prev" and x[0] == "prev" and t[1] == x[1]):
                yield t, new


def monotone(r, x):
    """The variable never gets smaller."""
    if x[0] != "prev":
        return True
    return all(new == t or (is_call(new, "max") and (t in new[2] or any(y == t for y in new[2]))) or grows(new, t, r) or (new[:2] == ("unk", "after loop of " + x[1]) and x[2][0] == "prev") for t, new in carries(r, x))


def grows(new, t, r):
    """The number of a change which passed the condition: greater than before."""
    return any(c == (("cmp", "<", t, new), True) for c in r.conds)


def advances(r, x, events_of, seq):
    """After an event object, the variable is at least its highest number."""
    rows = {events_of: None}
    for t, new in carries(r, x):
        parts = new[2] if is_call(new, "max") else (new,)
        for y in parts:
            if y == seq or highest(y, events_of, seq):
                return True
    return False


def highest(t, events_of, seq):
    if not is_call(t, "max") or not t[2]:
        return False
    src = strip_list(t[2][0])
    return src[0] == "comp" and len(src[3]) == 1 and strip_list(src[3][0]) == events_of and src[2] == seq


def order(ctx, it, path, r, data, events_of, elem, fields):
    """The loops: over the objects in order, and over the changes of each as they are."""
    seq = I(("sub", elem, const(fields.get("sequence"))))
    gens = r.gens
    ok = False
    msg = "event objects are replayed in the order in which they are listed"
    if len(gens) >= 1:
        g = gens[0]
        if is_call(g, "sorted"):
            kw = dict(g[3])
            rev = kw.get("reverse", FALSE)
            key = kw.get("key")
            if rev != FALSE:
                msg = "event objects are replayed in the reverse order"
            elif key is None:
                msg = "event objects are not sorted by their sequence numbers"
            else:
                x = strip_list(g[2][0])
                if x[0] == "comp":
                    x = x[2]
                else:
                    x = I(("elem", x, 0))
                ok = sort_key(it, path, key, x, events_of, seq, elem)
                if not ok:
                    msg = "event objects are not sorted by their highest sequence numbers"
    ctx.check(ok, "order", "event objects", r.e.loc, msg, path)
    if len(gens) > 1:
        ctx.check(len(gens) == 2 and strip_list(gens[1]) == events_of, "order", "changes", r.e.loc, "the changes of an event object are replayed in another order: %s" % ", ".join(show(x)[:60] for x in gens[1:]), path)


def sort_key(it, path, key, x, events_of, seq, elem):
    try:
        outs = it.apply(key, (x,), path.st)
    except AnalysisBroken:
        return False
    vals = {o.value for o in outs if o.kind == "return"}
    vals = {v for v in vals if not is_const(v)}

    def good(v):
        if v[0] == "tuple" and v[1]:
            return good(v[1][0])
        if highest(v, events_of, seq):
            return True
        # the first or the last change: contiguous, ascending
        if v[0] == "or":
            return good(v[1][0])
        return v[0] == "sub" and v[1][0] == "sub" and v[1][1] == events_of and is_const(v[1][2]) and cval(v[1][2]) == -1 and v[2] == seq[2] or v == seq
    return bool(vals) and all(good(v) for v in vals)


def covered_cases(ctx, path, f, replays, fields):
    """A change above the bound is replayed whatever else holds."""
    for r in replays:
        elem = r.sql[1]
        st = r.sql
        seq = I(("sub", elem, const(fields.get("sequence"))))
        for t, pol in r.conds:
            if ignorable((t, pol)) or not any(x == elem for x in walk(t)):
                if any(x == ("elem", e, 0) for e in [elem[1]] for x in walk(t)):
                    ctx.bad("all", "conditions", r.e.loc, "whether a change is replayed depends on %s" % show(t)[:80], path)
                continue
            if t[0] == "cmp" and t[1] in ("<", ">=", ">", "<=") and seq in (t[2], t[3]):
                continue
            if t[0] == "cmp" and t[1] == "in" and t[2] == seq and not pol:
                continue
            if t[0] in ("cmp", "not", "and", "or") and statement_truth(t, st, CASES[3]) == pol and statement_truth(t, st, CASES[0]) == pol:
                continue
            if t[0] == "cmp" and any(is_call(y, "max") for y in walk(t)):
                continue
            ctx.bad("all", "conditions", r.e.loc, "whether a change is replayed depends on %s" % show(t)[:80], path)
        # objects are skipped only when they have no changes
        objs = elem[1]
        for t, pol in r.conds:
            if contains(t, objs) and not any(x == elem for x in walk(t)) and not ignorable((t, pol)):
                ok = t == objs or lenof(t) == objs or (t[0] == "cmp" and (lenof(t[2]) == objs or lenof(t[3]) == objs or any(is_call(y, "max") for y in walk(t)))) or is_call(t, "max")
                ctx.check(ok, "all", "objects", r.e.loc, "whether an event object is replayed depends on %s" % show(t)[:80], path)


# --- what is downloaded -----------------------------------------------------------

def downloads(ctx):
    f = ctx.func("recover.tahoe_lafs_downloader")
    client, cap = (p(a.arg) for a in f.node.args.args[:2])
    it, paths = ctx.run(f, ("tahoe.download_child",))
    for path in paths:
        if path.kind != "return":
            continue
        for e in flat(path.events):
            if e.kind == "catch":
                ctx.bad("complete", "failures", e.loc, "a failed download is ignored", path)
        v = path.value
        if v[0] != "tuple" or len(v[1]) != 2:
            ctx.bad("complete", "result", f.loc(), "the downloader does not return the snapshot and the event objects", path)
            continue
        waited = {e.a for e in flat(path.events) if e.kind == "await"}
        snap, evs = v[1]
        where = opened(it, path, snap)
        got = False
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == "download_child":
                ok = arg(e.a, 0, "outpath") == where and arg(e.a, 2, "parent_cap") == cap and e.a in waited
                names = arg(e.a, 3, "child_path")
                got = got or (ok and names is not None and consts(names) == ["snapshot"])
        ctx.check(where is not None and got, "complete", "snapshot", f.loc(), "the snapshot which is imported was not downloaded from the replica", path)
        comp = strip_list(evs)
        if comp[0] != "comp":
            ctx.bad("complete", "event objects", f.loc(), "the event objects which are imported are not those listed in the replica: %s" % show(comp)[:80], path)
            continue
        listing = next((strip_keys(g) for g in comp[3]), None)
        ctx.check(len(comp[3]) == 1 and is_call(listing, "list_directory") and listing[2] == (cap,) and listing in waited, "complete", "listing", f.loc(), "the event objects are not looked up in the listing of the replica", path)
        out = opened(it, path, comp[2])
        for cs in disjuncts(comp[4]) or [()]:
            for t, pol in cs:
                ok = pol and (is_call(t, "startswith") and t[2] == (const("event-stream-"),) or is_call(t, "isinstance") and "FileNode" in show(t[2][1]))
                ctx.check(ok, "complete", "selection", f.loc(), "whether an event object is downloaded depends on %s%s" % ("" if pol else "not ", show(t)[:80]), path)
        ok = False
        for e, gens, conds in in_loops(path.events):
            if e.kind == "call" and fname(e.a[1]) == "download" and arg(e.a, 0, "outpath") == out and e.a in waited:
                capof = arg(e.a, 1, "cap")
                ok = ok or ({strip_keys(g) for g in gens} == {listing} and set(conds) <= set(comp_conds(comp)) and capof is not None and contains(capof, listing))
        ctx.check(ok, "complete", "event objects", f.loc(), "event objects are imported which were not downloaded", path)
        name = next((x for x in walk(out) if x[0] == "elem"), None) if out is not None else None
        ctx.check(name is not None, "complete", "own file", f.loc(), "event objects are downloaded to the same file", path)


def strip_keys(g):
    g = strip_list(g)
    while is_call(g, "items") or is_call(g, "keys") or is_call(g, "sorted"):
        g = strip_list(receiver(g) if not is_call(g, "sorted") else g[2][0])
    return g


def comp_conds(comp):
    out = set()
    for cs in disjuncts(comp[4]) or [()]:
        out |= set(cs)
    return out


def consts(t):
    if is_call(t, "list") and t[2] and is_const(t[2][0]):
        return [cval(t[2][0])]
    t = strip_list(t)
    if t[0] in ("list", "tuple"):
        return [cval(x) if is_const(x) else None for x in t[1]]
    return None


def opened(it, path, provider):
    """The path which a provider opens."""
    outs = it.apply(provider, (), path.st) if provider[0] in ("partial", "clo", "fn", "bm", "attr") else []
    got = set()
    for o in outs:
        v = o.value
        if o.kind == "return" and is_call(v, "open"):
            got.add(receiver(v) if v[1][0] == "attr" and v[1][1][0] != "g" else (v[2][0] if v[2] else None))
    return got.pop() if len(got) == 1 else None


def in_loops(events, gens=(), conds=()):
    conds = list(conds)
    for e in events:
        if e.kind == "guard":
            conds.append((e.a, e.b))
        elif e.kind == "loop":
            for cs in disjuncts(e.c) or [()]:
                for s in e.b:
                    yield from in_loops(s.events, gens + tuple(e.a), conds + list(cs))
        else:
            yield e, gens, tuple(c for c in conds if any(x[0] == "elem" for x in walk(c[0])))


# --- the names ---------------------------------------------------------------------

def names(ctx):
    """What the replication service uploads is what recovery looks for."""
    f = ctx.func(p24.SVC + ".startService")
    it, paths = ctx.run(f, (p24.SVC + ".queue_job", "replicate.AccumulatedChanges.*", "replicate.snapshot", "replicate._ReplicationCapableCursor.*", "replicate._ReplicationCapableConnection.*"))
    rep = self_field(ctx, p24.SVC, type="Replica")
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == "upload" and receiver(e.a) == rep:
                n = arg(e.a, 0, "name")
                if is_const(n):
                    ctx.check(cval(n) == "snapshot", "names", "snapshot", e.loc, "a snapshot is uploaded as %r, but recovery looks for \"snapshot\"" % cval(n), path)
                else:
                    lit = n[1][0] if n[0] == "fmt" and n[1] else None
                    ctx.check(lit is not None and is_const(lit) and str(cval(lit)).startswith("event-stream-"), "names", "event objects", e.loc, "event objects are uploaded as %s, but recovery looks for \"event-stream-\"" % show(n)[:60], path)
