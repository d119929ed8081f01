"""
P24: what is deleted locally and in the replica.  Every way one job of the
replication service can go is enumerated from the start of the service, with
its helpers inlined; each deletion of events must follow the upload which
covers them, up to a sequence number which was read before the upload.
"""
import ast
import re as _re

from .store import *  # noqa: F401,F403
from .store import sql_sites, users_of
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk

TECHNIQUE = "dominance and value flow along enumerated paths, from what is read to what is uploaded and deleted"
ASSUMPTIONS = [
    "a Tahoe-LAFS operation of the client returns normally only if it succeeded (P37)",
    "sqlite_sequence holds the highest sequence number ever given to an event",
]
SVC = "replicate._ReplicationService"
LOG = "event-stream"
SEQ = "sequence-number"


def check(ctx):
    ctx.rule("events", "events are deleted only after the upload of all events up to the last one it contains", 2)
    ctx.rule("snapshot", "events are deleted after a snapshot upload only as far as the snapshot includes them", 2)
    ctx.rule("named", "an event object is named after the last event it contains", 1)
    ctx.rule("prune", "objects are removed from the replica only after the snapshot, and only event objects it covers", 2)
    ctx.rule("unlink", "only entries the predicate selects are unlinked, from the directory of the replica", 1)
    ctx.rule("link", "uploaded data is linked under its name, after the upload, and this is waited for", 1)
    ctx.rule("only", "nothing else deletes events or removes objects from the replica", 2)
    seen = jobs(ctx)
    replica(ctx)
    only(ctx, seen)


def jobs(ctx):
    f = ctx.func(SVC + ".startService")
    it, paths = ctx.run(f, (SVC + ".queue_job", "replicate.AccumulatedChanges.*", "replicate.snapshot", "replicate._ReplicationCapableCursor.*", "replicate._ReplicationCapableConnection.*"))
    rep = self_field(ctx, SVC, type="Replica")
    seen = set()
    for path in paths:
        job(ctx, it, path, rep, seen)
    return seen


def is_snapshot(ctx, t):
    return t[0] == "call" and (fname(t[1]) == "snapshot" or (fname(t[1]) == "statements_to_snapshot"))


def job(ctx, it, path, rep, seen):
    execs = {id(x.ev): x for x in statements(path)}
    reads = {id(e): x for e, x in fetched(path, list(execs.values()))}
    events = list(flat(path.events))
    rows = {}            # the rows of a statement -> (statement, position)
    snaps = {}           # snapshot data -> position
    uploads = {}         # the call -> position where it was waited for
    done = []            # uploads which succeeded, in order
    waits = []
    for i, e in enumerate(events):
        if e.kind == "await":
            waits.append(i)
            if e.a in uploads:
                done.append(e.a)
        if e.kind == "raised" and e.a in done:
            done.remove(e.a)
        if e.kind != "call":
            continue
        if id(e) in reads and reads[id(e)] is not None:
            rows[e.a] = (reads[id(e)], i)
        if is_snapshot(ctx, e.a):
            snaps[e.a] = i
        if fname(e.a[1]) == "upload" and receiver(e.a) == rep:
            uploads[e.a] = i
        x = execs.get(id(e))
        if x is not None and x.stmt.table == LOG and x.stmt.kind in ("delete", "drop", "update"):
            seen.add(x.loc)
            deletion(ctx, it, path, x, i, rows, snaps, uploads, done, waits, e)
        if fname(e.a[1]) == "prune" and receiver(e.a) == rep:
            seen.add(e.loc)
            pruned(ctx, it, path, e, i, rows, snaps, uploads, done, waits)
    for u, i in uploads.items():
        b = contents(ctx, it, path, u, rows)
        if b is None or b[0] != "events":
            continue
        name = arg(u, 0, "name")
        n = suffix(ctx, it, path, name)
        ctx.check(n is not None and covers(n, b[1], rows, True), "named", "event upload", f_loc(events, u), "an event object is named %s, not after the last event in it" % show(name)[:80], path)


def f_loc(events, term):
    return next((e.loc for e in events if e.a == term), None)


def deletion(ctx, it, path, x, i, rows, snaps, uploads, done, waits, e):
    kind = "events"
    bound = None
    if x.stmt.kind == "delete":
        for c in x.stmt.where:
            if c[0] in ("<=", "<", "=") and c[1][0] == "col" and c[1][1] == SEQ:
                bound = x.value(c[2])
            elif c[0] in (">=", ">") and c[2][0] == "col" and c[2][1] == SEQ:
                bound = x.value(c[1])
    if not done:
        ctx.bad("events", "before the upload", x.loc, "events are deleted although no upload succeeded before", path)
        return
    best = None
    for u in done:
        b = contents(ctx, it, path, u, rows, snaps)
        if b is None:
            continue
        if bound is not None and within(ctx, bound, b, rows, snaps, waits):
            best = b
            break
        best = best or b
    if best is None:
        ctx.bad("events", "contents", x.loc, "what was uploaded is neither all pending events nor a snapshot: %s" % "; ".join(show(arg(u, 1, "get_data") or u)[:60] for u in done), path)
        return
    kind = "snapshot" if best[0] == "snapshot" else "events"
    if bound is None:
        ctx.bad(kind, "bound", x.loc, "events are deleted without regard to their sequence number", path)
        return
    ok = within(ctx, bound, best, rows, snaps, waits)
    ctx.check(ok, kind, "bound", x.loc, "events are deleted up to %s, which the upload need not include" % show(bound)[:80], path)
    ctx.ok(kind, "after the upload")


def within(ctx, bound, b, rows, snaps, waits):
    """Is everything up to the bound included in what was uploaded?"""
    if b[0] == "events":
        return covers(bound, b[1], rows) or (is_const(bound) and isinstance(cval(bound), int) and cval(bound) <= 0)
    return included(bound, b[1], rows, snaps, waits)


def strip_int(t):
    while is_call(t, "int") and t[2]:
        t = t[2][0]
    return t


def covers(bound, r, rows, exactly=False):
    """Is the bound the highest sequence number of the rows (or one of them)?"""
    return highest_of(bound, rows) == r or (not exactly and member_of(bound, rows) == r)


def column(x, name):
    cols = x.stmt.columns or []
    for i, c in enumerate(cols):
        if c == name or (isinstance(c, tuple) and c[0] == "col" and c[1] == name):
            return i
    return None


def rows_col(t, rows):
    """(rows, i) when the term is the i-th column of each of the rows."""
    if t[0] == "sub" and is_const(t[2]) and t[1][0] == "elem" and t[1][1] in rows:
        return t[1][1], cval(t[2])
    return None


def highest_of(t, rows):
    """The rows of which the term is the highest sequence number."""
    t = strip_int(t)
    if is_call(t, "max") and t[2]:
        src = t[2][0]
        src = strip_list(src)
        if src[0] == "comp" and not src[4] and len(src[3]) == 1:
            r = strip_list(src[3][0])
            c = rows_col(strip_int(src[2]), rows)
            if r in rows and c is not None and c[0] == r and c[1] == column(rows[r][0], SEQ):
                return r
    if t[0] == "sub" and is_const(t[2]) and t[1][0] == "sub" and is_const(t[1][2]) and cval(t[1][2]) == -1:
        r = t[1][1]
        if r in rows and cval(t[2]) == column(rows[r][0], SEQ) and ordered(rows[r][0].stmt):
            return r
    return None


def member_of(t, rows):
    """The rows of one of which the term is the sequence number."""
    t = strip_int(t)
    if t[0] == "sub" and t[1][0] == "sub" and t[1][1] in rows and is_const(t[2]):
        r = t[1][1]
        if cval(t[2]) == column(rows[r][0], SEQ):
            return r
    return None


def ordered(st):
    o = st.order
    if not o:
        return False
    first = o[0]
    text = str(first)
    return SEQ in text and "desc" not in text.lower()


def contents(ctx, it, path, u, rows, snaps=()):
    """What an upload contains: ("snapshot", data) or ("events", rows)."""
    get = arg(u, 1, "get_data")
    if get is None:
        return None
    key = ("contents", id(path), u, bool(snaps))
    try:
        outs = it.apply(get, (), path.st)
    except AnalysisBroken:
        return None
    res = None
    for o in outs:
        if o.kind == "raise":
            continue
        v = o.value
        if v is None or not is_call(v, "BytesIO") or not v[2]:
            return None
        d = v[2][0]
        if d in (snaps or ()):
            got = ("snapshot", d)
        elif is_call(d, "dumps") and d[2]:
            r = all_events(d[2][0], rows)
            if r is None:
                return None
            got = ("events", r)
        else:
            return None
        if res is not None and res != got:
            return None
        res = got
    return res


def all_events(t, rows):
    """The rows, when the term contains every one of them."""
    for x in walk(t):
        if x[0] == "comp" and len(x[3]) == 1 and not x[4]:
            r = strip_list(x[3][0])
            if r in rows:
                st = rows[r][0].stmt
                if st.kind != "select" or st.table != LOG or st.where or (st.limit is not None and not ordered(st)):
                    continue
                c = column(rows[r][0], SEQ)
                if c is not None and any(y == ("sub", ("elem", r, 0), const(c)) for y in walk(x[2])):
                    return r
    return None


def included(bound, snap, rows, snaps, waits):
    """Was the bound read from the log no later than the snapshot was taken?"""
    b = strip_int(bound)
    if is_const(b):
        return isinstance(cval(b), int) and cval(b) <= 0
    if b[0] == "or":
        return all(included(x, snap, rows, snaps, waits) for x in b[1])
    if b[0] == "phi":
        return all(included(v, snap, rows, snaps, waits) for c, v in b[1])
    if is_call(b, "max") and b[2] and b[2][0][0] != "comp" and len(b[2]) > 1:
        return all(included(x, snap, rows, snaps, waits) for x in b[2])
    r = highest_of(b, rows) or member_of(b, rows)
    if r is None:
        # rows[0][0]
        if b[0] == "sub" and b[1][0] == "sub" and b[1][1] in rows and is_const(b[1][2]) and is_const(b[2]):
            r = b[1][1]
        elif b[0] == "sub" and b[1] in rows and is_const(b[2]):
            r = b[1]
        else:
            return False
        x = rows[r][0]
        cols = x.stmt.columns or []
        i = cval(b[2])
        if not (isinstance(i, int) and i < len(cols)):
            return False
        c = cols[i]
        if x.stmt.table == "sqlite_sequence":
            if not (isinstance(c, tuple) and c[0] == "col" and c[1] == "seq"):
                return False
            if x.equals("name") != const(LOG):
                return False
        elif x.stmt.table == LOG:
            if not (isinstance(c, tuple) and (c[:2] == ("col", SEQ) or c[0] == "fn" and c[1] in ("max", "coalesce", "ifnull") and SEQ in str(c))):
                return False
        else:
            return False
    at = rows[r][1]
    taken = snaps[snap]
    return at < taken or not any(taken < w < at for w in waits)


def suffix(ctx, it, path, name):
    """The number in the name of an event object."""
    if name is None or name[0] != "fmt":
        return None
    parts = [x for x in name[1] if not (is_const(x) and cval(x) == "")]
    if len(parts) == 2 and is_const(parts[0]) and cval(parts[0]) == "event-stream-" and not is_const(parts[1]):
        t = parts[1]
        return t[1] if t[0] == "conv" else t
    return None


# --- removing from the replica -------------------------------------------------

def pruned(ctx, it, path, e, i, rows, snaps, uploads, done, waits):
    covering = None
    for u in done:
        b = contents(ctx, it, path, u, rows, snaps)
        if b is not None and b[0] == "snapshot":
            covering = b
    if covering is None:
        ctx.bad("prune", "before the snapshot", e.loc, "objects are removed from the replica although no snapshot was uploaded before", path)
        return
    ctx.ok("prune", "after the snapshot")
    pred = arg(e.a, 0, "predicate")
    name = p("entry name")
    it.term_types.setdefault(name, None)
    try:
        outs = it.apply(pred, (name,), path.st)
    except AnalysisBroken:
        outs = []
    n = 0
    for o in outs:
        if o.kind == "raise":
            continue
        facts = [(x.a, x.b) for x in flat(o.events) if x.kind == "guard"]
        n += 1
        for fs in ways(o.value, facts):
            ok = any(covered(t, pol, name, fs, covering, rows, snaps, waits) for t, pol in fs)
            ctx.check(ok, "prune", "predicate", e.loc, "an object which the snapshot need not cover is removed from the replica, under %s" % "; ".join(("" if b else "not ") + show(a)[:60] for a, b in fs), path)
    ctx.check(n > 0, "prune", "predicate", e.loc, "which objects are removed cannot be determined", path)


def ways(v, facts):
    """The conjunctions of facts under which the value is true."""
    if v is None or v == NONE or v == FALSE or (is_const(v) and not cval(v)):
        return
    if is_const(v):
        yield facts
    elif v[0] == "or":
        for x in v[1]:
            yield from ways(x, facts)
    elif v[0] == "and":
        yield facts + [(x, True) for x in v[1]]
    elif is_call(v, "bool") and v[2]:
        yield from ways(v[2][0], facts)
    elif v[0] == "exists":
        yield facts + [(v, True)]
    else:
        yield facts + [(v, True)]


def covered(t, pol, name, facts, covering, rows, snaps, waits):
    if t[0] == "not":
        return covered(t[1], not pol, name, facts, covering, rows, snaps, waits)
    if t[0] == "and" and pol:
        return any(covered(x, True, name, facts, covering, rows, snaps, waits) for x in t[1])
    if t[0] != "cmp" or t[1] not in ("<", "<=", ">", ">=", "=="):
        return False
    op, a, b = t[1], t[2], t[3]
    if not pol:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(op)
    if op in (">", ">="):
        a, b = b, a
    elif op is None:
        return False
    return number(a, name, facts) and included(b, covering[1], rows, snaps, waits)


def number(t, name, facts):
    """Is the term the number in the name, known to be that of an event object?"""
    t0 = t
    if not (is_call(t, "int") and t[2]):
        return False
    t = t[2][0]
    known = any(pol and is_call(x, "startswith") and receiver(x) == name and x[2] == (const("event-stream-"),) for x, pol in flat_facts(facts))
    if is_call(t, "group") and t[2] == (const(1),) or (t[0] == "sub" and t[2] == const(1) and t[1][0] == "call"):
        m = receiver(t) if t[0] == "call" else t[1]
        return is_match(m, name, known)
    if is_call(t, "removeprefix") and receiver(t) == name and t[2] == (const("event-stream-"),):
        return known
    if t[0] in ("sub", "slice") and known:
        if t[0] == "sub" and is_call(t[1], "split") or is_call(t[1], "rsplit") or is_call(t[1], "partition") or is_call(t[1], "rpartition"):
            return receiver(t[1]) == name
        return t[1] == name
    return False


def flat_facts(facts):
    for t, pol in facts:
        if t[0] == "and" and pol:
            yield from flat_facts([(x, True) for x in t[1]])
        elif t[0] == "not":
            yield from flat_facts([(t[1], not pol)])
        else:
            yield t, pol


def is_match(m, name, known):
    """A regular expression for the names of event objects, applied to the name."""
    if m is None or m[0] != "call" or fname(m[1]) not in ("match", "fullmatch", "search"):
        return False
    args = m[2]
    if m[1][0] == "g" or (m[1][0] == "attr" and m[1][1][0] == "g" and not is_call(m[1][1], "compile")):
        if len(args) != 2:
            return False
        pat, subj = args
    else:
        c = receiver(m)
        if not is_call(c, "compile") or not args or not c[2]:
            return False
        pat, subj = c[2][0], args[0]
    if subj != name or not is_const(pat):
        return False
    return regex_shape(cval(pat), fname(m[1]) == "search") or known and "(" in str(cval(pat))


def regex_shape(pattern, search):
    """Does it match the prefix of event objects literally, and then take digits?"""
    try:
        from re import _parser as sre
    except ImportError:
        import sre_parse as sre
    try:
        items = list(sre.parse(pattern))
    except Exception:
        return False
    lit = ""
    anchored = not search
    for op, av in items:
        name = str(op)
        if name == "AT":
            anchored = anchored or "BEGINNING" in str(av)
        elif name == "LITERAL":
            lit += chr(av)
        elif name == "SUBPATTERN":
            return anchored and lit == "event-stream-" and av[0] == 1 and digits(av[3])
        else:
            return False
    return False


def digits(sub):
    items = list(sub)
    if len(items) != 1 or str(items[0][0]) not in ("MAX_REPEAT", "MIN_REPEAT"):
        return False
    inner = list(items[0][1][2])
    if str(items[0][0]) == "MIN_REPEAT" or len(inner) != 1 or str(inner[0][0]) != "IN":
        return False
    return all(str(op) == "RANGE" and (chr(av[0]), chr(av[1])) == ("0", "9") or str(op) == "CATEGORY" and "DIGIT" in str(av) and "NOT" not in str(av) for op, av in inner[0][1])


# --- the replica in Tahoe-LAFS ----------------------------------------------------

def replica(ctx):
    f = ctx.func("replicate.get_tahoe_lafs_direntry_replica")
    client, cap = (p(a.arg) for a in f.node.args.args[:2])
    it, paths = ctx.run(f)
    for path in paths:
        v = path.value
        if path.kind != "return" or v[0] != "new":
            ctx.bad("link", "replica", f.loc(), "no replica is made", path)
            continue
        up, pr = field(v, "upload"), field(v, "prune")
        if up is None or pr is None:
            raise AnalysisBroken("anchor vanished: Replica.upload, Replica.prune")
        name, get, pred = p("entry name"), p("provider"), p("predicate")
        for o in it.apply(up, (name, get), path.st):
            ctx.paths += 1
            if o.kind != "return":
                continue
            evs = list(flat(o.events))
            cals = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and receiver(e.a) == client]
            ups = [(i, e) for i, e in cals if fname(e.a[1]) == "upload"]
            links = [(i, e) for i, e in cals if fname(e.a[1]) == "link"]
            waited = [e.a for e in evs if e.kind == "await"]
            ok = len(ups) == 1 and ups[0][1].a[2] == (get,)
            ctx.check(ok, "link", "upload", f.loc(), "the data is not uploaded, once", o)
            if not ok:
                continue
            u = ups[0][1].a
            ok = len(links) == 1 and links[0][0] > ups[0][0] and u in waited and links[0][1].a in waited
            ctx.check(ok, "link", "order", f.loc(), "the upload succeeds before the data was linked into the replica", o)
            for i, e in links:
                got = (arg(e.a, 0, "dir_cap"), arg(e.a, 1, "entry_name"), strip_await(arg(e.a, 2, "entry_cap")))
                ctx.check(got == (cap, name, u), "link", "entry", e.loc, "something else is linked than the uploaded data under its name: %s" % show(e.a)[:100], o)
        for o in it.apply(pr, (pred,), path.st):
            ctx.paths += 1
            unlinks(ctx, f, o, client, cap, pred)


def strip_await(t):
    return t[1] if t is not None and t[0] == "await" else t


def unlinks(ctx, f, o, client, cap, pred):
    seen = 0

    def go(events, facts):
        nonlocal seen
        facts = list(facts)
        for e in events:
            if e.kind == "guard":
                facts.append((e.a, e.b))
            elif e.kind == "loop":
                for c in disjuncts(e.c) if e.c else [()]:
                    for s in e.b:
                        go(s.events, facts + list(c))
            elif e.kind == "call" and fname(e.a[1]) == "unlink" and receiver(e.a) == client:
                seen += 1
                d, n = arg(e.a, 0, "dir_cap"), arg(e.a, 1, "entry_name")
                ok = any(pol and t[0] == "call" and t[1] == pred and t[2] == (n,) for t, pol in facts)
                if not ok:
                    # chosen beforehand
                    ok = n is not None and n[0] == "elem" and chosen(n[1], pred)
                ctx.check(ok, "unlink", "predicate", e.loc, "an entry is unlinked which the predicate did not select", o)
                ctx.check(d == cap, "unlink", "directory", e.loc, "entries are unlinked from another directory", o)
    go(o.events, [])
    if o.kind == "return":
        ctx.ok("unlink", "unlink")


def chosen(src, pred):
    src = strip_list(src)
    if is_call(src, "filter") and src[2] and src[2][0] == pred:
        return True
    if src[0] == "comp":
        return any(pol and t[0] == "call" and t[1] == pred and t[2] == (src[2],) for cs in disjuncts(src[4]) for t, pol in cs)
    return False


# --- nothing else -----------------------------------------------------------------

def only(ctx, seen):
    """Whoever deletes is reached from the jobs (or the replica) only."""
    roots = set(ctx.functions)
    known = roots | set(ctx.inlined)
    todo = []
    for owner, m, node, st in sql_sites(ctx.program):
        if st.table == LOG and st.kind in ("delete", "drop", "update", "replace"):
            near = [l for l in seen if l and l[0] == m.relpath]
            q = root_of(ctx, owner)
            ctx.check(part(ctx, q, known) and bool(near), "only", "%s: %s" % (short(q), st.kind), (m.relpath, node.lineno), "events are deleted outside of the replication jobs")
            todo.append(q)
    for m in ctx.program.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("prune", "unlink"):
                if node.func.attr == "unlink" and len(node.args) + len(node.keywords) != 2:
                    continue
                q = owner_of(ctx, m, node)
                if q is not None and delegates(ctx, q, node.func.attr):
                    continue
                ctx.check(part(ctx, q, known), "only", "%s: %s" % (short(q), node.func.attr), (m.relpath, node.lineno), "objects are removed from the replica outside of the replication jobs")
                todo.append(q)
    done = set(roots)
    while todo:
        q = todo.pop()
        if q in done or q is None:
            continue
        done.add(q)
        f = ctx.program.functions.get(q)
        for u in users_of(ctx.program, q.rsplit(".", 1)[-1]):
            u = root_of(ctx, u)
            g = ctx.program.functions.get(u)
            if g is None or g.qual == q:
                continue
            if f is not None and f.cls is not None and g.cls is not f.cls and f.name.startswith("_"):
                continue
            if ctx.check(part(ctx, u, known), "only", short(q) + " used", g.loc(), "%s, which deletes what was replicated, is used outside of the replication jobs" % short(q)):
                todo.append(u)


def part(ctx, q, known, seen=()):
    """Is the function known, or only a helper of functions which are?"""
    if q in known:
        return True
    if q is None or q in seen or not ctx.program.inlinable(q):
        return False
    return all(part(ctx, root_of(ctx, c), known, seen + (q,)) for c in ctx.program.callers(q))


def delegates(ctx, q, name, seen=()):
    """Does the function (or do those it is a helper of) do nothing but that operation?"""
    if q.rsplit(".", 1)[-1] == name:
        return True
    if q in seen or not ctx.program.inlinable(q):
        return False
    return all(delegates(ctx, root_of(ctx, c), name, seen + (q,)) for c in ctx.program.callers(q))


def short(q):
    return (q or "module").split(".", 1)[-1]


def root_of(ctx, owner):
    """The outermost function around something."""
    parts = owner.split(".")
    for i in range(1, len(parts) + 1):
        q = ".".join(parts[:i])
        if q in ctx.program.functions:
            return q
        if "_zkapauthorizer." + q in ctx.program.functions:
            return "_zkapauthorizer." + q
    return owner


def owner_of(ctx, m, node):
    best = None
    for q, f in ctx.program.functions.items():
        if f.module is m and f.parent is None and f.node.lineno <= node.lineno <= f.node.end_lineno:
            best = q
    return best
