"""
P23: what the replication log records.  Followed from the statement a cursor is
given, through the list of recorded changes of its connection, to the rows the
observer writes and the upload they cause.
"""
import ast

from .store import *  # noqa: F401,F403
from .store import CURSOR, VS, read_sql, sql_sites
from ..loader import AnalysisBroken
from . import p21

TECHNIQUE = "value flow along enumerated paths, abstract evaluation of the statement classifier"
ASSUMPTIONS = [
    "sqlparse reports the first DML or DDL keyword of a statement as its type",
    "the sqlite3 module raises when a statement fails",
]
CONN = "replicate._ReplicationCapableConnection"
CUR = "replicate._ReplicationCapableCursor"
SVC = "replicate._ReplicationService"
LOG = "event-stream"


def check(ctx):
    ctx.rule("recorded", "a cursor records each successful changing statement with all its arguments, once, while replicating", 2)
    ctx.rule("rows", "the rows of a statement can be gone through again when the change is recorded", 3)
    ctx.rule("classified", "every statement which changes the database is taken for a change, and none which does not", 25)
    ctx.rule("raw", "what bypasses the recording changes nothing but the log", 2)
    ctx.rule("delivered", "all observers are given the recorded changes inside the transaction, and their work after it", 3)
    ctx.rule("forgotten", "changes of a transaction which was rolled back are forgotten", 1)
    ctx.rule("logged", "the log gets one event per statement and arguments, in order, on the cursor of the transaction", 1)
    ctx.rule("important", "adding vouchers and the tokens to redeem for them is marked as important", 3)
    ctx.rule("upload", "an important change is uploaded promptly", 3)
    ctx.rule("started", "the observer is registered before anything is recorded", 2)
    names = Names(ctx)
    cursor(ctx, names)
    classified(ctx, names)
    raw(ctx, names)
    rows(ctx, names)
    exits(ctx, names)
    observed(ctx, names)
    important(ctx)
    upload(ctx)
    started(ctx, names)
    opened(ctx)


class Names:
    """The fields of the connection and cursor, by what they are used for."""

    def __init__(self, ctx):
        self.conn = conn = ctx.program.cls(CONN)
        self.cur = cur = ctx.program.cls(CUR)
        self.me = ("self", conn.qual)
        self.flag = one_set(ctx, CONN + ".enable_replication")
        self.observers = one_set(ctx, CONN + ".add_mutation_observer")
        cf = {ast.unparse(f.annotation).split(".")[-1].strip("'\""): f.name for f in ctx.program.all_fields(cur) if f.annotation is not None}
        link = cf.get(conn.name)
        if link is None:
            raise AnalysisBroken("anchor vanished: the connection of %s" % CUR)
        self.curself = ("self", cur.qual)
        self.link = I(("attr", self.curself, link))
        self.mutations = None
        it, paths = ctx.run(CUR + ".execute")
        for path in paths:
            for e in flat(path.events):
                if e.kind == "call" and fname(e.a[1]) in ("append", "extend") and mentions_it(receiver(e.a), self.link):
                    self.mutations = receiver(e.a)[2]
        if self.mutations is None:
            self.mutations = "_mutations"

    def field(self, name):
        return I(("attr", self.me, name))


def mentions_it(t, sub):
    return t is not None and t[0] == "attr" and t[1] == sub


def one_set(ctx, q):
    it, paths = ctx.run(q)
    for path in paths:
        for e in flat(path.events):
            if e.kind == "setattr":
                return e.b
            if e.kind == "call" and fname(e.a[1]) in ("append", "add") and receiver(e.a)[0] == "attr":
                return receiver(e.a)[2]
    raise AnalysisBroken("anchor vanished: what %s changes" % q)


# --- recording ------------------------------------------------------------------

def cursor(ctx, names):
    rec = I(("attr", names.link, names.mutations))
    flag = I(("attr", names.link, names.flag))
    n = 0
    for m in names.cur.methods.values():
        if ctx.program.inlinable(m) or not ctx.program.reaches(m, ("execute", "executemany", "executescript")):
            continue
        n += 1
        params = [a.arg for a in m.node.args.args][1:]
        it, paths = ctx.run(m, ("sql.statement_mutates",))
        for path in paths:
            ran = None
            added = []
            on = mutates = None
            for e in flat(path.events):
                if e.kind == "guard":
                    if e.a == flag:
                        on = e.b
                    elif is_call(e.a, "statement_mutates"):
                        ctx.check(e.a[2] == (p(params[0]),), "recorded", m.name, e.loc, "another statement than the executed one is examined", path)
                        mutates = e.b
                if e.kind == "call":
                    k = fname(e.a[1])
                    if k in ("execute", "executemany", "executescript") and receiver(e.a) is not None and receiver(e.a)[0] == "attr" and receiver(e.a)[1] == names.curself:
                        ctx.check(k == m.name and tuple(strip_list(x) for x in e.a[2]) == tuple(p(x) for x in params), "recorded", m.name, e.loc, "something else than what was given is executed", path)
                        ran = e
                    elif k == "append" and receiver(e.a) == rec:
                        ctx.check(ran is not None, "recorded", m.name, e.loc, "the statement is recorded before it is known to have succeeded", path)
                        added.append(e)
                    elif k in ("extend", "insert", "clear", "pop", "remove") and receiver(e.a) == rec:
                        ctx.bad("recorded", m.name, e.loc, "the recorded changes are altered: %s" % show(e.a)[:80], path)
                if e.kind == "setattr" and e.b == names.mutations:
                    ctx.bad("recorded", m.name, e.loc, "the recorded changes are replaced", path)
                if e.kind == "catch" and path.kind == "return":
                    ctx.bad("recorded", m.name, e.loc, "the failure of a statement is swallowed", path)
            if path.kind != "return":
                ctx.check(not added, "recorded", m.name, m.loc(), "a statement which failed is recorded", path)
                continue
            ctx.check(ran is not None, "recorded", m.name, m.loc(), "the statement is not executed", path)
            want = on is True and mutates is True
            unsure = on is None or (on and mutates is None)
            if unsure:
                ctx.bad("recorded", m.name, m.loc(), "what is recorded does not depend on the replication mode and the kind of the statement", path)
                continue
            ctx.check(len(added) == (1 if want else 0), "recorded", m.name, m.loc(), "the statement is recorded %d times" % len(added) + ("" if want else " although it is no change to be recorded"), path)
            for e in added:
                ok, msg = right_record(m, e.a[2][0], params, names)
                ctx.check(ok, "recorded", m.name, e.loc, msg, path)
    for m in names.cur.methods:
        ctx.check(m not in ("__getattr__", "__getattribute__"), "recorded", "cursor methods", names.cur.methods[m].loc(), "other methods of the underlying cursor are reachable without recording")
    for m in names.conn.methods:
        ctx.check(m not in ("__getattr__", "__getattribute__"), "recorded", "connection methods", names.conn.methods[m].loc(), "methods of the underlying connection are reachable without recording")
        f = names.conn.methods[m]
        if m in ("execute", "executemany", "executescript"):
            ctx.bad("recorded", "connection." + m, f.loc(), "statements can be executed on the connection without recording")


def right_record(m, t, params, names):
    if t[0] != "tuple" or len(t[1]) != 3:
        return False, "what is recorded is not (important, statement, rows): %s" % show(t)[:80]
    imp, st, rows = t[1]
    if imp[0] != "attr" or imp[1] != names.curself:
        return False, "whether the statement is important is not recorded"
    if st != p(params[0]):
        return False, "another statement than the executed one is recorded"
    row = p(params[1])
    if m.name == "execute":
        ok = rows in (I(("tuple", (row,))), I(("list", (row,))))
    else:
        ok = rows == row or strip_list(rows) == row
    return ok, "other arguments than the executed ones are recorded: %s" % show(rows)[:80]


WANT = {"insert": True, "update": True, "delete": True, "create": True, "alter": True, "drop": True, "select": False, "begin": False}
EXTRA = [
    ("INSERT INTO [x] VALUES (?)", True, "INSERT"), ("insert into [x] values (?)", True, "INSERT"), ("\n   -- c\n   UPDATE [x] SET [a] = 1", True, "UPDATE"),
    ("REPLACE INTO [x] VALUES (1)", True, "REPLACE"), ("DELETE FROM [x]", True, "DELETE"), ("CREATE TABLE [x] ([a] text)", True, "CREATE"),
    ("ALTER TABLE [x] ADD COLUMN [b] text", True, "ALTER"), ("DROP TABLE [x]", True, "DROP"), ("SELECT 1", False, "SELECT"), ("\n  select [a] FROM [x]", False, "SELECT"),
]


def classified(ctx, names):
    f = ctx.func("sql.statement_mutates")
    cases = {}
    for text, want, typ in EXTRA:
        cases[text] = (want, typ, "like %s" % " ".join(text.split())[:30])
    executed = {id(x.args[0]) for m in ctx.program.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("execute") and x.args}
    for owner, m, node, st in sql_sites(ctx.program):
        if st.kind == "begin" and id(node) not in executed:
            continue
        if st.kind in WANT:
            typ = {"begin": "UNKNOWN"}.get(st.kind, st.kind.upper())
            cases.setdefault(st.text, (WANT[st.kind], typ, "%s: %s %s" % (owner.split(".", 1)[-1], st.kind, st.table or "")))
    # BEGIN is only executed as the wallet spells it
    for text, (want, typ, what) in sorted(cases.items()):
        it, paths = ctx.run(f, args={f.node.args.args[0].arg: const(text)})
        got = set()
        for path in paths:
            if path.kind != "return":
                got.add("raises")
                continue
            if any(decide(e.a, typ) is (not e.b) for e in flat(path.events) if e.kind == "guard"):
                continue
            got.add(decide(path.value, typ))
        if got == {"raises"} or None in got or not got:
            ctx.bad("classified", what, f.loc(), "whether the statement is a change is not decided by what it does: %s" % " ".join(text.split())[:60])
            continue
        ctx.check(got == {want}, "classified", what, f.loc(), "%s is %staken for a change: %s" % ("a statement", "not " if want else "", " ".join(text.split())[:60]))


def decide(t, typ):
    """The truth of a term, given the type sqlparse reports."""
    v = value(t, typ)
    return None if v is None else bool(v[0])


def value(t, typ):
    if is_const(t):
        return (cval(t),)
    if t[0] == "call" and fname(t[1]) == "get_type":
        return (typ,)
    if t[0] == "not":
        v = value(t[1], typ)
        return None if v is None else (not v[0],)
    if t[0] in ("and", "or"):
        vs = [value(x, typ) for x in t[1]]
        if t[0] == "or":
            return (True,) if any(v and v[0] for v in vs) else None if None in vs else (False,)
        return (False,) if any(v is not None and not v[0] for v in vs) else None if None in vs else (True,)
    if t[0] == "cmp" and t[1] in ("==", "is"):
        a, b = value(t[2], typ), value(t[3], typ)
        return None if a is None or b is None else (a == b,)
    if t[0] == "cmp" and t[1] == "in":
        a = value(t[2], typ)
        c = t[3]
        if c[0] == "call" and c[2]:
            c = c[2][0]
        if a is None or c[0] not in ("set", "list", "tuple", "dict"):
            return None
        xs = [value(x[0] if c[0] == "dict" else x, typ) for x in c[1]]
        return None if None in xs else (a in xs,)
    if t[0] == "call" and fname(t[1]) in ("upper", "strip", "lower"):
        v = value(t[1][1], typ)
        return None if v is None else (getattr(v[0], fname(t[1]))(),)
    return None


def raw(ctx, names):
    """Statements on the connection below."""
    for q, f in sorted(ctx.program.functions.items()):
        if f.parent is not None or f.cls in (names.conn, names.cur) or not ctx.program.reaches(f, ("execute", "executemany", "executescript")):
            continue
        helper = p21.cursor_param(f)
        it, paths = ctx.run(f, CURSOR + ("snapshot", "statements_to_snapshot", "connection_to_statements"), decorated=True, skip=1 if takes_cursor(f) and f.decorators else 0)
        for path in paths:
            t = p21.Track(False, f)
            unknown = []
            for x in statements(path, unknown):
                c = t.connection_of(x.ev.a)
                low = c is not None and t.is_raw(c)
                if helper is not None and contains(x.ev.a, p(helper)):
                    ann = next((ast.unparse(a.annotation) for a in f.node.args.args if a.arg == helper and a.annotation is not None), "")
                    low = "SQLite3" in ann
                if not low or not x.stmt.mutates:
                    continue
                ctx.check(x.stmt.table == LOG, "raw", f.qual.split(".", 1)[1], x.loc, "[%s] is changed without the change being recorded" % x.stmt.table, path)
    # the field with the connection below is used by the replication code only
    low = [f.name for f in ctx.program.all_fields(names.conn) if f.annotation is not None and "SQLite3" in ast.unparse(f.annotation)]
    for m in ctx.program.modules.values():
        if m is names.conn.module:
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Attribute) and node.attr in low and isinstance(node.value, ast.Attribute):
                ctx.bad("raw", m.name, (m.relpath, node.lineno), "the connection below the recording one is used outside of the replication code")


def rows(ctx, names):
    """
    executemany goes through the rows to execute the statement, the observers
    go through them again.
    """
    m = names.cur.methods.get("executemany")
    if m is not None and keeps_rows(m.node):
        ctx.ok("rows", "the cursor keeps the rows")
        ctx.minimum["rows"] = 1
        return
    for q, f in sorted(ctx.program.functions.items()):
        if f.parent is not None or f.cls in (names.conn, names.cur) or "executemany" not in p21.attrs_of(f):
            continue
        it, paths = ctx.run(f, CURSOR, decorated=True, skip=1 if takes_cursor(f) and f.decorators else 0)
        for path in paths:
            for e in flat(path.events):
                if e.kind == "call" and e.a[1][0] == "attr" and e.a[1][2] == "executemany":
                    r = arg(e.a, 1, "rows")
                    ctx.check(r is None or not used_up(r), "rows", q.split(".", 1)[1], e.loc, "the rows are an iterator which is used up by the time the change is recorded: %s" % show(r)[:80], path)


def keeps_rows(node):
    """Is the parameter with the rows replaced by a list before anything else?"""
    name = node.args.args[2].arg if len(node.args.args) > 2 else None
    for x in node.body:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("list", "tuple") and len(x.value.args) == 1 and isinstance(x.value.args[0], ast.Name) and x.value.args[0].id == name:
            new = x.targets[0].id
            uses = [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == name]
            return new == name or len(uses) == 1
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(x)):
            return False
    return False


ITERATORS = {"map", "filter", "zip", "iter", "enumerate", "reversed", "chain", "from_iterable", "islice", "repeat", "starmap"}


def used_up(t):
    if t[0] == "comp":
        return t[1] == "gen"
    return t[0] == "call" and t[1][0] == "g" and fname(t[1]) in ITERATORS


# --- the end of the transaction -----------------------------------------------------

def exits(ctx, names):
    f = names.conn.methods.get("__exit__")
    if f is None:
        raise AnalysisBroken("anchor vanished: %s.__exit__" % CONN)
    exc = [a.arg for a in f.node.args.args][1]
    conn = self_field(ctx, CONN, name="conn")
    muts, obs = names.field(names.mutations), names.field(names.observers)
    it, paths = ctx.run(f)
    for path in paths:
        normal = nonempty = None
        told = committed = reset = after = None
        order = []
        failed = None
        for e in path.events:
            if e.kind == "guard":
                if e.a == ("cmp", "is", p(exc), NONE):
                    normal = e.b
                elif e.a == p(exc):
                    normal = not e.b
                elif e.a == muts:
                    nonempty = e.b
            elif e.kind == "setattr" and e.a == names.me and e.b == names.mutations:
                reset = e
                ctx.check(e.c in (I(("list", ())), I(("tuple", ()))), "delivered", "reset", e.loc, "the recorded changes are replaced by %s" % show(e.c)[:60], path)
            elif e.kind == "call" and fname(e.a[1]) == "clear" and receiver(e.a) == muts:
                reset = e
            elif e.kind == "loop":
                kind = observer_loop(e, obs, muts)
                if kind == "told":
                    told = e
                    ctx.check(committed is None, "delivered", "inside", e.loc, "the observers record the changes after the transaction was committed", path)
                    ctx.check(not e.c and whole(e, obs), "delivered", "all observers", e.loc, "not every observer is told about the changes", path)
                    ctx.check(curs(e, conn), "delivered", "cursor", e.loc, "the observers are not given a cursor of the same connection", path)
                elif kind == "after":
                    after = e
                    ctx.check(committed is not None, "delivered", "afterwards", e.loc, "what follows the commit is done before it", path)
                    ctx.check(not e.c and whole(e, obs, True), "delivered", "afterwards", e.loc, "not everything an observer wants done after the commit is done", path)
            elif e.kind == "call" and receiver(e.a) == conn and fname(e.a[1]) in ("__exit__", "commit"):
                committed = e
            elif e.kind == "raised":
                failed = e
        if normal and path.kind == "return":
            if nonempty is not False:
                ctx.check(told is not None, "delivered", "changes", f.loc(), "recorded changes are not given to the observers", path)
                ctx.check(reset is not None, "delivered", "once", f.loc(), "the recorded changes are given to the observers again after the next transaction", path)
                ctx.check(after is not None, "delivered", "afterwards", f.loc(), "what the observers want done after the commit is not done", path)
        elif normal is False:
            ctx.check(told is None and after is None, "forgotten", "observers", f.loc(), "the observers are told about changes which are rolled back", path)
            ctx.check(reset is not None, "forgotten", "failure", f.loc(), "changes which were rolled back stay recorded", path)
        elif normal and path.kind == "raise":
            early = failed is not None and failed.a[0] == "call" and (fname(failed.a[1]) == "cursor" or begin(failed.a))
            ctx.check(reset is not None or early or nonempty is False, "forgotten", "failing commit", f.loc(), "changes whose commit failed stay recorded", path)
            late = failed is not None and observer_call(failed.a, obs)
            ctx.check(after is None or committed is not None, "forgotten", "failing commit", f.loc(), "what should follow the commit is done although it failed", path)


def begin(t):
    s = arg(t, 0, "statement")
    return fname(t[1]) == "execute" and s is not None and is_const(s) and str(cval(s)).strip().upper().startswith("BEGIN")


def observer_loop(e, obs, muts):
    for s in e.b:
        for x in flat(s.events):
            if x.kind == "call" and observer_call(x.a, obs):
                return "told" if len(x.a[2]) == 2 and strip_list(x.a[2][1]) == muts else None
            if x.kind == "call" and not x.a[2] and x.a[1][0] in ("call", "elem") and mentions_observer(x.a[1], obs):
                return "after"
    return None


def mentions_observer(t, obs):
    return any(x[0] == "call" and observer_call(x, obs) for x in walk(t))


def observer_call(t, obs):
    return t[0] == "call" and t[1] == ("elem", obs, 0)


def whole(e, obs, after=False):
    """Does the loop call for every observer, whatever happens?"""
    gens = [strip_list(g) for g in e.a]
    if after and len(gens) == 1 and mentions_observer(gens[0], obs):
        g = gens[0]
        if not (g[0] == "comp" and tuple(g[3]) == (obs,) and not g[4]):
            return False
    elif gens != [obs]:
        return False
    for s in e.b:
        calls = [x for x in flat(s.events) if x.kind == "call" and (observer_call(x.a, obs) if not after else not x.a[2] and mentions_observer(x.a[1], obs))]
        if not calls or s.kind != "next":
            return False
    return True


def curs(e, conn):
    for s in e.b:
        for x in flat(s.events):
            if x.kind == "call" and len(x.a[2]) == 2:
                c = x.a[2][0]
                return is_call(c, "cursor") and receiver(c) == conn
    return False


# --- the log --------------------------------------------------------------------

def observed(ctx, names):
    f = ctx.func(SVC + ".observed_event")
    cur, changes = [a.arg for a in f.node.args.args][1:3]
    every = p(changes)
    one = I(("elem", every, 0))

    def part(i):
        return I(("sub", one, const(i)))
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        ins = [x for x in statements(path) if x.stmt.table == LOG]
        name = "observed_event"
        ctx.check(len(ins) == 1 and ins[0].stmt.kind == "insert", "logged", name, f.loc(), "the changes are not written to the log once", path)
        for x in ins:
            ctx.check(receiver(x.ev.a) == p(cur), "logged", name, x.loc, "the events are written on another cursor than that of the transaction", path)
            gens = tuple(strip_list(g) for g in x.gens)
            ctx.check(gens == (every, part(2)), "logged", name, x.loc, "there is not one event for each change and each of its arguments, in order: %s" % ", ".join(show(g) for g in gens)[:120], path)
            conds = [c for c in all_atoms(x.conds) if not mentions_isinstance(c[0])]
            ctx.check(not conds, "logged", name, x.loc, "some changes are not written to the log", path)
            cols = x.stmt.columns or []
            for col, want in (("statement", lambda v: v == part(1)), ("serialized_arguments", lambda v: dumped(v, I(("elem", part(2), 0)))), ("important", lambda v: any_important(v, every, part(0)))):
                v = x.value(x.stmt.values[cols.index(col)]) if col in cols and x.stmt.values else None
                ctx.check(v is not None and want(v), "logged", "%s: [%s]" % (name, col), x.loc, "[%s] of an event is %s" % (col, show(v)[:80] if v is not None else "not given"), path)
        # prompt upload
        v = path.value
        q = is_bound(v)
        conds = [(e.a, e.b) for e in path.events if e.kind == "guard"]
        imp = None
        for t, pol in conds:
            if any_important(t, every, part(0)):
                imp = pol
            elif t[0] == "or" and any(any_important(y, every, part(0)) for y in t[1]):
                imp = pol if not pol else imp
        has_upload = q is not None and starts_upload(ctx, q)
        if imp is None:
            # decided by what was pending already
            ctx.check(has_upload, "upload", "important change", f.loc(), "an important change does not cause an upload after its transaction", path)
        elif imp:
            ctx.check(has_upload, "upload", "important change", f.loc(), "an important change does not cause an upload after its transaction", path)
        acc = [e for e in flat(path.events) if e.kind == "setattr" and e.a == ("self", f.cls.qual)]
        for e in acc:
            if e.c[0] == "new":
                # what is pending is remembered
                w = field(e.c, "important")
                ctx.check(w is not None and remembers(w, every, part(0), e), "upload", "pending", e.loc, "what was important among the pending changes is forgotten: %s" % (show(w)[:80] if w is not None else ""), path)


def remembers(w, every, imp, e):
    parts = w[1] if w[0] == "or" else (w,)
    old = any(x[0] == "attr" and x[2] == "important" and x[1] == ("attr", e.a, e.b) for x in parts)
    new = any(any_important(x, every, imp) for x in parts)
    return old and new


def all_atoms(conds):
    for c in conds:
        if c and c[0] == "dnf":
            for y in c[1]:
                yield from y
        else:
            yield c


def mentions_isinstance(t):
    return any(x == ("g", "builtins.isinstance") for x in walk(t))


def dumped(v, want):
    return is_call(v, "dumps") and v[2] and strip_list(v[2][0]) == want


def any_important(t, every, imp):
    """Is it true when any of the changes is important?"""
    t = t[2][0] if is_call(t, "bool") and t[2] else t
    if t == imp:
        # each event with the importance of its own statement
        return True
    if t[0] == "exists":
        return tuple(t[1]) == (every,) and tuple(t[2]) == ((imp, True),)
    if is_call(t, "any") and t[2]:
        g = t[2][0]
        return g[0] == "comp" and tuple(g[3]) == (every,) and (g[2] == imp and not g[4])
    return False


def is_bound(v):
    return v[2] if v[0] == "bm" else v if v[0] in ("fn", "lambda", "func", "closure") else None


def starts_upload(ctx, q):
    """Does the function queue an upload of the events, whatever happens?"""
    if not isinstance(q, str):
        return True
    f = ctx.program.functions.get(q)
    if f is None:
        return False
    it, paths = ctx.run(f, (SVC + ".queue_job",))
    for path in paths:
        jobs = [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "queue_job"]
        if path.kind != "return" or not any(job_is(j.a, "event_stream", ctx) for j in jobs):
            return False
    return True


def job_is(t, name, ctx):
    v = arg(t, 0, "job")
    if v is None:
        return False
    if v[0] == "attr" and v[2] == name:
        return True
    if is_const(v):
        try:
            c = ctx.program.cls("replicate.ReplicationJob")
        except Exception:
            return False
        names = [n.targets[0].id for n in c.node.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)]
        vals = {}
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                vals[n.targets[0].id] = n.value.value
        return vals.get(name) == cval(v) or (name in names and not vals)
    return v[0] == "g" and v[1].endswith("." + name)


PROMPT = ("vouchers", "tokens")


def important(ctx):
    store = Store(ctx)
    for q in sorted(store.cls.methods):
        f = store.cls.methods[q]
        if not takes_cursor(f) or not f.decorators:
            continue
        it, paths = store.run(f)
        for path in paths:
            if path.kind != "return":
                continue
            marked = marks(path)
            for x in statements(path):
                if x.stmt.kind == "insert" and x.stmt.table in PROMPT:
                    ctx.check(id(x.ev) in marked, "important", "%s: [%s]" % (f.name, x.stmt.table), x.loc, "rows added to [%s] wait for other changes before they are uploaded" % x.stmt.table, path)
    cls = ctx.program.cls("replicate._Important")
    flagname = None
    it, paths = ctx.run(CUR + ".important")
    for path in paths:
        ok = path.kind == "return" and path.value[0] == "new" and any(v == ("self", ctx.program.cls(CUR).qual) for k, v in path.value[2])
        ctx.check(ok, "important", "cursor.important", ctx.func(CUR + ".important").loc(), "important() does not mark this cursor", path)
    for m, want in (("__enter__", TRUE), ("__exit__", FALSE)):
        f = cls.methods.get(m)
        if f is None:
            raise AnalysisBroken("anchor vanished: _Important." + m)
        it, paths = ctx.run(f)
        for path in paths:
            sets = [e for e in flat(path.events) if e.kind == "setattr"]
            ctx.check(len(sets) == 1 and sets[0].c == want, "important", m, f.loc(), "the mark is not %s" % ("set" if want == TRUE else "removed"), path)
            if m == "__exit__":
                ctx.check(path.kind == "return" and path.value in (NONE, FALSE), "important", m, f.loc(), "exceptions are swallowed", path)


def marks(path):
    """The events within ``with cursor.important():``"""
    out = set()

    def go(events, depth):
        for e in events:
            if e.kind == "enter" and is_call(e.a, "important"):
                depth += 1
            elif e.kind == "exit" and is_call(e.a, "important"):
                depth -= 1
            elif e.kind == "loop":
                for s in e.b:
                    go(s.events, depth)
            elif e.kind == "call" and depth > 0:
                out.add(id(e))
    go(path.events, 0)
    return out


def upload(ctx):
    """Important pending changes are enough for an upload, by themselves."""
    f = ctx.func(SVC + ".should_upload_eventstream")
    it, paths = ctx.run(f)
    ch = I(("attr", p([a.arg for a in f.node.args.args][1]), "important"))
    for path in paths:
        if path.kind != "return":
            continue
        pol = next((e.b for e in flat(path.events) if e.kind == "guard" and e.a == ch), None)
        v = path.value
        ok = v == ch or v == TRUE or (v[0] == "or" and any(x == ch or x == TRUE for x in v[1])) or pol is False
        ctx.check(ok, "upload", "should_upload_eventstream", f.loc(), "important changes alone do not warrant an upload: %s" % show(v)[:80], path)
    g = ctx.func("replicate.AccumulatedChanges.__add__")
    it, paths = ctx.run(g)
    me, other = ("self", g.cls.qual), p([a.arg for a in g.node.args.args][1])
    for path in paths:
        w = field(path.value, "important") if path.kind == "return" else None
        parts = set(w[1]) if w is not None and w[0] == "or" else {w}
        pols = {e.a: e.b for e in flat(path.events) if e.kind == "guard"}
        ok = parts == {attr(me, "important"), attr(other, "important")} or (w is not None and w == TRUE) or any(pols.get(a) is False and parts == {b} for a, b in ((attr(me, "important"), attr(other, "important")), (attr(other, "important"), attr(me, "important"))))
        ctx.check(ok, "upload", "adding changes", g.loc(), "the sum of changes is not important when one of them is", path)


# --- starting -------------------------------------------------------------------

def started(ctx, names):
    f = ctx.func(SVC + ".startService")
    it, paths = ctx.run(f, (CONN + ".*", SVC + "._replicate", SVC + ".queue_job", "replicate.AccumulatedChanges.*", "replicate.get_events"))
    for path in paths:
        if path.kind not in ("return", "loop"):
            continue
        added = enabled = None
        for i, e in enumerate(flat(path.events)):
            if e.kind == "call" and fname(e.a[1]) == "add_mutation_observer":
                v = e.a[2][0] if e.a[2] else NONE
                ctx.check(v[0] == "bm" and v[2].endswith(".observed_event"), "started", "observer", e.loc, "another observer is registered: %s" % show(v)[:60], path)
                added = i
            if e.kind == "call" and fname(e.a[1]) == "enable_replication":
                enabled = i
        ctx.check(added is not None, "started", "startService observer", f.loc(), "the service does not observe changes", path)
        ctx.check(enabled is not None, "started", "startService enable", f.loc(), "replication is not switched on when the service starts", path)
        if added is not None and enabled is not None:
            ctx.check(added < enabled, "started", "startService order", f.loc(), "changes are recorded before there is an observer to take them", path)


def opened(ctx):
    """Connections which record from the start must have an observer from the start."""
    for q, f in sorted(ctx.program.functions.items()):
        if f.parent is not None or f.name == "with_replication":
            continue
        if ctx.program.inlinable(f) and f.cls is None or not ctx.program.reaches(f, ("with_replication", "_ReplicationCapableConnection")):
            continue
        if f.cls is not None and f.cls.name in ("_ReplicationCapableConnection", "_ReplicationCapableCursor"):
            continue
        it, paths = ctx.run(f, ("replicate.with_replication", "replicate.is_replication_setup", "plugin.open_store", "_plugin.open_store", "_plugin.ZKAPAuthorizer._add_replication_service"))
        for path in paths:
            made = None
            for e in flat(path.events):
                if e.kind == "call" and fname(e.a[1]) == "with_replication":
                    on = arg(e.a, 1, "enable_replication")
                    made = e if on != FALSE else None
                elif made is not None and e.kind == "call" and fname(e.a[1]) in ("add_mutation_observer", "_add_replication_service", "replication_service"):
                    made = None
                elif made is not None and e.kind == "call" and made.a in e.a[2]:
                    ctx.bad("started", "%s before the observer" % fname(e.a[1]), e.loc, "what %s changes is recorded while nothing observes the connection, and dropped" % fname(e.a[1]), path)
                    made = None
            ctx.ok("started", f.qual.split(".", 1)[1])
