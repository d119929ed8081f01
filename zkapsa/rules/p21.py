"""
P21: typestate of the wallet connection's transaction, followed along every path
of every function which uses it: opened once with the write lock, every
statement inside, committed on normal ends and rolled back on all others, never
suspended while it is open.
"""
import ast

from .store import *  # noqa: F401,F403
from .store import CURSOR, read_sql

TECHNIQUE = "typestate over enumerated paths"
ASSUMPTIONS = [
    "the sqlite3 module: a connection's context manager commits on normal exit and rolls back on any other",
    "functions handed to the store which it calls inside a transaction (token generation, recovery) do not use the connection themselves",
]
CONN = "_ReplicationCapableConnection"
CURSORS = ("_ReplicationCapableCursor",)


def check(ctx):
    ctx.rule("one-transaction", "every operation of the wallet runs all its statements inside one transaction", 14)
    ctx.rule("write-lock-first", "the transaction takes the write lock with its first statement", 14)
    ctx.rule("commit-iff-normal", "the transaction is committed on a normal end and rolled back otherwise", 14)
    ctx.rule("no-suspension", "nothing waits while a transaction is open", 14)
    ctx.rule("helpers", "a function which is given a cursor leaves the transaction to its caller", 5)
    ctx.rule("connection", "the connection commits on a normal exit, after its observers, and rolls back otherwise", 3)
    ctx.rule("single-statements", "what is done on the underlying connection without a transaction is a single statement", 3)
    n = 0
    for q, f in sorted(ctx.program.functions.items()):
        if f.parent is not None or (f.cls is not None and f.cls.name in (CONN,) + CURSORS):
            continue
        if not uses_connection(ctx, f):
            continue
        n += 1
        one(ctx, f)
    connection(ctx)


def attrs_of(f):
    return {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}


def cursor_param(f):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == "cursor" or (x.annotation is not None and "Cursor" in ast.unparse(x.annotation) and "Callable" not in ast.unparse(x.annotation)):
            return x.arg
    return None


def uses_connection(ctx, f):
    """A function with statements of its own, or a decorated one which is given a cursor."""
    if f.name in ("with_cursor", "with_cursor_async"):
        return False
    if ctx.program.reaches(f, ("execute", "executemany", "executescript", "commit", "rollback")):
        return True
    if cursor_param(f) is not None:
        return True
    return f.cls is not None and f.cls.qual.startswith("_zkapauthorizer.model.") and "cursor" in attrs_of(f)


def one(ctx, f):
    name = f.qual.split(".", 1)[1]
    helper = cursor_param(f) is not None and not any("cursor" in ast.unparse(d) for d in f.decorators)
    skip = 1 if takes_cursor(f) and f.decorators and not helper else 0
    it, paths = ctx.run(f, CURSOR + ("snapshot", "statements_to_snapshot", "connection_to_statements"), decorated=True, skip=skip)
    for path in paths:
        t = Track(helper, f)
        t.go(path.events)
        end(t, path)
        for what, e in t.waits.items():
            t.problems["no-suspension"] = None
            ctx.bad("no-suspension", "%s: %s" % (name, what), e.loc, "the function waits for %s while its transaction is open" % what, path)
        for rule in ("one-transaction", "write-lock-first", "commit-iff-normal", "no-suspension"):
            if helper and rule != "no-suspension":
                continue
            if rule not in t.problems and (t.statements or rule == "no-suspension") and not t.raw:
                ctx.ok(rule, name)
        if helper:
            if not t.problems:
                ctx.ok("helpers", name)
        if t.raw:
            ctx.check(t.changes <= 1, "single-statements", name, f.loc(), "%d changes are made on the underlying connection without a transaction" % t.changes, path)
        t.problems.pop("no-suspension", None)
        for rule, (loc, msg) in t.problems.items():
            r = "helpers" if helper and rule != "no-suspension" else rule
            if ctx.program.inlinable(f):
                continue        # judged where it is called
            ctx.bad(r, name, loc or f.loc(), msg, path)


class Track:
    def __init__(self, helper, f):
        self.helper = helper
        self.wallet = f.cls is not None and f.module.name.endswith(".model")
        self.changes = 0         # statements which change something
        self.ours = {a.arg for a in f.node.args.args if a.annotation is not None and CONN in ast.unparse(a.annotation)}
        self.open = []           # connections of open transactions
        self.began = False
        self.count = 0           # transactions
        self.statements = 0
        self.problems = {}
        self.raw = False
        self.waits = {}
        self.last = None
        self.failed = False
        self.swallowed = None

    def bad(self, rule, e, msg):
        self.problems.setdefault(rule, (e.loc, msg))

    def is_raw(self, conn):
        """The sqlite3 connection below the replicating one."""
        if conn[0] == "p":
            return conn[1] not in self.ours
        return conn[0] == "attr" and conn[2] == "_conn"

    def connection_of(self, call):
        """The connection a statement is done on, through its cursor."""
        r = receiver(call)
        while r is not None and r[0] == "call":
            n = fname(r[1])
            if n == "cursor":
                return receiver(r)
            r = receiver(r)
        return None

    def go(self, events):
        for e in events:
            if e.kind == "loop":
                for s in e.b:
                    self.go(s.events)
                continue
            if e.kind in ("await", "suspend", "yield"):
                if self.open and self.began and not self.raw:
                    what = waited(e)
                    self.waits.setdefault(what, e)
                continue
            if e.kind == "enter" and self.is_connection(e.a):
                if self.helper:
                    self.bad("helpers", e, "a transaction is begun inside of the caller's")
                if self.open:
                    self.bad("one-transaction", e, "a transaction is begun inside of another")
                self.open.append(e.a)
                self.count += 1
                self.began = self.failed = False
                self.raw = self.raw or self.is_raw(e.a)
                if self.count > 1:
                    self.bad("one-transaction", e, "the operation uses more than one transaction")
            elif e.kind == "exit" and self.is_connection(e.a):
                if self.open:
                    self.open.pop()
                self.last = "rollback" if e.b is not None and e.b != NONE else "commit"
                if self.last == "commit" and self.swallowed is not None:
                    self.bad("commit-iff-normal", self.swallowed, "a failure inside the transaction is swallowed and the transaction committed")
                self.began = False
            elif e.kind == "raised":
                self.failed = True
            elif e.kind == "catch":
                if self.failed and self.open and broad(e):
                    self.swallowed = e
            elif e.kind == "raise":
                self.swallowed = None
            elif e.kind == "call":
                self.call(e)

    def is_connection(self, t):
        if t[0] == "attr" and "conn" in t[2].lower():
            return True
        return t[0] == "p" and "conn" in t[1].lower()

    def call(self, e):
        n = fname(e.a[1])
        if n in ("execute", "executemany", "executescript") and e.a[1][0] == "attr":
            sql = arg(e.a, 0, "statement")
            text = cval(sql).strip().upper() if sql is not None and is_const(sql) and isinstance(cval(sql), str) else None
            if text is not None and text.startswith("BEGIN"):
                if self.helper:
                    self.bad("helpers", e, "a transaction is begun inside of the caller's")
                    return
                if self.began:
                    self.bad("one-transaction", e, "a transaction is begun inside of another")
                if "IMMEDIATE" not in text and "EXCLUSIVE" not in text:
                    self.bad("write-lock-first", e, "the transaction does not take the write lock when it begins")
                self.began = True
                if not self.open:
                    self.open.append(self.connection_of(e.a) or NONE)
                    self.count += 1
                return
            if text is not None and (text.startswith(("COMMIT", "ROLLBACK", "END"))):
                self.bad("helpers" if self.helper else "commit-iff-normal", e, "the transaction is ended by a statement")
                return
            if n == "executescript":
                self.bad("helpers" if self.helper else "one-transaction", e, "executescript commits the transaction before it starts")
            if text is not None and text.startswith("PRAGMA"):
                return
            self.statements += 1
            if not reads(text):
                self.changes += 1
            if self.helper or self.raw:
                return
            conn = self.connection_of(e.a)
            if not self.open:
                if conn is not None and (self.is_raw(conn) or reads(text) and not self.wallet):
                    self.raw = True
                    return
                self.bad("one-transaction", e, "a statement is done outside of a transaction")
            elif not self.began:
                if conn is not None and self.is_raw(conn):
                    self.raw = True
                    return
                self.bad("write-lock-first", e, "a statement is done before the transaction has taken the write lock")
        elif n in ("commit", "rollback") and e.a[1][0] == "attr" and not e.a[2]:
            if self.helper:
                self.bad("helpers", e, "the caller's transaction is ended")
            elif self.open:
                self.last = n
                self.open.pop()
                self.began = False


def waited(e):
    t = e.a
    if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "p":
        return "the function it is given"
    if isinstance(t, tuple) and t and t[0] == "call":
        return fname(t[1]) or show(t[1])[:60]
    return show(t)[:60] if isinstance(t, tuple) else e.kind


def reads(text):
    if text is None:
        return False
    return text.split(None, 1)[0] in ("SELECT", "VALUES", "PRAGMA") if text else False


def broad(e):
    s = str(e.b)
    return any(x in s for x in ("builtins.Exception", "BaseException", "sqlite3.", "None")) or e.b is None


def end(t, path):
    if t.helper or t.raw:
        return
    if t.open and path.kind in ("return", "raise"):
        t.problems.setdefault("commit-iff-normal", (None, "the transaction is still open at the end"))
    if not t.statements:
        return
    if path.kind == "return" and t.count and t.last != "commit":
        t.problems.setdefault("commit-iff-normal", (None, "the changes are not committed on a normal end"))
    if path.kind == "raise" and t.count and t.last == "commit" and t.failed:
        t.problems.setdefault("commit-iff-normal", (None, "the changes are committed although the operation failed"))


def connection(ctx):
    c = ctx.program.cls("replicate." + CONN)
    conn = self_field(ctx, "replicate." + CONN, name="conn")
    f = c.methods.get("__exit__")
    g = c.methods.get("__enter__")
    if f is None or g is None:
        raise AnalysisBroken("anchor vanished: %s.__exit__" % CONN)
    names = [a.arg for a in f.node.args.args][1:]
    it, paths = ctx.run(f, raise_all=True)
    for path in paths:
        normal = None
        ended = None
        pending = []
        failed = early = None
        for e in flat(path.events):
            if e.kind == "guard" and e.a == ("cmp", "is", p(names[0]), NONE):
                normal = e.b
            if e.kind == "guard" and e.a == p(names[0]):
                normal = not e.b
            if e.kind == "call":
                n, r = fname(e.a[1]), receiver(e.a)
                if r == conn and n in ("__exit__", "commit", "rollback"):
                    how = n
                    if n == "__exit__":
                        how = "commit" if all(x == NONE for x in e.a[2]) else "rollback" if normal is False else "commit" if normal else "either"
                        if e.a[2] != tuple(p(x) for x in names) and how == "either":
                            how = "?"
                    ended, last = how, e
                    where = e
                elif ended == "commit" and observer(e):
                    ctx.bad("connection", "observers", e.loc, "the observers are told about a change after it was committed, so what they record is not part of it", path)
            if e.kind == "raised":
                failed = e
                if ended is None:
                    early = e
                if ended is not None and last is not None and e.a == last.a:
                    # ending the transaction failed itself
                    ended = "failed " + ended if ended != "rollback" else ended
        if path.kind == "return":
            if normal is True:
                ctx.check(ended == "commit" and early is None, "connection", "normal exit", f.loc(), "a normal exit does not commit, or commits what failed: %s" % ended, path)
            elif normal is False:
                ctx.check(ended == "rollback", "connection", "failure", f.loc(), "an exit by an exception does not roll back: %s" % ended, path)
            else:
                ctx.check(ended == "either", "connection", "exit", f.loc(), "how the transaction ends does not depend on how its body ended", path)
            v = path.value
            ok = v in (NONE, FALSE) or (v[0] == "call" and fname(v[1]) == "__exit__" and receiver(v) == conn)
            ctx.check(ok, "connection", "exceptions", f.loc(), "the exception of the body may be swallowed: returns %s" % show(v)[:100], path)
        elif path.kind == "raise" and failed is not None:
            after = ended
            if failed.a[0] == "call" and receiver(failed.a) == conn and fname(failed.a[1]) == "rollback":
                continue
            if normal is False and receiver(failed.a) == conn:
                # rolling back failed
                if ended in ("failed rollback", "rollback", "failed either", "failed commit"):
                    continue
            late = any(e.kind == "call" and receiver(e.a) == conn and fname(e.a[1]) in ("__exit__", "commit") and not any(x.kind == "raised" and x.a == e.a for x in path.events) for e in flat(path.events))
            if late:
                # committed; what failed came after
                continue
            ctx.check(after == "rollback", "connection", "failing commit or observer", failed.loc, "the transaction stays open when ending it fails", path)
    it, paths = ctx.run(g)
    for path in paths:
        if path.kind == "return":
            ctx.check(path.value == ("self", c.qual), "connection", "__enter__", g.loc(), "entering the connection gives %s" % show(path.value)[:100], path)


def observer(e):
    return e.a[1][0] == "elem" and len(e.a[2]) == 2
