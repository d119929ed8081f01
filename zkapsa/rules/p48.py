"""
P48: what wraps the database connection behaves like what it wraps.  Every
method and property of the two wrapping classes whose name is one of
sqlite3's is run by the interpreter with the wrapped object opaque; each path
which returns gives exactly what the wrapped object's attribute of that name
gives for the same arguments, asked exactly once.  Executing statements,
making cursors and entering transactions have a rule of their own, and so has
the snapshot: its term is followed from the store to the wrapped connection's
dump, of which nothing may be left out.
"""
import ast
import sqlite3

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import arg, fname, loc, receiver
from ..terms import NONE, contains, norm, show, walk

TECHNIQUE = "path enumeration of the wrapping classes' methods; terms of their results against the wrapped object's"
ASSUMPTIONS = ["sqlite3's own cursors, connections and iterdump do what sqlite3 documents"]
CONN = "replicate._ReplicationCapableConnection"
CUR = "replicate._ReplicationCapableCursor"
OBJECT = set(dir(object))
CONVERT = tuple(("g", "builtins." + x) for x in ("list", "tuple", "iter"))
RUN = ("execute", "executemany")


def check(ctx):
    ctx.rule("delegates", "reading a result, and the other operations of sqlite3, give what the wrapped object gives", minimum=7)
    ctx.rule("executes", "a statement is executed once with its arguments, whether replicating or not", minimum=2)
    ctx.rule("cursor", "a cursor wraps a cursor of the wrapped connection and belongs to the connection it was made by", minimum=2)
    ctx.rule("transaction", "entering the connection begins a transaction of the wrapped connection", minimum=1)
    ctx.rule("wraps", "the wrapper is made with the given connection and in the given mode", minimum=2)
    ctx.rule("snapshot", "a snapshot is every statement of the database's dump, in order", minimum=2)
    for cls, like in ((CUR, sqlite3.Cursor), (CONN, sqlite3.Connection)):
        names = {x for x in dir(like) if x not in OBJECT}
        c = ctx.program.cls(cls)
        inner = wrapped(ctx, cls)
        for n, f in sorted(methods(ctx, c).items()):
            if n not in names or n in ("__exit__", "commit", "rollback"):
                continue
            if n in RUN and cls == CUR:
                executes(ctx, f, inner)
            elif n == "cursor":
                cursors(ctx, f, inner)
            elif n == "__enter__":
                enters(ctx, f, inner)
            else:
                delegates(ctx, f, n, inner, (sqlite3.Cursor, sqlite3.Connection)[cls == CONN])
    wraps(ctx)
    snapshot(ctx)


def methods(ctx, c):
    return {q.rsplit(".", 1)[1]: f for q, f in ctx.program.functions.items() if f.cls is c and f.parent is None}


def wrapped(ctx, cls):
    """The field holding the wrapped object: the one annotated with sqlite3's class."""
    c = ctx.program.cls(cls)
    own = {ctx.program.cls(x).name for x in (CONN, CUR)}
    want = cls.rsplit("Capable", 1)[1]
    for f in ctx.program.all_fields(c):
        text = ast.unparse(f.annotation).strip("'\"").split(".")[-1] if f.annotation is not None else ""
        if text not in own and want in text:
            return f
    raise AnalysisBroken("anchor vanished: what %s wraps" % cls)


def field_of(ctx, cls, f):
    return norm(("attr", ("self", ctx.program.cls(cls).qual), f.name))


def params(f):
    a = f.node.args
    return [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]


def same(v, want):
    v = norm(v)
    while v != want:
        if v[0] == "call" and v[1] in CONVERT and len(v[2]) == 1:
            v = norm(v[2][0])
        elif v[0] == "comp" and v[1] == "list" and not v[4] and len(v[3]) == 1 and v[2][0] == "elem" and norm(v[2][1]) == norm(v[3][0]):
            v = norm(v[3][0])
        else:
            return False
    return True


def given(f, call):
    """Is the call given exactly the parameters of the function?"""
    names = params(f)
    got = list(call[2]) + [v for _, v in call[3]]
    if len(got) != len(names):
        return False
    for i, v in enumerate(call[2]):
        if not of(v, names[i]):
            return False
    return all(k in names and of(v, k) for k, v in call[3])


def of(v, name):
    v = norm(v)
    while v[0] == "call" and v[1] in (("g", "builtins.list"), ("g", "builtins.tuple")) and len(v[2]) == 1:
        v = v[2][0]
    return v == ("p", name)


def asked(path, it, inner):
    return [e for e in flat(path.events) if e.kind == "call" and e.a[1][0] == "attr" and norm(e.a[1][1]) == inner]


def delegates(ctx, f, name, inner, like):
    me = field_of(ctx, CUR if like is sqlite3.Cursor else CONN, inner)
    it, paths = ctx.run(f, ("sql.statement_mutates",))
    method = callable(getattr(like, name))
    done = 0
    for path in paths:
        if path.kind == "raise":
            v = path.value
            if v[0] == "exc" and v[1] == "builtins.AssertionError" or v[0] == "new" and v[1].endswith("AssertionError"):
                continue
            ctx.check(any(e.kind == "raised" for e in flat(path.events)), "delegates", name, f.loc(), "raises %s" % show(v)[:100], path)
            continue
        done += 1
        calls = asked(path, it, me)
        if method:
            right = len(calls) == 1 and calls[0].a[1][2] == name and given(f, calls[0].a)
            ctx.check(right and same(path.value, norm(calls[0].a)), "delegates", name, f.loc(), "gives %s instead of what the wrapped %s gives" % (show(path.value)[:120], name), path)
        else:
            ctx.check(not calls and same(path.value, ("attr", me, name)), "delegates", name, f.loc(), "is %s instead of the wrapped object's %s" % (show(path.value)[:120], name), path)
        touched = [e for e in flat(path.events) if e.kind in ("setattr", "setitem", "del", "delattr") and e.a is not None]
        ctx.check(not touched, "delegates", name, f.loc(), "%s changes something" % name, path)
    if not done:
        ctx.bad("delegates", name, f.loc(), "no path of %s returns" % name)


def executes(ctx, f, inner):
    me = field_of(ctx, CUR, inner)
    it, paths = ctx.run(f, ("sql.statement_mutates",))
    for path in paths:
        if path.kind != "return":
            continue
        calls = asked(path, it, me)
        right = len(calls) == 1 and calls[0].a[1][2] == f.name and given(f, calls[0].a)
        ctx.check(right, "executes", f.name, f.loc(), "%s is asked of the wrapped cursor" % ([show(c.a)[:100] for c in calls] or "nothing"), path)
        ctx.check(norm(path.value) == ("self", ctx.program.cls(CUR).qual), "executes", f.name + " result", f.loc(), "the result is %s and not the cursor" % show(path.value)[:100], path)


def cursors(ctx, f, inner):
    me = field_of(ctx, CONN, inner)
    it, paths = ctx.run(f)
    cur = ctx.program.cls(CUR)
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        if not ctx.check(v[0] == "new" and v[1] == cur.qual, "cursor", "recording", f.loc(), "the cursor is %s, which records nothing" % show(v)[:100], path):
            continue
        fields = dict(v[2])
        got = fields.get(wrapped(ctx, CUR).name)
        calls = asked(path, it, me)
        ctx.check(len(calls) == 1 and calls[0].a[1][2] == "cursor" and norm(got) == norm(calls[0].a), "cursor", "wrapped", f.loc(), "it wraps %s" % (show(got)[:100] if got else None), path)
        ctx.check(norm(("self", ctx.program.cls(CONN).qual)) in [norm(x) for x in fields.values()], "cursor", "belongs", f.loc(), "the cursor does not know its connection", path)


def enters(ctx, f, inner):
    me = field_of(ctx, CONN, inner)
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        calls = [c.a[1][2] for c in asked(path, it, me)]
        ctx.check("__enter__" in calls and not {"commit", "rollback"} & set(calls), "transaction", "entered", f.loc(), "the wrapped connection is asked for %s" % calls, path)
        ctx.check(norm(path.value) == ("self", ctx.program.cls(CONN).qual), "transaction", "itself", f.loc(), "entering gives %s" % show(path.value)[:100], path)


def wraps(ctx):
    f = ctx.func("replicate.with_replication")
    it, paths = ctx.run(f)
    names = [x.arg for x in f.node.args.args]
    flag = ctx.run(CONN + ".enable_replication")[1]
    mode = {e.b for p in flag for e in flat(p.events) if e.kind == "setattr"}
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        if not ctx.check(v[0] == "new" and v[1] == ctx.program.cls(CONN).qual, "wraps", "wrapper", f.loc(), "the result is %s" % show(v)[:100], path):
            continue
        fields = dict(v[2])
        ctx.check(fields.get(wrapped(ctx, CONN).name) == ("p", names[0]), "wraps", "connection", f.loc(), "another connection is wrapped", path)
        on = [fields.get(m) for m in mode]
        ctx.check(on == [("p", names[1])], "wraps", "mode", f.loc(), "the mode is %s" % (show(on[0])[:80] if on and on[0] else None), path)


def of_store(t, store):
    while t[0] == "attr":
        t = t[1]
    return t == store


def snapshot(ctx):
    f = ctx.func("model.VoucherStore.snapshot")
    it, paths = ctx.run(f)
    store = ("self", ctx.program.cls("model.VoucherStore").qual)
    done = 0
    for path in paths:
        if path.kind != "return":
            continue
        done += 1
        dumps = [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "iterdump"]
        if not ctx.check(len(dumps) == 1 and of_store(norm(receiver(dumps[0].a)), store), "snapshot", "dumped", f.loc(), "the store's database is dumped %d times" % len(dumps), path):
            continue
        d = norm(dumps[0].a)
        ctx.check(not any(e.kind == "call" and e.a[1] == ("g", "builtins.next") and e.a[2] and contains(e.a[2][0], d) for e in flat(path.events)), "snapshot", "not consumed", f.loc(), "a statement of the dump is taken before the snapshot is made of them", path)
        parts = [x for x in walk(norm(path.value)) if x[0] == "dict"]
        listed = [b for x in parts for a, b in x[1] if a[0] == "c" and a[2] == "statements"]
        ctx.check(len(listed) == 1 and same(listed[0], d), "snapshot", "complete", f.loc(), "the statements are %s" % (show(listed[0])[:150] if listed else show(path.value)[:150]), path)
    if not done:
        ctx.bad("snapshot", "dumped", f.loc(), "no path gives a snapshot")
