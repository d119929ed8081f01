"""
P26: when recovery is attempted and what it reports.  The way from a request
to the import is followed with its helpers inlined: the emptiness check, the
stages which are reported along every path, and where failures go.
"""
import ast

from .store import *  # noqa: F401,F403
from .store import users_of
from ..loader import AnalysisBroken
from ..match import p
from ..terms import walk
from .p25 import in_loops

TECHNIQUE = "typestate of the reported stages and dominance of the emptiness check, along enumerated paths"
ASSUMPTIONS = ["a wallet without vouchers holds no wallet data, because tokens refer to vouchers (P13)"]
REC = "recover.StatefulRecoverer"
FACTORY = "resource.RecoverFactory"
STAGES = ("inactive", "started", "inspect_replica", "downloading", "importing", "succeeded", "download_failed", "import_failed")


def check(ctx):
    ctx.rule("empty", "the import is reached only through a transaction in which the wallet was found to be empty", 4)
    ctx.rule("stages", "stages are reported in their order, one final stage for each attempt", 3)
    ctx.rule("success", "success is reported only after the download and the import returned", 2)
    ctx.rule("failure", "failed downloads and failed imports are reported as such", 3)
    ctx.rule("told", "every stage is remembered and told to every listener", 2)
    ctx.rule("separate", "recovery does not set up replication", 1)
    guarded(ctx)
    stages(ctx)
    entry(ctx)
    downloader(ctx)
    told(ctx)
    only(ctx)


# --- the emptiness check ----------------------------------------------------------

def guarded(ctx):
    f = ctx.func("model.VoucherStore.call_if_empty")
    if not f.decorators:
        ctx.bad("empty", "transaction", f.loc(), "the wallet is examined and changed outside of a transaction")
    it, paths = ctx.run(f, CURSOR, skip=0)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if len(names) < 3:
        return
    cur, fn = p(names[1]), p(names[2])
    n = 0
    for path in paths:
        execs = statements(path)
        rows = {e.a: x for e, x in fetched(path, execs) if x is not None}
        empty = False
        at = None
        called = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == fn]
        for e in flat(path.events):
            if e in called:
                break
            if e.kind == "guard":
                r = emptiness(e.a, rows, path)
                if r is not None:
                    ok = e.b == r[1] and whole_table(rows[r[0]], cur)
                    empty = empty or ok
            if e.kind in ("await", "exit"):
                empty = False
        if called:
            n += 1
            ctx.check(empty, "empty", "check", called[0].loc, "the recovery is started although the wallet was not found to be empty", path)
            ctx.check(len(called) == 1 and called[0].a[2] == (cur,), "empty", "cursor", called[0].loc, "the recovery is not given the cursor with which the wallet was examined", path)
            if path.kind == "return":
                waited = any(e.kind == "await" and e.a == called[0].a for e in flat(path.events))
                ctx.check(waited, "empty", "waited for", called[0].loc, "the transaction ends before the recovery does", path)
        elif path.kind == "return":
            ctx.bad("empty", "refused", f.loc(), "recovery into a wallet with data is reported as done", path)
        else:
            ctx.ok("empty", "refused")
    ctx.check(n > 0, "empty", "called", f.loc(), "recovery is never started")


def emptiness(t, rows, path):
    """(rows, polarity) when the condition says that there are no rows."""
    if t[0] == "not":
        r = emptiness(t[1], rows, path)
        return r and (r[0], not r[1])
    if t in rows:
        return t, False
    if t[0] == "cmp" and t[1] == "is" and NONE in (t[2], t[3]):
        c = base_rows(t[3] if t[2] == NONE else t[2], rows, path)
        return (c, True) if c is not None and fname(c[1]) == "fetchone" else None
    if t[0] == "cmp" and t[1] in ("==", "<", ">", "<=", ">="):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            c = base_rows(a, rows, path)
            if c is not None:
                if t[1] == "==" and (b in (I(("list", ())), const(0))):
                    return c, True
                if t[1] == "<" and b == const(0) and a == t[3]:
                    return c, False
                if t[1] == "<" and a == t[2] and b == const(1):
                    return c, True
                return None
    c = base_rows(t, rows, path)
    return (c, False) if c is not None else None


def everything(gens, conds, path):
    """Does every row become an element?"""
    if not conds:
        return True
    alts = disjuncts(conds)
    for e in flat(path.events):
        if e.kind == "loop" and tuple(e.a) == tuple(gens) and not e.c:
            ways = [frozenset((x.a, x.b) for x in s.events if x.kind == "guard") for s in e.b if s.kind in ("next", "continue")]
            if ways and all(any(w.issuperset(a) for a in alts) for w in ways):
                return True
    return False


def base_rows(t, rows, path):
    if t in rows:
        return t
    if lenof(t) is not None:
        return base_rows(lenof(t), rows, path)
    t2 = strip_list(t)
    if t2[0] == "comp" and len(t2[3]) == 1 and t2[3][0] in rows and everything(t2[3], t2[4], path):
        return t2[3][0]
    if t2[0] == "exists" and len(t2[1]) == 1 and everything(t2[1], t2[2], path):
        return base_rows(t2[1][0], rows, path)
    # SELECT COUNT(*)
    if t2[0] == "sub" and t2[1] in rows or (t2[0] == "sub" and t2[1][0] == "sub" and t2[1][1] in rows):
        r = t2[1] if t2[1] in rows else t2[1][1]
        cols = rows[r].stmt.columns or ()
        if len(cols) == 1 and isinstance(cols[0], tuple) and cols[0][:2] == ("fn", "count"):
            return r
    return None


def whole_table(x, cur):
    return x.stmt.kind == "select" and x.stmt.table == "vouchers" and not x.stmt.where and (x.stmt.limit is None or "0" != str(x.stmt.limit)) and len(x.stmt.tables or [1]) <= 1 and receiver(x.ev.a) == cur


def entry(ctx):
    """Everything which leads to the import."""
    f = ctx.func(FACTORY + ".initiate_recovery")
    it, paths = ctx.run(f, ("model.VoucherStore.*", "recover.recover"))
    n = 0
    done = set()
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == "call_if_empty" and e.a[2]:
                n += 1
                fn = e.a[2][0]
                if fn in done:
                    continue
                done.add(fn)
                cur = p("the cursor")
                for o in it.apply(fn, (cur,), path.st):
                    ctx.paths += 1
                    for c in flat(o.events):
                        if c.kind == "call" and fname(c.a[1]) == "recover":
                            ctx.check(arg(c.a, 2, "cursor") == cur, "empty", "import", c.loc, "the import uses another cursor than the one with which the wallet was found to be empty", o)
            if e.kind == "call" and e.a[1] == ("fn", "_zkapauthorizer.recover.recover"):
                ctx.bad("empty", "way", e.loc, "the import is reached without the emptiness check", path)
            if e.kind == "call" and fname(e.a[1]) in ("setup_replication", "_add_replication_service", "replication_service", "enable_replication", "setup_tahoe_lafs_replication"):
                ctx.bad("separate", "recovery", e.loc, "recovery sets up replication", path)
    ctx.check(n > 0, "empty", "way", f.loc(), "recovery does not examine whether the wallet is empty")
    ctx.ok("separate", "recovery")
    # nobody else uses the import
    known = {"recover": ("_zkapauthorizer.recover.StatefulRecoverer.recover",)}
    imp = ctx.program.functions.get("_zkapauthorizer.recover.recover")
    if imp is None:
        raise AnalysisBroken("anchor vanished: recover.recover")
    for m in ctx.program.modules.values():
        if m is not imp.module and not any(isinstance(x, ast.ImportFrom) and any(a.name == "recover" for a in x.names) for x in ast.walk(m.tree)):
            continue
        for q, g in ctx.program.functions.items():
            if g.module is not m or g.parent is not None:
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and ctx.program.resolve_expr(m, x) == imp.qual:
                    ok = q in ctx.inlined or q in ctx.functions
                    ctx.check(ok, "empty", "import used by %s" % q.split(".", 1)[1], (m.relpath, x.lineno), "the import is used without the emptiness check")


# --- the stages ----------------------------------------------------------------------

def reported(path, me):
    """[(position, stage, state)] set along a path."""
    out = []
    for i, e in enumerate(flat(path.events)):
        if e.kind == "setattr" and e.a == me:
            st = e.c
            if st is not None and st[0] == "new" and st[1].endswith(".RecoveryState"):
                out.append((i, stage_name(field(st, "stage")), st, e))
    return out


def stage_name(t):
    if t is None:
        return "inactive"
    if t[0] == "attr":
        return t[2]
    if t[0] == "g":
        return t[1].rsplit(".", 1)[-1]
    return None


def stages(ctx):
    f = ctx.func(REC + ".recover")
    me = ("self", f.cls.qual)
    dl, cur = (p(a.arg) for a in f.node.args.args[1:3])
    it, paths = ctx.run(f, ("recover.recover",))
    for path in paths:
        evs = list(flat(path.events))
        got = reported(path, me)
        names = [n for i, n, st, e in got]
        down = [i for i, e in enumerate(evs) if e.kind == "call" and e.a[1] == dl]
        wait = [i for i, e in enumerate(evs) if e.kind == "await" and any(e.a == evs[j].a for j in down)]
        imp = [i for i, e in enumerate(evs) if e.kind == "call" and e.a[1] == ("fn", "_zkapauthorizer.recover.recover")]
        failed = {e.a: i for i, e in enumerate(evs) if e.kind == "raised"}
        downfail = any(evs[j].a in failed for j in down)
        impfail = any(evs[j].a in failed for j in imp)
        if not got and path.kind == "return":
            ctx.check(not down and not imp, "stages", "repeated", f.loc(), "an attempt reports nothing", path)
            continue
        ranks = [STAGES.index(n) if n in STAGES else -1 for n in names]
        ctx.check(-1 not in ranks and names[:1] == ["started"] and ranks == sorted(set(ranks)), "stages", "order", f.loc(), "the stages are reported as %s" % ", ".join(map(str, names)), path)
        ctx.check(sum(1 for n in names if n in STAGES[5:]) <= 1, "stages", "one end", f.loc(), "several ends are reported: %s" % ", ".join(map(str, names)), path)
        if path.kind == "return":
            ctx.check(names[-1] in STAGES[5:], "stages", "end", f.loc(), "an attempt ends without reporting how", path)
        start = got[0][0]
        ctx.check(all(start < i for i in down + imp), "stages", "start", f.loc(), "the start is reported late", path)
        for i, n, st, e in got:
            if n == "succeeded":
                ok = bool(wait) and bool(imp) and not downfail and not impfail and max(imp) < i
                ctx.check(ok, "success", "after everything", e.loc, "success is reported although %s" % ("the download failed" if downfail else "the import failed" if impfail else "not everything was done yet"), path)
            if n in ("download_failed", "import_failed"):
                ok = downfail if n == "download_failed" else impfail and not downfail
                ctx.check(ok, "failure", n, e.loc, "%s is reported although something else happened" % n, path)
                r = field(st, "failure_reason")
                ctx.check(r is not None and r != NONE, "failure", "reason", e.loc, "a failure is reported without its reason", path)
        if path.kind == "return" and downfail:
            ctx.check("download_failed" in names and not imp, "failure", "download", f.loc(), "a failed download is not reported as such", path)
        if path.kind == "return" and impfail:
            ctx.check("import_failed" in names, "failure", "import", f.loc(), "a failed import is not reported as such", path)
        if path.kind == "return" and not downfail and not impfail and "succeeded" in names:
            c = evs[imp[0]].a if imp else None
            d = evs[down[0]].a if down else None
            ok = c is not None and d is not None and c[2] == (I(("sub", d, const(0))), I(("sub", d, const(1))), cur)
            ctx.check(ok, "success", "what was downloaded", f.loc(), "something else than what was downloaded is imported", path)
            ctx.check(bool(d) and len(d[2]) == 1 and d[2][0][0] == "bm" and d[2][0][1] == me, "stages", "progress", f.loc(), "the download cannot report its progress", path)
        if path.kind == "raise" and evs and not downfail and not impfail:
            ctx.ok("failure", "listeners")
    # an unexpected exception anywhere does not pass as success
    for path in paths:
        for e in flat(path.events):
            if e.kind == "catch" and e.b is not None:
                broad = any("Exception" in str(x) for x in (e.b if isinstance(e.b, (tuple, list)) else (e.b,)))
                ctx.check(broad, "failure", "all of them", e.loc, "only some failures are reported: %s" % (e.b,), path)


def downloader(ctx):
    f = ctx.func("recover.tahoe_lafs_downloader")
    names = [a.arg for a in f.node.args.args]
    it, paths = ctx.run(f, ("tahoe.download_child",))
    for path in paths:
        seen = []
        for e, gens, conds in in_loops(path.events):
            if e.kind == "call" and e.a[1] == p(names[2]):
                st = e.a[2][0]
                seen.append(stage_name(field(st, "stage")) if st[0] == "new" else None)
                ctx.check(not gens and seen[-1] in ("inspect_replica", "downloading", "importing"), "stages", "download", e.loc, "the downloader reports %s" % seen[-1], path)
        ranks = [STAGES.index(n) for n in seen if n in STAGES]
        ctx.check(ranks == sorted(ranks), "stages", "download order", f.loc(), "the downloader reports %s" % ", ".join(map(str, seen)), path)


def told(ctx):
    cls = ctx.program.cls(REC)
    me = ("self", cls.qual)
    f = ctx.func(REC + ".recover")
    it, paths = ctx.run(f, ("recover.recover",))
    listeners = None
    for path in paths:
        evs = list(path.events)
        for i, e in enumerate(evs):
            if e.kind == "setattr" and e.a == me and e.c is not None and e.c[0] == "new" and e.c[1].endswith(".RecoveryState"):
                ok = False
                for l in evs[i + 1:]:
                    if l.kind == "loop" and not l.c:
                        ok = all(s.kind == "next" and any(x.kind == "call" and x.a[1] == ("elem", l.a[0], 0) and x.a[2] == (e.c,) for x in flat(s.events)) for s in l.b) and bool(l.b)
                        g = strip_list(l.a[0])
                        ok = ok and g[0] == "attr" and g[1] == me
                        break
                    if l.kind in ("setattr", "await"):
                        break
                ctx.check(ok, "told", stage_name(field(e.c, "stage")) or "?", e.loc, "the listeners are not told about this stage", path)
    sf = cls.methods.get("state")
    if sf is not None:
        it, paths = ctx.run(sf)
        names = {e.b for path in ctx.run(f, ("recover.recover",))[1] for e in flat(path.events) if e.kind == "setattr" and e.a == me}
        for path in paths:
            ctx.check(path.kind == "return" and path.value[0] == "attr" and path.value[1] == me and path.value[2] in names, "told", "state()", sf.loc(), "state() does not return the last state", path)


def only(ctx):
    """Success is claimed nowhere else."""
    n = 0
    for m in ctx.program.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == "succeeded" and isinstance(x.value, (ast.Name, ast.Attribute)) and ast.unparse(x.value).endswith("RecoveryStages"):
                n += 1
                q = next((q for q, g in ctx.program.functions.items() if g.module is m and g.parent is None and g.node.lineno <= x.lineno <= g.node.end_lineno), None)
                compared = any(isinstance(c, ast.Compare) and x in ast.walk(c) for c in ast.walk(m.tree))
                ctx.check(compared or q in ctx.inlined or q in ctx.functions, "success", "reported by %s" % (q or m.name).split(".", 1)[-1], (m.relpath, x.lineno), "success is reported outside of a recovery")
