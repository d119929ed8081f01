"""
P05: effect analysis.  The call graph below every remote operation which takes
no passes is enumerated and must contain no call that changes shares or leases
and no use of the spender; on the client these operations must not reach the
pass factory, and a mutable operation without writes must ask for 0 passes.
"""
import ast

from .client import Client, FREE
from .server import *  # noqa: F401,F403
from .server import FILE_CHANGES, GRANTING, PAYING, READONLY, Server, ATOMS

ASSUMPTIONS = [
    "the operations %s of the storage backend change no shares or leases (advise_corrupt_share writes an advisory only)" % ", ".join(sorted(READONLY)),
]
FREE_REMOTE = ("get_version", "get_buckets", "share_sizes", "stat_shares", "slot_readv", "advise_corrupt_share")
NO_ATOMS = ()


def file_change(call):
    n = fname(call[1])
    if n == "open":
        mode = arg(call, 1, "mode", const("r"))
        if call[1][0] == "attr" and call[1][1][0] not in ("g",):
            mode = arg(call, 0, "mode", const("r"))
        return not (is_const(mode) and isinstance(cval(mode), str) and not set(cval(mode)) & set("wax+"))
    return n in FILE_CHANGES


def check(ctx):
    s, c = Server(ctx), Client(ctx)
    ctx.rule("free-without-effect", "an operation without passes reaches nothing that changes shares, leases or files, and nothing that spends", len(FREE_REMOTE))
    ctx.rule("free-without-passes", "the free operations have no parameter for passes and never require any", len(FREE_REMOTE))
    ctx.rule("answers-the-question", "a free operation asks the backend about exactly the storage index it was given", 4)
    ctx.rule("client-free", "the client acquires no passes for a free operation", len(FREE))
    ctx.rule("no-writes-no-cost", "the client acquires 0 passes for a mutable operation without writes", 1)
    for op in FREE_REMOTE:
        f = s.method("remote_" + op)
        it, paths = ctx.run(f, NO_ATOMS)
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        ctx.check("passes" not in names, "free-without-passes", op, f.loc, "%s takes passes" % op)
        bad = None
        needs = None
        for path in paths:
            for e in flat(path.events):
                if e.kind == "call":
                    if (s.is_grant(e.a) or receiver(e.a) == s.spender or file_change(e.a)) and bad is None:
                        bad = (e, path)
                    if fname(e.a[1]) == "validate_passes" and needs is None:
                        needs = (e, path)
            if path.kind == "raise" and path.value[0] == "new" and path.value[1].endswith("MorePassesRequired"):
                needs = (path.events[-1], path)
        ctx.check(bad is None, "free-without-effect", op, bad[0].loc if bad else f.loc, "reaches %s" % (show(bad[0].a)[:200] if bad else ""), bad[1] if bad else None)
        if needs:
            ctx.bad("free-without-passes", op + ": required", needs[0].loc, "asks for passes", needs[1])
        backend_question(ctx, s, op, f, paths)
    # anything else remotely reachable either is a paying operation or is free of effects
    for f in s.remotes():
        op = f.name[len("remote_"):]
        if op in FREE_REMOTE or op in PAYING:
            continue
        it, paths = ctx.run(f, NO_ATOMS)
        for path in paths:
            for e in flat(path.events):
                if e.kind == "call" and (s.is_grant(e.a) or receiver(e.a) == s.spender or file_change(e.a)):
                    ctx.bad("free-without-effect", op, e.loc, "an operation without a price reaches %s" % show(e.a)[:200], path)
    # the client
    for f in c.public():
        op = f.name
        if op in PAYING:
            continue
        it, paths = c.paths(op)
        bad = None
        for path in paths:
            for e in flat(path.events):
                if e.kind == "call" and (e.a[1] == c.get_passes or fname(e.a[1]) in ("mark_spent", "expand")):
                    bad = (e, path)
        ctx.check(bad is None, "client-free", op, bad[0].loc if bad else f.loc, "%s takes passes" % op, bad[1] if bad else None)
    for op in FREE:
        c.method(op)
    op = "slot_testv_and_readv_and_writev"
    it, paths = c.paths(op)
    for path in paths:
        for e, guards in enumerate_events(path.events):
            if e.kind == "call" and e.a[1] == c.get_passes:
                n = arg(e.a, 1, "count")
                ctx.check(n == ZERO or any(writes_fact(t, b) for t, b in guards), "no-writes-no-cost", op, e.loc,
                          "%s passes are acquired although nothing may be written" % show(n)[:200], path)


def writes_fact(t, truth):
    """The literal says that something is written: the set of written shares is not empty."""
    def written_set(x):
        x = strip_set(x)
        return x[0] == "comp" and mentions(x[4], lambda y: y[0] == "sub" and y[2] == const(1)) and mentions(x, lambda y: y == p("tw_vectors"))
    if truth is True:
        ab = less(t)
        if ab is not None and ab[0] == ZERO and lenof(ab[1]) is not None:
            return written_set(lenof(ab[1]))
        if written_set(t):
            return True
        if t[0] == "exists" and len(t[2]) >= 1:
            return any(b is True and c[0] == "sub" and c[2] == const(1) for c, b in t[2])
    else:
        if t[0] == "cmp" and t[1] == "==" and t[3] == ZERO and lenof(t[2]) is not None:
            return written_set(lenof(t[2]))
    return False


def backend_question(ctx, s, op, f, paths):
    """The read goes to the backend operation of the same name with the same arguments in the same order."""
    names = [a.arg for a in f.node.args.args][1:]
    for path in paths:
        calls = [e for e in flat(path.events) if e.kind == "call" and receiver(e.a) == s.original]
        for e in calls:
            n = fname(e.a[1])
            if n in ("get_version", "get_buckets", "slot_readv", "advise_corrupt_share"):
                got = list(e.a[2]) + [v for k, v in e.a[3]]
                ctx.check(n == op and got == [p(x) for x in names], "answers-the-question", op, e.loc,
                          "asks the backend %s" % show(e.a)[:200], path)
