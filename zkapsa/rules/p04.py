"""
P04: the arguments of the backend calls and the guards of every lease added
directly to a share are compared with what was charged for; a request with a
new length must raise before validation.
"""
from .server import *  # noqa: F401,F403
from .server import PAYING, Server, active_lease

ASSUMPTIONS = [
    "the storage backend does not touch leases when called with renew_leases=False (Tahoe-LAFS StorageServer)",
]
# parameters of the backend operation, in order
BACKEND = {
    "allocate_buckets": ("storage_index", "renew_secret", "cancel_secret", "sharenums", "allocated_size"),
    "slot_testv_and_readv_and_writev": ("storage_index", "secrets", "tw_vectors", "r_vector"),
    "add_lease": ("storage_index", "renew_secret", "cancel_secret"),
}
NAMES = {"r_vector": "read_vector", "tw_vectors": "test_and_write_vectors"}
POSITION = {"allocate_buckets": 6, "slot_testv_and_readv_and_writev": 4}


def written(t, truth, gen):
    """
    True/False when the literal says that the request does (not) write to the
    share with the number of the current element of ``gen``.
    """
    n = ("sub", ("elem", gen, 0), const(0))
    for x in walk(t):
        if x[0] == "exists":
            return None
    def data(x):
        if x[0] == "sub" and x[2] == const(1):
            b = x[1]
            if b == ("sub", p("tw_vectors"), n):
                return True
            if is_call(b, "get") and receiver(b) == p("tw_vectors") and b[2][0] == n:
                # the default must not look like a write
                d = b[2][1] if len(b[2]) > 1 else NONE
                return d[0] == "tuple" and len(d[1]) == 3 and d[1][1] in (const(b""), NONE, const(()), ("list", ()), ("tuple", ()))
        return False
    if data(t):
        return truth
    ab = less(t)
    if ab is not None and ab[0] == const(0) and lenof(ab[1]) is not None and data(lenof(ab[1])):
        return truth
    if t[0] == "cmp" and t[1] == "in" and t[2] == n:
        c = strip_set(t[3])
        if c == p("tw_vectors"):
            return None if truth else False
        if c[0] == "comp" and c[3] == (p("tw_vectors"),) and c[2] == ("elem", p("tw_vectors"), 0) and c[4] == ((("sub", ("sub", p("tw_vectors"), ("elem", p("tw_vectors"), 0)), const(1)), True),):
            return truth
    return None


def new_length(t, truth, gen=None):
    """Does the literal say that there is (True) / is no (False) new length?"""
    if t[0] == "cmp" and t[1] == "is" and t[3] == NONE and t[2][0] == "sub" and t[2][2] == const(2):
        return not truth
    return None


def no_new_lengths(t, truth):
    return (
        t[0] == "exists" and truth is False and t[1] == (p("tw_vectors"),) and len(t[2]) == 1 and t[2][0][1] is False
        and t[2][0][0] == ("cmp", "is", ("sub", ("sub", p("tw_vectors"), ("elem", p("tw_vectors"), 0)), const(2)), NONE)
    )


def check(ctx):
    s = Server(ctx)
    ctx.rule("backend-told-not-to-renew", "allocations and writes are passed to the backend with renew_leases=False", 2)
    ctx.rule("backend-arguments", "the backend is asked for exactly the requested operation, with the caller's secrets", 3)
    ctx.rule("lease-only-where-charged", "a lease is added directly only to a share which the request writes to and which has no unexpired lease at the time used for pricing", 1)
    ctx.rule("lease-wherever-charged", "no written share without an unexpired lease is left out", 1)
    ctx.rule("lease-fields", "the lease has the caller's secrets, one lease period from the pricing time, and goes into that share's file", 1)
    ctx.rule("new-length-refused", "any new length ends the operation before passes are validated and anything is changed", 2)
    for op in PAYING:
        it, paths = s.paths(op)
        f = s.method("remote_" + op)
        for path in paths:
            for e in flat(path.events):
                if e.kind != "call" or not s.is_backend_call(e.a) or not s.is_grant(e.a):
                    continue
                n = fname(e.a[1])
                ctx.check(n in BACKEND, "backend-arguments", "%s: %s" % (op, n), e.loc, "calls %s" % show(e.a)[:200], path)
                if n not in BACKEND:
                    continue
                want = BACKEND[n]
                got = [arg(e.a, i, w) or arg(e.a, 99, NAMES.get(w, w)) for i, w in enumerate(want)]
                ctx.check(got == [p(w) for w in want] and n == op, "backend-arguments", op, e.loc,
                          "%s is called with (%s)" % (n, ", ".join(show(x) if x else "?" for x in got)), path)
                if n in POSITION:
                    r = arg(e.a, POSITION[n], "renew_leases")
                    ctx.check(r == FALSE, "backend-told-not-to-renew", op, e.loc, "renew_leases is %s" % (show(r) if r else "left to the default"), path)
    # leases added by the server itself
    for f in s.remotes():
        op = f.name[len("remote_"):]
        it, paths = ctx.run(f, ATOMS_)
        over = {e.a for path in paths for e in path.events if e.kind == "loop" and lease_calls(s, e)}
        for path in paths:
            for e in path.events:
                if e.kind == "loop":
                    lease_loop(ctx, s, op, path, e)
                if e.kind == "loopexit" and e.a in over and e.b in ("break", "return"):
                    ctx.bad("lease-wherever-charged", op + ": leaves the loop", e.loc, "the shares after the current one get no lease", path)
            direct = [e for e in path.events if e.kind == "call" and fname(e.a[1]) in ("add_or_renew_lease", "renew_lease", "add_lease_for") and receiver(e.a) != s.original]
            for e in direct:
                ctx.bad("lease-only-where-charged", op + ": " + fname(e.a[1]), e.loc, "adds a lease outside of the loop over the shares", path)
    it, paths = s.paths("slot_testv_and_readv_and_writev")
    added = refused = False
    for path in paths:
        granted = False
        for e, guards in enumerate_events(path.events):
            if e.kind == "call" and s.is_grant(e.a) and receiver(e.a) == s.original:
                granted = True
                ctx.check(any(no_new_lengths(t, b) for t, b in guards), "new-length-refused", "before the write", e.loc,
                          "the write is reached although a new length may be given", path)
            if e.kind == "call" and fname(e.a[1]) == "validate_passes":
                ctx.check(any(no_new_lengths(t, b) for t, b in guards), "new-length-refused", "before validation", e.loc,
                          "passes are validated although a new length may be given", path)
            if e.kind == "call" and fname(e.a[1]) == "add_or_renew_lease":
                added = True
        if any(e.kind == "guard" and no_new_lengths(e.a, False) and e.b is True for e in path.events):
            refused = True
            changes = [e for e in flat(path.events) if e.kind == "call" and (s.is_grant(e.a) or receiver(e.a) in (s.spender, s.histogram))]
            ctx.check(path.kind == "raise" and not changes, "new-length-refused", "outcome", changes[0].loc if changes else path.events[-1].loc,
                      "a request with a new length ends with %s" % path.kind, path)
        del granted
    f = s.method("remote_slot_testv_and_readv_and_writev")
    if not added:
        ctx.bad("lease-wherever-charged", f.name, f.loc, "no lease is ever added after a mutable write")
    if not refused:
        ctx.bad("new-length-refused", "outcome", f.loc, "no path refuses a new length")


from .server import ATOMS as ATOMS_  # noqa: E402


def lease_calls(s, loop):
    return [e for sub in loop.b for e in flat(sub.events) if e.kind == "call" and fname(e.a[1]) in ("add_or_renew_lease", "renew_lease", "add_lease_for") and receiver(e.a) != s.original]


def lease_loop(ctx, s, op, path, loop):
    calls = lease_calls(s, loop)
    if not calls:
        return
    gens = loop.a if isinstance(loop.a, tuple) and loop.a and not isinstance(loop.a[0], str) else (loop.a,)
    gen = gens[0]
    src = strip_list(gen)
    ok_gen = is_call(src, "get_all_share_paths") and src[2][:2] == (s.original, p("storage_index"))
    if not ctx.check(ok_gen, "lease-wherever-charged", op + ": all shares", loop.loc, "leases are added only to %s" % show(gen)[:200], path):
        return
    i = path.events.index(loop)
    before = path.events[:i]
    backend = [e for e in before if e.kind == "call" and s.is_grant(e.a) and receiver(e.a) == s.original]
    ctx.check(backend, "lease-only-where-charged", op + ": after the write", loop.loc, "leases are added before the write was done", path)
    prices = [e.a for e in before if e.kind == "call" and is_call(e.a, ("get_required_new_passes_for_mutable_write", "required_passes"))]
    times = {now for pr in prices for now in lease_times(pr)}
    for sub in loop.b:
        lits = [(e.a, e.b) for e in sub.events if e.kind == "guard"]
        adds = [e for e in flat(sub.events) if e.kind == "call" and e in calls]
        actives = [(active_lease(t, gen), b) for t, b in lits if active_lease(t, gen) is not None]
        writes = [written(t, b, gen) for t, b in lits]
        lens = [new_length(t, b) for t, b in lits]
        active = [b for now, b in actives]
        if adds:
            e = adds[0]
            ctx.check(True in writes or True in lens, "lease-only-where-charged", op + ": written", e.loc, "a lease is added to a share the request does not write to", path)
            ctx.check(active == [False], "lease-only-where-charged", op + ": no unexpired lease", e.loc, "a lease is added to a share which may have an unexpired one", path)
            for now, b in actives:
                ctx.check(now in times and len(times) == 1, "lease-only-where-charged", op + ": pricing time", e.loc, "leases are compared with %s, prices with %s" % (show(now), ", ".join(show(x) for x in times)), path)
            ctx.check(len(adds) == 1 and lease_fields(s, e.a, gen, times), "lease-fields", op, e.loc, "the lease added is %s" % show(e.a)[:300], path)
        else:
            fine = True in active or (False in writes and True not in lens)
            ctx.check(fine, "lease-wherever-charged", op, loop.loc, "a written share without an unexpired lease gets none (%s)" % ", ".join(("" if b else "not ") + show(t)[:120] for t, b in lits), path)


def lease_times(t):
    """The times leases are compared with in the term."""
    out = set()
    for x in walk(t):
        if x[0] == "comp" and len(x[3]) == 1 and x[4] and x[4][0] != "dnf":
            out |= {active_lease(c, x[3][0]) for c, b in x[4]}
    return out - {None}


def lease_fields(s, call, gen, times):
    share = receiver(call)
    if not is_call(share, "get_share_file") or share[2] != (("sub", ("elem", gen, 0), const(1)),):
        ok = is_call(share, "get_share_file") and mentions(share, lambda x: x == ("sub", ("elem", gen, 0), const(0))) and mentions(share, lambda x: x == p("storage_index"))
        if not ok:
            return False
    lease = next((a for a in call[2] + tuple(v for k, v in call[3]) if is_call(a, "LeaseInfo")), None)
    if lease is None:
        return False
    kw = dict(lease[3])
    for i, n in enumerate(("owner_num", "renew_secret", "cancel_secret", "expiration_time", "nodeid")):
        if len(lease[2]) > i:
            kw.setdefault(n, lease[2][i])
    if kw.get("renew_secret") != ("sub", p("secrets"), const(1)) or kw.get("cancel_secret") != ("sub", p("secrets"), const(2)):
        return False
    if kw.get("nodeid") != ("attr", s.original, "my_nodeid"):
        return False
    exp = kw.get("expiration_time")
    if exp is None:
        return False
    if is_call(exp, "int") and len(exp[2]) == 1:
        exp = exp[2][0]
    if exp[0] != "bin" or exp[1] != "+":
        return False
    for a, b in ((exp[2], exp[3]), (exp[3], exp[2])):
        if a in times and period(b):
            return True
    return False


def period(t):
    """31 days in seconds"""
    if is_const(t):
        return cval(t) == 31 * 24 * 60 * 60
    return is_call(t, "total_seconds") and is_call(receiver(t), "timedelta") and receiver(t)[2] == () and receiver(t)[3] == (("days", const(31)),) or (
        is_call(t, "total_seconds") and is_call(receiver(t), "timedelta") and receiver(t)[2] == (const(31),))
