"""
P32: the replica's write capability stays private.  All paths of the set-up of
replication are followed with every call failing and every wait being
cancelled; the lock, the existence check, the creation of the directory and the
storing of its capability are matched on each of them, and every use of the
write capability is listed.
"""
from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import I, contains, fname, is_const, norm, show, walk

TECHNIQUE = "typestate of the lock and dataflow of the write capability over all paths of the set-up"
ASSUMPTIONS = [
    "FilesystemLock excludes other holders of the same path, in this process and in others",
    "FilePath.setContent replaces the content at once or not at all",
]
LOCK = "twisted.python.lockfile.FilesystemLock"
SETUP = "replicate.setup_tahoe_lafs_replication"
# What may be given the write capability, and whether the result still is one.
DERIVED = {"danger_real_capability_string", "encode", "decode", "strip", "str", "bytes"}
HARMLESS = {"digested_capability_string"}
KEEPING = {"setContent", "write"}


def method(t):
    return t[1][2] if t[0] == "call" and t[1][0] == "attr" else None


def is_lock(t):
    return isinstance(t, tuple) and t and t[0] == "call" and t[1] == ("g", LOCK)


def private_path(t, name):
    """The path of a file in the node's private directory."""
    return any(x[0] == "call" and method(x) == "get_private_path" and any(is_const(y) and y[2] == name for y in x[2]) for x in walk(t))


def fixed_path(t, name):
    """A path that is the same for each attempt of this node."""
    if t[0] in ("fmt", "bin"):
        return any(fixed_path(x, name) for x in flat_parts(t)) and all(is_const(x) or fixed_path(x, name) for x in flat_parts(t))
    if t[0] == "call" and method(t) in ("child", "sibling", "siblingExtension"):
        return fixed_path(t[1][1], name) and all(is_const(x) or x[0] == "fmt" and all(is_const(y) for y in x[1]) for x in t[2])
    if t[0] == "call" and method(t) in ("asTextMode", "asBytesMode", "basename"):
        return fixed_path(t[1][1], name)
    if t[0] == "call" and t[1] == ("g", "builtins.str"):
        return fixed_path(t[2][0], name)
    return is_config_path(t, name) or t[0] == "attr" and t[2] == "path" and fixed_path(t[1], name)


def flat_parts(t):
    return t[1] if t[0] == "fmt" else [x for x in t[2:] if isinstance(x, tuple)]


def is_config_path(t, name):
    """The file itself, not one that is named like it."""
    while t[0] == "call" and method(t) in ("asTextMode", "asBytesMode"):
        t = t[1][1]
    if t[0] == "call" and t[1] == ("g", "twisted.python.filepath.FilePath") and len(t[2]) == 1:
        return is_config_path(t[2][0], name)
    if t[0] == "attr" and t[2] == "path":
        return is_config_path(t[1], name)
    return t[0] == "call" and method(t) == "get_private_path" and bool(t[2]) and is_const(t[2][0]) and t[2][0][2] == name


def check(ctx):
    ctx.rule("exclusion", "the capability file is looked at, a directory is created and its capability is stored only while the lock is held")
    ctx.rule("release", "the lock is released at the end of every path on which it was taken, and on no other", minimum=3)
    ctx.rule("once", "a directory is created only if none is configured, and only once", minimum=2)
    ctx.rule("stored", "the write capability of the directory is in the private file before the set-up ends", minimum=1)
    ctx.rule("private", "the write capability goes nowhere but into the private file; only the read capability derived from it is given away", minimum=4)
    ctx.rule("failure", "nothing that can fail happens after the capability was stored, so a set-up that fails leaves nothing configured", minimum=1)
    ctx.rule("same file", "the file written is the file that tells whether replication is set up and gives the capability back", minimum=3)
    ctx.rule("turned on", "replication is turned on in the running node after the set-up succeeded, and only then", minimum=3)
    ctx.rule("answer", "the user is told the read capability that the set-up returned or that of the existing replica", minimum=2)
    name = basename(ctx)
    setup(ctx, name)
    readers(ctx, name)
    plugin(ctx)
    answer(ctx)


def basename(ctx):
    m, exprs = ctx.program.global_var("_zkapauthorizer.config.REPLICA_RWCAP_BASENAME")
    if m is None:
        raise AnalysisBroken("anchor vanished: REPLICA_RWCAP_BASENAME")
    ps = ctx.expression(m, exprs[-1])
    if len(ps) != 1 or not is_const(ps[0].value):
        raise AnalysisBroken("REPLICA_RWCAP_BASENAME is not a constant")
    return ps[0].value[2]


def calls(path):
    return [e for e in flat(path.events) if e.kind in ("call", "raised") and isinstance(e.a, tuple) and e.a[0] == "call"]


def outcome(path, t):
    """Which way the path went on the result of a call."""
    for e in flat(path.events):
        if e.kind == "guard" and e.a == I(t):
            return e.b
        if e.kind == "guard" and e.a[0] == "cmp" and e.a[1] in ("is", "==") and I(t) in e.a[2:4]:
            other = e.a[3] if e.a[2] == I(t) else e.a[2]
            if is_const(other) and isinstance(other[2], bool):
                return e.b == other[2]
    return path.st.conds.get(I(t))


def setup(ctx, name):
    it, ps = ctx.run(SETUP, ("tahoe.*",), raise_all=True, closing=True)
    where = ctx.func(SETUP).loc()
    seen = set()
    for path in ps:
        evs = calls(path)
        held = None
        taken = False
        made = []
        stored = None
        absent = False
        for i, e in enumerate(evs):
            t = e.a
            n = method(t)
            failed = i + 1 < len(evs) and evs[i + 1].kind == "raised" and evs[i + 1].a == t
            if e.kind == "raised":
                continue
            if n == "lock" and is_lock(t[1][1]):
                got = outcome(path, t)
                if got is True:
                    held, taken = t[1][1], True
                    ok = len(t[1][1][2]) == 1 and fixed_path(t[1][1][2][0], name)
                    ctx.check(ok, "exclusion", "which lock", e.loc, "the lock is not one that all attempts on this node share", path)
                elif got is None and not failed and rest_matters(evs[i + 1:], name):
                    ctx.bad("exclusion", "whether the lock was taken", e.loc, "the outcome of taking the lock is not looked at", path)
                    held, taken = t[1][1], True
                continue
            if n == "unlock" and is_lock(t[1][1]):
                ctx.check(held is not None and norm(held) == norm(t[1][1]), "release", "only what is held", e.loc, "the lock is released although this attempt does not hold it", path)
                held = None
                continue
            what = None
            if n == "exists" and is_config_path(t[1][1], name):
                what = "existence check"
                if outcome(path, t) is False:
                    absent = held is not None
            elif n == "make_directory":
                what = "creating a directory"
                made.append(t)
                ctx.check(absent, "once", "only if there is none", e.loc, "a directory is created although one may be configured already", path)
                ctx.check(len(made) == 1, "once", "one directory", e.loc, "more than one directory is created", path)
            elif n in ("setContent", "create", "open", "moveTo", "remove", "touch") and private_path(t[1][1], name) or n == "moveTo" and any(private_path(x, name) for x in t[2]):
                what = "writing the capability"
                if n == "setContent" and is_config_path(t[1][1], name):
                    if not failed:
                        stored = t
                elif n == "moveTo" and any(is_config_path(x, name) for x in t[2]):
                    if not failed:
                        stored = next((x.a for x in evs[:i] if method(x.a) == "setContent" and norm(x.a[1][1]) == norm(t[1][1])), t)
                elif is_config_path(t[1][1], name) and n != "remove":
                    ctx.bad("failure", "how the capability is written", e.loc, "the file exists before all of the capability is in it", path)
            if what:
                ctx.check(held is not None, "exclusion", what, e.loc, "done without holding the lock", path)
            if stored is not None and t is not stored and n not in ("unlock", None) and held is not None and e.kind == "call" and failed:
                ctx.bad("failure", "after storing", e.loc, "can fail although replication is configured by now", path)
            leaked = uses(t, made, name)
            if leaked is None and given(t, made, name):
                ctx.ok("private", "use of the write capability")
            elif leaked:
                ctx.bad("private", "use of the write capability", e.loc, "the write capability is given to %s" % leaked, path)
        if taken:
            ctx.check(held is None, "release", "%s path" % path.kind, where, "the lock is still held at the end", path)
        if path.kind == "return":
            v = path.value
            good = bool(made) and v[0] == "attr" and v[2] == "reader" and norm(v[1]) in [norm(x) for x in made]
            ctx.check(good, "private", "result of the set-up", where, "what the set-up returns is not the read capability of the new directory", path)
            kept = stored is not None and method(stored) == "setContent" and bool(made) and is_cap_text(stored[2][0], made[-1])
            ctx.check(kept, "stored", "capability of the new directory", where, "the set-up ends without the write capability being in the private file", path)
            seen.add("return")
            if stored is not None:
                ctx.ok("failure", "everything that can fail comes first")
        elif path.kind == "raise":
            v = path.value
            if exposes(v, made, name):
                ctx.bad("private", "error of the set-up", where, "the error includes the write capability", path)
            else:
                ctx.ok("private", "error of the set-up")
            if stored is not None and not from_unlock(v):
                ctx.bad("failure", "a set-up that fails", where, "the set-up fails although replication is configured by now", path)
            exists = [e for e in flat(path.events) if e.kind == "guard" and e.b and e.a[0] == "call" and method(e.a) == "exists" and is_config_path(e.a[1][1], name)]
            if exists:
                seen.add("exists")
    if "exists" in seen:
        ctx.ok("once", "an existing replica is refused")
    if "return" not in seen:
        raise AnalysisBroken("no path of the set-up returns")


def from_unlock(v):
    return v[0] == "exc" and isinstance(v[2] if len(v) > 2 else None, tuple) and method(v[2]) == "unlock"


def rest_matters(evs, name):
    return any(method(e.a) in ("make_directory", "setContent") for e in evs)


def is_cap_text(t, cap):
    """The text of the capability, as bytes."""
    while t[0] == "call" and method(t) == "encode":
        t = t[1][1]
    return t[0] == "call" and (fname(t[1]) or "").endswith("danger_real_capability_string") and bool(t[2]) and norm(t[2][0]) == norm(cap)


def is_write_cap(t, made, name):
    """Is the value the write capability or its text?"""
    if not isinstance(t, tuple) or not t:
        return False
    if norm(t) in [norm(x) for x in made]:
        return True
    if t[0] == "call":
        n = (fname(t[1]) or "").rsplit(".", 1)[-1]
        if n == "getContent" and is_config_path(t[1][1], name):
            return True
        if n in HARMLESS:
            return False
        if n in DERIVED or n.endswith("_from_string"):
            return any(is_write_cap(x, made, name) for x in t[2]) or t[1][0] == "attr" and is_write_cap(t[1][1], made, name)
        return False
    if t[0] == "attr":
        return False
    if t[0] in ("fmt", "bin", "tuple", "list", "dict", "new", "call", "exc", "phi", "sub"):
        return any(is_write_cap(x, made, name) for y in t[1:] for x in ([y] if isinstance(y, tuple) and y and isinstance(y[0], str) else (y if isinstance(y, tuple) else ())))
    return False


def given(t, made, name):
    return any(is_write_cap(x, made, name) for x in list(t[2]) + [v for k, v in t[3]])


def uses(t, made, name):
    """What a call hands the write capability to, unless that is where it belongs."""
    n = (fname(t[1]) or "").rsplit(".", 1)[-1]
    if not given(t, made, name):
        return None
    if n in DERIVED or n in HARMLESS or n.endswith("_from_string") or n in ("is_directory", "is_write", "isinstance", "len", "type"):
        return None
    if n == "setContent" and private_path(t[1][1], name):
        return None
    return n


def exposes(v, made, name):
    if v[0] == "exc":
        return False
    fields = [x for n, x in v[2]] if v[0] == "new" else list(v[2]) if v[0] == "call" else []
    return any(is_write_cap(x, made, name) for x in fields)


def readers(ctx, name):
    for q, op in (("replicate.is_replication_setup", "exists"), ("replicate.get_replica_rwcap", "getContent")):
        it, ps = ctx.run(q)
        where = ctx.func(q).loc()
        found = False
        for path in ps:
            for e in calls(path):
                if method(e.a) == op or (op == "exists" and fname(e.a[1]) in ("os.path.exists", "exists")):
                    base = e.a[1][1] if method(e.a) else e.a[2][0]
                    ctx.check(is_config_path(base, name), "same file", q, e.loc, "another file than the one the set-up writes", path)
                    found = True
        if not found:
            ctx.bad("same file", q, where, "the private file is not consulted")
        if op == "exists":
            for path in ps:
                truth = [e.b for e in flat(path.events) if e.kind == "guard" and e.a[0] == "call" and method(e.a) == "exists"]
                v = path.value
                while v[0] == "call" and v[1] == ("g", "builtins.bool"):
                    v = v[2][0]
                good = v[0] == "call" and method(v) == "exists" or is_const(v) and truth == [v[2]]
                ctx.check(path.kind == "return" and good, "same file", q + " (result)", where, "whether replication is set up is not whether the file exists", path)
    # The path every implementation of the Tahoe-LAFS client gives for it.
    m = ctx.func("tahoe.Tahoe.get_private_path")
    it, ps = ctx.run(m)
    param = p(m.node.args.args[1].arg)
    for path in ps:
        v = path.value
        good = path.kind == "return" and any(x[0] == "call" and method(x) == "get_private_path" and param in x[2] for x in walk(v)) and not any(x[0] == "call" and method(x) in ("child", "sibling") for x in walk(v))
        ctx.check(good, "same file", "tahoe.Tahoe.get_private_path", m.loc(), "not the node's private directory", path)


def plugin(ctx):
    q = "_plugin.ZKAPAuthorizer.get_client_resource"
    atoms = ("resource.*", "recover.*", "tahoe.*", "replicate.*", "model.*", "controller.*", "_storage_client.*")
    carrier = ctx.program.cls("replicate.ReplicationAlreadySetup").qual

    def refused(it, st, op, term):
        """A second set-up is refused by this error."""
        return (carrier,) if op == "call" and (fname(term[1]) or "").endswith("setup_tahoe_lafs_replication") else None

    it, ps = ctx.run(q, atoms + ("ZKAPAuthorizer._get_store", "_get_store", "_get_redeemer"), hazards=refused)
    where = ctx.func(q).loc()
    n = 0
    for path in ps:
        for e in calls(path):
            f = next((v for k, v in e.a[3] if k == "setup_replication"), None)
            if f is None:
                f = next((a for a in e.a[2] if a[0] in ("clo", "partial", "bm") ), None)
            if f is None or not (fname(e.a[1]) or "").endswith("from_configuration"):
                continue
            n += 1
            closure(ctx, it, f, path, where, carrier)
    if not n:
        raise AnalysisBroken("the set-up function given to the resources was not found")


def closure(ctx, it, f, outer, where, carrier):
    for path in it.apply(f, [], outer.st):
        evs = calls(path)
        done = False
        on = []
        for i, e in enumerate(evs):
            if e.kind == "raised":
                continue
            n = (fname(e.a[1]) or "").rsplit(".", 1)[-1]
            failed = i + 1 < len(evs) and evs[i + 1].kind == "raised" and evs[i + 1].a == e.a
            if n == "setup_tahoe_lafs_replication":
                done = not failed
            if n in ("replication_service", "setServiceParent", "enable_replication"):
                ctx.check(done, "turned on", "not before the set-up", e.loc, "replication is turned on although the set-up did not succeed", path)
                on.append(n)
            if n == "get_replica_rwcap":
                pass
        if path.kind == "return":
            ctx.check(done and {"replication_service", "setServiceParent"} <= set(on), "turned on", "after the set-up", where, "the set-up succeeds without replication being turned on", path)
            ctx.check(any(norm(path.value) == norm(e.a) for e in evs if (fname(e.a[1]) or "").endswith("setup_tahoe_lafs_replication")), "private", "what the plugin returns", where, "not the read capability which the set-up returned", path)
        elif path.kind == "raise" and isinstance(path.value, tuple):
            v = path.value
            again = any(e.kind == "raised" and (fname(e.a[1]) or "").endswith("setup_tahoe_lafs_replication") for e in evs)
            if again and v[0] in ("new", "exc") and v[1] == carrier:
                told = [v] if v[0] == "new" else refusals(ctx, carrier)
                ctx.check(bool(told) and all(tells_reader(x) for x in told), "answer", "capability of the existing replica", where,
                          "whoever asks again is not told the read capability of the existing replica but %s" % "; ".join(show(x) for x in told)[:200], path)
            if v[0] == "new":
                fields = [x for k, x in v[2]]
                raw = any(gives_write(x) for x in fields)
                ctx.check(not raw, "private", "the error of the plugin", where, "the error includes the write capability", path)
            ctx.ok("turned on", "nothing after a failure")


def refusals(ctx, carrier):
    """How the set-up itself refuses to be repeated."""
    it, ps = ctx.run(SETUP, ("tahoe.*",))
    return [path.value for path in ps if path.kind == "raise" and path.value[0] == "new" and path.value[1] == carrier]


def tells_reader(v):
    """Is the text carried by the error that of the stored capability's reader?"""
    for k, x in v[2]:
        for t in [x] + (list(x[1]) if x[0] == "tuple" else []):
            if t[0] == "call" and (fname(t[1]) or "").endswith("danger_real_capability_string") and len(t[2]) == 1:
                c = t[2][0]
                if c[0] == "attr" and c[2] == "reader" and c[1][0] == "call" and (fname(c[1][1]) or "").rsplit(".", 1)[-1] in ("get_replica_rwcap", "writeable_directory_from_string"):
                    return True
    return False


def gives_write(t):
    """Does the value include the write capability itself (and not only its reader)?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "attr" and t[2] == "reader":
        return False
    if t[0] == "call":
        n = (fname(t[1]) or "").rsplit(".", 1)[-1]
        if n == "get_replica_rwcap":
            return True
        if n in HARMLESS:
            return False
    return any(gives_write(x) for x in t if isinstance(x, tuple))


def answer(ctx):
    q = "resource.ReplicateResource.render_POST"
    carrier = ctx.program.cls("replicate.ReplicationAlreadySetup").qual
    cls = ctx.program.cls("resource.ReplicateResource").qual

    def hazards(it, st, op, term):
        if op == "call" and term[1][0] == "attr" and term[1][1] == ("self", cls) and not term[2]:
            return (carrier,)
        return None

    it, ps = ctx.run(q, (), hazards=hazards)
    where = ctx.func(q).loc()
    for path in ps:
        evs = calls(path)
        code = None
        caught = any(e.kind == "raised" and e.a[1][0] == "attr" and e.a[1][1] == ("self", cls) for e in evs)
        for e in evs:
            if e.kind != "call":
                continue
            if method(e.a) == "setResponseCode":
                code = e.a[2][0]
            if method(e.a) != "write":
                continue
            for x in said(e.a[2][0]):
                if x[0] == "dict":
                    for k, v in x[1]:
                        if is_const(k) and k[2] == "recovery-capability":
                            text = v
                            good = text[0] == "call" and (fname(text[1]) or "").endswith("danger_real_capability_string")
                            cap = text[2][0] if good else None
                            if caught:
                                src = cap is not None and (cap[0] == "call" and (fname(cap[1]) or "").endswith("_from_string") and is_carried(cap[2][0], carrier))
                                src = src or is_carried(text, carrier)
                                ctx.check(src, "answer", "existing replica", e.loc, "not the capability of the existing replica", path)
                                ctx.check(is_status(code, "CONFLICT", 409), "answer", "status for an existing replica", e.loc, "the status does not say that replication is set up already", path)
                            else:
                                src = cap is not None and cap[0] == "call" and cap[1][0] == "attr" and cap[1][1] == ("self", cls)
                                ctx.check(src, "answer", "new replica", e.loc, "not the capability which the set-up returned", path)
                                ctx.check(is_status(code, "CREATED", 201), "answer", "status for a new replica", e.loc, "the status does not say that the replica was created", path)


def is_status(t, name, n):
    return t is not None and (t[0] == "g" and t[1].endswith("." + name) or is_const(t) and t[2] == n)


def said(t):
    """What is written, without what the errors in it are about."""
    if t and t[0] == "exc":
        return
    if t and isinstance(t[0], str):
        yield t
    for x in t:
        if isinstance(x, tuple):
            yield from said(x)


def is_carried(t, carrier):
    return t[0] == "attr" and t[1][0] == "exc" and t[1][1] == carrier
