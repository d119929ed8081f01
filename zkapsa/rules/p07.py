"""
P07: symbolic comparison of the two price computations.  The price function is
put into a normal form (sum over the shares of size/value rounded up, new
minus old size); the operands of that function on the client and on the server
are compared operation by operation, including which shares count and when a
share counts as unleased.
"""
from .client import Client
from .server import *  # noqa: F401,F403
from .server import ATOMS, PAYING, Server, is_price, is_write_set, share_stats, unleased_sizes, write_price
from .p04 import written

ASSUMPTIONS = [
    "Tahoe-LAFS reports share sizes and lease expiry times correctly; nothing changes on the server between the client's query and its write",
    "the client's and the server's clocks agree (an operation racing with an expiry is not covered)",
]


def check(ctx):
    s, c = Server(ctx), Client(ctx)
    ctx.rule("rounded-up-per-share", "the price is the sum over all shares of size divided by the value of a pass, rounded up for each share", 1)
    ctx.rule("difference", "a mutable write costs the price of the sizes after it less the price of the sizes before it", 1)
    ctx.rule("size-after", "the size after a write is the largest of the current size and the ends of the data written", 1)
    ctx.rule("immutable-price", "client and server price one allocated_size for each requested share", 2)
    ctx.rule("lease-price", "client and server price the sizes of all shares stored under the storage index", 3)
    ctx.rule("mutable-price", "client and server price the write vectors sent against the current sizes of the shares written, plus the current sizes of those without unexpired lease", 6)
    ctx.rule("expiry-boundary", "a lease is unexpired on both sides exactly if its expiry is later than now, and a share's expiry is its latest one", 3)
    ctx.rule("pass-value", "both sides use their configured pass value, whose default is one constant", 3)
    per_share(ctx)
    mutable_formula(ctx)
    server_side(ctx, s)
    client_side(ctx, c)
    stats(ctx, s)
    pass_value(ctx)


def per_share(ctx):
    f = ctx.func("storage_common.required_passes")
    it, paths = ctx.run(f)
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        n += 1
        t = path.value
        ok = False
        x = ("elem", p("share_sizes"), 0)
        if t[0] == "sum" and t[3] == (p("share_sizes"),) and t[4] == () and t[1] == ZERO:
            ok = ceil_of(t[2], x)
        elif is_call(t, "sum") and len(t[2]) == 1:
            g = strip_list(t[2][0])
            ok = g[0] == "comp" and g[3] == (p("share_sizes"),) and g[4] == () and ceil_of(g[2], x)
        ctx.check(ok, "rounded-up-per-share", "required_passes", f.loc, "the price is %s" % show(t)[:300], path)
    if not n:
        ctx.bad("rounded-up-per-share", "required_passes", f.loc, "no price is ever returned")


def ceil_of(t, x):
    r = ceil_div(t)
    if r is None and t[0] == "call" and t[1][0] == "g" and t[1][1] == "builtins.max" and len(t[2]) == 2 and ZERO in t[2]:
        r = ceil_div([y for y in t[2] if y != ZERO][0])
    return r is not None and tuple(r) == (x, p("bytes_per_pass"))


def assume(t, lits):
    """Simplify values chosen by conditions under assumptions."""
    if not isinstance(t, tuple) or (t and t[0] == "c"):
        return t
    t = I(tuple(assume(x, lits) for x in t))
    if t and t[0] == "phi":
        alts = []
        for conds, v in t[1]:
            ok = True
            rest = []
            for d in ([list(a) for a in disjuncts(conds)] or [[]]):
                feasible = all(lits.get(c, b) is b for c, b in d)
                if feasible:
                    rest.append([(c, b) for c, b in d if c not in lits])
            if rest:
                alts.append((rest, v))
        vs = {v for r, v in alts}
        if len(vs) == 1:
            return I(next(iter(vs)))
        certain = [v for r, v in alts if [] in r]
        if certain:
            return I(certain[0])
    if t and t[0] == "call" and t[1] == ("g", "builtins.max") and len(t[2]) == 2 and ZERO in t[2]:
        pass
    return t


TW = ("p", "tw_vectors")


def mutable_formula(ctx):
    f = ctx.func("storage_common.get_required_new_passes_for_mutable_write")
    it, paths = ctx.run(f, ("required_passes", "summarize"))
    cur = p("current_sizes")
    for path in paths:
        if path.kind != "return":
            ctx.bad("difference", f.name, f.loc, "no price is computed: %s" % path.kind, path)
            continue
        t = path.value
        ok = t[0] == "bin" and t[1] == "-" and all(is_call(x, "required_passes") and x[2][0] == p("pass_value") for x in t[2:4])
        if not ctx.check(ok and keys(t[3][2][1], strip_list) == cur, "difference", f.name, f.loc, "the price is %s" % show(t)[:300], path):
            continue
        new = keys(t[2][2][1], strip_list)
        ups = None if has_set(new) else updates(new, cur)
        if not ctx.check(ups, "size-after", f.name, f.loc, "the sizes after the write are %s" % show(new)[:300], path):
            continue
        e = I(("elem", TW, 0))
        data = I(("sub", ("sub", TW, e), const(1)))
        nolen = I(("cmp", "is", ("sub", ("sub", TW, e), const(2)), NONE))
        base = I(("call", ("attr", cur, "get"), (e, ZERO), (), 0))
        good = True
        for has_data in (True, False):
            lits = {nolen: True, data: has_data}
            some = False
            for key, val, gens, conds in ups:
                good = good and key == e and gens == (TW,)
                v = norm(assume(val, lits))
                cs = []
                feasible = True
                for a, b in (conds if not (conds and conds[0] == "dnf") else (("?", None),)):
                    a = norm(assume(a, lits))
                    if a in (norm(data), norm(nolen)):
                        feasible = feasible and (b is lits[nolen if a == norm(nolen) else data])
                        continue
                    cs.append((a, b))
                if feasible:
                    some = True
                    good = good and grows(v, cs, norm(base), norm(data), has_data)
            # if there is no case for it, the size is left as it is
            good = good and (some or not has_data)
        ctx.check(good, "size-after", f.name, f.loc, "the size of a share after the write is %s" % "; or ".join(
            "%s if %s" % (show(val)[:300], show(conds)[:200] if conds else "always") for key, val, gens, conds in ups), path)


def end_of_data(v, data, has_data):
    """Is v the end of the data written (0 if none)?"""
    if not has_data:
        return v == ZERO
    if not (v[0] == "call" and v[1] == ("g", "builtins.max")):
        return False
    default = [x for k, x in v[3] if k == "default"]
    args = [x for x in v[2]]
    if len(args) == 2 and ZERO in args:
        args.remove(ZERO)
        return end_of_data(args[0], data, has_data)
    if len(args) != 1 or default not in ([], [ZERO]):
        return False
    g = strip_list(args[0])
    if g[0] != "comp" or g[4] != () or g[3] != (data,):
        return False
    x = ("elem", data, 0)
    a, b = ("sub", x, ZERO), ("call", ("g", "builtins.len"), (("sub", x, const(1)),), (), 0)
    return g[2] in (("bin", "+", a, b), ("bin", "+", b, a))


def grows(v, conds, base, data, has_data):
    end = lambda x: end_of_data(x, data, has_data) or (not has_data and is_default_max(x, data))
    if len(conds) == 1:
        (c, b), = conds
        ab = less(c)
        if ab is None:
            return False
        if b is True and ab[0] == base and end(ab[1]) and end(v):
            return True
        if b is False and ab[1] == base and end(ab[0]) and end(v):
            return True
        return False
    if conds:
        return False
    if v[0] == "call" and v[1] == ("g", "builtins.max") and len(v[2]) == 2:
        return any(x == base and end(y) for x, y in (v[2], v[2][::-1]))
    if v[0] == "phi" and len(v[1]) == 2:
        for (c1, v1), (c2, v2) in (v[1], v[1][::-1]):
            if v1 == base and end(v2) and len(c2) == 1:
                ab = less(c2[0][0])
                if ab and ((c2[0][1] is True and ab[0] == base and end(ab[1])) or (c2[0][1] is False and ab[1] == base and end(ab[0]))):
                    return True
    return not has_data and v == base


def is_default_max(v, data):
    return v[0] == "call" and v[1] == ("g", "builtins.max") and [x for k, x in v[3] if k == "default"] == [ZERO]


def updates(t, base):
    """[(key, value, gens, conds)] when the mapping is base with these entries on top"""
    if t[0] == "seq" and t[1] == "dict":
        items = t[2]
        if not items or items[0] != ("ext", base):
            return None
        out = []
        for x in items[1:]:
            if x[0] == "each" and x[1][0] == "tuple" and len(x[1][1]) == 2:
                out.append((x[1][1][0], x[1][1][1], x[2], x[3]))
            elif x[0] == "ext" and x[1][0] == "comp" and x[1][2][0] == "tuple":
                d = x[1]
                out.append((d[2][1][0], d[2][1][1], d[3], d[4]))
            else:
                return None
        return out
    if t[0] == "bin" and t[1] == "|" and t[2] == base and t[3][0] == "comp":
        d = t[3]
        return [(d[2][1][0], d[2][1][1], d[3], d[4])]
    return None


def server_side(ctx, s):
    for op, rule in (("allocate_buckets", "immutable-price"), ("add_lease", "lease-price")):
        it, paths = s.paths(op)
        for t, e, path in prices(paths, s):
            if op == "allocate_buckets" and any(same(t, x.a) for x in flat(path.events) if x.kind == "call" and fname(x.a[1]) == "required_passes") and paid(path, t):
                pass
            if not paid(path, t):
                continue
            why = is_price(s, op, t)
            ctx.check(why is None, rule, "server " + op, e.loc, "the server's price is %s: %s" % (show(t)[:200], why), path)
    it, paths = s.paths("slot_testv_and_readv_and_writev")
    seen = False
    for path in paths:
        for e in flat(path.events):
            if e.kind != "guard" or less(e.a) is None or lenof(less(e.a)[0]) is None or not contains_price(less(e.a)[1]):
                continue
            seen = True
            parts = write_price(less(e.a)[1])
            if not ctx.check(parts, "mutable-price", "server: price", e.loc, "the server's price is %s" % show(less(e.a)[1])[:300], path):
                continue
            growth, renewal = parts
            why = server_current(s, growth[2][1])
            ctx.check(growth[2][2] == p("tw_vectors"), "mutable-price", "server: writes", e.loc, "the server prices %s" % show(growth[2][2])[:200], path)
            ctx.check(why is None, "mutable-price", "server: current sizes", e.loc, "the server's current sizes: %s" % why, path)
            why = unleased_sizes(s, renewal[2][1])
            ctx.check(why is None, "mutable-price", "server: leases renewed", e.loc, "the server's price of the leases renewed: the shares are %s" % why, path)
            ctx.check(growth[2][0] == s.pass_value == renewal[2][0], "mutable-price", "server: price", e.loc, "the server's price is for passes of the value %s, %s" % (show(growth[2][0]), show(renewal[2][0])), path)
    if not seen:
        raise AnalysisBroken("the server computes no price for mutable writes")


def contains_price(t):
    return mentions(t, lambda x: is_call(x, ("get_required_new_passes_for_mutable_write", "required_passes")))


def prices(paths, s):
    for path in paths:
        for e in flat(path.events):
            if e.kind == "call" and fname(e.a[1]) == "required_passes":
                yield e.a, e, path


def paid(path, t):
    """Is the term what the number of valid passes is compared with?"""
    for e in flat(path.events):
        if e.kind == "guard" and less(e.a) is not None and contains(less(e.a)[1], t) and lenof(less(e.a)[0]) is not None:
            return True
    return False


def server_current(s, t):
    """Why the mapping is not the current size of every written share."""
    t = keys(t)
    if t[0] != "comp" or len(t[3]) != 1 or t[2][0] != "tuple":
        return "not computed share by share: %s" % show(t)[:200]
    g = t[3][0]
    why = share_stats(s, g)
    if why is not None:
        return why
    e = ("elem", g, 0)
    if t[2][1][0] != ("sub", e, const(0)):
        return "share %s" % show(t[2][1][0])
    if t[4] != ():
        return "restricted by %s" % show(t[4])[:200]
    if t[2][1][1] != ("attr", ("sub", e, const(1)), "size"):
        return "the size of a share is %s" % show(t[2][1][1])[:300]
    return None


def client_side(ctx, c):
    it, paths = c.paths("allocate_buckets")
    for path in paths:
        for e in c.acquisitions(path):
            n = arg(e.a, 1, "count")
            if mentions(n, lambda x: x[0] == "call" and x[1] == c.get_passes):
                continue        # replacement of rejected passes (P11)
            why = is_price(c, "allocate_buckets", n)
            ctx.check(why is None, "immutable-price", "client allocate_buckets", e.loc, "the client offers %s: %s" % (show(n)[:200], why), path)
    it, paths = c.paths("add_lease")
    for path in paths:
        for e in c.acquisitions(path):
            n = arg(e.a, 1, "count")
            if mentions(n, lambda x: x[0] == "call" and x[1] == c.get_passes):
                continue
            ok = is_call(n, "required_passes") and n[2][0] == c.pass_value
            sizes = strip_list(n[2][1]) if ok else NONE
            if ok:
                r = remote_of(sizes, "share_sizes")
                ok = not has_set(sizes) and r is not None and r[2][1:] == (p("storage_index"), NONE)
                if ok and sizes[0] == "comp":
                    x = sizes[3][0]
                    ok = len(sizes[3]) == 1 and sizes[2] == ("sub", x, ("elem", x, 0)) and only_types(sizes[4])
                    ok = ok and keys(x, strip_list) == r
                else:
                    ok = ok and keys(sizes, strip_list) == r
            ctx.check(ok, "lease-price", "client add_lease", e.loc, "the client offers %s" % show(n)[:300], path)
    it, paths = c.paths("slot_testv_and_readv_and_writev")
    seen = False
    for path in paths:
        sent = [r.a[2][4] for r in c.remote_calls(path) if r.a[2][0] == const("slot_testv_and_readv_and_writev") and len(r.a[2]) > 4]
        for e in c.acquisitions(path):
            n = arg(e.a, 1, "count")
            if n == ZERO or mentions(n, lambda x: x[0] == "call" and x[1] == c.get_passes):
                continue
            seen = True
            parts = write_price(n)
            ok = parts and all(x[2][0] == c.pass_value for x in parts)
            if not ctx.check(ok, "mutable-price", "client: price", e.loc, "the client offers %s" % show(n)[:300], path):
                continue
            growth, renewal = parts
            ctx.check(all(same(x, growth[2][2]) for x in sent), "mutable-price", "client: writes sent", e.loc, "the client prices other writes than it sends", path)
            ctx.check(same_writes(growth[2][2]), "mutable-price", "client: writes", e.loc, "the client prices %s" % show(growth[2][2])[:300], path)
            why = client_current(c, growth[2][1])
            ctx.check(why is None, "mutable-price", "client: current sizes", e.loc, "the client's current sizes: %s" % why, path)
            why = client_unleased(c, renewal[2][1])
            ctx.check(why is None, "mutable-price", "client: leases renewed", e.loc, "the client's price of the leases renewed: %s" % why, path)
    if not seen:
        raise AnalysisBroken("the client computes no price for mutable writes")


def remote_of(t, name):
    rs = [x for x in walk(t) if is_call(x, "callRemote") and x[2] and x[2][0] == const(name)]
    return rs[0] if rs else None


def only_types(conds):
    if conds and conds[0] == "dnf":
        return False
    return all(c[0] == "call" and fname(c[1]) == "isinstance" and b is True for c, b in conds)


def same_writes(t):
    tw = p("tw_vectors")
    if t == tw:
        return True
    if t[0] != "comp" or t[3] != (tw,) or t[4] != () or t[2][0] != "tuple":
        return False
    k, v = t[2][1]
    e = ("elem", tw, 0)
    return k == e and v[0] == "tuple" and len(v[1]) == 3 and v[1][1:] == (("sub", ("sub", tw, e), const(1)), ("sub", ("sub", tw, e), const(2)))


def client_current(c, t):
    t = keys(t)
    if t[0] != "comp" or len(t[3]) != 1 or t[2][0] != "tuple":
        return "not computed share by share: %s" % show(t)[:200]
    if t[2][1][0] != ("elem", t[3][0], 0):
        return "of %s" % show(t[2][1][0])[:100]
    why, rest = client_shares(t[3][0], t[2][1][1], t[4])
    if why is None and rest:
        return "restricted by %s" % restriction(rest)
    return why


def client_unleased(c, t):
    t = strip_list(t)
    if t[0] != "comp" or len(t[3]) != 1:
        return "not computed share by share: %s" % show(t)[:200]
    if t[1] == "set":
        return "shares of equal size are counted once"
    why, rest = client_shares(t[3][0], t[2], t[4])
    if why is not None:
        return why
    if not rest:
        return "shares which have an unexpired lease are counted, too"
    for cnd, b in rest:
        ab = less(cnd)
        if not (ab is not None and is_call(ab[0], "seconds") and receiver(ab[0])[0] == "attr" and b is False
                and ab[1] == ("attr", ("sub", t[3][0], ("elem", t[3][0], 0)), "lease_expiration")):
            return "restricted by %s" % restriction(rest)
    return None


def restriction(conds):
    return " and ".join("%s%s" % ("" if b else "not ", show(c)[:200]) for c, b in conds)


def client_shares(x, size, conds):
    """
    Whether size is the size of each of the shares of the slot which are
    written: why not; and any other conditions on the share.
    """
    r = remote_of(x, "stat_shares")
    if r is None or r[2][1:] != (("list", (p("storage_index"),)),):
        return "not those of the requested slot", ()
    e = ("elem", x, 0)
    if size != ("attr", ("sub", x, e), "size"):
        return "the size of a share is %s" % show(size)[:200], ()
    if conds and conds[0] == "dnf":
        return "restricted by %s" % show(conds)[:200], ()
    written, rest = False, []
    for cnd, b in conds:
        if cnd[0] == "cmp" and cnd[1] == "in" and cnd[2] == e and b is True and (is_write_set(cnd[3], p("tw_vectors")) or write_set_of(cnd[3])):
            written = True
        elif not only_types(((cnd, b),)):
            rest.append((cnd, b))
    if not written:
        return "shares which are not written are counted, too", ()
    return None, rest


def write_set_of(t):
    """The write set taken from the converted vectors."""
    t = strip_set(t)
    return t[0] == "comp" and len(t[3]) == 1 and same_writes(t[3][0]) and len(t[4]) <= 1


def stats(ctx, s):
    # what is reported is the latest expiry
    f = ctx.func("_storage_server.get_lease_expiration")
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        if is_const(v) and cval(v) in (None, 0):
            none = [e for e in path.events if e.kind == "guard"]
            ctx.check(any(empty_leases(e.a, e.b) for e in none), "expiry-boundary", "no lease", f.loc, "a share with leases is reported without expiry", path)
            continue
        ok = v[0] == "call" and v[1] == ("g", "builtins.max") and len(v[2]) == 1
        if ok:
            g = strip_list(v[2][0])
            ok = g[0] == "comp" and len(g[3]) == 1 and is_call(g[3][0], "get_leases") and g[4] == () and is_call(g[2], "get_expiration_time") and receiver(g[2]) == ("elem", g[3][0], 0)
        ctx.check(ok, "expiry-boundary", "latest lease", f.loc, "the expiry reported is %s" % show(v)[:200], path)
    f = s.method("remote_stat_shares")
    it, paths = ctx.run(f, ATOMS)
    for path in paths:
        v = strip_list(path.value or NONE)
        src = [x for x in walk(v) if is_call(x, "get_share_stats")]
        ok = path.kind == "return" and v[0] == "comp" and v[4] == () and v[3] == (p("storage_indexes_or_slots"),) and src and all(x[2][1:] == (("elem", p("storage_indexes_or_slots"), 0), NONE) for x in src) \
            and not any(x[0] == "comp" and x[4] != () for x in walk(v))
        ctx.check(ok, "lease-price", "server stat_shares", f.loc, "stat_shares does not report all shares of each storage index", path)
    f = s.method("remote_share_sizes")
    it, paths = ctx.run(f, ATOMS)
    for path in paths:
        v = keys(path.value or NONE)
        src = [x for x in walk(v) if is_call(x, "get_share_stats")]
        ok = path.kind == "return" and v[0] == "comp" and v[4] == () and src and all(x[2][1:] == (p("storage_index_or_slot"), p("sharenums")) for x in src)
        if ok:
            e = ("elem", v[3][0], 0)
            ok = v[2] == ("tuple", (("sub", e, ZERO), ("attr", ("sub", e, const(1)), "size")))
        ctx.check(ok, "lease-price", "server share_sizes", f.loc, "share_sizes does not report the size of each share selected", path)
    # every share is reported, with its size and expiry
    f = ctx.func("_storage_server.get_share_stats")
    it, paths = ctx.run(f, ("get_all_share_paths", "get_storage_index_share_size", "get_slot_share_size", "get_lease_expiration"))
    n = 0
    for path in paths:
        if path.kind not in ("return",):
            continue
        for e in path.events:
            if e.kind != "loop":
                continue
            for sub in e.b:
                ys = [x for x in sub.events if x.kind == "yield"]
                lits = [(x.a, x.b) for x in sub.events if x.kind == "guard"]
                skip = any(t[0] == "cmp" and t[1] == "in" and t[3] == p("sharenums") and b is False for t, b in lits)
                if sub.kind not in ("next", "continue"):
                    continue
                n += 1
                if not ctx.check(skip or len(ys) == 1, "lease-price", "get_share_stats: all", e.loc, "a share is left out of (or doubled in) the statistics", path):
                    continue
                for y in ys:
                    st = y.a[1][1] if y.a[0] == "tuple" and len(y.a[1]) == 2 else NONE
                    exp = field_of(st, "lease_expiration")
                    ok = exp is not None and any(is_call(x, "get_lease_expiration") for x in walk(exp)) and (exp[0] == "call" or (exp[0] == "or" and exp[1][1:] == (ZERO,)) or exp[0] == "phi")
                    ctx.check(ok, "expiry-boundary", "stat", y.loc, "the expiry reported is %s" % show(exp or NONE)[:200], path)
    if not n:
        raise AnalysisBroken("get_share_stats yields nothing")


def field_of(t, name):
    if t[0] == "new":
        for k, v in t[2]:
            if k.split(":")[-1] == name:
                return v
    return None


def empty_leases(t, b):
    t2 = t
    if t2[0] == "comp" or (t2[0] == "call" and is_call(t2, "get_leases")):
        return b is False
    if t2[0] == "exists":
        return b is False
    return b is False


def pass_value(ctx):
    consts = set()
    for fn, what in (("storage_common.get_configured_pass_value", "client"), ("_plugin.ZKAPAuthorizer.get_storage_server", "server")):
        f = ctx.func(fn)
        it, paths = ctx.run(f)
        found = None
        for path in paths:
            for e in flat(path.events):
                pass
            ts = list(walk(path.value)) if path.value is not None else []
            ts += [x for e in flat(path.events) for y in (e.a, e.b) if isinstance(y, tuple) for x in walk(y)]
            for x in ts:
                if x[0] == "call":
                    if fname(x[1]) == "get" and x[2] and x[2][0] == const("pass-value") and len(x[2]) > 1:
                        found = x[2][1]
                    kw = dict(x[3])
                    if kw.get("option") == const("pass-value"):
                        found = kw.get("default")
                    elif len(x[2]) >= 3 and x[2][1] == const("pass-value"):
                        found = x[2][2]
        ok = ctx.check(found is not None and is_const(found) and isinstance(cval(found), int) and cval(found) > 0, "pass-value", what + " default", f.loc, "no positive default for the pass value")
        if ok:
            consts.add(cval(found))
    ctx.check(len(consts) == 1, "pass-value", "one default", ctx.func("storage_common.get_configured_pass_value").loc, "client and server have different default pass values: %s" % sorted(consts))
