"""
P10: ownership (typestate) of token groups.  On every path of a client
operation each group of passes acquired, with every part it is divided into or
extended by, is settled (mark_spent, mark_invalid or reset) before the path
ends; the pass factory settles the tokens it took when it fails to make passes
of them.
"""
from .client import *  # noqa: F401,F403
from .client import Client, Groups

ASSUMPTIONS = [
    "a settling call which itself fails (the database refuses) is not required to be repeated",
    "retry loops are followed for two rounds; a third round has the same states",
]


def check(ctx):
    c = Client(ctx)
    ctx.rule("settled-on-every-exit", "every acquired token group is settled on each way the operation ends", 3)
    ctx.rule("spent-after-acceptance", "mark_spent happens only after the server's answer, and never together with reset or mark_invalid of the same tokens", 3)
    ctx.rule("factory-settles", "when no passes can be made of tokens taken from the wallet, they are returned", 1)
    ctx.rule("group-marks-its-tokens", "settling a group hands exactly the group's tokens to its factory's operation of the same name", 3)
    ctx.rule("factory-marks-tokens", "the factory hands the tokens to the wallet operation of that meaning", 3)
    ctx.rule("division-keeps-tokens", "dividing or extending a group keeps every token in exactly one of the results", 2)
    for op in c.public():
        it, paths = c.paths(op.name, closing=True)
        found = False
        for path in paths:
            if not c.acquisitions(path) or c.is_group_none(path):
                continue
            found = True
            check_path(ctx, c, op, path)
        if op.name in PAYING and not found:
            raise AnalysisBroken("%s acquires no passes" % op.name)
    factory(ctx)
    groups(ctx)


def check_path(ctx, c, op, path):
    g = Groups(c).run(path)
    evs = list(flat(path.events))
    for t, happened in g.items.items():
        if path.kind == "loop":
            continue
        n = [h for h in happened]
        e = evs[-1] if evs else None
        if not ctx.check(n, "settled-on-every-exit", op.name, last_loc(path), "the tokens of %s are neither spent, invalidated nor returned when the operation ends (%s)" % (show(t)[:160], path.kind), path):
            return
        kinds = {k for k, bad, ev in happened if not bad}
        clash = "mark_spent" in kinds and len(kinds) > 1 and not after_failure(evs, happened)
        ctx.check(not clash, "spent-after-acceptance", op.name + ": exclusive", last_loc(path),
                  "the tokens of %s are %s" % (show(t)[:160], " and ".join(sorted(kinds))), path)
    # mark_spent only after an accepted remote call
    accepted = False
    started = []
    for e in evs:
        if e.kind == "call" and fname(e.a[1]) == "callRemote":
            started.append(e.a)
        elif e.kind == "await" and e.a in started:
            accepted = "pending"
            last = e.a
        elif e.kind == "raised" and e.a in started:
            accepted = False
        elif e.kind == "call" and fname(e.a[1]) == "mark_spent" and receiver(e.a) is not None and g.is_group(I(receiver(e.a))):
            sent = [x for x in started if len(x[2]) > 0 and mentions(x, lambda y: y == ("attr", receiver(e.a), "passes") or mentions_group(g, y, receiver(e.a)))]
            ctx.check(bool(accepted) and bool(sent), "spent-after-acceptance", op.name, e.loc,
                      "tokens are marked spent although the server did not accept the operation before", path)


def mentions_group(g, y, r):
    return y[0] == "attr" and y[2] == "passes" and g.is_group(I(y[1])) and set(g.leaves(I(r))) <= set(g.leaves(I(y[1])))


def after_failure(evs, happened):
    """Was the second settlement a reaction to a failure of the first round?"""
    first = happened[0][2]
    i = evs.index(first)
    return any(e.kind in ("raised", "catch") for e in evs[i:])


def last_loc(path):
    for e in reversed(path.events):
        if e.loc:
            return e.loc
    return None


def factory(ctx):
    """SpendingController.get"""
    cls = "spending.SpendingController"
    take = self_field(ctx, cls, name="get_unblinded_tokens")
    back = self_field(ctx, cls, name="reset_unblinded_tokens")
    f = ctx.func(cls + ".get")
    it, paths = ctx.run(f, raise_all=True)
    failing = 0
    for path in paths:
        taken = None
        for e in flat(path.events):
            if e.kind == "call" and e.a[1] == take:
                taken = e.a
            if e.kind == "raised" and e.a == taken:
                taken = None
        if taken is None:
            continue
        if path.kind == "raise":
            failing += 1
            resets = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == back]
            ctx.check(any(e.a[2] and strip_list(e.a[2][0]) == taken for e in resets), "factory-settles", "SpendingController.get", last_loc(path),
                      "tokens taken from the wallet are lost when the passes cannot be made", path)
        else:
            v = path.value
            toks = field(v, "tokens") if v is not None and v[0] == "new" else None
            ctx.check(toks is not None and contains(toks, taken), "factory-settles", "SpendingController.get: result", last_loc(path),
                      "the group returned does not hold the tokens taken from the wallet", path)
    if not failing:
        raise AnalysisBroken("SpendingController.get: no failing path after taking tokens")
    for name, fld in (("mark_spent", "discard_unblinded_tokens"), ("mark_invalid", "invalidate_unblinded_tokens"), ("reset", "reset_unblinded_tokens")):
        target = self_field(ctx, cls, name=fld)
        it, paths = ctx.run(cls + "." + name)
        for path in paths:
            if path.kind != "return":
                continue
            cs = [e for e in flat(path.events) if e.kind == "call" and e.a[1][0] == "attr" and e.a[1][1][0] == "self"]
            good = len(cs) == 1 and cs[0].a[1] == target and strip_list(cs[0].a[2][-1]) == p("unblinded_tokens")
            ctx.check(good, "factory-marks-tokens", "SpendingController." + name, last_loc(path) or ctx.func(cls + "." + name).loc,
                      "%s does not hand exactly the given tokens to %s" % (name, fld), path)
    # for_store wires the wallet operations of the same names
    it, paths = ctx.run(cls + ".for_store")
    for path in paths:
        v = path.value
        for fld in ("get_unblinded_tokens", "discard_unblinded_tokens", "invalidate_unblinded_tokens", "reset_unblinded_tokens"):
            got = field(v, fld)
            ok = got is not None and got[0] in ("attr", "bm", "fn", "partial") and fname(got) == fld
            ctx.check(ok, "factory-marks-tokens", "for_store: " + fld, last_loc(path), "%s is served by %s" % (fld, show(got) if got else None), path)


def groups(ctx):
    cls = "spending.PassGroup"
    fac = self_field(ctx, cls, name="factory")
    toks = self_field(ctx, cls, name="tokens")
    msg = self_field(ctx, cls, name="message")

    def members(t, i):
        """Is the term the i-th halves of all the group's tokens?"""
        t = strip_list(t)
        return t[0] == "comp" and t[4] == () and t[3] == (toks,) and t[2] == ("sub", ("elem", toks, 0), const(i))

    for name in ("mark_spent", "mark_invalid", "reset"):
        f = ctx.func(cls + "." + name)
        it, paths = ctx.run(f)
        for path in paths:
            cs = [e for e in flat(path.events) if e.kind == "call" and receiver(e.a) == fac]
            good = path.kind == "return" and len(cs) == 1 and fname(cs[0].a[1]) == name and members(cs[0].a[2][-1], 0)
            if good and name == "mark_invalid":
                good = cs[0].a[2][0] == p("reason")
            ctx.check(good, "group-marks-its-tokens", "PassGroup." + name, last_loc(path) or f.loc,
                      "%s does not hand exactly the group's tokens to the factory's %s" % (name, name), path)
    for name, i in (("unblinded_tokens", 0), ("passes", 1)):
        f = ctx.func(cls + "." + name)
        it, paths = ctx.run(f)
        for path in paths:
            ctx.check(path.kind == "return" and members(path.value, i), "division-keeps-tokens", "PassGroup." + name, f.loc,
                      "%s is not the list of all of them in order" % name, path)
    f = ctx.func(cls + ".split")
    it, paths = ctx.run(f)
    for path in paths:
        v = path.value
        ok = False
        if path.kind == "return" and v[0] == "tuple" and len(v[1]) == 2:
            a, b = (evolved(x, toks) for x in v[1])
            ok = picks(a, toks, True) and picks(b, toks, False)
        ctx.check(ok, "division-keeps-tokens", "PassGroup.split", f.loc,
                  "split does not divide the tokens into those at the given positions and all others", path)
    f = ctx.func(cls + ".expand")
    it, paths = ctx.run(f)
    for path in paths:
        ok = False
        if path.kind == "return":
            t = evolved(path.value, toks)
            got = [e.a for e in flat(path.events) if e.kind == "call" and receiver(e.a) == fac and fname(e.a[1]) == "get"]
            ok = len(got) == 1 and got[0][2] == (msg, p("by_amount")) and t is not None and extends(t, toks, got[0])
        ctx.check(ok, "division-keeps-tokens", "PassGroup.expand", f.loc,
                  "expand does not add by_amount new tokens for the same message to all tokens of the group", path)


def evolved(t, default):
    """The tokens of a copy of the group."""
    if t[0] == "evolve":
        for k, v in t[2]:
            if k.lstrip("_") == "tokens":
                return v
        return None
    if t[0] == "new":
        return field(t, "tokens")
    return None


def picks(t, toks, selected):
    if t is None:
        return False
    t = strip_list(t)
    if t[0] != "comp" or len(t[3]) != 1 or t[3][0] != toks or t[2] != ("elem", toks, 0):
        return False
    if len(t[4]) != 1:
        return False
    cond, truth = t[4][0]
    return cond == ("cmp", "in", ("idx", toks), p("select_indices")) and truth is selected


def extends(t, toks, more):
    """toks followed by the pairs of the new group"""
    if t[0] == "bin" and t[1] == "+":
        a, b = t[2], strip_list(t[3])
        if a != toks:
            return False
        if b == ("attr", more, "_tokens"):
            return True
        if is_call(b, "zip"):
            return tuple(fname(x) if x[0] != "attr" else x[2] for x in b[2]) == ("unblinded_tokens", "passes") and all(contains(x, more) for x in b[2])
        return False
    return t[0] in ("seq", "list") and contains(t, toks) and contains(t, more)
