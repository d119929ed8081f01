"""
P17: along every way through a redemption, including failing calls and the
coroutine being closed where it waits, the voucher is marked as active before
the first suspension, every suspension happens while it is marked, and the mark
is gone at the end; redemption starts only for a voucher that is not marked and
whose state allows it; nothing else asks the redeemer or changes the marks.
"""
from .controller import *  # noqa: F401,F403
from .controller import ATOMS, PC, Controller, bodies, call_sites, looked_up, member_guard, membership, owned

TECHNIQUE = "typestate analysis over enumerated paths, including exceptional ones and closing of coroutines"
ASSUMPTIONS = ["the process runs on one reactor thread, so that code between two suspensions is not interrupted",
               "a redemption whose coroutine is dropped without being closed ends with the process"]
ALLOWS = {"Pending": True, "Unpaid": True, "Error": True, "Redeeming": False, "Redeemed": False, "DoubleSpend": False}


def check(ctx):
    c = Controller(ctx)
    ctx.rule("marked-while-waiting", "a redemption is suspended only while its voucher is marked as active", 1)
    ctx.rule("unmarked-at-the-end", "the mark is removed on every way a redemption can end", 1)
    ctx.rule("marks-own-voucher", "only the mark of the voucher being redeemed is set and removed", 1)
    ctx.rule("starts-if-unmarked", "a redemption starts only if none is in progress and the state allows it", 1)
    ctx.rule("states-allow", "exactly pending, unpaid and failed vouchers may be redeemed", 6)
    ctx.rule("active-is-shown", "a voucher with a redemption in progress is seen as being redeemed", 1)
    ctx.rule("nothing-else", "nothing else asks the redeemer or changes the marks", 1)
    runs(ctx, c)
    states(ctx)
    shown(ctx, c)
    for owner, m, node in call_sites(ctx.program, "redeemWithCounter"):
        ok = owned(ctx, owner) or delegates(ctx.program, owner, "redeemWithCounter")
        ctx.check(ok, "nothing-else", "redeemWithCounter from %s" % owner.split(".", 1)[1], (m.relpath, node.lineno), "the redeemer is asked outside of a redemption")
    name = c.active[2]
    for owner, m, node in call_sites(ctx.program, name):
        cls = owner.rsplit(".", 1)[0]
        if m.name == ctx.program.cls(PC).module.name and (owned(ctx, owner) or reads_only(m, node)):
            continue
        if cls.endswith(PC.split(".")[-1]) and not reads_only(m, node):
            ctx.bad("nothing-else", "%s in %s" % (name, owner.split(".", 1)[1]), (m.relpath, node.lineno), "the marks are changed outside of a redemption")


def reads_only(m, node):
    """Is the dictionary only looked into here?"""
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Subscript) and x.value is node:
            return isinstance(x.ctx, ast.Load)
        if isinstance(x, ast.Compare) and node in x.comparators:
            return True
        if isinstance(x, ast.Attribute) and x.value is node:
            return x.attr in ("get", "keys", "values", "items")
        if isinstance(x, ast.Call) and node in x.args:
            return isinstance(x.func, ast.Name) and x.func.id in ("len", "list", "sorted", "bool", "set")
    return False


def marks(c, e):
    """("set"|"del", key) when the event changes a mark."""
    if e.kind == "setitem" and e.a == c.active:
        return "set", e.b
    if e.kind == "delitem" and e.a == c.active:
        return "del", e.b
    if e.kind == "call" and e.a[1][0] == "attr" and e.a[1][1] == c.active:
        n = fname(e.a[1])
        if n == "pop":
            return "del", e.a[2][0]
        if n == "setdefault":
            return "set", e.a[2][0]
        if n in ("clear", "update", "popitem"):
            return "other", None
    return None


def runs(ctx, c):
    f = ctx.program.find_method(c.cls, "redeem")
    n = 0
    for path in c.paths(raise_all=True, closing=True):
        for events, gens, kind, before in bodies(path):
            n += run(ctx, c, path, f, events, gens, kind, before)
    if not n:
        raise AnalysisBroken("redeem never waits")


def run(ctx, c, path, f, events, gens, kind, before):
    marked, n = False, 0
    known = list(before)
    loc = f.loc
    for e in events:
        if e.kind == "guard":
            known.append((e.a, e.b))
        m = marks(c, e)
        if m is not None:
            ctx.check(m[0] != "other" and m[1] is not None and c.of_voucher(m[1]), "marks-own-voucher", "redeem", e.loc, "the mark of %s is changed" % show(m[1] or c.active), path)
            if m[0] == "set" and not marked:
                allowed(ctx, c, path, e, known)
            marked, loc = m[0] == "set", e.loc
        if e.kind in ("await", "yield"):
            n += 1
            ctx.check(marked, "marked-while-waiting", "redeem", e.loc, "the redemption is suspended while its voucher is not marked as active", path)
    ctx.check(not marked, "unmarked-at-the-end", "redeem", loc, "the voucher is still marked as active when the redemption ends by %s" % kind, path)
    return n


def allowed(ctx, c, path, e, known):
    """The voucher is unmarked and its state, as shown, allows redemption."""
    told = [member_guard(g, b, c.active) for g, b in known] + [membership(x, c.active) for x in path.events if x.kind == "subfail"]
    unmarked = any(t is not None and t[1] is False and c.of_voucher(t[0]) for t in told)
    unknown = any(x.kind == "raised" and c.is_store_call(x.a, "get") and x.a[2] == (p("voucher"),) for x in path.events) and \
        any(x.kind == "catch" and "KeyError" in str(x.b) for x in path.events)
    refused = any(b is not True and is_should(g) for g, b in known)
    asked = any(b is True and is_should(g) for g, b in known) or shown_state(c, known)
    final = any(b is False and is_instance(g, "Pending") for g, b in known)
    ctx.check(unknown or (unmarked and not refused and asked) or (final and asked), "starts-if-unmarked", "redeem", e.loc,
              "a redemption starts although one may be in progress or the voucher's state may not allow it", path)


def shown_state(c, known):
    """Does the path show the state as unpaid or failed, which allow redemption?"""
    for g, b in known:
        for m in (c.unpaid, c.errors):
            t = member_guard(g, b, m)
            if t is not None and t[1] is True and c.of_voucher(t[0]):
                return True
    return False


def is_should(g):
    return g[0] == "call" and g[1][0] == "attr" and fname(g[1]) == "should_start_redemption"


def is_instance(g, cls):
    return g[0] == "call" and g[1] == ("g", "builtins.isinstance") and g[2][1][0] == "cls" and g[2][1][1].endswith("." + cls)


def states(ctx):
    for name, want in ALLOWS.items():
        f = ctx.func("model.%s.should_start_redemption" % name)
        it, paths = ctx.run(f)
        for path in paths:
            ctx.check(path.kind == "return" and path.value == const(want), "states-allow", name, f.loc,
                      "should_start_redemption of %s is %s" % (name, show(path.value) if path.value is not None else path.kind), path)


def shown(ctx, c):
    f = ctx.func(PC + ".incorporate_transient_state")
    it, paths = ctx.run(f, ATOMS)
    v = p(f.node.args.args[1].arg)
    number = I(("attr", v, "number"))
    n = 0
    for path in paths:
        gs = [(e.a, e.b) for e in flat(path.events) if e.kind == "guard"]
        pending = [b for g, b in gs if is_instance(g, "Pending")]
        active = [t[1] for t in (membership(e, c.active) for e in flat(path.events)) if t is not None and t[0] == number]
        if path.kind != "return" or pending[:1] == [False]:
            continue
        if not active:
            # decided without looking at the marks
            ctx.bad("active-is-shown", "incorporate_transient_state", f.loc, "a pending voucher's state is decided without looking whether it is active", path)
            continue
        if active[0] is True:
            n += 1
            st = dict(path.value[2]).get("state") if path.value[0] in ("evolve", "new") else None
            if path.value[0] == "evolve" and path.value[1] != v:
                st = None
            ok = st is not None and looked_up(st, c.active) == number
            ctx.check(ok, "active-is-shown", "incorporate_transient_state", f.loc, "a voucher being redeemed is shown as %s" % show(path.value)[:200], path)
    if not n:
        raise AnalysisBroken("incorporate_transient_state never shows an active redemption")
