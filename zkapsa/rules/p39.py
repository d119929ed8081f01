"""
P39: the quoted price is the price that will be charged.  The calculator is
followed on two files of unknown size; what it answers is brought into the
form of a sum of prices of lists of shares and compared with the full set of
shares which the encoding makes of each.  The HTTP endpoint is followed from
the configuration to the answer.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import ceil_div, fname, is_call, linear, lenof, p, repeat
from ..terms import I, NONE, const, cval, is_const, norm, show, walk
from .p38 import Codecs, as_dict

TECHNIQUE = "symbolic evaluation of the calculator to a normal form (a multiset of priced shares), and path rules from configuration to the HTTP answer"
ASSUMPTIONS = [
    "storage_common.required_passes prices each share on its own (P01)",
    "Tahoe-LAFS grants leases of 31 days",
]
PRICE = "storage_common.required_passes"
CALC = "pricecalculator.PriceCalculator"
STRICT = [False]
K, N, V = p("K"), p("N"), p("V")


def check(ctx):
    ctx.rule("sum", "the price of some files is the sum of the prices of all shares of each", minimum=3)
    ctx.rule("same", "other costs are priced in the same way", minimum=1)
    ctx.rule("replica", "what a replica costs is calculated in the same way when it is decided whether a snapshot is due", minimum=4)
    ctx.rule("configured", "the encoding and the pass value are those the node is configured with", minimum=3)
    ctx.rule("spending", "the pass value is the one used in spending", minimum=2)
    ctx.rule("answer", "the answer states the price of exactly the sizes asked for and the lease period", minimum=2)
    ctx.rule("rejected", "sizes are priced only if they are whole numbers which are not negative", minimum=1)
    ctx.rule("period", "the lease period is the shortest time for which a lease lasts as the node renews leases", minimum=1)
    # does required_passes look at the type of the collection it gets?
    STRICT[0] = any(e.kind == "guard" and is_call(e.a, "isinstance") for path in ctx.run(PRICE)[1] if path.kind == "raise" for e in flat(path.events))
    calculator(ctx)
    same(ctx)
    WANT["value"] = pass_value(ctx)
    replica(ctx)
    configured(ctx)
    spending(ctx)
    answer(ctx)
    period(ctx)


class NotAPrice(Exception):
    pass


def size_of(t, k):
    """The file size whose share this is the size of."""
    cd = ceil_div(t)
    if cd is None or cd[1] != k:
        raise NotAPrice("the size of a share is %s" % show(t)[:80])
    return cd[0]


def shares(t, k, n):
    """[(size, how often: a term)] for the sizes of shares in a list"""
    if t[0] == "call" and t[1] == ("g", "builtins.list") and len(t[2]) == 1:
        return shares(t[2][0], k, n)
    if t[0] == "bin" and t[1] == "+":
        return shares(t[2], k, n) + shares(t[3], k, n)
    r = repeat(t)
    if r is not None:
        x, count = r
        return [(size_of(x, k), count[1] if count[0] == "count" else count)]
    if t[0] == "bin" and t[1] == "*":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] in ("list", "tuple"):
                return [(size_of(x, k), b) for x in a[1]]
    if t[0] in ("list", "tuple"):
        return [(size_of(x, k), const(1)) for x in t[1]]
    if t[0] == "comp" and t[1] in ("list", "gen") and not t[4]:
        # one for each of range(n), as a list or summed
        gens = list(t[3])
        if len(gens) == 1 and is_call(gens[0], "range") and len(gens[0][2]) == 1:
            return [(size_of(t[2], k), gens[0][2][0])]
    if t[0] == "seq":
        out = []
        for e in t[2]:
            if e[0] == "item":
                out.append((size_of(e[1], k), const(1)))
            elif e[0] == "ext":
                out.extend(shares(e[1], k, n))
            elif e[0] == "each":
                out.extend(shares(I(("comp", "list", e[1], e[2], e[3])), k, n))
            else:
                raise NotAPrice("shares are priced as %s" % show(t)[:80])
        return out
    raise NotAPrice("shares are priced as %s" % show(t)[:80])


def priced(t, k, n, v):
    """[(size, how often)] whose prices add up to the term"""
    if is_const(t) and cval(t) == 0 and not isinstance(cval(t), bool):
        return []
    if t[0] == "bin" and t[1] == "+":
        return priced(t[2], k, n, v) + priced(t[3], k, n, v)
    if is_call(t, "required_passes") and len(t[2]) == 2:
        if t[2][0] != v:
            raise NotAPrice("the pass value is %s" % show(t[2][0])[:60])
        if STRICT[0] and (t[2][1][0] in ("comp", "seq") and t[2][1][1] != "list" or t[2][1][0] in ("tuple", "set", "iter")):
            raise NotAPrice("required_passes rejects what is not a list: %s" % show(t[2][1])[:60])
        return shares(t[2][1], k, n)
    if t[0] == "bin" and t[1] == "*":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            try:
                x = priced(a, k, n, v)
            except NotAPrice:
                continue
            if all(c == const(1) for s, c in x):
                return [(s, b) for s, c in x]
    if t[0] == "sum" or is_call(t, "sum"):
        raise NotAPrice("the price is %s" % show(t)[:80])
    raise NotAPrice("the price is %s" % show(t)[:80])


def free(path, size):
    """Is the size known to be 0 on the path?"""
    for e in flat(path.events):
        if e.kind == "guard":
            if e.a == size and e.b is False:
                return True
            if e.a[0] == "cmp" and size in e.a[2:4] and const(0) in e.a[2:4] and e.a[1] == "==" and e.b is True:
                return True
    return False


def mismatch(path, value, sizes, k, n, v):
    """Why the value is not the price of all shares of files of the sizes, or None."""
    try:
        got = priced(value, k, n, v)
    except NotAPrice as e:
        return str(e)
    rest = list(got)
    for s in sizes:
        if (s, n) in rest:
            rest.remove((s, n))
        elif not free(path, s):
            return "the %s shares of a file of size %s are priced as %s" % (show(n), show(s), ", ".join("%s of size %s" % (show(c), show(x)) for x, c in got) or "nothing")
    if rest:
        return "more is priced than the shares of the files: %s" % show(rest[0][0])[:60]
    return None


def compare(ctx, rule, what, loc, path, value, *args):
    why = mismatch(path, value, *args)
    ctx.check(why is None, rule, what, loc, why, path)


def calculator(ctx):
    c = ctx.program.cls(CALC)
    f = ctx.program.find_method(c, "calculate")
    if f is None:
        raise AnalysisBroken("anchor vanished: PriceCalculator.calculate")
    for what, args, sizes in (("two files", "[S, T]", ("S", "T")), ("two files of one size", "[S, S]", ("S", "S")), ("one file", "[S]", ("S",)), ("no file", "[]", ())):
        it, ps = ctx.snippet("pricecalculator", "def form(K, N, V, S, T):\n    return PriceCalculator(shares_needed=K, shares_total=N, pass_value=V).calculate(%s)" % args, (PRICE,))
        n = 0
        for path in ps:
            if path.kind != "return":
                ctx.bad("sum", what, f.loc(), "files may have no price", path)
                continue
            n += 1
            compare(ctx, "sum", what, f.loc(), path, path.value, [p(x) for x in sizes], K, N, V)
        ctx.check(n > 0, "sum", what, f.loc(), "files have no price")
    # any number of files: nothing depends on how many there are
    it, ps = ctx.run(f, (PRICE,))
    for path in ps:
        odd = [x for x in walk(path.value) if is_call(x, "set") or is_call(x, "frozenset") or x[0] in ("comp", "seq") and x[1] in ("set", "dict") or lenof(x) is not None or x[0] == "slice"] if path.kind == "return" else []
        ctx.check(path.kind == "return" and not odd, "sum", "any number", f.loc(), "the price of files depends on more than each file: %s" % (show(odd[0])[:60] if odd else "failure"), path)


def same(ctx):
    f = ctx.func("tahoe.required_passes_for_data")
    it, ps = ctx.snippet("tahoe", "def form(K, N, V, S):\n    return required_passes_for_data(V, ShareEncoding(needed=K, happy=N, total=N), S)", (PRICE,))
    for path in ps:
        if path.kind != "return":
            ctx.bad("same", "required_passes_for_data", f.loc(), "an object may have no price", path)
        else:
            compare(ctx, "same", "required_passes_for_data", f.loc(), path, path.value, [p("S")], K, N, V)


def replica(ctx):
    """What a replica costs is calculated like what files cost."""
    n, helpers = 0, set()
    todo = ctx.program.climb(("replication_service",), lambda f: not f.module.name.endswith(".replicate"))
    for f in todo:
        it, ps = ctx.run(f, (PRICE, "replicate.replication_service"))
        for path in ps:
            for e in flat(path.events):
                if e.kind != "call" or not is_call(e.a, "replication_service"):
                    continue
                n += 1
                policy = (list(e.a[2][2:3]) + [v for k, v in e.a[3] if k == "snapshot_policy"] or [None])[0]
                m = ctx.program.find_method(ctx.program.classes[policy[1]], "should_snapshot") if policy is not None and policy[0] == "new" and policy[1] in ctx.program.classes else None
                if m is None and (f.qual in helpers or todo.send(True)):
                    helpers.add(f.qual)
                    continue        # judged where it is called
                if m is None:
                    ctx.bad("replica", "policy", e.loc, "it is unknown when a snapshot is due", path)
                    continue
                for x in it.apply(("bm", policy, m.qual), (p("NEW"), p("OLD")), path.st):
                    prices = [t for t in walk(x.value) if is_call(t, "required_passes")] if x.kind == "return" else []
                    ctx.check(len(prices) >= 2, "replica", "policy", m.loc(), "a snapshot is due whatever it and the replica cost", x)
                    for t in prices:
                        v = t[2][0]
                        ctx.check(setting(v, p("node_config")) == WANT["value"], "replica", "pass value", e.loc, "the cost of a replica is calculated by the pass value %s" % show(v)[:80], x)
                        enc = [y for y in walk(t) if y[0] == "attr" and y[2] == "encoding"]
                        ok = bool(enc) and is_call(enc[0][1], "get_config")
                        ctx.check(ok, "replica", "encoding", e.loc, "the cost of a replica is not calculated by the encoding of the node which uploads it", x)
                        if ok:
                            size = next((y for y in walk(t) if y == p("NEW") or y == ("elem", p("OLD"), 0)), None)
                            whole = [t] + [y for y in walk(x.value) if y[0] == "bin" and y[1] == "*" and t in y[2:4]]
                            why = [mismatch(x, y, [size] if size else [], ("attr", enc[0], "needed"), ("attr", enc[0], "total"), v) for y in whole]
                            ctx.check(None in why, "replica", "shares", m.loc(), why[0], x)
    ctx.check(n > 0, "replica", "policy", ctx.func("replicate.replication_service").loc(), "nothing is replicated")


# ------------------------------------------------------------ configuration
def setting(t, config):
    """(section, option, default) of the whole number read from the node's configuration"""
    if is_call(t, "int") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get_config" and t[1][1] == config:
        names = ("section", "option", "default")
        d = dict(zip(names, t[2]))
        d.update(t[3])
        if all(is_const(x) for x in d.values()):
            return tuple(cval(d[x]) if x in d else None for x in names)
    return None


WANT = {"needed": ("client", "shares.needed", 3), "total": ("client", "shares.total", 10)}


def endpoint(ctx):
    """The new resource at calculate-price, on each path from the configuration"""
    f = ctx.func("resource.from_configuration")
    it, ps = ctx.run(f, ("controller.*", "lease_maintenance.*"))
    out = []
    for path in ps:
        if path.kind != "return":
            continue
        for e in flat(path.events):
            if e.kind == "call" and is_call(e.a, "putChild") and e.a[2][0] == const(b"calculate-price"):
                out.append((path, e, e.a[2][1]))
    if not out:
        ctx.bad("answer", "endpoint", f.loc(), "there is no resource calculate-price")
    return f, out


def calculators(t):
    return {x for x in walk(t) if x[0] == "new" and x[1] == CALC_QUAL(t)}


def CALC_QUAL(t):
    return "_zkapauthorizer." + CALC


def configured(ctx):
    f, found = endpoint(ctx)
    for path, e, res in found:
        cs = calculators(res)
        if len(cs) != 1:
            ctx.bad("configured", "calculator", e.loc, "prices are calculated by %d calculators" % len(cs), path)
            continue
        d = {k.lstrip("_"): v for k, v in next(iter(cs))[2]}
        for fld, want in (("shares_needed", WANT["needed"]), ("shares_total", WANT["total"]), ("pass_value", WANT["value"])):
            got = setting(d[fld], p("node_config")) if fld in d else None
            ctx.check(got is not None and got == want, "configured", fld, e.loc, "%s of the calculator is %s" % (fld, show(d[fld])[:100] if fld in d else "missing"), path)


def pass_value(ctx):
    f = ctx.func("storage_common.get_configured_pass_value")
    want = None
    for path in ctx.run(f)[1]:
        if path.kind == "return":
            want = setting(path.value, p("node_config"))
            ctx.check(want == ("storageclient.plugins.privatestorageio-zkapauthz-v2", "pass-value", 1024 * 1024), "spending", "setting", f.loc(), "the pass value is read from %s" % (want,), path)
    return want


def spending(ctx):
    f = ctx.func("_plugin.ZKAPAuthorizer.get_storage_client")
    it, ps = ctx.run(f, ("controller.*", "_plugin.ZKAPAuthorizer._get_store", "_plugin.ZKAPAuthorizer._get_redeemer", "spending.*"))
    for path in ps:
        if path.kind != "return":
            continue
        x = path.value
        v = dict(x[2]).get("_pass_value") if x[0] == "new" else None
        ctx.check(v is not None and setting(v, p("node_config")) == WANT["value"], "spending", "client", f.loc(), "the storage client spends by the pass value %s" % (show(v)[:80] if v is not None else "?"), path)


# --------------------------------------------------------------------- HTTP
def answer(ctx):
    f, found = endpoint(ctx)
    quals = {res[1] for path, e, res in found if res[0] == "new"}
    if not quals:
        raise AnalysisBroken("anchor vanished: the resource calculate-price")
    lm = "LeaseMaintenanceConfig"
    for path, e, res in found:
        c = ctx.program.classes.get(res[1]) if res[0] == "new" else None
        m = ctx.program.find_method(c, "render_POST") if c is not None else None
        if m is None:
            ctx.bad("answer", "endpoint", e.loc, "there is no answer to POST at calculate-price", path)
            continue
        calc = next(iter(calculators(res)), None)
        it = ctx.interp((CALC + ".*",), rewrite=Codecs())
        ps = it.apply(("bm", res, m.qual), [p("REQUEST")])
        ctx.account(it, m, ps)
        answered = 0
        for y in ps:
            if y.kind != "return" or y.value[0] != "jsonbytes":
                continue
            codes = [x for x in flat(y.events) if x.kind == "call" and is_call(x.a, "setResponseCode")]
            d = as_dict(y.value[1])
            if codes:
                ctx.check(d is None or "price" not in d, "rejected", "refused", m.loc(), "a refused request gets a price", y)
                continue
            answered += 1
            if d is None or set(d) != {"price", "period"}:
                ctx.bad("answer", "price", m.loc(), "the answer is %s" % show(y.value)[:80], y)
                continue
            t = d["price"]
            good = t[0] == "call" and t[1][0] in ("attr", "bm", "fn") and calc is not None and any(x == calc for x in walk(t[1])) and fname(t[1]).endswith("calculate")
            sizes = t[2][-1] if good and t[2] else None
            good = good and sizes is not None and sizes[0] == "sub" and sizes[2] == const("sizes") and from_request(sizes[1])
            ctx.check(good, "answer", "price", m.loc(), "the price is %s" % show(t)[:100], y)
            q = d["period"]
            ctx.check(q[0] == "call" and fname(q[1]).endswith("get_lease_duration") and any(is_call(x, "from_node_config") and p("node_config") in x[2] for x in walk(q)),
                      "answer", "period", m.loc(), "the period is %s" % show(q)[:100], y)
            if sizes is not None:
                valid(ctx, m, y, sizes)
        ctx.check(answered > 0, "answer", "price", m.loc(), "there is no answer with a price")


def from_request(t):
    """What the body of the request was loaded to."""
    return is_call(t, "loads") and len(t[2]) == 1 and any(x == ("attr", p("REQUEST"), "content") for x in walk(t[2][0])) and is_call(t[2][0], "read")


def valid(ctx, m, path, sizes):
    """Every size is known to be an int, not a bool, and not negative."""
    never = []  # what holds of no size: alternatives, each a conjunction
    facts = set()
    for e in flat(path.events):
        if e.kind != "guard" or not isinstance(e.a, tuple):
            continue
        if exact(e.a, e.b) == (sizes, "list") or is_call(e.a, "isinstance") and e.a[2][0] == sizes and e.b and e.a[2][1] == ("g", "builtins.list"):
            facts.add("list")
        if e.a[0] == "exists" and not e.b and any(g == sizes for g in e.a[1]):
            conds = e.a[2]
            alts = conds[1] if conds and conds[0] == "dnf" else (conds,)
            for a in alts:
                never.extend(a[0][0][1] if len(a) == 1 and a[0][0][0] == "anyof" and a[0][1] else (a,))
    held = set()
    for again in range(len(never) + 1):
        for conj in never:
            left = [c for c in conj if c not in held]
            if len(left) == 1:
                held.add((left[0][0], not left[0][1]))
    for a, b in held:
        if is_call(a, "isinstance") and b and a[2][1] == ("g", "builtins.int") or exact(a, b) is not None and exact(a, b)[1] == "int":
            facts.add("int")
        if a[0] == "cmp" and const(0) in a[2:4]:
            if a[1] == "<" and a[3] == const(0) and not b or a[1] == "<=" and a[2] == const(0) and b or a[1] == ">=" and a[3] == const(0) and b:
                facts.add("positive")
    missing = {"list", "int", "positive"} - facts
    names = {"list": "a list", "int": "whole numbers", "positive": "0 or more"}
    ctx.check(not missing, "rejected", "sizes", m.loc(), "sizes are priced which may not be %s" % ", ".join(sorted(names[x] for x in missing)), path)


def exact(t, want):
    """(term, name of its type) for type(x) is T"""
    if t[0] == "cmp" and t[1] in ("is", "==", "is not", "!=") and want == (t[1] in ("is", "==")):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if is_call(a, "type") and len(a[2]) == 1 and b[0] == "g" and b[1].startswith("builtins."):
                return a[2][0], b[1][len("builtins."):]
    return None


def period(ctx):
    f = ctx.func("lease_maintenance.LeaseMaintenanceConfig.get_lease_duration")
    it, ps = ctx.run(f)
    for path in ps:
        if path.kind != "return":
            ctx.bad("period", "duration", f.loc(), "the lease period may be missing", path)
            continue
        t = path.value
        if is_call(t, "int") and len(t[2]) == 1:
            t = t[2][0]
        if is_call(t, "total_seconds") and t[1][1][0] == "bin":
            # a timedelta less another
            pos, neg, k = linear(t[1][1])
            if len(pos) == 1 and is_call(pos[0], "timedelta") and not pos[0][2] and all(a == "days" and is_const(b) for a, b in pos[0][3]):
                pos, k = [], k + 86400 * sum(cval(b) for a, b in pos[0][3])
            neg = [("call", ("attr", x, "total_seconds"), (), (), 0) for x in neg]
        else:
            pos, neg, k = linear(t)
        ok = k == 31 * 24 * 60 * 60 and not pos and len(neg) == 1 and is_call(neg[0], "total_seconds") and neg[0][1][1][0] == "attr" and neg[0][1][1][2] == "min_lease_remaining"
        ctx.check(ok, "period", "duration", f.loc(), "the lease period is %s" % show(t)[:100], path)
