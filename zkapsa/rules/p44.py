"""
P44: what the HTTP interface reports is what the wallet and the payment
controller know.  The answers of the resources are followed to the wallet's
and the controller's operations, those of them which look at vouchers to their
queries.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import fname, is_call, p
from ..terms import I, const, contains, norm, show, walk
from .p30 import page
from .p38 import Codecs, as_dict
from .store import Store, fetched, statements

TECHNIQUE = "path rules from each HTTP answer to the operation and the query which gives what it states"
ASSUMPTIONS = [
    "a voucher is written as JSON as its marshal operation says (P38)",
    "the number of tokens counted is that of those available (P12)",
]
ATOMS = ("model.VoucherStore.*", "controller.PaymentController.*", "model.Voucher.marshal", "model.Voucher.to_json_v1", "controller.get_redeemer")
PC = "controller.PaymentController"


def check(ctx):
    ctx.rule("voucher", "a request for a voucher is answered with that voucher as the wallet and the controller know it", minimum=3)
    ctx.rule("vouchers", "a request for all vouchers is answered with each voucher of the wallet", minimum=2)
    ctx.rule("transient", "only a pending voucher is shown in another state than the stored one, and only its state differs", minimum=2)
    ctx.rule("query", "the wallet looks up exactly the voucher asked for, and lists all", minimum=4)
    ctx.rule("spending", "the spending reported is that of the latest maintenance, the total that of the available tokens", minimum=3)
    ctx.rule("latest", "the latest maintenance is the one which ended last", minimum=2)
    ctx.rule("version", "the version reported is the package's", minimum=1)
    r = Resources(ctx)
    r.voucher()
    r.vouchers()
    r.spending()
    r.version()
    transient(ctx)
    queries(ctx)


class Resources:
    def __init__(self, ctx):
        self.ctx = ctx
        f = self.f = ctx.func("resource.from_configuration")
        it, ps = ctx.run(f, ATOMS + ("lease_maintenance.*",))
        self.at = {}
        for path in ps:
            if path.kind != "return":
                continue
            store = {}
            for e in flat(path.events):
                if e.kind == "call" and is_call(e.a, "putChild") and len(e.a[2]) == 2 and e.a[2][0][0] == "c":
                    name, r = e.a[2][0], e.a[2][1]
                    if r[0] == "new":
                        self.at.setdefault(name, []).append((path, e, r))
        self.it = ctx.interp(ATOMS, rewrite=Codecs())

    def of(self, name, method):
        """(method, resource, controller, path) for each resource which may be there"""
        ctx = self.ctx
        got = self.at.get(const(name), [])
        if not got:
            raise AnalysisBroken("anchor vanished: the resource %s" % name.decode())
        for path, e, r in got:
            m = ctx.program.find_method(ctx.program.classes[r[1]], method) if r[1] in ctx.program.classes else None
            if m is None:
                raise AnalysisBroken("the resource %s has no %s" % (name.decode(), method))
            yield m, r, path

    def run(self, m, r, args, st=None):
        ps = self.it.apply(("bm", r, m.qual), args, st) if st is not None else self.it.apply(("bm", r, m.qual), args)
        self.ctx.account(self.it, m, ps)
        return ps

    def shown(self, t, voucher):
        """Is the term the JSON form of the voucher with the controller's knowledge?"""
        if t[0] == "jsonbytes":
            t = t[1]
        if not (is_call(t, "marshal") and t[1][0] in ("attr", "bm", "fn") or is_call(t, "to_json_v1")):
            return False
        v = t[1][1] if t[1][0] in ("attr", "bm") else t[2][0]
        return is_call(v, "incorporate_transient_state") and p("controller") not in v[2] and norm(v[2][-1]) == norm(voucher) and made_here(v[1][1])

    def voucher(self):
        ctx = self.ctx
        for m, r, path in self.of(b"voucher", "getChild"):
            n = found = 0
            for y in self.run(m, r, [p("SEGMENT"), p("REQUEST")]):
                gets = [e for e in flat(y.events) if e.kind == "call" and is_call(e.a, "get") and e.a[1][0] in ("attr", "bm") and made_here(e.a[1][1])]
                if y.kind != "return":
                    if any(e.kind == "raised" for e in flat(y.events)):
                        continue  # the database failed
                    ctx.bad("voucher", "child", m.loc(), "a request for a voucher may fail", y)
                    continue
                code = page(y.value)
                if code is not None:
                    ctx.check(not gets or failed(y, gets[0]), "voucher", "refused", m.loc(), "a voucher which is there is not shown", y)
                    continue
                found += 1
                if len(gets) != 1:
                    ctx.bad("voucher", "child", m.loc(), "a voucher is shown which was not looked up", y)
                    continue
                key = gets[0].a[2][-1]
                ctx.check(same_text(key, p("SEGMENT")), "voucher", "key", gets[0].loc, "the voucher looked up is %s" % show(key)[:80], y)
                child = y.value
                g = ctx.program.find_method(ctx.program.classes[child[1]], "render_GET") if child[0] == "new" and child[1] in ctx.program.classes else None
                if g is None:
                    ctx.bad("voucher", "child", m.loc(), "a voucher is shown as %s" % show(child)[:80], y)
                    continue
                for z in self.run(g, child, [p("REQUEST2")], y.st):
                    ctx.check(z.kind == "return" and self.shown(z.value, gets[0].a), "voucher", "answer", g.loc(), "the answer is %s" % (show(z.value)[:120] if z.value else z.kind), z)
            ctx.check(found > 0, "voucher", "child", m.loc(), "no voucher is ever shown")

    def vouchers(self):
        ctx = self.ctx
        for m, r, path in self.of(b"voucher", "render_GET"):
            for y in self.run(m, r, [p("REQUEST")]):
                if y.kind != "return":
                    continue
                d = as_dict(y.value[1]) if y.value[0] == "jsonbytes" else None
                if not ctx.check(d is not None and set(d) == {"vouchers"}, "vouchers", "answer", m.loc(), "the answer is %s" % show(y.value)[:100], y):
                    continue
                t = strip(d["vouchers"])
                ok = t[0] == "comp" and len(t[3]) == 1 and not t[4]
                src = strip(t[3][0]) if ok else None
                ok = ok and is_call(src, "list") and src[1][0] in ("attr", "bm") and made_here(src[1][1])
                ctx.check(ok, "vouchers", "all", m.loc(), "the vouchers listed are %s" % show(t)[:120], y)
                if ok:
                    ctx.check(self.shown(t[2], ("elem", t[3][0], 0)), "vouchers", "each", m.loc(), "a voucher is listed as %s" % show(t[2])[:120], y)

    def spending(self):
        ctx = self.ctx
        for m, r, path in self.of(b"lease-maintenance", "render_GET"):
            kinds = set()
            for y in self.run(m, r, [p("REQUEST")]):
                if y.kind != "return":
                    continue
                d = as_dict(y.value[1]) if y.value[0] == "jsonbytes" else None
                if not ctx.check(d is not None and set(d) == {"total", "spending"}, "spending", "answer", m.loc(), "the answer is %s" % show(y.value)[:100], y):
                    continue
                t = d["total"]
                ctx.check(is_call(t, "count_unblinded_tokens") and made_here(t[1][1]), "spending", "total", m.loc(), "the total is %s" % show(t)[:80], y)
                s = d["spending"]
                none = known_none(y)
                if s == ("c", "NoneType", "None") or s == const(None) or is_call(s, "get_latest_lease_maintenance_activity"):
                    kinds.add("none")
                    ctx.check(none is True, "spending", "nothing", m.loc(), "the spending of a maintenance which ended is not reported", y)
                    continue
                kinds.add("some")
                sd = as_dict(s)
                ok = sd is not None and set(sd) == {"when", "count"} and none is not True
                if ok:
                    a = [x for x in walk(s) if is_call(x, "get_latest_lease_maintenance_activity")]
                    ok = bool(a) and sd["count"] == ("attr", a[0], "passes_required") and any(x == ("attr", a[0], "finished") for x in walk(sd["when"])) and is_call(sd["when"], "isoformat")
                ctx.check(ok, "spending", "latest", m.loc(), "the spending reported is %s" % show(s)[:120], y)
            ctx.check("some" in kinds, "spending", "latest", m.loc(), "spending is never reported")

    def version(self):
        ctx = self.ctx
        for m, r, path in self.of(b"version", "render_GET"):
            for y in self.run(m, r, [p("REQUEST")]):
                d = as_dict(y.value[1]) if y.kind == "return" and y.value[0] == "jsonbytes" else None
                ok = d is not None and set(d) == {"version"} and (d["version"] == ("g", "_zkapauthorizer.__version__") or d["version"] == own_version(ctx))
                ctx.check(ok, "version", "version", m.loc(), "the version is reported as %s" % show(y.value)[:80], y)


def own_version(ctx):
    """The value of the package's __version__, if it is a literal"""
    for n in ctx.program.modules["_zkapauthorizer"].tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__version__" for t in n.targets) and isinstance(n.value, ast.Constant):
            return const(n.value.value)
    return None


def strip(t):
    while t[0] == "call" and t[1] in (("g", "builtins.list"), ("g", "builtins.tuple")) and len(t[2]) == 1 and not t[3]:
        t = t[2][0]
    return t


def made_here(t):
    """The wallet given to from_configuration, or the controller it makes."""
    return t == p("store") or t[0] == "new" and t[1].endswith("PaymentController") or is_call(t, "PaymentController")


def same_text(t, segment):
    """The segment, or what becomes of it by decoding and encoding"""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("encode", "decode"):
        t = t[1][1]
    while t[0] in ("enc", "dec"):
        t = t[1]
    return t == segment


def failed(path, get):
    """Did looking the voucher up fail?"""
    return any(e.kind == "raised" and e.a == get.a for e in flat(path.events))


def known_none(path):
    for e in flat(path.events):
        if e.kind != "guard":
            continue
        t, b = e.a, e.b
        if t[0] == "cmp" and t[1] in ("is", "==", "is not", "!=") and is_call(t[2], "get_latest_lease_maintenance_activity") and t[3] == const(None):
            return b == (t[1] in ("is", "=="))
        if is_call(t, "get_latest_lease_maintenance_activity"):
            return not b
    return None


# ---------------------------------------------------------------- controller
def transient(ctx):
    f = ctx.func(PC + ".incorporate_transient_state")
    it, ps = ctx.run(f)
    v = p("voucher")
    n = {"same": 0, "other": 0}
    for path in ps:
        if path.kind != "return":
            ctx.bad("transient", "fails", f.loc(), "a voucher may not be shown", path)
            continue
        t = path.value
        pending = [e.b for e in flat(path.events) if e.kind == "guard" and is_call(e.a, "isinstance") and e.a[2][0] == ("attr", v, "state") and e.a[2][1][0] == "cls" and e.a[2][1][1].endswith(".Pending")]
        if t == v:
            n["same"] += 1
            ctx.ok("transient", "unchanged")
            continue
        n["other"] += 1
        base, changed = evolved(t)
        ctx.check(base == v and changed is not None and set(changed) == {"state"}, "transient", "only the state", f.loc(), "the voucher shown is %s" % show(t)[:120], path)
        ctx.check(pending == [True] or True in pending, "transient", "pending", f.loc(), "a voucher which is not pending is shown in another state", path)
        if changed:
            s = changed.get("state")
            keys = [x for x in walk(s) if x[0] == "sub" and x[2] == ("attr", v, "number")] if s else []
            got = [x for x in walk(s) if is_call(x, "get") and x[2][:1] == (("attr", v, "number"),)] if s else []
            ctx.check(bool(keys or got), "transient", "own state", f.loc(), "the voucher is shown in the state %s" % show(s)[:100], path)
    ctx.check(n["same"] and n["other"], "transient", "unchanged", f.loc(), "every voucher is shown in the same way")


def evolved(t):
    """(voucher, {field: value}) for a copy of a voucher with other values"""
    if is_call(t, "evolve") and len(t[2]) == 1:
        return t[2][0], dict(t[3])
    if t[0] == "evolve":
        return t[1], dict(t[2])
    if t[0] == "new" and t[1].endswith(".Voucher"):
        d = dict(t[2])
        same = {k for k, x in d.items() if x[0] == "attr" and x[2] == k}
        bases = {d[k][1] for k in same}
        if len(bases) == 1:
            return bases.pop(), {k: x for k, x in d.items() if k not in same}
    return None, None


# --------------------------------------------------------------------- wallet
def queries(ctx):
    s = Store(ctx)
    one(ctx, s)
    every(ctx, s)
    latest(ctx, s)


def row_source(path, xs, t):
    """Which query the rows of the term come from"""
    out = []
    for e, x in fetched(path, xs):
        if any(y == e.a or norm(y) == norm(e.a) for y in walk(t)):
            out.append(x)
    return out


def one(ctx, s):
    f = s.method("get")
    it, ps = s.paths("get", atoms=s_atoms())
    n = missing = 0
    for path in ps:
        xs = statements(path)
        if path.kind == "raise":
            if path.value is not None and "KeyError" in str(path.value):
                missing += 1
            continue
        if path.kind != "return":
            continue
        n += 1
        src = row_source(path, xs, path.value)
        ok = len(src) == 1 and src[0] is not None and src[0].stmt.kind == "select" and src[0].stmt.table == "vouchers"
        if not ctx.check(ok, "query", "get", f.loc, "the voucher returned does not come from a query", path):
            continue
        q = src[0]
        key = q.equals("number")
        ctx.check(key is not None and same_text(key, p("voucher")), "query", "get: key", q.loc, "the voucher looked up is not the one asked for", path)
        ctx.check(len(q.stmt.where) == 1 and q.stmt.sub is None, "query", "get: nothing else", q.loc, "vouchers which are in the wallet may not be found", path)
    ctx.check(n > 0 and missing > 0, "query", "get: unknown", f.loc, "looking up an unknown voucher does not fail with KeyError")


def s_atoms():
    from .store import CURSOR
    return CURSOR + ("model.Voucher.from_row",)


def every(ctx, s):
    f = s.method("list")
    it, ps = s.paths("list", atoms=s_atoms())
    for path in ps:
        if path.kind != "return":
            continue
        xs = statements(path)
        t = strip(path.value)
        src = row_source(path, xs, t)
        ok = len(src) == 1 and src[0] is not None and src[0].stmt.kind == "select" and src[0].stmt.table == "vouchers"
        if not ctx.check(ok, "query", "list", f.loc, "the vouchers listed do not come from a query", path):
            continue
        st = src[0].stmt
        ctx.check(not st.where and st.limit is None and len(st.tables or [1]) == 1, "query", "list: all", src[0].loc, "not every voucher is listed", path)
        good = t[0] == "comp" and t[1] != "set" and not t[4] and len(t[3]) == 1 and t[2] is not None and contains(t[2], ("elem", t[3][0], 0)) and not any(x[0] == "slice" for x in walk(t))
        ctx.check(good, "query", "list: each", f.loc, "the list has not one voucher for each row: %s" % show(t)[:100], path)


def latest(ctx, s):
    f = s.method("get_latest_lease_maintenance_activity")
    it, ps = s.paths("get_latest_lease_maintenance_activity")
    n = 0
    for path in ps:
        if path.kind != "return" or path.value[0] == "c":
            continue
        n += 1
        xs = [x for x in statements(path) if x.stmt.kind == "select"]
        if not ctx.check(len(xs) == 1 and xs[0].stmt.table == "lease-maintenance-spending", "latest", "query", f.loc, "the maintenance reported does not come from a query", path):
            continue
        st = xs[0].stmt
        order = [(c[1] if c[0] == "col" else None, d) for c, d in (st.order or [])]
        ctx.check(order[:1] == [("finished", "desc")], "latest", "last", xs[0].loc, "the maintenance reported is not the one which ended last: %s" % (order,), path)
        ctx.check(len(st.where) == 1 and st.where[0][0] == "not" and st.where[0][1][0] == "isnull" and st.where[0][1][1][:2] == ("col", "finished"), "latest", "ended", xs[0].loc, "the maintenance reported may not be over: %s" % (st.where,), path)
    ctx.check(n > 0, "latest", "query", f.loc, "no maintenance is ever reported")
