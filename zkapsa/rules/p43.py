"""
P43: all parts of a node use the one wallet of that node.  The functions which
give the wallet to a part are followed; the wallet they give must be what the
plugin remembers under the node's own key, opened only when nothing is
remembered, and remembered before it is used.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import fname, is_call, p
from ..terms import NONE, contains, norm, show, walk

TECHNIQUE = "memoisation rule over all paths of the functions which hand out the wallet, and a closed-world rule for the places which make one"
ASSUMPTIONS = [
    "Tahoe-LAFS uses the plugin object which the drop-in module names",
    "the configuration path of a node identifies the node",
]
PLUGIN = "_plugin.ZKAPAuthorizer"
ATOMS = ("controller.*", "spending.*", "model.VoucherStore.*", "replicate.*", "tahoe.*", "lease_maintenance.*", "pricecalculator.*", "resource.*", "config.*", "server.*", "recover.*", "_storage_client.*")


def check(ctx):
    ctx.rule("one", "each part is given the wallet which the plugin remembers for the node", minimum=3)
    ctx.rule("opened", "a database is opened only when no wallet is remembered, and remembered at once", minimum=2)
    ctx.rule("same", "all parts look in the same place under the same key, which is the node's", minimum=3)
    ctx.rule("kept", "what is remembered is not replaced", minimum=1)
    ctx.rule("only", "a wallet is made nowhere else", minimum=2)
    ctx.rule("plugin", "the node's services use the plugin object which Tahoe-LAFS uses", minimum=2)
    ctx.rule("database", "the database is the one in the node's private directory", minimum=1)
    ctx.rule("replicated", "what is replicated is the database of the remembered wallet", minimum=2)
    w = Wallet(ctx)
    w.client()
    w.resource()
    w.services()
    w.summary()


class Wallet:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.program.cls(PLUGIN)
        self.me = ("self", self.cls.qual)
        self.places = {}  # (container, key) -> who
        self.done = {}

    def memo(self, who, loc, path, t, config, part):
        """Is the wallet t on this path the remembered one?"""
        ctx = self.ctx
        if is_call(t, "from_connection"):
            at = None
            for e in flat(path.events):
                if e.kind == "setitem" and e.c == t:
                    at = (e.a, e.b)
            if at is None:
                ctx.bad("opened", who, loc, "a wallet is opened and not remembered", path)
                return
            seen = False
            for e in flat(path.events):
                if e.kind == "call" and e.a == t:
                    break
                seen = seen or missing(e, at)
            ctx.check(seen, "opened", who, loc, "a database is opened although a wallet may be remembered", path)
            self.database(who, loc, path, t, config)
        elif t[0] == "sub":
            at = (t[1], t[2])
        elif is_call(t, "get") and t[1][0] == "attr" and t[2]:
            at = (t[1][1], t[2][0])
            known = any(e.kind == "guard" and (e.a == t and e.b or e.a == ("cmp", "is", t, NONE) and not e.b) for e in flat(path.events))
            if not known:
                ctx.bad("one", who, loc, "there may be no wallet", path)
                return
        else:
            ctx.bad("one", who, loc, "%s uses the wallet %s" % (part, show(t)[:100]), path)
            return
        ctx.ok("one", who)
        c, k = norm(at[0]), norm(at[1])
        uses = [x for x in walk(k) if x == config]
        ok = is_call(k, "get_config_path") and k[1][1] == config and not k[2] or bool(uses) and is_call(k, "get_private_path") and k[1][1] == config
        ctx.check(ok, "same", who + ": key", loc, "wallets are remembered by %s" % show(k)[:100], path)
        self.places.setdefault((c, fname(k[1]) if k[0] == "call" else show(k), k[2] if k[0] == "call" else ()), who)
        ctx.check(len(self.places) == 1, "same", who, loc, "%s looks for the wallet in another place than %s" % (who, next(iter(self.places.values()))), path)

    def database(self, who, loc, path, t, config):
        conn = list(t[2]) + [v for k, v in t[3]]
        good = [x for a in conn for x in walk(a) if is_call(x, "get_private_path") and x[1][1] == config]
        self.ctx.check(bool(good), "database", who, loc, "the database is not in the private directory of the node", path)

    def connection(self, t):
        """The connection a wallet was made on."""
        names = [a.arg for a in self.ctx.func("model.VoucherStore.from_connection").node.args.args][1:]
        d = dict(zip(names, t[2]))
        d.update(t[3])
        return [v for v in d.values() if any(is_call(x, "with_replication") for x in walk(v))]

    def replication(self, who, loc, path, store):
        """The connection given to the replication service, on the path, is the wallet's."""
        for e in flat(path.events):
            if e.kind == "call" and is_call(e.a, "replication_service"):
                conn = e.a[2][0] if e.a[2] else dict(e.a[3]).get("replicated_connection")
                if is_call(store, "from_connection"):
                    ok = conn in self.connection(store) or conn[0] == "attr" and conn[1] == store
                else:
                    ok = conn is not None and conn[0] == "attr" and norm(conn[1]) == norm(store) and "connection" in conn[2]
                self.ctx.check(ok, "replicated", who, e.loc, "changes of another connection than the wallet's are replicated", path)

    # ------------------------------------------------------------- the parts
    def client(self):
        ctx = self.ctx
        f = ctx.program.find_method(self.cls, "get_storage_client")
        if f is None:
            raise AnalysisBroken("anchor vanished: ZKAPAuthorizer.get_storage_client")
        it, ps = ctx.run(f, ATOMS)
        n = 0
        for path in ps:
            if path.kind != "return":
                continue
            stores = []
            for x in walk(path.value):
                if is_call(x, "for_store"):
                    d = dict(zip(("tokens_to_passes", "store"), x[2]))
                    d.update(x[3])
                    stores.append(d.get("store"))
            if not stores:
                ctx.bad("one", "get_storage_client", f.loc(), "the storage client has no wallet", path)
            for s in stores:
                n += 1
                self.memo("get_storage_client", f.loc(), path, s, p("node_config"), "the storage client")
                self.replication("get_storage_client", f.loc(), path, s)
        ctx.check(n > 0, "one", "get_storage_client", f.loc(), "no storage client is made")

    def resource(self):
        ctx = self.ctx
        f = ctx.program.find_method(self.cls, "get_client_resource")
        if f is None:
            raise AnalysisBroken("anchor vanished: ZKAPAuthorizer.get_client_resource")
        it, ps = ctx.run(f, ATOMS)
        formal = [a.arg for a in ctx.func("resource.from_configuration").node.args.args]
        n = 0
        for path in ps:
            if path.kind != "return":
                continue
            made = [x for x in walk(path.value) if is_call(x, "from_configuration")]
            for x in made:
                d = dict(zip(formal, x[2]))
                d.update(x[3])
                n += 1
                self.memo("get_client_resource", f.loc(), path, d["store"], p("node_config"), "the HTTP interface")
                self.replication("get_client_resource", f.loc(), path, d["store"])
                before = len(list(flat(path.events)))
                for y in it.apply(d["setup_replication"], (), path.st):
                    ctx.paths += 1
                    if y.kind != "return":
                        continue
                    got = [e for e in list(flat(y.events)) if e.kind == "call" and is_call(e.a, "replication_service")]
                    ctx.check(bool(got), "replicated", "set up", f.loc(), "replication which is set up does not begin", y)
                    self.replication("set up", f.loc(), y, d["store"])
        ctx.check(n > 0, "one", "get_client_resource", f.loc(), "no HTTP interface is made")

    def services(self):
        """What the node runs when it initialises its storage"""
        ctx = self.ctx
        module = ctx.program.modules[self.cls.module.name]
        hooks = [n.value for n in module.tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "init_storage" for t in n.targets)]
        if not hooks or not isinstance(hooks[-1], ast.Name):
            raise AnalysisBroken("anchor vanished: the function run when a node initialises its storage")
        f = ctx.func("_plugin." + hooks[-1].id)
        it, ps = ctx.run(f, ATOMS, unroll=1)
        first = f.node.args.args[0].arg
        n = 0
        for path in ps:
            for e in flat(path.events):
                # the wallet is what maintenance reports its progress to
                if e.kind != "call" or not is_call(e.a, "maintain_leases_from_root"):
                    continue
                n += 1
                vals = list(e.a[2]) + [v for k, v in e.a[3]]
                stores = [x[1] for v in vals for x in walk(v) if x[0] in ("bm", "attr") and (x[2] if x[0] == "attr" else x[2].rsplit(".", 1)[-1]) == "start_lease_maintenance"]
                if len(stores) != 1:
                    ctx.bad("one", "services", e.loc, "lease maintenance does not report to the wallet", path)
                    continue
                self.of_plugin("services", e.loc, path, stores[0], ("attr", p(first), "config"))
        ctx.check(n > 0, "one", "services", f.loc(), "lease maintenance is not run by the node")

    def of_plugin(self, who, loc, path, t, config):
        """A method of the global plugin object gives the wallet."""
        ctx = self.ctx
        if not (t[0] == "call" and t[1][0] == "g" and t[1][1].startswith(self.cls.module.name + ".")):
            self.memo(who, loc, path, t, config, "lease maintenance")
            return
        name = fname(t[1])
        obj = t[1][1][len(self.cls.module.name) + 1:].rsplit(".", 1)[0]
        ctx.check(obj in dropin(ctx), "plugin", "object", loc, "the services use another plugin object than Tahoe-LAFS: %s" % obj, path)
        ctx.check(self.is_plugin(obj), "plugin", "class", loc, "the services use something else than the plugin: %s" % obj, path)
        m = ctx.program.find_method(self.cls, name)
        if m is None or t[2] != (config,) and not (not t[2] and len(t[3]) == 1 and t[3][0][1] == config):
            ctx.bad("one", who, loc, "the services use the wallet %s" % show(t)[:100], path)
            return
        if m.qual in self.done:
            return
        self.done[m.qual] = 1
        it, ps = ctx.run(m, ATOMS)
        for x in ps:
            if x.kind == "return":
                self.memo(who, m.loc(), x, x.value, p(m.node.args.args[1].arg), "lease maintenance")
                self.replication(who, m.loc(), x, x.value)

    def is_plugin(self, obj):
        ctx = self.ctx
        module = ctx.program.modules[self.cls.module.name]
        defs = [n for n in module.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == obj for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if len(defs) != 1 or not isinstance(defs[0].value, ast.Call):
            return False
        what = ctx.program.resolve_expr(module, defs[0].value.func)
        if what == self.cls.qual:
            return True
        f = ctx.program.functions.get(what)
        if f is None:
            return False
        ps = ctx.run(f, ATOMS)[1]
        return all(x.kind == "return" and (x.value[0] == "new" and x.value[1] == self.cls.qual or x.value[0] == "call" and x.value[1] == ("cls", self.cls.qual)) for x in ps)

    # ----------------------------------------------------------- whole program
    def summary(self):
        ctx = self.ctx
        # nothing else touches what is remembered
        names = {c[2] for c, k, a in self.places if c[0] == "attr" and c[1] == self.me}
        ctx.check(bool(names), "kept", "place", (self.cls.module.relpath, self.cls.node.lineno), "what is remembered is not kept by the plugin object: %s" % ", ".join(show(c)[:60] for c, k, a in self.places))
        for name in sorted(names):
            fld = self.cls.fields.get(name) if isinstance(self.cls.fields, dict) else next((f for f in self.cls.fields if f.name == name), None)
            for q, f in sorted(ctx.program.functions.items()):
                for n in ast.walk(f.node):
                    bad = None
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)) and f.name != "__init__":
                        bad = "replaced"
                    if isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == name for t in n.targets):
                        bad = "forgotten"
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == name and n.func.attr in ("pop", "popitem", "clear", "update"):
                        bad = "forgotten"
                    if bad:
                        ctx.bad("kept", "place", (f.module.relpath, n.lineno), "the remembered wallets are %s" % bad)
        ctx.ok("kept", "place")
        # who makes wallets
        used = {}
        for q, f in ctx.program.functions.items():
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    used.setdefault(x.id if isinstance(x, ast.Name) else x.attr, set()).add(q)
        n = 0
        for q, f in sorted(ctx.program.functions.items()):
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call):
                    continue
                what = ctx.program.resolve_expr(f.module, x.func) or ""
                if what.endswith((".model.VoucherStore.from_connection", ".model.VoucherStore", ".replicate.with_replication")):
                    n += 1
                    unused = not used.get(f.name, set()) - {q} and f.cls is None
                    ctx.check(unused or q in ctx.inlined or q in ctx.functions, "only", what.rsplit(".", 1)[-1], (f.module.relpath, x.lineno), "%s makes a wallet of its own" % f.name)
        if not n:
            raise AnalysisBroken("nothing makes a wallet")


def missing(e, at):
    """Does the event say that nothing is remembered at the place?"""
    c, k = norm(at[0]), norm(at[1])
    if e.kind == "subfail" and norm(e.a) == ("sub", c, k):
        return True
    if e.kind == "guard":
        t = norm(e.a)
        if t == ("cmp", "in", k, c) and not e.b or t == ("cmp", "not in", k, c) and e.b:
            return True
        got = [x for x in walk(t) if is_call(x, "get") and x[1] == ("attr", c, "get") and x[2][:1] == (k,)]
        if got and (t == got[0] and not e.b or t == ("cmp", "is", got[0], NONE) and e.b):
            return True
    return False


def dropin(ctx):
    """The names the Twisted drop-in takes from the plugin's module"""
    import os

    path = os.path.join(ctx.program.repo, "src", "twisted", "plugins", "zkapauthorizer.py")
    if not os.path.exists(path):
        # a copy of the package alone
        return {"storage_server_plugin"}
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    return {a.name for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == "_zkapauthorizer._plugin" for a in n.names}
