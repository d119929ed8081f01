"""
P33: the storage server never discloses its signing key.  Every function of the
package is followed by itself; every call, container, result and assignment
that involves the signing key, the text it is parsed from or what is derived
from it to check passes is listed, and all but deriving the public key and
checking passes are reported.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import I, fname, is_const, norm, walk
from .p31 import Taint, base_key, dotted

TECHNIQUE = "enumeration of every use of the signing key and of what is derived from it over all paths of the package"
ASSUMPTIONS = ["challenge_bypass_ristretto and attrs do not disclose a key they were given"]

KEY = "challenge_bypass_ristretto.SigningKey"
FROM_KEY = "challenge_bypass_ristretto.PublicKey.from_signing_key"
PATH_OPTION = "ristretto-signing-key-path"
URL_OPTION = "ristretto-issuer-root-url"
HARMLESS = {"builtins.isinstance", "builtins.type", "builtins.id", "builtins.bool", "builtins.len", "attr.validators.instance_of", "typing.cast"}
TEXT = {"strip", "lstrip", "rstrip", "encode", "decode", "splitlines", "split"}
READS = {"getContent", "read", "read_text", "read_bytes", "readline", "readlines", "open"}


class Uses(Taint):
    """All functions and closures of the package, without the flow of other secrets."""

    def __init__(self, ctx, inline=()):
        self.ctx = ctx
        self.inline = frozenset(inline)
        self.program = ctx.program
        self.units = []
        self.closures = {}
        self.build()
        self.givers = set()         # functions whose result is secret
        self.memo = {}
        n = -1
        while n != len(self.givers):
            n = len(self.givers)
            self.memo = {}
            for u in self.units:
                for x in u.paths:
                    if x.kind == "return" and isinstance(x.value, tuple) and self.involves(u, x.value):
                        self.givers.add(u.key)

    def is_key_annotation(self, module, ann):
        if ann is None:
            return False
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.Subscript):
            sl = ann.slice
            return any(self.is_key_annotation(module, x) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl]))
        return self.program.resolve_expr(module, ann) == KEY

    def is_secret(self, u, t):
        """Is the value the key, its text, or a key derived from it?"""
        key = (u.key, t)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            r = self.memo[key] = self.compute_secret(u, t)
        return r

    def compute_secret(self, u, t):
        if not isinstance(t, tuple) or not t:
            return False
        if t in self.parsed_key(u):
            return True
        k = t[0]
        if k == "p":
            w = u
            while w is not None:
                for n, pt in w.params:
                    if pt == t:
                        node = getattr(w, "node", None) or w.func.node
                        return any(x.arg == n and self.is_key_annotation(w.module, x.annotation) for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs)
                w = w.parent
            return False
        if k == "call":
            d = dotted(t[1]) or (t[1][1][1] + "." + t[1][2] if t[1][0] == "attr" and t[1][1][0] == "g" else "")
            if d.startswith(KEY + "."):
                return True
            if t[1][0] == "fn" and t[1][1] in self.givers:
                return True
            if t[1][0] == "clo" and self.closures.get((id(u.it), t[1][1])) is not None and self.closures[(id(u.it), t[1][1])].key in self.givers:
                return True
            if t[1][0] == "attr":
                m = t[1][2]
                if m in ("rederive_unblinded_token", "derive_verification_key_sha512") and self.is_secret(u, t[1][1]):
                    return True
                if m in TEXT and self.is_secret(u, t[1][1]):
                    return True
                if m in READS and self.names_the_file(u, t[1][1]):
                    return True
                target = self.method_target(u, t)
                if target is not None and target.qual in self.givers:
                    return True
            if d == "builtins.open" and t[2] and self.names_the_file(u, t[2][0]):
                return True
            return False
        if k == "attr":
            ty = u.it.type_of(t[1])
            if ty and ty[0] == "C" and ty[1] in self.program.classes:
                f, owner = self.program.find_field(self.program.classes[ty[1]], t[2])
                if f is not None:
                    return self.is_key_annotation(owner.module, f.annotation)
        ty = u.it.type_of(t)
        return bool(ty) and ty[0] == "X" and ty[1] == KEY

    def method_target(self, u, t):
        ty = ("C", t[1][1][1]) if t[1][1][0] == "cls" else u.it.type_of(t[1][1])
        if ty and ty[0] == "C" and ty[1] in self.program.classes:
            return self.program.find_method(self.program.classes[ty[1]], t[1][2])
        return None

    def parsed_key(self, u):
        """What the key is parsed from, and the text before that."""
        if u.secret is None:
            u.secret = set()
            for e in self.events(u):
                if e.kind == "call" and isinstance(e.a, tuple) and e.a[0] == "call" and e.a[2]:
                    d = dotted(e.a[1]) or ""
                    if e.a[1][0] == "attr" and e.a[1][1][0] == "g":
                        d = e.a[1][1][1] + "." + e.a[1][2]
                    if d != KEY + ".decode_base64":
                        continue
                    t = e.a[2][0]
                    while t[0] == "call" and t[1][0] == "attr":
                        u.secret.add(I(t))
                        if t[1][2] not in TEXT:
                            break
                        t = t[1][1]
        return u.secret

    def names_the_file(self, u, t):
        return any(is_const(x) and x[2] == PATH_OPTION for x in walk(t) if x and x[0] == "c")

    def involves(self, u, t):
        """Is the value a secret or made of one (results of calls are judged where they are called)?"""
        if not isinstance(t, tuple) or not t:
            return None
        if isinstance(t[0], str):
            if self.is_secret(u, t):
                return t
            if t[0] == "call" and (dotted(t[1]) or "").startswith("builtins.") and dotted(t[1]) not in HARMLESS:
                return self.involves(u, t[2])
            if t[0] in ("call", "coro"):
                return None
            if t[0] == "exc":
                return None
            if t[0] == "cmp" and t[1] in ("is", "is not"):
                return None
            if t[0] == "attr":
                return self.involves(u, t[1]) if self.is_secret(u, t[1]) else None
            if t[0] == "new":
                for n, v in t[2]:
                    r = self.involves(u, v)
                    if r is not None and not self.keeps(t[1], n):
                        return r
                return None
            if t[0] == "partial" and t[1] and t[1][0] == "fn":
                target = self.program.functions.get(t[1][1])
                if target is not None:
                    for n, v in self.bound(u, target, ("call", t[1], t[2], t[3] if len(t) > 3 else (), 0)):
                        r = self.involves(u, v)
                        if r is not None and not self.takes(target, n):
                            return r
                    return None
        for x in t:
            if isinstance(x, tuple):
                r = self.involves(u, x)
                if r is not None:
                    return r
        return None

    def keeps(self, cls, name):
        f, owner = self.program.find_field(self.program.classes[cls], name)
        return f is not None and self.is_key_annotation(owner.module, f.annotation)

    def takes(self, target, name):
        a = target.node.args
        return any(x.arg == name and self.is_key_annotation(target.module, x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs)


def check(ctx):
    ctx.rule("key", "the signing key is used only to derive the public key and to check passes", minimum=4)
    ctx.rule("results", "nothing that can be called remotely, and no function for another component, gives the key away", minimum=1)
    ctx.rule("announcement", "a server announces exactly the configured issuer address and the public key of the key it checks passes with", minimum=5)
    U = Uses(ctx)
    helpers = set()
    while not helpers >= set(unmarked(U)):
        helpers |= set(unmarked(U))
        U = Uses(ctx, helpers)
    uses(ctx, U)
    announcement(ctx)


def unmarked(U):
    """Helpers given the key by parameters without annotation: they are judged where they are called."""
    for u in U.units:
        for path in u.paths:
            for e in flat(path.events):
                target = e.target if e.kind == "call" and hasattr(e.target, "node") and hasattr(e.target, "is_async") else None
                if target is None or target.parent is not None or not U.program.inlinable(target):
                    continue
                for n, v in U.bound(u, target, e.a):
                    if U.involves(u, v) is not None and not U.takes(target, n):
                        yield target.qual


def uses(ctx, U):
    for u in U.units:
        for path in u.paths:
            for e in flat(path.events):
                if e.kind == "call" and isinstance(e.a, tuple) and e.a[0] == "call":
                    call(ctx, U, u, path, e)
                elif e.kind == "setattr" and isinstance(e.c, tuple) and U.involves(u, e.c) is not None:
                    ty = u.it.type_of(e.a)
                    ok = bool(ty) and ty[0] == "C" and ty[1] in U.program.classes and U.keeps(ty[1], e.b)
                    ctx.check(ok, "key", "%s: set" % base_key(u), e.loc, "the key is kept where it is not known to be one", path)
                elif e.kind == "setitem" and isinstance(e.c, tuple) and U.involves(u, e.c) is not None:
                    ctx.bad("key", "%s: set" % base_key(u), e.loc, "the key is put into a container", path)
                elif e.kind == "yield" and isinstance(e.a, tuple) and U.involves(u, e.a) is not None:
                    ctx.bad("results", base_key(u), e.loc, "the key is given away", path)
            if path.kind == "return" and isinstance(path.value, tuple):
                r = U.involves(u, path.value)
                if r is not None:
                    public = u.parent is None and (u.func.name.startswith("remote_") or outward(U, u))
                    plain = U.is_secret(u, path.value)
                    ctx.check(not public and plain, "results", base_key(u), u.func.loc(), "the key (or what it is derived from) is given away", path)
            if path.kind == "raise" and isinstance(path.value, tuple) and path.value[0] in ("new", "call") and U.involves(u, tuple(path.value[2])) is not None:
                ctx.bad("results", base_key(u), u.func.loc(), "the key is part of an error", path)


def outward(U, u):
    """Does the function implement an interface, so that others call it?"""
    c = u.func.cls
    if c is None:
        return False
    return any(d is not None and "implementer" in ast.dump(d) for k in U.program.mro(U.program.classes[c] if isinstance(c, str) else c) for d in k.node.decorator_list) and not u.func.name.startswith("_")


def call(ctx, U, u, path, e):
    t = e.a
    d = dotted(t[1]) or (t[1][1][1] + "." + t[1][2] if t[1][0] == "attr" and t[1][1][0] == "g" else "")
    name = (fname(t[1]) or d or "call").rsplit(".", 1)[-1]
    construct = "%s: %s" % (base_key(u), name)
    # a method of the secret
    if t[1][0] == "attr" and U.involves(u, t[1][1]) is not None and U.is_secret(u, t[1][1]):
        if name in ("rederive_unblinded_token", "derive_verification_key_sha512", "invalid_sha512") or name in TEXT:
            ctx.ok("key", construct)
        elif name in READS:
            ctx.ok("key", construct)
        else:
            ctx.bad("key", construct, e.loc, "the key (or what it is derived from) is used for %s" % name, path)
    given = [(None, x[1] if x[0] == "star" else x) for x in t[2]] + list(t[3])
    if not any(U.involves(u, v) is not None for n, v in given):
        return
    if d == FROM_KEY or d in HARMLESS or d.startswith("builtins.") and d not in ("builtins.print", "builtins.setattr") or d.startswith(KEY + ".decode"):
        ctx.ok("key", construct)
        return
    new = e.b if isinstance(e.b, tuple) and e.b and e.b[0] == "new" else None
    if t[1][0] == "cls" and new is not None:
        c = U.program.classes[new[1]]
        bad = [n for n, v in new[2] if U.involves(u, v) is not None and not U.keeps(new[1], n)]
        init = U.program.find_method(c, "__init__")
        if bad and init is not None:
            bad = [n for n in bad if not U.takes(init, n[4:] if n.startswith("arg:") else n)]
        ctx.check(not bad, "key", construct, e.loc, "the key is given to %s as %s" % (name, ", ".join(bad)), path)
        return
    target = e.target if hasattr(e.target, "node") and hasattr(e.target, "is_async") else None
    if target is not None and (target.parent is None):
        for n, v in U.bound(u, target, t):
            if U.involves(u, v) is None:
                continue
            ok = U.takes(target, n) and U.is_secret(u, v)
            ctx.check(ok, "key", construct, e.loc, "the key is given to %s" % name, path)
        return
    if t[1][0] == "clo" and (id(u.it), t[1][1]) in U.closures:
        return
    ctx.bad("key", construct, e.loc, "the key (or what it is derived from) is given to %s" % name, path)


def announcement(ctx):
    q = "_plugin.ZKAPAuthorizer.get_storage_server"
    it, ps = ctx.run(q, ("spending.*", "_storage_server.*", "_plugin.load_signing_key"))
    f = ctx.func(q)
    where = f.loc()
    config = p(f.node.args.args[1].arg)
    n = 0
    for path in ps:
        for e in flat(path.events):
            if e.kind != "call" or e.a[0] != "call" or not (fname(e.a[1]) or "").endswith("AnnounceableStorageServer"):
                continue
            n += 1
            args = list(e.a[2]) + [v for k, v in e.a[3]]
            named = dict(e.a[3])
            ann = named.get("announcement", args[0])
            server = named.get("storage_server", args[-1])
            ann = it.reify(path.st, ann)
            items = as_items(ann)
            if items is None:
                ctx.bad("announcement", "shape", e.loc, "what is announced is not spelled out", path)
                continue
            ctx.check(set(items) == {URL_OPTION, "ristretto-public-keys"}, "announcement", "keys", e.loc, "announced: %s" % ", ".join(sorted(map(str, items))), path)
            url = items.get(URL_OPTION)
            ctx.check(url is not None and option(url, config, URL_OPTION), "announcement", "issuer address", e.loc, "not the configured issuer address", path)
            keys = items.get("ristretto-public-keys")
            one = keys[1][0] if keys is not None and keys[0] in ("list", "tuple") and len(keys[1]) == 1 else None
            pub = one[1][1] if one is not None and one[0] == "call" and one[1][0] == "attr" and one[1][2] == "encode_base64" else None
            ok = pub is not None and pub[0] == "call" and is_from_key(pub)
            ctx.check(ok, "announcement", "public key", e.loc, "what is announced is not one public key", path)
            if not ok:
                continue
            key = pub[2][0]
            ctx.check(loaded(key, config), "announcement", "key file", e.loc, "the key is not the one in the configured file", path)
            used = [norm(v) for v in server_key(ctx, server, path, it)]
            ctx.check(used == [norm(key)], "announcement", "key in use", e.loc, "the announced key is not the one passes are checked with", path)
    if not n:
        raise AnalysisBroken("no announcement is made")


def is_from_key(t):
    d = dotted(t[1]) or (t[1][1][1] + "." + t[1][2] if t[1][0] == "attr" and t[1][1][0] == "g" else "")
    return d == FROM_KEY and len(t[2]) == 1


def as_items(t):
    if t[0] != "dict":
        return None
    out = {}
    for x in t[1]:
        if len(x) != 2 or not isinstance(x[0], tuple) or not is_const(x[0]):
            return None
        out[x[0][2]] = x[1]
    return out


def option(t, config, name):
    if t[0] == "sub" and norm(t[1]) == norm(config):
        return is_const(t[2]) and t[2][2] == name
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and norm(t[1][1]) == norm(config) and bool(t[2]) and is_const(t[2][0]) and t[2][0][2] == name


def loaded(t, config):
    """load_signing_key(FilePath(config[...])), or its body."""
    if t[0] != "call":
        return False
    return any(option(x, config, PATH_OPTION) for x in walk(t) if x and x[0] in ("sub", "call"))


def server_key(ctx, server, path, it):
    server = it.reify(path.st, server)
    if server[0] == "new":
        return [v for n, v in server[2] if n in ("_signing_key", "signing_key", "arg:signing_key")]
    if server[0] == "call":
        cls = ctx.program.cls("_storage_server.ZKAPAuthorizerStorageServer")
        named = dict(server[3])
        if "signing_key" in named:
            return [named["signing_key"]]
        names = [f.name.lstrip("_") for f in ctx.program.all_fields(cls)]
        i = names.index("signing_key")
        return [server[2][i]] if i < len(server[2]) else []
    return []
