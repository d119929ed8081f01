"""
P08: the operations of the remote interface are evaluated from its class body
(what add_passes makes of the schemas of Tahoe-LAFS' own interface) and compared
with the signatures of the server's remote_ methods, with the arguments the
client sends on every path and with the arguments the server hands on to the
wrapped storage server.
"""
import ast
import glob
import warnings

from .client import Client
from .server import *  # noqa: F401,F403
from .server import Server, PAYING

TECHNIQUE = "comparison of evaluated interface, signatures and call arguments over enumerated paths"
ASSUMPTIONS = [
    "Foolscap maps positional arguments to names in the order of the schema's argumentNames and calls remote_<operation> with them",
    "the installed allmydata/interfaces.py and allmydata/storage/server.py are the ones used",
]
INTERFACE = "foolscap.RIPrivacyPassAuthorizedStorageServer"
UPSTREAM = "allmydata.interfaces.RIStorageServer"
# other names of the same thing
ALIASES = {"test_and_write_vectors": "tw_vectors", "read_vector": "r_vector", "readv": "r_vector", "storage_indexes_or_slots": "storage_indexes", "storage_index_or_slot": "storage_index"}


def alias(n):
    return ALIASES.get(n, n)


def upstream(module, cls, drop_self=False):
    """method -> parameter names of an installed class, parsed from its source."""
    pats = ["/opt/venv/lib/*/site-packages/", "/usr/lib/python3*/site-packages/", "/usr/local/lib/python3*/site-packages/"]
    for pat in pats:
        for path in sorted(glob.glob(pat + module)):
            with open(path, encoding="utf-8") as f:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef) and n.name == cls:
                    out = {}
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef):
                            names = [a.arg for a in m.args.args]
                            out[m.name] = names[1:] if drop_self and names[:1] == ["self"] else names
                    return out
    return None


STORAGE_SERVER = {
    "get_version": [], "allocate_buckets": ["storage_index", "renew_secret", "cancel_secret", "sharenums", "allocated_size", "owner_num", "renew_leases"],
    "add_lease": ["storage_index", "renew_secret", "cancel_secret", "owner_num"], "get_buckets": ["storage_index"],
    "slot_readv": ["storage_index", "shares", "readv"],
    "slot_testv_and_readv_and_writev": ["storage_index", "secrets", "test_and_write_vectors", "read_vector", "renew_leases"],
    "advise_corrupt_share": ["share_type", "storage_index", "shnum", "reason"],
}
RISTORAGE = {
    "get_version": [], "allocate_buckets": ["storage_index", "renew_secret", "cancel_secret", "sharenums", "allocated_size", "canary"],
    "add_lease": ["storage_index", "renew_secret", "cancel_secret"], "get_buckets": ["storage_index"],
    "slot_readv": ["storage_index", "shares", "readv"],
    "slot_testv_and_readv_and_writev": ["storage_index", "secrets", "tw_vectors", "r_vector"],
    "advise_corrupt_share": ["share_type", "storage_index", "shnum", "reason"],
}


def check(ctx):
    ctx.rule("passes-limited", "each paying operation takes passes, a list with a limited number of byte strings of exactly the length of a pass", 3)
    ctx.rule("server-implements", "the server has a method for each operation with the same parameters in the same order", 9)
    ctx.rule("client-calls", "every remote call of the client names an operation and gives each of its parameters the right value", 10)
    ctx.rule("right-interface", "every remote call is made on a reference whose interface has been found to be this one", 8)
    ctx.rule("handed-on", "the server hands the client's values on to the wrapped storage server", 6)
    ctx.rule("answer", "the answer of the storage server is given back and the client returns it", 11)
    ctx.rule("carried", "passes and the description of shares arrive as they were sent", 6)
    carried(ctx)
    ops = interface(ctx)
    s, c = Server(ctx), Client(ctx)
    implements(ctx, s, ops)
    calls(ctx, c, ops)
    handing(ctx, s)
    answers(ctx, s, c)


# ------------------------------------------------------------------ values
def carried(ctx):
    from .p02 import parts
    it, paths = ctx.snippet("model", "def form(A, B):\n    return Pass(A, B).pass_bytes")
    f = ctx.func("model.Pass.pass_bytes")
    for path in paths:
        if path.kind == "return":
            got = [" " if x == b" " else x for x in parts(path.value) or ()]
            ctx.check(got == [I(p("A")), " ", I(p("B"))], "carried", "pass sent", f.loc(), "a pass is sent as %s" % show(path.value)[:120], path)
    it, paths = ctx.snippet("model", "def form(B):\n    return Pass.from_bytes(B)")
    f = ctx.func("model.Pass.from_bytes")
    n = 0
    for path in paths:
        if path.kind != "return":
            continue
        n += 1
        v = path.value
        d = dict(v[2]) if v[0] == "new" else {}
        for name, place in (("preimage", 0), ("signature", 1)):
            ctx.check(part_of(d.get(name), p("B"), place), "carried", "pass received, " + name, f.loc(), "the %s of a pass is taken to be %s" % (name, show(d[name])[:100] if name in d else show(v)[:100]), path)
    ctx.check(n > 0, "carried", "pass received", f.loc(), "no pass can be read")
    c = ctx.program.cls("foolscap.ShareStat")
    init = ctx.func("foolscap.ShareStat.__init__")
    names = [a.arg for a in init.node.args.args][1:]
    me = ("self", c.qual)
    it, paths = ctx.run(init)
    for path in paths:
        if path.kind == "return":
            put = {e.b: e.c for e in flat(path.events) if e.kind == "setattr" and e.a == me}
            for name in ("size", "lease_expiration"):
                ctx.check(put.get(name) == p(name), "carried", "share made, " + name, init.loc(), "the %s of a share is %s" % (name, show(put[name])[:80] if name in put else "not set"), path)
    st = ctx.func("foolscap.ShareStat.setCopyableState")
    state = p([a.arg for a in st.node.args.args][1])
    it, paths = ctx.run(st)
    for path in paths:
        if path.kind != "return":
            ctx.bad("carried", "share received", st.loc(), "the description of a share is refused", path)
            continue
        whole, put = False, {}
        for e in flat(path.events):
            if e.kind == "setattr" and e.a == me:
                if e.b == "__dict__":
                    whole = whole_of(e.c, state)
                    put = {} if e.c[0] != "dict" else {k[2]: v for k, v in e.c[1] if k[0] == "c"}
                else:
                    put[e.b] = e.c
            elif e.kind == "call" and e.a[1][0] == "attr" and e.a[1][2] == "update" and e.a[1][1] in (("attr", me, "__dict__"), ("call", ("g", "builtins.vars"), (me,), (), 0)):
                whole = whole_of(e.a[2][0], state) if e.a[2] else False
            elif e.kind in ("del", "delitem", "delattr") or e.kind == "call" and e.a[1][0] == "attr" and e.a[1][2] in ("pop", "clear", "popitem") and contains(e.a[1][1], state):
                ctx.bad("carried", "share received", st.loc(), "something of the description of a share is removed", path)
        for name in ("size", "lease_expiration"):
            v = put.get(name)
            fine = whole and v is None or v is not None and field_of_state(v, state, name)
            ctx.check(fine, "carried", "share received, " + name, st.loc(), "the %s of a share arrives as %s" % (name, show(v)[:80] if v is not None else "nothing"), path)
    consts = {}
    for s in c.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
            for t in s.targets:
                consts[getattr(t, "id", None)] = s.value.value
    if "typeToCopy" in consts and "copytype" in consts:
        ctx.check(consts["typeToCopy"] == consts["copytype"], "carried", "share type", st.loc(), "shares are sent as %r and expected as %r" % (consts["typeToCopy"], consts["copytype"]))
    if any(q.endswith("ShareStat.getStateToCopy") for q in ctx.program.functions):
        g = ctx.func("foolscap.ShareStat.getStateToCopy")
        it, paths = ctx.run(g)
        for path in paths:
            v = path.value
            if whole_of(v, ("attr", me, "__dict__")) or whole_of(v, ("call", ("g", "builtins.vars"), (me,), (), 0)):
                ctx.ok("carried", "share sent")
                continue
            d = {k[2]: x for k, x in v[1] if k[0] == "c"} if v is not None and v[0] == "dict" else {}
            ctx.check(all(d.get(x) == I(("attr", me, x)) for x in ("size", "lease_expiration")), "carried", "share sent", g.loc(), "a share is described as %s" % show(v)[:100], path)


def whole_of(t, state):
    while t is not None and t[0] == "call" and t[1] in (("g", "builtins.dict"), ("g", "copy.copy")) and len(t[2]) == 1:
        t = t[2][0]
    if t is not None and t[0] == "call" and t[1] == ("attr", state, "copy"):
        return True
    return t == state or t is not None and t[0] == "dict" and ((("c", "str", "**"), state) in t[1] or any(state == v and k in (None, ("**",)) for k, v in t[1]))


def field_of_state(t, state, name):
    key = ("c", "str", name)
    return t == ("sub", state, key) or t[0] == "call" and t[1] == ("attr", state, "get") and t[2] == (key,) or t[0] == "call" and t[1][0] == "attr" and t[1][2] == "pop" and t[2] == (key,)


def part_of(t, whole, place):
    """Is it the given part of the whole, which is two parts with a blank between them?"""
    if t is None or t[0] != "sub" or t[2][0] != "c" or t[1][0] != "call" or t[1][1][0] != "attr" or t[1][1][1] != whole:
        return False
    how, args = t[1][1][2], t[1][2]
    i = t[2][2]
    if args and args[0] != ("c", "bytes", b" "):
        return False
    if how in ("split", "rsplit"):
        return i in (place, place - 2)
    if how in ("partition", "rpartition"):
        return bool(args) and i in (place * 2, place * 2 - 3)
    return False


# ------------------------------------------------------------ the interface
def sequence(t, original):
    """A list valued term as a Python list of the names of arguments, or None."""
    t = strip_list(t)
    if t[0] in ("list", "tuple"):
        out = []
        for x in t[1]:
            if x[0] == "star":
                y = sequence(x[1], original)
                if y is None:
                    return None
                out += y
            elif is_const(x):
                out.append(cval(x))
            else:
                return None
        return out
    if t[0] == "bin" and t[1] == "+":
        a, b = sequence(t[2], original), sequence(t[3], original)
        return None if a is None or b is None else a + b
    if t[0] == "seq" and t[1] in ("list", "tuple"):
        out = []
        for k, x in t[2]:
            if k == "ext":
                y = sequence(x, original)
                if y is None:
                    return None
                out += y
            elif is_const(x):
                out.append(cval(x))
            else:
                return None
        return out
    if t[0] == "attr" and t[2] == "argumentNames":
        return original(t[1])
    m = mapping(t, original)
    return None if m is None else list(m)


def mapping(t, original):
    """A mapping valued term as an ordered name -> constraint term, or None."""
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.dict", "collections.OrderedDict") and len(t[2]) <= 1:
        out = mapping(t[2][0], original) if t[2] else {}
        if out is None:
            return None
        for k, v in t[3]:
            if k == "**":
                w = mapping(v, original)
                if w is None:
                    return None
                out.update(w)
            else:
                out[k] = v
        return out
    if t[0] == "attr" and t[2] == "argConstraints":
        names = original(t[1])
        return None if names is None else {n: ("the original",) for n in names}
    if t[0] in ("list", "tuple"):
        out = {}
        for x in t[1]:
            if x[0] not in ("tuple", "list") or len(x[1]) != 2 or not is_const(x[1][0]):
                return None
            out[cval(x[1][0])] = x[1][1]
        return out
    if t[0] == "dict":
        out = {}
        for k, v in t[1]:
            if is_const(k):
                out[cval(k)] = v
            else:
                return None
        return out
    if t[0] == "seq":
        out = {}
        for x in t[2]:
            if x[0] in ("ext", "**", "upd"):
                w = mapping(x[1], original)
            elif x[0] == "item" and len(x) == 3 and is_const(x[1]):
                w = {cval(x[1]): x[2]}
            else:
                w = None
            if w is None:
                return None
            out.update(w)
        return out
    if t[0] == "bin" and t[1] == "|":
        a, b = mapping(t[2], original), mapping(t[3], original)
        return None if a is None or b is None else {**a, **b}
    if is_call(t, "items") and not t[2]:
        return mapping(receiver(t), original)
    return None


def interface(ctx):
    """operation -> (parameter names, constraint of passes)"""
    cls = ctx.program.cls(INTERFACE)
    up = upstream("allmydata/interfaces.py", "RIStorageServer") or RISTORAGE
    ctx.note("interface of Tahoe-LAFS: " + ", ".join(sorted(up)))

    def original(t):
        if t[0] == "sub" and t[1][0] == "g" and t[1][1] == UPSTREAM and is_const(t[2]):
            return list(up.get(cval(t[2]), ())) if cval(t[2]) in up else None
        return None

    ops = {}
    for name, f in cls.methods.items():
        ops[name] = ([a.arg for a in f.node.args.args], None)
    for name, expr in cls.class_vars.items():
        if name.startswith("__"):
            continue
        for path in ctx.expression(cls.module, expr):
            v = path.value
            names = passes = None
            if v is not None:
                names = original(v)
            if names is None and is_call(v, "RemoteMethodSchema"):
                kw = {}
                for k, x in v[3]:
                    m = mapping(x, original) if k == "**" else {k: x}
                    kw = None if m is None or kw is None else {**kw, **m}
                if kw is None:
                    raise AnalysisBroken("cannot tell the arguments of %s: %s" % (name, show(v)[:200]))
                names = list(kw)
                passes = kw.get("passes")
                for e in path.events:
                    if e.kind == "setattr" and e.a == v and e.b == "argumentNames":
                        names = sequence(e.c, original)
            if names is None:
                raise AnalysisBroken("cannot tell the arguments of %s: %s" % (name, show(v)[:200] if v else path.kind))
            ops[name] = (names, passes)
    for op in PAYING:
        if op not in ops:
            ctx.bad("passes-limited", op, (cls.module.relpath, cls.node.lineno), "the interface has no operation " + op)
            continue
        names, passes = ops[op]
        bad = None
        if "passes" not in names or passes is None:
            bad = "it takes no passes"
        else:
            bad = pass_list(ctx, passes, cls.module)
        ctx.check(bad is None, "passes-limited", op, (cls.module.relpath, cls.class_vars[op].lineno if op in cls.class_vars else cls.node.lineno), "the passes of %s: %s" % (op, bad))
    return ops


def value_of(ctx, t, module):
    while t[0] == "g":
        m, exprs = ctx.program.global_var(t[1])
        if m is None or not exprs or len(exprs) != 1:
            return t
        ps = ctx.expression(m, exprs[0])
        if len(ps) != 1 or ps[0].value is None or ps[0].value == t:
            return t
        t = ps[0].value
    return t


def pass_list(ctx, t, module):
    t = value_of(ctx, t, module)
    if not is_call(t, "ListOf"):
        return "not a list: %s" % show(t)[:100]
    most = arg(t, 1, "maxLength")
    if most is None or not is_const(most) or not isinstance(cval(most), int) or cval(most) <= 0:
        return "their number is not limited"
    one = value_of(ctx, arg(t, 0, "constraint"), module)
    if not is_call(one, ("ByteStringConstraint", "StringConstraint")):
        return "they are not byte strings: %s" % show(one)[:100]
    a, b = arg(one, 0, "maxLength"), arg(one, 1, "minLength")
    want = pass_length(ctx)
    if a is None or b is None or not is_const(a) or not is_const(b):
        return "their length is not limited from both sides"
    if want is not None and (cval(a), cval(b)) != (want, want):
        return "their length is limited to %s to %s, a pass has %d bytes" % (cval(b), cval(a), want)
    return None


def pass_length(ctx):
    """The length of an encoded pass, from the validators of its parts."""
    c = ctx.program.cls("model.Pass")
    total = 0
    n = 0
    for f in ctx.program.all_fields(c):
        for x in ast.walk(f.node) if f.node is not None else ():
            if isinstance(x, ast.keyword) and x.arg == "length" and isinstance(x.value, ast.Constant):
                total += x.value.value
                n += 1
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "base64_bytes" and x.args and isinstance(x.args[0], ast.Constant):
                total += x.args[0].value
                n += 1
    return total + n - 1 if n == 2 else None


# ------------------------------------------------------------ server and client
def implements(ctx, s, ops):
    for op, (names, passes) in sorted(ops.items()):
        f = ctx.program.find_method(s.cls, "remote_" + op)
        where = (s.cls.module.relpath, s.cls.node.lineno)
        if f is None:
            ctx.bad("server-implements", op, where, "the server does not implement " + op)
            continue
        a = f.node.args
        got = [x.arg for x in a.posonlyargs + a.args][1:]
        need = len(got) - len(a.defaults)
        ok = got[:len(names)] == names and need <= len(names) and not [k for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if a.vararg is not None and a.kwarg is not None and got == names[:len(got)]:
            ok = True
        ctx.check(ok, "server-implements", op, f.loc(), "%s takes (%s), the interface has (%s)" % (f.name, ", ".join(got), ", ".join(names)))


def bind(call, names, skip=0):
    """name -> value of a call's arguments; None when they do not fit."""
    pos = call[2][skip:]
    if any(x[0] == "star" for x in pos) or any(k == "**" for k, v in call[3]):
        return None
    if len(pos) > len(names):
        return None
    out = dict(zip(names, pos))
    for k, v in call[3]:
        if k not in names or k in out:
            return None
        out[k] = v
    return out


def encoded_passes(c, path, t):
    """Are these all passes of one group, encoded, in order?"""
    t = strip_list(t)
    if t[0] != "comp" or t[1] == "set" or t[4] != () or len(t[3]) != 1:
        return False
    g = t[3][0]
    if g[0] != "attr" or g[2] != "passes":
        return False
    one = ("elem", g, 0)
    e = t[2]
    if e == ("attr", one, "pass_bytes"):
        return True
    # preimage, blank, signature
    from .p02 import parts
    ps = parts(e)
    return ps == [I(("attr", one, "preimage")), " ", I(("attr", one, "signature"))]


def vectors(t):
    """The client's write vectors with the comparison operator put into each test."""
    src = p("tw_vectors")
    if t[0] != "comp" or t[4] != () or len(t[3]) != 1 or keys(t[3][0]) != src or t[2][0] != "tuple" or len(t[2][1]) != 2:
        return False
    g = t[3][0]
    k, v = t[2][1]
    el = I(("elem", g, 0))
    if is_call(g, "items"):
        key, val = I(("sub", el, const(0))), I(("sub", el, const(1)))
        vals = [val, I(("sub", src, key))]
    else:
        key = el
        vals = [I(("sub", src, key))]
    if k != key or v[0] != "tuple" or len(v[1]) != 3:
        return False
    for val in vals:
        if v[1][1] == ("sub", val, const(1)) and v[1][2] == ("sub", val, const(2)):
            tests = strip_list(v[1][0])
            if tests[0] == "comp" and tests[4] == () and tests[3] == (("sub", val, const(0)),) and tests[2][0] == "tuple" and len(tests[2][1]) == 4:
                x = tests[2][1]
                parts_ = [y[2] if y[0] == "sub" and y[1][0] == "elem" and y[1][1] == tests[3][0] else y for y in x]
                if parts_ == [const(0), const(1), const(b"eq"), const(2)]:
                    return True
    return False


def right_value(c, path, op, name, t):
    if name == "passes":
        return encoded_passes(c, path, t)
    if name == "tw_vectors":
        return vectors(t)
    if t == p(name) or t == p(alias(name)) or (t[0] == "p" and alias(t[1]) == alias(name)):
        return True
    if op == "share_sizes" and name == "sharenums":
        return t == NONE
    if op == "stat_shares":
        return strip_list(t) in (("list", (p("storage_index"),)), ("tuple", (p("storage_index"),)))
    return False


def calls(ctx, c, ops):
    iface = ctx.program.cls(INTERFACE)
    rn = iface.class_vars.get("__remote_name__")
    want = const(ast.literal_eval(rn)) if rn is not None else None
    seen = set()
    for f in c.public():
        it, paths = c.paths(f.name)
        n = 0
        for path in paths:
            known = []
            for e in flat(path.events):
                if e.kind == "guard":
                    known.append((e.a, e.b))
                if e.kind != "call" or fname(e.a[1]) != "callRemote":
                    continue
                n += 1
                seen.add(e.loc)
                op = cval(e.a[2][0]) if e.a[2] and is_const(e.a[2][0]) else None
                if isinstance(op, bytes):
                    op = op.decode("ascii", "replace")
                who = "%s: %s" % (f.name, op)
                if op not in ops:
                    ctx.bad("client-calls", who, e.loc, "the client calls %s, which the interface does not have" % (op,), path)
                    continue
                names = ops[op][0]
                got = bind(e.a, names, 1)
                if got is None or set(got) != set(names):
                    ctx.bad("client-calls", who, e.loc, "the arguments do not fit (%s)" % ", ".join(names), path)
                else:
                    wrong = [k for k in names if not right_value(c, path, op, k, got[k])]
                    ctx.check(not wrong, "client-calls", who, e.loc, "wrong value for %s" % ", ".join("%s: %s" % (k, show(got[k])[:150]) for k in wrong), path)
                rref = receiver(e.a)
                name = I(("attr", ("attr", rref, "tracker"), "interfaceName"))
                ok = any(b is True and g[0] == "cmp" and g[1] == "==" and set(g[2:4]) == {name, want} for g, b in known)
                ctx.check(ok, "right-interface", f.name, e.loc, "the reference's interface has not been found to be %s" % (want[-1] if want else None,), path)
        if not n and f.name in ops:
            ctx.bad("client-calls", f.name, f.loc(), "the client never calls " + f.name)


def handing(ctx, s):
    up = upstream("allmydata/storage/server.py", "StorageServer", True) or STORAGE_SERVER
    for f in s.remotes():
        op = f.name[len("remote_"):]
        it, paths = s.paths(op)
        for path in paths:
            mine = [e for e in flat(path.events) if e.kind == "call" and s.is_backend_call(e.a) and fname(e.a[1]) == op]
            for e in mine:
                names = up.get(op)
                if names is None:
                    raise AnalysisBroken("the storage server has no " + op)
                got = bind(e.a, names)
                if got is None:
                    ctx.bad("handed-on", op, e.loc, "the arguments do not fit (%s)" % ", ".join(names), path)
                    continue
                have = {alias(a.arg): p(a.arg) for a in f.node.args.args}
                wrong = [k for k in names if alias(k) in have and got.get(k) is None or alias(k) in have and got[k] != have[alias(k)]]
                ctx.check(not wrong, "handed-on", op, e.loc, "wrong value for %s" % ", ".join(wrong), path)
            if path.kind == "return" and op in up:
                ctx.check(len(mine) == 1, "handed-on", op + ": once", f.loc(), "%s is done %d times" % (op, len(mine)), path)


# ------------------------------------------------------------ answers
def uncopy(t):
    """What a term is a copy of (type checks of the elements do not matter)."""
    t = strip_list(t)
    if t[0] == "call" and t[1] == ("g", "builtins.dict") and len(t[2]) == 1 and not t[3]:
        return uncopy(t[2][0])
    if t[0] == "comp" and len(t[3]) == 1 and t[1] != "set":
        g = t[3][0]
        for conds in [t[4]]:
            if any(not all(typing(x) for x in q) for q in flatten(conds)):
                return t
        el = I(("elem", g, 0))
        src = keys(g, strip_list)
        e = t[2]
        if t[1] == "dict" or (e[0] == "tuple" and len(e[1]) == 2):
            if e[0] == "tuple" and len(e[1]) == 2:
                k, v = e[1]
                v = uncopy(unwrap(v))
                if is_call(g, "items"):
                    kk, vs = I(("sub", el, const(0))), (I(("sub", el, const(1))), I(("sub", src, ("sub", el, const(0)))))
                else:
                    kk, vs = el, (I(("sub", src, el)),)
                if k == kk and v in vs:
                    return uncopy(src)
        if uncopy(e) == el:
            return uncopy(g)
    return t


def unwrap(v):
    if v[0] == "call" and fname(v[1]) in ("FoolscapBucketWriter", "FoolscapBucketReader") and len(v[2]) == 1:
        return v[2][0]
    return v


def flatten(conds):
    if not conds:
        return []
    try:
        ds = disjuncts(conds)
    except Exception:
        return [[conds]]
    return [[c for c, b in d] for d in ds]


def typing(t):
    if t[0] == "exists":
        return all(typing(c) for c, b in t[2])
    return is_call(t, "isinstance")


def same_answer(v, call):
    v = uncopy(v)
    if v == call:
        return True
    if v[0] in ("tuple", "list") and len(v[1]) == 2:
        return all(uncopy(x) == ("sub", call, const(i)) for i, x in enumerate(v[1]))
    return False


def answers(ctx, s, c):
    for op in ("get_version", "allocate_buckets", "get_buckets", "slot_readv", "slot_testv_and_readv_and_writev"):
        f = s.method("remote_" + op)
        it, paths = s.paths(op)
        for path in paths:
            if path.kind != "return":
                continue
            mine = [e for e in flat(path.events) if e.kind == "call" and s.is_backend_call(e.a) and fname(e.a[1]) == op]
            if not mine:
                continue
            ctx.check(same_answer(path.value, I(mine[-1].a)), "answer", "server: " + op, f.loc(), "the server answers %s" % show(path.value)[:200], path)
    for op in ("get_version", "allocate_buckets", "get_buckets", "stat_shares", "slot_readv", "slot_testv_and_readv_and_writev"):
        f = c.method(op)
        it, paths = c.paths(op)
        for path in paths:
            if path.kind != "return":
                continue
            mine = [e for e in c.remote_calls(path) if e.a[2][0] in (const(op), const(op.encode()))]
            if not mine:
                ctx.bad("answer", "client: " + op, f.loc(), "it returns without having called " + op, path)
                continue
            ctx.check(same_answer(path.value, I(mine[-1].a)), "answer", "client: " + op, mine[-1].loc, "the client returns %s" % show(path.value)[:200], path)
