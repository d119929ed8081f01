"""
P38: what is written is read back.  The writer of each serialised form is
followed on values whose parts are unknown but of a known kind; what it writes
is given to the reader, with the inverse codecs (JSON, CBOR, ISO 8601, text
encodings) known to cancel each other only where they fit.  What comes out has
to be what went in, part by part.
"""
import ast

from ..interp import flat
from ..loader import AnalysisBroken
from ..match import is_call, p
from ..terms import I, NONE, const, cval, fname, is_const, norm, show, walk
from .store import CURSOR, Store, is_execute, read_sql, statements

TECHNIQUE = "composition of the interpreted writer and reader of each serialised form, with codecs cancelled only where they are inverse"
ASSUMPTIONS = [
    "json and cbor2 give back the values they were given, but for tuples which become lists",
    "the sqlite3 module stores a datetime as its ISO 8601 form with a space, and gives other values back unchanged",
    "vouchers and tokens consist of ASCII characters (their types are validated, P32)",
]
VOUCHER = "model.Voucher"
# what the HTTP interface documents
DOCUMENTED = {
    "pending": {"name", "counter"},
    "redeeming": {"name", "started", "counter"},
    "redeemed": {"name", "finished", "token-count"},
    "double-spend": {"name", "finished"},
    "unpaid": {"name", "finished"},
    "error": {"name", "finished", "details"},
}
TOP = {"number", "expected-tokens", "created", "state", "version"}
UTF8 = {"utf8", "ascii", "latin1", "usascii"}
TEXT = {("vouchers", "number"), ("tokens", "voucher"), ("tokens", "text"), ("unblinded-tokens", "token"), ("redemption-groups", "voucher"), ("invalid-unblinded-tokens", "token")}
TOKENS = ("RandomToken", "UnblindedToken")
NOT_STORED = ("isoformat", "strftime", "timestamp", "ctime", "timetuple", "date", "time", "replace")


def check(ctx):
    ctx.rule("voucher", "a voucher in any state read from its JSON form is the voucher that was written", minimum=6)
    ctx.rule("tags", "each state has one tag of its own, the documented one, and the documented keys", minimum=6)
    ctx.rule("stored", "each state tag written to the database is read as the state of that tag", minimum=6)
    ctx.rule("columns", "each part of a voucher is read from the column of its name, in the encoding in which it is written", minimum=8)
    ctx.rule("needed", "whoever writes a state tag writes the columns which the reader of that state needs", minimum=2)
    ctx.rule("text", "vouchers and tokens are written as text and read back as bytes", minimum=6)
    ctx.rule("events", "a stream of changes read from its serialised form is the stream that was written", minimum=1)
    ctx.rule("event log", "changes read from the event log are the changes that were added", minimum=4)
    ctx.rule("snapshot", "the statements read from a snapshot are those it was made from", minimum=1)
    tags = vouchers(ctx)
    database(ctx, tags)
    events(ctx)
    event_log(ctx)
    snapshot(ctx)


# ------------------------------------------------------------------ codecs
def codec_name(args, kwargs):
    e = dict(kwargs).get("encoding", args[0] if args else const("utf-8"))
    return cval(e).lower().replace("-", "").replace("_", "") if is_const(e) and isinstance(cval(e), str) else None


class Codecs:
    """What is known about conversions; ``kinds`` says of which kind an unknown part is."""

    def __init__(self, kinds=None, rows=None, decode_all=False):
        self.kinds = kinds or {}
        # (execute event's term) -> rows of a SELECT
        self.rows = rows
        self.decode_all = decode_all

    def kind(self, t):
        if t[0] in ("text", "iso", "jsontext"):
            return "str"
        if t[0] in ("jsonbytes", "cbor", "bytesof"):
            return "bytes"
        if t[0] == "parsed":
            return "datetime"
        return self.kinds.get(t)

    def __call__(self, it, st, t):
        r = self.rewrite(it, st, t)
        return I(r) if r is not None else None

    def rewrite(self, it, st, t):
        f, args, kw = t[1], t[2], t[3]
        if any(a[0] == "star" for a in args) or any(k == "**" for k, v in kw):
            return None
        if f[0] == "attr":
            return self.method(st, f[1], f[2], args, kw)
        if f[0] != "g":
            return None
        n = f[1]
        if n == "json.dumps" and len(args) == 1 and {k for k, v in kw} <= {"sort_keys", "indent", "separators", "ensure_ascii", "allow_nan", "check_circular"}:
            return ("jsontext", self.jsonable(args[0]))
        if n == "json.loads" and args:
            b = args[0]
            if b[0] in ("jsontext", "jsonbytes") and not kw:
                return b[1]
        if n in ("cbor2.dumps", "_cbor2.dumps") and len(args) == 1:
            return ("cbor", lists(args[0]))
        if n == "cbor2.loads" and args and args[0][0] == "cbor":
            return args[0][1]
        if n == "cbor2.load" and args:
            b = contents(args[0])
            if b is not None and b[0] == "cbor":
                return b[1]
        if n == "builtins.str" and len(args) + len(kw) >= 2 and self.is_bytes(args[0]):
            return self.decoded(args[0], codec_name(args[1:], kw))
        if n == "builtins.bytes" and len(args) + len(kw) >= 2:
            return self.encoded(args[0], codec_name(args[1:], kw))
        if n == "aniso8601.parse_datetime" or n.endswith(".fromisoformat"):
            d = dict(kw).get("delimiter", args[1] if len(args) > 1 else const("T"))
            if args and args[0][0] == "iso" and (args[0][2] == d or n.endswith(".fromisoformat")):
                return args[0][1]
            if args and args[0][0] == "col":
                return ("parsed", args[0], d if not n.endswith(".fromisoformat") else const(" "))
        return None

    def is_bytes(self, t):
        return self.kind(t) == "bytes" or self.decode_all

    def decoded(self, x, enc):
        if enc not in UTF8:
            return None
        if x[0] == "jsonbytes":
            return ("jsontext", x[1])
        if x[0] == "bytesof":
            return x[1]
        return ("text", x)

    def encoded(self, x, enc):
        if enc not in UTF8:
            return None
        if x[0] == "jsontext":
            return ("jsonbytes", x[1])
        if x[0] == "text":
            return x[1]
        if x[0] == "col":
            return ("bytesof", x)
        return None

    def method(self, st, b, name, args, kw):
        if name == "decode" and self.is_bytes(b):
            return self.decoded(b, codec_name(args, kw))
        if name == "encode":
            return self.encoded(b, codec_name(args, kw))
        if name == "isoformat" and (self.kind(b) == "datetime" or self.decode_all):
            return ("iso", b, dict(kw).get("sep", args[0] if args else const("T")))
        if name in ("read", "getvalue") and not args:
            return contents(b)
        if name in ("fetchall", "fetchone", "fetchmany") and self.rows is not None:
            tr = st.trace
            while tr is not None:
                e = tr[1]
                if e.kind == "call" and is_execute(e.a):
                    sql = e.a[2][0] if e.a[2] else NONE
                    s = read_sql(cval(sql)) if is_const(sql) and isinstance(cval(sql), str) else None
                    row = self.rows(s) if s is not None and s.kind == "select" else None
                    if row is None:
                        return None
                    return row if name == "fetchone" else ("list", (row,))
                tr = tr[0]
        return None

    def jsonable(self, t):
        """What json.loads makes of the JSON form."""
        if t[0] == "dict":
            return ("dict", tuple((k if is_const(k) and isinstance(cval(k), str) else bad("key", k), self.jsonable(v)) for k, v in t[1]))
        if t[0] in ("list", "tuple"):
            return ("list", tuple(self.jsonable(x) for x in t[1]))
        if t[0] == "comp" and t[1] in ("list", "tuple"):
            return t[:2] + (self.jsonable(t[2]),) + t[3:]
        if t[0] in ("new", "set", "bytesof", "jsonbytes", "cbor", "parsed") or self.kind(t) in ("bytes", "datetime") or is_const(t) and isinstance(cval(t), bytes):
            return bad("not JSON", t)
        return t

    def possible(self, path):
        """Can the path be taken, as far as the kinds of the unknown parts say?"""
        for e in flat(path.events):
            if e.kind != "guard" or not isinstance(e.a, tuple):
                continue
            t, want = e.a, e.b
            if t[0] == "cmp" and t[1] in ("is", "==") and NONE in t[2:4]:
                x = t[3] if t[2] == NONE else t[2]
                if want and self.kind(x) is not None:
                    return False
            if is_call(t, "isinstance") and len(t[2]) == 2 and self.kind(t[2][0]) is not None:
                cs = t[2][1][1] if t[2][1][0] == "tuple" else (t[2][1],)
                names = {c[1].split(".")[-1] for c in cs if c[0] in ("g", "cls")}
                if (self.kind(t[2][0]) in names) != want:
                    return False
        return True


def bad(what, t):
    return ("unk", what + ": " + show(t)[:40], 0)


def lists(t):
    """CBOR gives arrays back as lists."""
    if t[0] in ("tuple", "list"):
        return ("list", tuple(lists(x) for x in t[1]))
    if t[0] == "dict":
        return ("dict", tuple((k, lists(v)) for k, v in t[1]))
    if t[0] == "comp" and t[1] in ("list", "tuple", "gen"):
        return ("comp", "list", lists(t[2])) + t[3:]
    return t


def contents(t):
    """The data in a stream which was not read yet."""
    if t[0] == "call" and t[1] == ("g", "io.BytesIO") and len(t[2]) == 1:
        return t[2][0]
    if t[0] == "ctx":
        return contents(t[1])
    return None


# ----------------------------------------------------------------- vouchers
def kind_of(annotation):
    names = {n.id for n in ast.walk(annotation) if isinstance(n, ast.Name)} if annotation is not None else set()
    for k in ("bytes", "datetime", "int", "str"):
        if k in names:
            return k
    return None


def state_classes(ctx):
    out = []
    for q, c in sorted(ctx.program.classes.items()):
        if ".tests" not in q and {"should_start_redemption", "start_at_counter"} <= set(c.methods):
            out.append(c)
    if len(out) < 3:
        raise AnalysisBroken("anchor vanished: the classes of voucher states")
    return out


def parts(ctx, cls, prefix):
    """(source of the arguments, names, kinds) to make an instance of unknown parts"""
    names, kinds, out = [], {}, []
    for f in ctx.program.all_fields(cls):
        if not f.init:
            continue
        n = prefix + f.name.lstrip("_").upper()
        names.append(n)
        kinds[p(n)] = kind_of(f.annotation)
        out.append((f, n))
    return out, names, kinds


def fields_of(new):
    return {k: v for k, v in new[2]}


def vouchers(ctx):
    v = ctx.program.cls(VOUCHER)
    tags = {}
    for c in state_classes(ctx):
        name = c.qual.split(".")[-1]
        sf, sn, kinds = parts(ctx, c, "S_")
        vf, vn, vk = parts(ctx, v, "V_")
        vf = [(f, n) for f, n in vf if f.name != "state"]
        if len(vf) + 1 != len(vn):
            raise AnalysisBroken("anchor vanished: the state of a voucher")
        kinds.update(vk)
        codecs = Codecs(kinds)
        make = "Voucher(%s, state=%s(%s))" % (
            ", ".join("%s=%s" % (f.init_name, n) for f, n in vf), name, ", ".join("%s=%s" % (f.init_name, n) for f, n in sf))
        head = "def form(%s):\n    " % ", ".join(n for f, n in vf + sf)
        loc = "%s:%d" % (c.module.rel if hasattr(c.module, "rel") else c.module.name, c.node.lineno)
        for created in (True, False):
            made = make if created else make.replace("V_CREATED", "None")
            it, ps = ctx.snippet(module_of(c), head + "return Voucher.from_json(%s.to_json())" % made, rewrite=codecs)
            n = 0
            for path in ps:
                if not codecs.possible(path):
                    continue
                n += 1
                problem = None
                if path.kind != "return":
                    problem = "reading the JSON form of a voucher in state %s fails" % name
                elif path.value[0] != "new" or path.value[1] != v.qual:
                    problem = "what is read is not a voucher: %s" % show(path.value)[:80]
                else:
                    problem = difference(fields_of(path.value), vf, created, c, sf)
                if problem:
                    ctx.bad("voucher", name, loc, problem, path)
            ctx.check(n > 0, "voucher", name, loc, "no voucher in state %s can be written and read" % name)
        # the form itself
        it, ps = ctx.snippet(module_of(c), head + "return %s.marshal()" % make, rewrite=codecs)
        it2, ps2 = ctx.snippet(module_of(c), head + "return %s.to_json()" % make, rewrite=codecs)
        for path in ps + ps2:
            if path.kind != "return" or not codecs.possible(path):
                continue
            d = path.value
            if d[0] == "jsonbytes":
                d = d[1]
            d = as_dict(d)
            s = as_dict(d.get("state")) if d else None
            if not d or not s or "name" not in s or not is_const(s["name"]):
                ctx.bad("tags", name, loc, "the JSON form of a voucher in state %s has no tag" % name, path)
                continue
            tag = cval(s["name"])
            tags.setdefault(c.qual, set()).add(tag)
            if set(d) != TOP:
                ctx.bad("tags", name, loc, "the JSON form of a voucher has the keys %s" % sorted(map(str, d)), path)
            if tag not in DOCUMENTED:
                ctx.bad("tags", name, loc, "the state tag %r is not a documented one" % (tag,), path)
            elif set(s) != DOCUMENTED[tag]:
                ctx.bad("tags", name, loc, "state %r has the keys %s, documented are %s" % (tag, sorted(map(str, s)), sorted(DOCUMENTED[tag])), path)
            elif tag.replace("-", "") != name.lower():
                ctx.bad("tags", name, loc, "state %s is tagged %r" % (name, tag), path)
            else:
                ctx.ok("tags", name)
        if len(tags.get(c.qual, ())) != 1:
            ctx.bad("tags", name, loc, "state %s has the tags %s" % (name, sorted(tags.get(c.qual, ()))))
    seen = {}
    for q, ts in tags.items():
        for t in ts:
            if seen.setdefault(t, q) != q:
                ctx.bad("tags", q.split(".")[-1], "", "states %s and %s have the same tag %r" % (seen[t], q, t))
    return {t: q for q, ts in tags.items() for t in ts}


def module_of(c):
    return c.module.name.split(".", 1)[1]


def as_dict(t):
    if t is None or t[0] != "dict" or not all(is_const(k) for k, v in t[1]):
        return None
    return {cval(k): v for k, v in t[1]}


def difference(got, vf, created, c, sf):
    for f, n in vf:
        want = p(n) if created or f.name != "created" else NONE
        if got.get(f.name) != want:
            return "%s is read back as %s" % (f.name, show(got[f.name])[:80] if f.name in got else "nothing")
    s = got.get("state")
    if s is None or s[0] != "new" or s[1] != c.qual:
        return "state %s is read back as %s" % (c.qual.split(".")[-1], show(s)[:60] if s else "nothing")
    inner = fields_of(s)
    for f, n in sf:
        if inner.get(f.name) != p(n):
            return "%s of state %s is read back as %s" % (f.name, c.qual.split(".")[-1], show(inner[f.name])[:80] if f.name in inner else "nothing")
    return None


# ----------------------------------------------------------------- database
def columns_of(stmt):
    out = []
    for c in stmt.columns or ():
        e = c if isinstance(c, tuple) else None
        if e is None or e[0] != "col":
            return None
        out.append(e[1])
    return out


def public_methods(store):
    for name, f in sorted(store.cls.methods.items()):
        if not name.startswith("_"):
            yield name, f


def database(ctx, tags):
    store = Store(ctx)
    stored = written(ctx, store)
    if "vouchers" not in stored:
        raise AnalysisBroken("anchor vanished: the states written to the database")
    for tag in sorted(stored["vouchers"]):
        for reader in ("get", "list"):
            needed = read(ctx, store, reader, tag, tags)
            if needed is None:
                continue
            for loc, sets in stored["vouchers"][tag]:
                if sets is None:
                    continue
                missing = needed - sets
                if missing:
                    ctx.bad("needed", tag, loc, "state %r is stored without %s, which its reader needs" % (tag, ", ".join(sorted(missing))))
                else:
                    ctx.ok("needed", tag)


def written(ctx, store):
    """{"vouchers": {tag: [(where, columns set at the same time or None)]}}, checking how values are written"""
    out = {}
    known, unknown = Codecs(decode_all=True, rows=row_of({})), Codecs(decode_all=True)
    times = time_columns(ctx)
    for name, f in public_methods(store):
        # once with a row in each table, once without looking into rows
        it, ps = store.run(f, rewrite=known)
        it2, ps2 = store.run(f, rewrite=unknown)
        for path in ps + ps2:
            for x in statements(path):
                st = x.stmt
                values = {}
                if st.kind == "insert" and st.columns and st.values:
                    values = dict(zip(st.columns, st.values))
                elif st.kind == "update":
                    values = dict(st.sets)
                for col, e in values.items():
                    v = x.value(e)
                    if v is None:
                        continue
                    if (st.table, col) in TEXT:
                        text(ctx, name, st.table, col, x, v, path)
                    if (st.table, col) in times:
                        time(ctx, name, st.table, col, x, v, times[(st.table, col)], path)
                for (tb, col) in TEXT:
                    if tb == st.table and st.kind in ("select", "update", "delete"):
                        v = x.equals(col)
                        if v is not None and not is_const(v):
                            text(ctx, name, tb, col, x, v, path)
                if st.table == "vouchers" and st.kind == "insert" and "state" not in values:
                    out.setdefault("vouchers", {}).setdefault(default_state(ctx), []).append((x.loc, None))
                if st.table == "vouchers" and "state" in values:
                    v = x.value(values["state"])
                    if v is None or not is_const(v):
                        for t in sorted({cval(y) for y in walk(v) if is_const(y) and isinstance(cval(y), str)}) if v is not None and v[0] in ("phi", "ite") else ():
                            out.setdefault("vouchers", {}).setdefault(t, []).append((x.loc, set(values)))
                        if v is None or v[0] not in ("phi", "ite"):
                            ctx.bad("stored", name, x.loc, "it cannot be seen which state is stored: %s" % (show(v)[:60] if v is not None else "?"), path)
                    else:
                        out.setdefault("vouchers", {}).setdefault(cval(v), []).append((x.loc, set(values)))
            if path.kind == "return" and path.value is not None:
                tokens(ctx, name, f, path)
    return out


def default_state(ctx):
    from .store import sql_sites
    for owner, m, node, st in sql_sites(ctx.program):
        if st.kind in ("create", "alter") and st.table == "vouchers" and "state" in st.coldefs:
            ws = list(st.coldefs["state"])
            for a, b in zip(ws, ws[1:]):
                if a == ("kw", "DEFAULT"):
                    return b[1]
    return "pending"


def text(ctx, name, table, col, x, v, path):
    good = v[0] in ("text", "col") or v[0] == "p" or v[0] in ("sub", "elem") and any(y[0] == "call" and fname(y[1]) in ("fetchall", "fetchone") for y in walk(v))
    ctx.check(good, "text", "%s: %s" % (table, col), x.loc, "%s gives %s as the %s of %s" % (name, show(v)[:60], col, table), path)


def time_columns(ctx):
    """Columns which hold the time at which something happened to a voucher, and the separator their reader expects."""
    return {("vouchers", "created"): None, ("vouchers", "finished"): None}


def time(ctx, name, table, col, x, v, sep, path):
    wrong = v[0] == "iso" and v[2] != const(" ") or v[0] == "call" and fname(v[1]) in NOT_STORED or v[0] == "call" and v[1][0] == "g" and v[1][1] in ("builtins.str", "builtins.repr", "builtins.int", "builtins.float") or v[0] == "fmt" or is_const(v)
    ctx.check(not wrong, "columns", "written " + col, x.loc, "%s stores %s as the time in %s, which is not how it is read" % (name, show(v)[:60], col), path)


def tokens(ctx, name, f, path):
    for t in walk(path.value):
        if t[0] == "new" and t[1].split(".")[-1] in TOKENS and any(y[0] == "col" for y in walk(t)):
            v = t[2][0][1]
            ctx.check(v[0] == "bytesof" and v[1][0] == "col" and ("tokens" if "Random" in t[1] else "unblinded-tokens", v[1][1]) in TEXT,
                      "text", "%s returned" % t[1].split(".")[-1], f.loc(), "%s makes a token of %s" % (name, show(v)[:60]), path)


def row_of(values):
    def row(stmt):
        cols = columns_of(stmt)
        if cols is None:
            return None
        return ("tuple", tuple(values[c] if c in values else ("col", c) for c in cols))
    return row


def read(ctx, store, reader, tag, tags):
    """What the reader makes of a row with a state tag; the columns it needs."""
    f = store.method(reader)
    kinds = {}
    codecs = Codecs(kinds, rows=row_of({"state": const(tag)}))
    it, ps = store.run(f, rewrite=codecs)
    v = ctx.program.cls(VOUCHER)
    n, needed = 0, set()
    for path in ps:
        if any(e.kind == "guard" and guard_on_column(e) or e.kind == "raised" for e in flat(path.events)):
            continue
        n += 1
        if path.kind != "return":
            ctx.bad("stored", "%s %s" % (reader, tag), f.loc(), "a voucher stored in state %r cannot be read" % tag, path)
            return None
        x = path.value
        if x[0] in ("list", "tuple") and len(x[1]) == 1:
            x = x[1][0]
        if x[0] != "new" or x[1] != v.qual:
            ctx.bad("stored", "%s %s" % (reader, tag), f.loc(), "what is read is not a voucher: %s" % show(x)[:80], path)
            return None
        got = fields_of(x)
        s = got.get("state")
        if s is None or s[0] != "new" or tags.get(tag) != s[1]:
            ctx.bad("stored", "%s %s" % (reader, tag), f.loc(), "a voucher stored in state %r is read as %s" % (tag, show(s)[:60] if s else "nothing"), path)
            return None
        ctx.ok("stored", "%s %s" % (reader, tag))
        for c, new in ((v, got), (ctx.program.classes[s[1]], fields_of(s))):
            for fld in ctx.program.all_fields(c):
                if fld.name == "state":
                    continue
                col = {"token_count": "token-count"}.get(fld.name, fld.name.replace("_", "-"))
                k = kind_of(fld.annotation)
                want = ("col", col)
                if k == "bytes":
                    want = ("bytesof", want)
                elif k == "datetime":
                    want = ("parsed", want, const(" "))
                ok = new.get(fld.name) == want
                ctx.check(ok, "columns", "%s %s" % (reader, col), f.loc(), "%s is read from %s" % (fld.name, show(new[fld.name])[:60] if fld.name in new else "nothing"), path)
                if ok and c is not v and col != "counter":
                    needed.add(col)
    ctx.check(n > 0, "stored", "%s %s" % (reader, tag), f.loc(), "no voucher stored in state %r can be read" % tag)
    return needed


def guard_on_column(e):
    """A branch on the absence of a value which is always there."""
    t = e.a
    return isinstance(t, tuple) and t[0] == "cmp" and t[1] in ("is", "==") and NONE in t[2:4] and e.b and any(x[0] in ("col", "parsed", "bytesof") for x in t[2:4])


# ------------------------------------------------------------------- events
def events(ctx):
    v = ctx.program.cls("replicate.Change")
    fs = [f.init_name for f in ctx.program.all_fields(v) if f.init]
    a, b = [["%s_%s" % (x, n.upper()) for n in fs] for x in "AB"]
    make = "EventStream(changes=(%s))" % ", ".join("Change(%s)" % ", ".join("%s=%s" % y for y in zip(fs, x)) for x in (a, b))
    codecs = Codecs()
    it, ps = ctx.snippet("replicate", "def form(%s):\n    return EventStream.from_bytes(%s.to_bytes())" % (", ".join(a + b), make), rewrite=codecs)
    f = ctx.func("replicate.EventStream.from_bytes")
    n = 0
    for path in ps:
        if path.kind != "return":
            ctx.bad("events", "stream", f.loc(), "a stream of changes cannot be read back", path)
            continue
        n += 1
        x = path.value
        ch = fields_of(x).get("changes") if x[0] == "new" else None
        if ch is None or ch[0] not in ("list", "tuple") or len(ch[1]) != 2:
            ctx.bad("events", "stream", f.loc(), "two changes are read back as %s" % show(x)[:80], path)
            continue
        good = True
        for got, names in zip(ch[1], (a, b)):
            d = fields_of(got) if got[0] == "new" and got[1] == v.qual else {}
            for fld, n2 in zip(fs, names):
                if d.get(fld) != p(n2):
                    good = False
                    ctx.bad("events", "stream", f.loc(), "%s of a change is read back as %s" % (fld, show(d[fld])[:60] if fld in d else "nothing"), path)
        if good:
            ctx.ok("events", "stream")
    ctx.check(n > 0, "events", "stream", f.loc(), "no stream of changes can be read back")


LOG = {"statement": "statement", "arguments": "serialized_arguments", "important": "important", "sequence": "sequence-number"}


def event_log(ctx):
    """What add_events writes and get_events reads."""
    add, get = ctx.func("replicate.add_events"), ctx.func("replicate.get_events")
    # one event: (S, A)
    it, ps = ctx.snippet("replicate", "def form(CURSOR, S, A, IMPORTANT):\n    add_events(CURSOR, ((S, A),), IMPORTANT)", rewrite=Codecs())
    row = None
    for path in ps:
        for x in statements(path):
            if x.stmt.kind == "insert" and x.stmt.table == "event-stream":
                row = {c: x.value(e) for c, e in zip(x.stmt.columns or (), x.stmt.values or ())}
    if row is None:
        ctx.bad("event log", "added", add.loc(), "an event is not added to the event log")
        return
    row["sequence-number"] = I(("col", "sequence-number"))
    want = {"sequence": row["sequence-number"], "statement": p("S"), "arguments": p("A"), "important": p("IMPORTANT")}
    it, ps = ctx.run(get, CURSOR, rewrite=Codecs(rows=row_of(row)))
    n = 0
    for path in ps:
        if path.kind != "return":
            continue
        n += 1
        x = path.value
        ch = fields_of(x).get("changes") if x[0] == "new" else None
        if ch is None or ch[0] not in ("list", "tuple") or len(ch[1]) != 1 or ch[1][0][0] != "new":
            ctx.bad("event log", "read", get.loc(), "an event is read as %s" % show(x)[:80], path)
            continue
        d = fields_of(ch[1][0])
        for fld, t in want.items():
            v = d.get(fld)
            if v is not None and is_call(v, "bool") and v[2]:
                v = v[2][0]
            ctx.check(v == t, "event log", fld, get.loc(), "the %s of an event is read back as %s" % (fld, show(v)[:60] if v is not None else "nothing"), path)
    ctx.check(n > 0, "event log", "read", get.loc(), "no event can be read back")


def snapshot(ctx):
    f = ctx.func("recover.statements_from_snapshot") if has(ctx, "recover.statements_from_snapshot") else ctx.func("replicate.statements_from_snapshot")
    mod = f.qual.split(".")[1]
    src = "def form(A, B):\n    import io\n    from _zkapauthorizer.replicate import statements_to_snapshot\n    return list(statements_from_snapshot(lambda: io.BytesIO(statements_to_snapshot(iter((A, B))))))"
    codecs = Codecs({p("A"): "str", p("B"): "str"})
    it, ps = ctx.snippet(mod, src, rewrite=codecs)
    n = 0
    for path in ps:
        if not codecs.possible(path):
            continue
        n += 1
        if path.kind != "return":
            ctx.bad("snapshot", "statements", f.loc(), "the statements of a snapshot cannot be read back", path)
        else:
            v = path.value
            ctx.check(v[0] in ("list", "tuple") and tuple(v[1]) == (p("A"), p("B")), "snapshot", "statements", f.loc(), "the statements are read back as %s" % show(v)[:80], path)
    ctx.check(n > 0, "snapshot", "statements", f.loc(), "no snapshot can be read back")


def has(ctx, short):
    try:
        ctx.func(short)
        return True
    except AnalysisBroken:
        return False
