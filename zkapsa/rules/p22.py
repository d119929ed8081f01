"""
P22: schema upgrades.  The mapping of upgrade steps is evaluated from the
source, the steps are interpreted over an abstract schema (tables and columns),
and the statements executed when a database is opened are compared with the
steps from the recorded version on, along every path.
"""
import ast
import json
import os

from .store import *  # noqa: F401,F403
from .store import CURSOR, read_sql, sql_sites
from .. import sqlread

TECHNIQUE = "abstract interpretation of the upgrade statements over schemas, and path enumeration of the code which applies them"
ASSUMPTIONS = [
    "SQLite undoes DDL statements when the transaction they are in is rolled back",
    "SQL which is put together at run time is not read",
]
RELEASED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "released_schema.json")
BUILTIN = {"sqlite_master": None, "sqlite_sequence": {"name", "seq"}, "sqlite_schema": None}
ROWID = {"rowid", "_rowid_", "oid"}


def check(ctx):
    ctx.rule("chain", "the steps are numbered from the first version on without gaps", 9)
    ctx.rule("steps", "every step changes only what the steps before it have made", 15)
    ctx.rule("released", "databases which ran a released step have the schema the step now makes", 9)
    ctx.rule("used", "every table and column a statement uses exists after the last step", 25)
    ctx.rule("sequence", "exactly the steps from the recorded version on are applied, in order, each followed by recording its version", 2)
    ctx.rule("transaction", "the version is read and all steps are applied within one transaction", 1)
    ctx.rule("opened", "a wallet is made only on a database which was upgraded", 1)
    init = ctx.func("model.initialize_database")
    it, paths = ctx.run(init, CURSOR)
    mapping = find_mapping(paths)
    if mapping is None:
        raise AnalysisBroken("anchor vanished: the mapping of upgrade steps used by initialize_database")
    steps = read_mapping(ctx, mapping)
    temp = {}
    for path in paths:
        if path.kind == "return":
            applied(ctx, init, path, steps, mapping, temp)
    final = simulate(ctx, init, steps)
    for t, cols in temp.items():
        final.setdefault(t, cols)
    used(ctx, steps, final)
    opened(ctx, init)


# --- the steps ---------------------------------------------------------------

def find_mapping(paths):
    """The constant mapping from numbers to lists of statements."""
    for path in paths:
        for e in flat(path.events):
            for t in terms_of(e):
                for x in walk(t):
                    if x[0] == "dict" and is_steps(x):
                        return x
    return None


def terms_of(e):
    out = [x for x in (e.a, e.b, e.c) if isinstance(x, tuple) and x and isinstance(x[0], str)]
    if e.kind == "loop":
        out = list(e.a)
    return out


def is_steps(t):
    return bool(t[1]) and all(is_const(k) and isinstance(cval(k), int) and v[0] in ("list", "tuple") and all(is_const(x) and isinstance(cval(x), str) for x in v[1]) for k, v in t[1])


def read_mapping(ctx, mapping):
    steps = {}
    for k, v in mapping[1]:
        if cval(k) in steps:
            ctx.bad("chain", "step %d" % cval(k), ctx.func("model.initialize_database").loc(), "the step is given twice")
        steps[cval(k)] = [cval(x) for x in v[1]]
    return steps


def simulate(ctx, init, steps):
    released = json.load(open(RELEASED))
    schema = {"version": {"version": "num"}}
    loc = steps_loc(ctx) or init.loc()
    for n, v in enumerate(sorted(steps)):
        ctx.check(n == v, "chain", "step %d" % v, loc, "no step leads from version %d to the next, so the steps after it are never applied" % n)
        data = []
        for i, text in enumerate(steps[v]):
            name = "step %d statement %d" % (v, i + 1)
            try:
                st = sqlread.read(text)
            except sqlread.SQLError:
                continue
            msg = step(schema, st, data)
            ctx.check(msg is None, "steps", name, loc, "%s" % msg)
        want = released.get(str(v + 1))
        if want is not None:
            have = signature(schema, data)
            diff = difference(want, have)
            ctx.check(diff is None, "released", "version %d" % (v + 1), loc, "the upgrade to version %d was released, and databases which ran it differ from what it makes now: %s" % (v + 1, diff))
    missing = [v for v in released if int(v) - 1 not in steps]
    for v in missing:
        ctx.bad("released", "version %s" % v, loc, "the step to released version %s is gone" % v)
    return {t: set(c) for t, c in schema.items()}


def steps_loc(ctx):
    for m in ctx.program.modules.values():
        for node in m.tree.body:
            if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.Dict) and node.value.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, int) for k in node.value.keys):
                return (m.relpath, node.lineno)
    return None


def words(ws):
    return " ".join("%s:%s" % ("n" if k in ("id", "dq", "kw") else k, str(x).lower()) for k, x in ws)


def step(schema, st, data):
    """Apply a statement to the abstract schema; a message if it cannot be."""
    if st.kind == "create" and not st.temporary:
        if st.table in schema:
            return "table [%s] exists already" % st.table
        cols = {c: words(w) for c, w in st.coldefs.items()}
        for w in st.constraints:
            cons = words(w)
            for col in cols:
                pass
            cols.setdefault("", "")
            cols[""] = (cols[""] + "; " + cons).strip("; ")
        schema[st.table] = cols
        return None
    if st.kind == "alter":
        if st.table not in schema:
            return "table [%s] does not exist" % st.table
        t = schema[st.table]
        if st.action == "add":
            for c, w in st.coldefs.items():
                if c in t:
                    return "column [%s] exists already" % c
                ws = [x.upper() if isinstance(x, str) else x for k, x in w]
                if "PRIMARY" in ws or "UNIQUE" in ws:
                    return "SQLite cannot add a column with a key to a table"
                if "NOT" in ws and "DEFAULT" not in ws:
                    return "a column which is not null needs a default when rows exist"
                t[c] = words(w)
        elif st.action == "rename":
            schema[st.columns[0]] = schema.pop(st.table)
        elif st.action == "rename column":
            if st.columns[0] not in t:
                return "column [%s] does not exist" % st.columns[0]
            t[st.columns[1]] = t.pop(st.columns[0])
        elif st.action == "drop column":
            if st.columns[0] not in t:
                return "column [%s] does not exist" % st.columns[0]
            del t[st.columns[0]]
        return None
    if st.kind == "drop":
        if st.action == "TABLE":
            if st.table not in schema:
                return "table [%s] does not exist" % st.table
            del schema[st.table]
        return None
    if st.kind in ("insert", "update", "delete"):
        data.append(shape(st))
        for m in unknown_names(st, {t: set(c) for t, c in schema.items()}):
            return m
    return None


def shape(st):
    s = {
        "kind": st.kind, "table": st.table, "columns": st.columns and [repr(c) for c in st.columns], "conflict": st.conflict,
        "sets": sorted((c, repr(e)) for c, e in st.sets.items()), "where": sorted(repr(w) for w in st.where),
        "values": st.values and [repr(v) for v in st.values],
        "tables": sorted(st.tables), "order": repr(st.order), "limit": repr(st.limit),
        "distinct": ("kw", "DISTINCT") in sqlread.tokens(st.text or ""),
    }
    if st.sub is not None:
        s["sub"] = shape(st.sub)
    return json.loads(json.dumps(s))


def signature(schema, data):
    return json.loads(json.dumps({"tables": schema, "data": data}))


def difference(want, have):
    for t in sorted(set(want["tables"]) | set(have["tables"])):
        a, b = want["tables"].get(t), have["tables"].get(t)
        if a is None or b is None:
            return "table [%s] %s" % (t, "is gone" if b is None else "is new")
        for c in sorted(set(a) | set(b)):
            if a.get(c) != b.get(c):
                what = "column [%s].[%s]" % (t, c) if c else "the constraints of [%s]" % t
                return "%s %s" % (what, "is gone" if b.get(c) is None else "is new" if a.get(c) is None else "is declared differently")
    if len(want["data"]) != len(have["data"]):
        return "it changes the existing rows in %d statements instead of %d" % (len(have["data"]), len(want["data"]))
    for a, b in zip(want["data"], have["data"]):
        if a != b:
            k = next(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            return "it changes the existing rows of [%s] differently (%s)" % (a["table"], k)
    return None


def unknown_names(st, schema):
    """Tables and columns a statement uses which are not in the schema."""
    def cols(t):
        if t in schema:
            return schema[t]
        return BUILTIN.get(t, ())
    tables = [t for t in ([st.table] if st.table else []) + list(st.tables)]
    for t in dict.fromkeys(tables):
        if t not in schema and t not in BUILTIN:
            yield "table [%s] does not exist" % t
            return
    for c, t in columns_of(st):
        cands = [t] if t else list(dict.fromkeys(tables))
        for x in cands:
            have = cols(x)
            if have is None or c in have or c.lower() in ROWID or (x == "event-stream" and False):
                break
        else:
            yield "column [%s] of %s does not exist" % (c, ", ".join("[%s]" % x for x in cands))
    if st.sub is not None:
        yield from unknown_names(st.sub, schema)


def columns_of(st):
    out = []

    def go(e):
        if isinstance(e, sqlread.Stmt):
            return
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == "col":
            out.append((e[1], e[2]))
            return
        for x in e[1:]:
            go(x)
    only = st.table
    if st.kind == "insert":
        out.extend((c, only) for c in st.columns or ())
    out.extend((c, only) for c in st.sets)
    for e in list(st.sets.values()) + list(st.where) + list(st.values or ()) + [o for o, _ in st.order]:
        go(e)
    if st.kind == "select":
        for e in st.columns:
            go(e)
        for e in getattr(st, "on", ()):
            go(e)
    if st.limit:
        go(st.limit)
    return out


def used(ctx, steps, final):
    own = {t for v in steps.values() for t in v}
    for owner, m, node, st in sql_sites(ctx.program):
        if st.text in own or st.kind not in ("select", "insert", "update", "delete"):
            continue
        name = "%s: %s %s" % (owner.split(".", 1)[-1], st.kind, st.table or "")
        msgs = list(unknown_names(st, final))
        loc = (m.relpath, node.lineno)
        ctx.check(not msgs, "used", name, loc, msgs[0] if msgs else "")


# --- how they are applied ----------------------------------------------------

class Item:
    """kind: sql (a statement), steps (all statements of a version), many (a loop)"""

    def __init__(self, kind, value, ev, gens=()):
        self.kind, self.value, self.ev, self.gens = kind, value, ev, gens


def stream(events, mapping, gens=()):
    """What is executed, in order."""
    out = []
    for e in events:
        if e.kind == "loop":
            for s in e.b:
                sub = stream(s.events, mapping, gens + tuple(e.a))
                # a loop over something whose elements are executed stands for all of them
                if len(e.a) == 1 and len(sub) == 1 and sub[0].kind == "elem" and sub[0].value == e.a[0] and not e.c and s.kind == "next":
                    out.extend(items(e.a[0], mapping, e))
                elif sub:
                    out.append(Item("many", sub, e, e.a))
        elif e.kind == "call" and is_execute(e.a):
            sql = arg(e.a, 0, "statement")
            if sql is not None and is_const(sql):
                out.append(Item("sql", cval(sql), e))
            elif sql is not None and sql[0] == "elem":
                out.append(Item("elem", sql[1], e))
            else:
                out.append(Item("?", sql, e))
    return out


def items(t, mapping, ev):
    t = unwrap(t)
    if t[0] in ("list", "tuple"):
        out = []
        for x in t[1]:
            if is_const(x):
                out.append(Item("sql", cval(x), ev))
            elif x[0] == "star":
                out.extend(items(x[1], mapping, ev))
            else:
                out.append(Item("?", x, ev))
        return out
    if t[0] == "seq":
        out = []
        for x in t[2]:
            if x[0] == "item":
                out.append(Item("sql", cval(x[1]), ev) if is_const(x[1]) else Item("?", x[1], ev))
            elif x[0] == "ext":
                out.extend(items(x[1], mapping, ev))
            elif x[0] == "each" and x[1][0] == "elem" and tuple(x[2]) == (x[1][1],) and not x[3]:
                out.extend(items(x[1][1], mapping, ev))
            elif x[0] == "each" and x[2] and not x[3]:
                # part of a loop
                g = x[2][0]
                if len(x[2]) == 1:
                    part = [Item("sql", cval(x[1]), ev)] if is_const(x[1]) else [Item("?", x[1], ev)]
                elif len(x[2]) == 2 and x[1] == ("elem", x[2][1], 0):
                    part = items(x[2][1], mapping, ev)
                else:
                    part = [Item("?", x[1], ev)]
                if out and out[-1].kind == "many" and out[-1].gens == (g,):
                    out[-1].value.extend(part)
                else:
                    out.append(Item("many", part, ev, (g,)))
            else:
                out.append(Item("?", x, ev))
        return out
    if t[0] == "bin" and t[1] == "+":
        return items(t[2], mapping, ev) + items(t[3], mapping, ev)
    if t[0] == "sub" and t[1] == mapping:
        return [Item("steps", t[2], ev)]
    if is_call(t, "get") and receiver(t) == mapping and t[2]:
        return [Item("steps", t[2][0], ev)]
    return [Item("?", t, ev)]


def unwrap(t):
    while t[0] == "call" and t[1] in (("g", "builtins.list"), ("g", "builtins.iter"), ("g", "builtins.tuple")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def offset(t, base):
    n = 0
    while t != base:
        if t[0] == "bin" and t[1] == "+" and is_const(t[3]) and isinstance(cval(t[3]), int):
            n += cval(t[3])
            t = t[2]
        elif t[0] == "bin" and t[1] == "+" and is_const(t[2]) and isinstance(cval(t[2]), int):
            n += cval(t[2])
            t = t[3]
        else:
            return None
    return n


def is_version_read(sql):
    st = read_sql(sql)
    return st is not None and st.kind == "select" and st.table == "version"


def increment(it):
    """The amount a statement adds to the version, or None."""
    if it.kind != "sql":
        return None
    st = read_sql(it.value)
    if st is None or st.kind != "update" or st.table != "version" or st.where or set(st.sets) != {"version"}:
        return None
    e = st.sets["version"]
    if e[0] == "+" and len(e) == 3 and ("num", 1) in e and any(x[0] == "col" and x[1] == "version" for x in e[1:]):
        return 1
    return repr(e)


def applied(ctx, f, path, steps, mapping, temp):
    s = stream(path.events, mapping)
    name = f.qual.split(".", 1)[1]
    begin = read = None
    base = None
    todo = []
    inside = False
    enter = None
    depth = 0
    state = []
    for e in flat(path.events):
        if e.kind == "enter":
            depth += 1
            enter = e
        elif e.kind == "exit":
            depth -= 1
            inside = False
        elif e.kind == "call" and fname(e.a[1]) in ("commit", "rollback"):
            inside = False
        elif e.kind == "call" and is_execute(e.a):
            sql = arg(e.a, 0, "statement")
            st = read_sql(cval(sql)) if sql is not None and is_const(sql) else None
            if st is not None and st.kind == "begin":
                inside = depth > 0
                continue
            if st is not None and st.kind in ("commit", "rollback"):
                inside = False
                continue
            if st is not None and st.kind == "pragma":
                continue
            if fname(e.a[1]) == "executescript":
                inside = False
            ctx.check(inside, "transaction", name, e.loc, "a statement of the upgrade is not in the transaction", path)
            if st is not None and st.kind == "create" and st.temporary:
                temp[st.table] = set(st.coldefs)
        elif e.kind == "call" and fname(e.a[1]) in FETCHES and base is None:
            base = e.a
    # the recorded version
    i = 0
    while i < len(s) and not (s[i].kind == "sql" and is_version_read(s[i].value)):
        st = read_sql(s[i].value) if s[i].kind == "sql" else None
        if st is not None and st.kind == "create" and st.table == "version":
            first = st.sub.columns[0] if st.sub is not None and st.sub.columns else None
            ctx.check(first == ("num", min(steps)), "sequence", "first version", s[i].ev.loc, "a new database does not start with the first version")
        i += 1
    if i == len(s) or base is None:
        ctx.bad("sequence", name, f.loc(), "the recorded version is not read", path)
        return
    rest = [x for x in s[i + 1:]]
    while rest and rest[-1].kind == "sql" and temporary(rest[-1].value):
        rest.pop()
    version = version_term(path, base)
    if version is None:
        ctx.bad("sequence", name, f.loc(), "which steps are applied does not depend on the recorded version", path)
        return
    ok, msg, ev = follow(path, rest, version, steps, mapping)
    ctx.check(ok, "sequence", name, ev.loc if ev is not None else f.loc(), msg or "", path)


def temporary(text):
    st = read_sql(text)
    return st is not None and st.kind == "create" and st.temporary


def version_term(path, fetch):
    """The number taken out of the fetched rows, as used in the decisions."""
    for e in flat(path.events):
        if e.kind in ("guard", "loop"):
            for t in terms_of(e):
                for x in walk(t):
                    if x[0] == "sub" and is_const(x[2]) and rooted(x, fetch):
                        return outer(t, x, fetch)
    return None


def rooted(x, fetch):
    while x[0] == "sub":
        x = x[1]
    return x == fetch


def outer(t, x, fetch):
    best = x
    for y in walk(t):
        if y[0] == "sub" and rooted(y, fetch) and contains(y, best) and y != best:
            best = y
    return best


def follow(path, rest, version, steps, mapping):
    """The statements after the version was read are the steps from it on."""
    k = 0
    i = 0
    while i < len(rest):
        x = rest[i]
        if x.kind == "steps":
            o = offset(x.value, version)
            if o != k:
                return False, "the steps of another version than the next are applied", x.ev
            i += 1
            if i == len(rest) or increment(rest[i]) != 1:
                return False, "the version is not recorded after its step", x.ev
            i += 1
            k += 1
            continue
        if x.kind == "many":
            r = every(x, version, steps, mapping)
            if r is not None:
                return False, r, x.ev
            if i != len(rest) - 1 or k:
                return False, "more is applied after the last version", x.ev
            return True, None, None
        if x.kind == "sql":
            return False, "a statement is applied which is not part of a step", x.ev
        return False, "what is executed cannot be read: %s" % show(x.value)[:80], x.ev
    # nothing more: the next version must have no step
    for e in path.events:
        if e.kind != "guard":
            continue
        t, pol = e.a, e.b
        if t[0] == "cmp" and t[1] == "in" and t[3] in keys_of(mapping) and offset(t[2], version) == k and pol is False:
            return True, None, None
        if t[0] == "cmp" and t[1] in ("<", "<="):
            a, b = t[2], number(t[3], mapping)
            if offset(a, version) == k and b is not None and pol is False and b + (t[1] == "<=") == max(steps) + 1:
                return True, None, None
            a, b = t[3], number(t[2], mapping)
            if offset(a, version) == k and b is not None and pol is True and b + (t[1] == "<") == max(steps) + 1:
                return True, None, None
        if is_call(t, "get") and receiver(t) == mapping and offset(t[2][0], version) == k and pol is False:
            return True, None, None
        if t[0] == "cmp" and t[1] in ("is", "==") and t[3] == NONE and is_call(t[2], "get") and receiver(t[2]) == mapping and offset(t[2][2][0], version) == k and pol is True:
            return True, None, None
    last = [e for e in path.events if e.kind == "guard"]
    return False, "the upgrade stops although there may be a step from the version reached", last[-1] if last else None


def keys_of(mapping):
    return (mapping, I(("call", ("attr", mapping, "keys"), (), (), 0)), I(("tuple", tuple(k for k, _ in mapping[1]))), I(("list", tuple(k for k, _ in mapping[1]))))


def number(t, mapping):
    if is_const(t) and isinstance(cval(t), int):
        return cval(t)
    if lenof(t) == mapping:
        return len(mapping[1])
    if is_call(t, "max") and t[2] and unwrap(t[2][0]) in keys_of(mapping):
        return max(cval(k) for k, _ in mapping[1])
    if t[0] == "bin" and t[1] in "+-" and len(t[1]) == 1:
        a, b = number(t[2], mapping), number(t[3], mapping)
        if a is None or b is None:
            return None
        return a + b if t[1] == "+" else a - b
    return None


def every(x, version, steps, mapping):
    """A loop over all versions from the recorded one on; a message if not."""
    g = x.gens[0] if len(x.gens) == 1 else None
    if g is None:
        return "the steps are applied in another order"
    e = I(("elem", g, 0))
    g = unwrap(g)
    good = False
    if is_call(g, "range") and 1 < len(g[2]) < 3:
        good = g[2][0] == version and number(g[2][1], mapping) == max(steps) + 1
    elif is_call(g, "sorted") and len(g[2]) == 1 and not g[3]:
        inner = unwrap(g[2][0])
        good = inner[0] in ("comp", "seq") and at_least(inner, version, mapping)
        e = (e, I(("elem", g[2][0], 0)), I(("elem", inner, 0)))
    if not good:
        return "the versions whose steps are applied are not those from the recorded one on: %s" % show(g)[:80]
    sub = x.value
    if len(sub) != 2 or sub[0].kind != "steps" or sub[0].value not in (e if isinstance(e[0], tuple) else (e,)) or increment(sub[1]) != 1:
        return "the version is not recorded after each step"
    return None


def at_least(t, version, mapping):
    """All versions from ``version`` on."""
    def from_on(e, cond):
        return tuple(cond) in (((I(("cmp", "<", e, version)), False),), ((I(("cmp", "<=", version, e)), True),))
    if t[0] == "seq":
        keys = [x[1] for x in t[2]]
        return [cval(k) for k in keys if is_const(k)] == sorted(cval(k) for k, _ in mapping[1]) and all(x[0] == "each" and not x[2] and from_on(x[1], x[3]) for x in t[2])
    gens, conds = t[3], t[4]
    if len(gens) != 1 or unwrap(gens[0]) not in keys_of(mapping):
        return False
    e = I(("elem", gens[0], 0))
    return t[2] == e and from_on(e, conds)


def opened(ctx, init):
    f = ctx.func("model.VoucherStore.from_connection")
    it, paths = ctx.run(f, (init.qual.split(".", 1)[1],))
    for path in paths:
        if path.kind != "return":
            continue
        done = {e.a[2][0] for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == init.name and e.a[2]}
        conn = field(path.value, "connection") if path.value[0] == "new" else None
        ctx.check(conn is not None and conn in done, "opened", "from_connection", f.loc(), "the wallet is made on a connection whose database was not upgraded", path)
    for m in ctx.program.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, (ast.Name, ast.Attribute)) and (node.func.id if isinstance(node.func, ast.Name) else node.func.attr) == "VoucherStore":
                ctx.bad("opened", "VoucherStore(...) in %s" % m.name, (m.relpath, node.lineno), "a wallet is made on a connection whose database was not upgraded")
