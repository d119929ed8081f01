"""Shared knowledge about the wallet database: statements along paths."""
import ast

from .. import sqlread
from ..match import *  # noqa: F401,F403
from ..match import p
from ..terms import I, const, fname, is_const

VS = "model.VoucherStore"
CURSOR = ("replicate._ReplicationCapableCursor.*", "replicate._ReplicationCapableConnection.*")


class Exec:
    """One execution of a statement (once per element of ``gens``)."""

    def __init__(self, ev, stmt, row, gens, conds, order, guards):
        self.ev, self.stmt, self.row, self.gens, self.conds, self.order, self.guards = ev, stmt, row, gens, conds, order, guards
        self.loc = ev.loc

    def param(self, i):
        """The term bound to the i-th placeholder."""
        if self.row is None:
            return None
        if self.row[0] in ("tuple", "list") and not any(x[0] == "star" for x in self.row[1]):
            return self.row[1][i] if i < len(self.row[1]) else None
        return I(("sub", self.row, const(i)))

    def value(self, e):
        """The term an SQL expression stands for."""
        if e is None:
            return None
        if e[0] == "par":
            return self.param(e[1])
        if e[0] in ("num", "str"):
            return const(e[1])
        if e[0] == "null":
            return NONE
        return None

    def equals(self, column, table=None):
        """The term the column is compared with for equality, or None."""
        for c in self.stmt.where:
            if c[0] == "=" and c[1][0] == "col" and c[1][1] == column and (table is None or c[1][2] in (None, table)):
                v = self.value(c[2])
                if v is not None:
                    return v
        return None

    def __repr__(self):
        return "Exec(%r %s)" % (self.stmt, show(self.row) if self.row else "")


def read_sql(text):
    try:
        return sqlread.read(text)
    except sqlread.SQLError:
        return None


def is_execute(call):
    return fname(call[1]) in ("execute", "executemany", "executescript") and call[1][0] == "attr"


def statements(path, unknown=None):
    """
    The statements executed along a path, in order.  ``unknown`` collects
    events whose statement is not a constant or cannot be read.
    """
    out = []
    n = [0]

    def go(events, gens, conds, guards):
        guards = list(guards)
        for e in events:
            n[0] += 1
            if e.kind == "guard":
                guards.append((e.a, e.b))
            if e.kind == "loop":
                for s in e.b:
                    cs = tuple((x.a, x.b) for x in s.events if x.kind == "guard")
                    go(s.events, gens + tuple(e.a), conds + tuple(e.c or ()) + cs, guards)
            elif e.kind == "call" and is_execute(e.a):
                sql = arg(e.a, 0, "statement") or arg(e.a, 99, "sql")
                row = arg(e.a, 1, "row") or arg(e.a, 99, "parameters") or arg(e.a, 99, "rows")
                st = None
                if sql is not None and is_const(sql) and isinstance(cval(sql), str):
                    st = read_sql(cval(sql))
                if st is None:
                    if unknown is not None:
                        unknown.append(e)
                    continue
                g, c = gens, conds
                if fname(e.a[1]) == "executemany" and row is not None:
                    it = strip_list(row)
                    if it[0] == "comp":
                        row, g, c = it[2], g + tuple(it[3]), c + tuple(it[4])
                    elif it[0] in ("list", "tuple") and len(it[1]) == 1:
                        row = it[1][0]
                    else:
                        row, g = I(("elem", it, 0)), g + (it,)
                out.append(Exec(e, st, row, g, c, n[0], tuple(guards)))
    go(path.events, (), (), ())
    return out


class Store:
    def __init__(self, ctx, cls=VS):
        self.ctx = ctx
        self.cls = ctx.program.cls(cls)

    def method(self, name):
        f = self.ctx.program.find_method(self.cls, name)
        if f is None:
            raise AnalysisBroken("anchor vanished: %s.%s" % (self.cls.qual, name))
        return f

    def paths(self, name, atoms=CURSOR, **kw):
        return self.run(self.method(name), atoms, **kw)

    def run(self, f, atoms=CURSOR, **kw):
        skip = 1 if takes_cursor(f) and f.decorators else 0
        return self.ctx.run(f, atoms, decorated=True, skip=skip, **kw)


def takes_cursor(f):
    a = f.node.args
    names = a.posonlyargs + a.args
    if names and names[0].arg in ("self", "cls"):
        names = names[1:]
    return bool(names) and (names[0].arg == "cursor" or (names[0].annotation is not None and "Cursor" in ast.unparse(names[0].annotation)))


_SQL_WORDS = ("SELECT", "INSERT", "UPDATE", "DELETE", "CREATE", "ALTER", "DROP", "REPLACE", "PRAGMA", "BEGIN", "COMMIT", "ROLLBACK")


def sql_sites(program):
    """
    (function qual or module name, module, node, statement) for all constant
    statements in the package.  A statement kept in a variable of a module or
    class belongs to every function which uses the variable.
    """
    out = []
    for m in program.modules.values():
        if ".tests" in m.name:
            continue

        def visit(node, owner, infunc, var):
            for ch in ast.iter_child_nodes(node):
                o, f, v = owner, infunc, var
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    o, f = owner + "." + ch.name, True
                elif isinstance(ch, ast.ClassDef):
                    o = owner + "." + ch.name
                elif isinstance(ch, (ast.Assign, ast.AnnAssign)) and not infunc:
                    ts = ch.targets if isinstance(ch, ast.Assign) else [ch.target]
                    v = ts[0].id if isinstance(ts[0], ast.Name) else None
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                if isinstance(ch, ast.Constant) and isinstance(ch.value, str):
                    text = ch.value
                    st = read_sql(text) if any(w in text.upper() for w in _SQL_WORDS) else None
                    if st is not None:
                        users = users_of(program, v) if v is not None else []
                        for u in users or [o]:
                            out.append((u, m, ch, st))
                visit(ch, o, f, v)
        visit(m.tree, m.name, False, None)
    return out


def users_of(program, name):
    """Functions which mention a name (as a variable or attribute)."""
    cache = program.__dict__.setdefault("_users", {})
    if not cache:
        for m in program.modules.values():
            if ".tests" in m.name:
                continue

            def visit(node, owner, infunc):
                for ch in ast.iter_child_nodes(node):
                    o, f = owner, infunc
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        o, f = owner + "." + ch.name, True
                    elif isinstance(ch, ast.ClassDef):
                        o = owner + "." + ch.name
                    n = ch.id if isinstance(ch, ast.Name) else ch.attr if isinstance(ch, ast.Attribute) else None
                    if n is not None and infunc and isinstance(ch.ctx, ast.Load):
                        cache.setdefault(n, set()).add(o)
                    visit(ch, o, f)
            visit(m.tree, m.name, False)
    return sorted(cache.get(name, ()))


def same_rows(a, b):
    return strip_kind(norm(a)) == strip_kind(norm(b))


def named_token(row0, gens, param):
    """Is the value the text of each of the tokens in the parameter?"""
    if row0 is None or tuple(strip_list(g) for g in gens) != (p(param),):
        return False
    e = I(("elem", gens[0], 0))
    tok = ("attr", e, "unblinded_token")
    t = row0
    if is_call(t, "decode") and receiver(t) == tok:
        return True
    return is_call(t, "str") and t[2] and t[2][0] == tok


FETCHES = ("fetchall", "fetchone", "fetchmany")


def fetched(path, execs):
    """[(fetch event, the statement whose rows it returns)]"""
    order = {id(e.ev): e for e in execs}
    out = []
    last = [None]

    def go(events):
        for e in events:
            if e.kind == "loop":
                for s in e.b:
                    go(s.events)
            elif e.kind == "call":
                if id(e) in order:
                    last[0] = order[id(e)]
                elif fname(e.a[1]) in FETCHES:
                    out.append((e, last[0]))
    go(path.events)
    return out


def boundaries(path, a, b):
    """Does a transaction end (or another begin) between two executions?"""
    seen = False
    for e in flat(path.events):
        if e is a.ev:
            seen = True
        elif e is b.ev:
            return False
        elif seen and (e.kind in ("exit", "await") or (e.kind == "call" and fname(e.a[1]) in ("commit", "rollback", "__exit__"))):
            return True
    return False


def owner_functions(ctx):
    """Qualified names of everything that was analysed so far."""
    return set(ctx.functions) | set(ctx.inlined)
