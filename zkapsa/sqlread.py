"""
A small reader for the SQL statements in the source.  It takes statements
apart (table, columns, assignments, conditions) so that rules can say what a
statement does without depending on its layout.
"""
import re

TOKEN = re.compile(r"""
    (?P<ws>\s+|--[^\n]*(?:\n|$)|/\*.*?\*/)
  | (?P<br>\[[^\]]*\])
  | (?P<dq>"(?:[^"]|"")*")
  | (?P<sq>'(?:[^']|'')*')
  | (?P<bq>`[^`]*`)
  | (?P<num>\d+(?:\.\d+)?)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
  | (?P<par>\?\d*|[:@$][A-Za-z_][A-Za-z_0-9]*)
  | (?P<op><>|!=|<=|>=|==|\|\||[-+*/%=<>(),.;])
""", re.X | re.S)

KEYWORDS = {
    "SELECT", "FROM", "WHERE", "AND", "OR", "NOT", "IN", "IS", "NULL", "ORDER", "BY", "LIMIT", "DESC", "ASC", "INSERT",
    "INTO", "VALUES", "UPDATE", "SET", "DELETE", "REPLACE", "IGNORE", "CREATE", "TABLE", "TEMPORARY", "TEMP", "DROP",
    "ALTER", "ADD", "COLUMN", "AS", "ON", "JOIN", "INNER", "LEFT", "BEGIN", "IMMEDIATE", "TRANSACTION", "COMMIT",
    "ROLLBACK", "PRAGMA", "EXISTS", "DISTINCT", "GROUP", "HAVING", "BETWEEN", "LIKE", "ABORT", "FAIL", "INDEX", "UNIQUE",
    "PRIMARY", "FOREIGN", "KEY", "REFERENCES", "IF", "DEFAULT", "RENAME", "TO", "UNION", "ALL", "END", "EXCLUSIVE",
    "DEFERRED", "CONSTRAINT", "CHECK", "AUTOINCREMENT", "TRIGGER", "VIEW", "CROSS", "NATURAL", "OUTER", "OFFSET", "RETURNING",
    "CONFLICT", "DO", "NOTHING", "CASE", "WHEN", "THEN", "ELSE", "COLLATE", "WITH", "OFF", "CASCADE",
}


class SQLError(Exception):
    pass


def tokens(text):
    out = []
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            raise SQLError("cannot read %r" % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        v = m.group()
        if k == "ws":
            continue
        if k == "br" or k == "bq":
            out.append(("id", v[1:-1]))
        elif k == "dq":
            out.append(("dq", v[1:-1].replace('""', '"')))
        elif k == "sq":
            out.append(("str", v[1:-1].replace("''", "'")))
        elif k == "num":
            out.append(("num", float(v) if "." in v else int(v)))
        elif k == "id":
            out.append(("kw", v.upper()) if v.upper() in KEYWORDS else ("id", v))
        elif k == "par":
            out.append(("par", v))
        else:
            out.append(("op", v))
    return out


class Stmt:
    """
    kind: select insert update delete create drop alter begin commit rollback
    pragma other
    """

    def __init__(self, kind):
        self.kind = kind
        self.table = None
        self.alias = {}
        self.tables = []
        self.columns = None       # select/insert columns
        self.values = None        # insert: expressions, per column
        self.sets = {}            # update: column -> expression
        self.where = ()           # conjunction of expressions
        self.order = ()
        self.limit = None
        self.conflict = None      # insert or ...
        self.temporary = False
        self.coldefs = {}         # create: column -> words of its definition
        self.constraints = []
        self.action = None
        self.mode = None
        self.params = 0
        self.sub = None           # insert ... select
        self.text = ""

    def __repr__(self):
        return "<%s %s cols=%r sets=%r where=%r>" % (self.kind, self.table, self.columns, self.sets, self.where)

    @property
    def mutates(self):
        return self.kind in ("insert", "update", "delete", "create", "drop", "alter", "replace")


class Reader:
    def __init__(self, toks):
        self.t, self.i, self.n = toks, 0, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def kw(self, *words):
        """Accept a sequence of keywords."""
        for j, w in enumerate(words):
            if self.peek(j) != ("kw", w):
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def need_op(self, o):
        if not self.op(o):
            raise SQLError("expected %r at %r" % (o, self.peek()))

    def need_kw(self, *w):
        if not self.kw(*w):
            raise SQLError("expected %r at %r" % (w, self.peek()))

    def name(self):
        k, v = self.next()
        if k not in ("id", "dq", "str", "kw"):
            raise SQLError("expected a name, got %r" % (v,))
        if self.peek() == ("op", ".") and v.lower() in ("temp", "main", "temporary"):
            self.next()
            return self.name()
        return v

    # expressions
    def expr(self):
        a = self.conj_()
        items = [a]
        while self.kw("OR"):
            items.append(self.conj_())
        return items[0] if len(items) == 1 else ("or",) + tuple(items)

    def conj_(self):
        items = [self.neg()]
        while self.kw("AND"):
            items.append(self.neg())
        return items[0] if len(items) == 1 else ("and",) + tuple(items)

    def neg(self):
        if self.peek() == ("kw", "NOT") and self.peek(1) != ("kw", "EXISTS"):
            self.next()
            return negate(self.neg())
        return self.cmp_()

    def cmp_(self):
        a = self.add()
        while True:
            k, v = self.peek()
            if k == "op" and v in ("=", "==", "<>", "!=", "<", ">", "<=", ">="):
                self.next()
                b = self.add()
                v = {"==": "=", "<>": "!="}.get(v, v)
                a = mkcmp(v, a, b)
            elif self.kw("IS", "NOT", "NULL"):
                a = ("not", ("isnull", a))
            elif self.kw("IS", "NULL"):
                a = ("isnull", a)
            elif self.kw("IS", "NOT"):
                a = mkcmp("!=", a, self.add())
            elif self.kw("IS"):
                a = mkcmp("=", a, self.add())
            elif self.kw("NOT", "IN"):
                a = ("not", ("in", a, self.inset()))
            elif self.kw("IN"):
                a = ("in", a, self.inset())
            elif self.kw("BETWEEN"):
                lo = self.add()
                self.need_kw("AND")
                hi = self.add()
                a = ("and", mkcmp(">=", a, lo), mkcmp("<=", a, hi))
            elif self.kw("NOT", "LIKE"):
                a = ("not", ("like", a, self.add()))
            elif self.kw("LIKE"):
                a = ("like", a, self.add())
            elif self.kw("COLLATE"):
                self.next()
            else:
                return a

    def inset(self):
        if self.op("("):
            if self.peek() == ("kw", "SELECT"):
                s = self.select()
                self.need_op(")")
                if len(s.tables) == 1 and not s.where and s.limit is None:
                    return ("table", s.table)
                return ("select", s)
            items = [self.expr()]
            while self.op(","):
                items.append(self.expr())
            self.need_op(")")
            return ("list",) + tuple(items)
        return ("table", self.name())

    def add(self):
        a = self.mul()
        while self.peek() in (("op", "+"), ("op", "-"), ("op", "||")):
            o = self.next()[1]
            a = (o, a, self.mul())
        return a

    def mul(self):
        a = self.prim()
        while self.peek() in (("op", "*"), ("op", "/"), ("op", "%")):
            o = self.next()[1]
            a = (o, a, self.prim())
        return a

    def prim(self):
        if self.op("("):
            if self.peek() == ("kw", "SELECT"):
                s = self.select()
                self.need_op(")")
                return ("scalar", s)
            e = self.expr()
            while self.op(","):
                e = ("row", e, self.expr())
            self.need_op(")")
            return e
        if self.op("-"):
            x = self.prim()
            return ("num", -x[1]) if x[0] == "num" else ("neg", x)
        if self.op("*"):
            return ("star",)
        neg = self.peek() == ("kw", "NOT")
        if neg:
            self.next()
        if self.kw("EXISTS"):
            self.need_op("(")
            s = self.select()
            self.need_op(")")
            return ("not", ("exists", s)) if neg else ("exists", s)
        if self.kw("CASE"):
            parts = []
            while not self.kw("END"):
                parts.append(self.next())
            return ("case", tuple(parts))
        k, v = self.next()
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("str", v)
        if k == "par":
            self.n += 1
            return ("par", self.n - 1) if v == "?" else ("named", v)
        if k == "kw" and v == "NULL":
            return ("null",)
        if k in ("id", "dq", "kw"):
            if k in ("id", "kw") and self.op("("):
                args = []
                if not self.op(")"):
                    self.kw("DISTINCT")
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                    self.need_op(")")
                return ("fn", v.lower()) + tuple(args)
            if self.peek() == ("op", "."):
                self.next()
                return ("col", self.name(), v)
            return ("col", v, None) if k == "id" else ("dq", v)
        raise SQLError("unexpected %r" % (v,))

    # statements
    def where_(self, st):
        if self.kw("WHERE"):
            e = self.expr()
            st.where = flatten_and(e)

    def select(self):
        st = Stmt("select")
        self.need_kw("SELECT")
        self.kw("DISTINCT")
        st.columns = [self.expr()]
        self.aliased()
        while self.op(","):
            st.columns.append(self.expr())
            self.aliased()
        if self.kw("FROM"):
            self.from_(st)
        self.where_(st)
        if self.kw("GROUP", "BY"):
            self.expr()
            st.action = "group"
        if self.kw("ORDER", "BY"):
            o = []
            while True:
                e = self.expr()
                d = "desc" if self.kw("DESC") else "asc"
                self.kw("ASC")
                o.append((e, d))
                if not self.op(","):
                    break
            st.order = tuple(o)
        if self.kw("LIMIT"):
            st.limit = self.expr()
        if self.kw("UNION"):
            self.kw("ALL")
            self.select()
            st.action = "union"
        return st

    def aliased(self):
        if self.kw("AS"):
            self.name()

    def from_(self, st):
        extra = []
        def one():
            n = self.name()
            st.tables.append(n)
            if self.kw("AS"):
                st.alias[self.name()] = n
            elif self.peek()[0] == "id":
                st.alias[self.next()[1]] = n
        one()
        while True:
            if self.op(","):
                one()
            elif self.kw("INNER", "JOIN") or self.kw("JOIN") or self.kw("CROSS", "JOIN"):
                one()
                if self.kw("ON"):
                    extra.extend(flatten_and(self.expr()))
            else:
                break
        st.table = st.tables[0]
        if extra:
            st.on = tuple(extra)

    def statement(self):
        if self.peek() == ("kw", "SELECT"):
            return self.select()
        if self.peek() in (("kw", "INSERT"), ("kw", "REPLACE")):
            st = Stmt("insert")
            if self.next()[1] == "REPLACE":
                st.conflict = "REPLACE"
            if self.kw("OR"):
                st.conflict = self.next()[1]
            self.need_kw("INTO")
            st.table = self.name()
            st.tables = [st.table]
            if self.op("("):
                st.columns = [self.name()]
                while self.op(","):
                    st.columns.append(self.name())
                self.need_op(")")
            if self.kw("VALUES"):
                self.need_op("(")
                st.values = [self.expr()]
                while self.op(","):
                    st.values.append(self.expr())
                self.need_op(")")
            elif self.peek() == ("kw", "SELECT"):
                st.sub = self.select()
            elif self.kw("DEFAULT", "VALUES"):
                st.values = []
            if self.kw("ON", "CONFLICT"):
                st.conflict = "CONFLICT"
                self.i = len(self.t)
            return st
        if self.kw("UPDATE"):
            st = Stmt("update")
            if self.kw("OR"):
                st.conflict = self.next()[1]
            st.table = self.name()
            st.tables = [st.table]
            self.need_kw("SET")
            while True:
                if self.op("("):
                    raise SQLError("row assignment")
                c = self.name()
                self.need_op("=")
                st.sets[c] = self.expr()
                if not self.op(","):
                    break
            self.where_(st)
            return st
        if self.kw("DELETE"):
            st = Stmt("delete")
            self.need_kw("FROM")
            st.table = self.name()
            st.tables = [st.table]
            self.where_(st)
            return st
        if self.kw("CREATE"):
            st = Stmt("create")
            st.temporary = self.kw("TEMPORARY") or self.kw("TEMP")
            if self.kw("UNIQUE", "INDEX") or self.kw("INDEX") or self.kw("TRIGGER") or self.kw("VIEW"):
                st.kind = "other"
                return st
            self.need_kw("TABLE")
            self.kw("IF", "NOT", "EXISTS")
            st.table = self.name()
            st.tables = [st.table]
            if self.kw("AS"):
                st.sub = self.select()
                return st
            self.need_op("(")
            for words in self.split_commas():
                if words[0][0] == "kw" and words[0][1] in ("PRIMARY", "FOREIGN", "UNIQUE", "CONSTRAINT", "CHECK"):
                    st.constraints.append(tuple(words))
                else:
                    st.coldefs[words[0][1]] = tuple(words[1:])
            return st
        if self.kw("DROP"):
            st = Stmt("drop")
            st.action = self.next()[1]
            self.kw("IF", "EXISTS")
            st.table = self.name()
            return st
        if self.kw("ALTER", "TABLE"):
            st = Stmt("alter")
            st.table = self.name()
            if self.kw("ADD"):
                self.kw("COLUMN")
                st.action = "add"
                rest = self.t[self.i:]
                st.coldefs[rest[0][1]] = tuple(rest[1:])
            elif self.kw("RENAME", "TO"):
                st.action = "rename"
                st.columns = [self.name()]
            elif self.kw("RENAME"):
                self.kw("COLUMN")
                st.action = "rename column"
                a = self.name()
                self.need_kw("TO")
                st.columns = [a, self.name()]
            elif self.kw("DROP"):
                self.kw("COLUMN")
                st.action = "drop column"
                st.columns = [self.name()]
            self.i = len(self.t)
            return st
        if self.kw("BEGIN"):
            st = Stmt("begin")
            st.mode = self.next()[1] if self.peek()[0] == "kw" and self.peek()[1] in ("IMMEDIATE", "EXCLUSIVE", "DEFERRED") else None
            self.i = len(self.t)
            return st
        if self.kw("COMMIT") or self.kw("END"):
            return Stmt("commit")
        if self.kw("ROLLBACK"):
            return Stmt("rollback")
        if self.kw("PRAGMA"):
            st = Stmt("pragma")
            st.table = self.name()
            st.action = self.t[self.i:]
            self.i = len(self.t)
            return st
        raise SQLError("unknown statement %r" % (self.peek(),))

    def split_commas(self):
        """Comma separated items up to the closing parenthesis."""
        depth = 0
        cur, out = [], []
        while True:
            t = self.next()
            if t[0] == "end":
                raise SQLError("unterminated")
            if t == ("op", "("):
                depth += 1
            if t == ("op", ")"):
                if depth == 0:
                    if cur:
                        out.append(cur)
                    return out
                depth -= 1
            if t == ("op", ",") and depth == 0:
                out.append(cur)
                cur = []
                continue
            cur.append(t)


def negate(e):
    if e[0] == "not":
        return e[1]
    if e[0] in ("<", ">", "<=", ">=", "=", "!="):
        return mkcmp({"<": ">=", ">": "<=", "<=": ">", ">=": "<", "=": "!=", "!=": "="}[e[0]], e[1], e[2])
    if e[0] == "and":
        return ("or",) + tuple(negate(x) for x in e[1:])
    if e[0] == "or":
        return ("and",) + tuple(negate(x) for x in e[1:])
    return ("not", e)


def mkcmp(op, a, b):
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    if op in ("=", "!=") and not (a[0] == "col") and b[0] == "col":
        a, b = b, a
    return (op, a, b)


def flatten_and(e):
    if e[0] == "and":
        return tuple(y for x in e[1:] for y in flatten_and(x))
    return (e,)


def read(text):
    toks = tokens(text)
    while toks and toks[-1] == ("op", ";"):
        toks = toks[:-1]
    r = Reader(toks)
    st = r.statement()
    st.text = text
    st.params = r.n
    if r.i < len(r.t):
        raise SQLError("trailing %r" % (r.t[r.i:r.i + 4],))
    resolve(st)
    return st


def resolve(st):
    """Column names without aliases: ("col", name, table-or-None)."""
    only = st.tables[0] if len(st.tables) == 1 else None

    def fix(e, value=False):
        if isinstance(e, Stmt):
            resolve(e)
            return e
        if not isinstance(e, tuple) or not e:
            return e
        if e[0] == "col":
            t = st.alias.get(e[2], e[2]) if e[2] else only
            return ("col", e[1], t)
        if e[0] == "dq":
            # a double quoted word which names no column is a string
            return ("str", e[1]) if value else ("col", e[1], only)
        if e[0] in ("=", "!=", "<", "<=") and len(e) == 3:
            a, b = e[1], e[2]
            return mkcmp(e[0], fix(a, b[0] == "col" or b[0] == "dq" and False), fix(b, a[0] in ("col",)))
        return (e[0],) + tuple(fix(x, value) for x in e[1:])
    st.where = tuple(fix(x) for x in st.where + tuple(getattr(st, "on", ())))
    st.sets = {c: fix(e, True) for c, e in st.sets.items()}
    if st.values is not None:
        st.values = [fix(e, True) for e in st.values]
    if st.kind == "select":
        st.columns = [fix(e) for e in st.columns]
        st.order = tuple((fix(e), d) for e, d in st.order)
        st.limit = fix(st.limit) if st.limit else None
    if st.sub is not None:
        resolve(st.sub)
