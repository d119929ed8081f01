"""
Value terms: nested tuples which say where a value comes from.

    ("c", type, value)                constant
    ("p", name)                       parameter of the analysed function
    ("self", class)                   the analysed object
    ("g", dotted)                     external or opaque global
    ("fn", qual) ("cls", qual)        function / class of the repository
    ("clo", id)                       nested function or lambda
    ("attr", base, name)  ("sub", base, index)
    ("call", f, args, kwargs, uid)    result of a call that was not inlined
    ("bin", op, a, b) ("un", op, a) ("cmp", op, a, b) ("not", x) ("and"/"or", xs)
    ("tuple"/"list"/"set", items) ("dict", pairs) ("fmt", parts)
    ("elem", iterable, level)         an element of an iterable
    ("comp", kind, elt, gens, conds)  comprehension (or an equivalent loop)
    ("sum", start, elt, gens, conds) ("exists", gens, conds)
    ("phi", ((conds, term), ...))     value chosen by conditions
    ("new", class, fields, uid)       object of a class of the repository
    ("partial", f, args, kwargs)
    ("exc", type-or-None, origin)     an exception raised by opaque code
    ("coro", f, args, kwargs, uid)    not yet awaited coroutine
    ("unk", label, uid)
"""
import hashlib
from functools import lru_cache


class T(tuple):
    """
    An interned term: equal terms are the same object, the hash is computed
    once, and ``_o`` says whether a mutable object occurs in it.
    """

    def __hash__(self):
        return self._h


_TABLE = {}


def I(t):
    if type(t) is T:
        return t
    raw = tuple([I(x) if isinstance(x, tuple) else x for x in t])
    if len(raw) == 3 and raw[0] == "c":
        key = (raw, type(raw[2]))
    else:
        key = raw
    r = _TABLE.get(key)
    if r is None:
        r = T(raw)
        r._h = hash(key)
        r._o = (bool(raw) and raw[0] == "obj") or any(type(x) is T and x._o for x in raw)
        _TABLE[key] = r
    return r


def digest(t):
    """A deterministic sort key."""
    if isinstance(t, tuple):
        t = I(t)
        d = t.__dict__.get("_d")
        if d is None:
            d = t._d = hashlib.md5("(".encode() + ",".join(digest(x) for x in t).encode()).hexdigest()
        return d
    return type(t).__name__ + repr(t)


def const(v):
    return I(("c", type(v).__name__, v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)


def is_const(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "c"


def cval(t):
    return t[2]


_UID_LAST = {"call": 4, "new": 3, "coro": 4, "exc": 2, "unk": 2, "obj": 2}


@lru_cache(maxsize=None)
def norm(t):
    """The term without identities."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "c" and len(t) == 3:
        return I(t)
    if isinstance(t[0], str) and t[0] in _UID_LAST and len(t) == _UID_LAST[t[0]] + 1:
        if t[0] == "exc":
            return I(("exc", t[1], norm(t[2]) if isinstance(t[2], tuple) else 0))
        return I(tuple(norm(x) for x in t[:-1]) + (0,))
    return I(tuple(norm(x) for x in t))


def walk(t):
    """All subterms (also inside tuples of terms)."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x and isinstance(x[0], str):
                yield x
                if x[0] == "c":
                    continue
            stack.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def contains(t, sub):
    s = norm(sub)
    return any(norm(x) == s for x in walk(t))


def subst(t, mapping, _memo=None):
    if not isinstance(t, tuple):
        return t
    t = I(t)
    if _memo is None:
        _memo = {}
    if t in mapping:
        return I(mapping[t])
    if t in _memo:
        return _memo[t]
    if t and t[0] == "c" and len(t) == 3:
        return t
    r = _memo[t] = I(tuple(subst(x, mapping, _memo) for x in t))
    return r


@lru_cache(maxsize=None)
def strip_kind(t):
    """Replace comprehension kinds so that lists and generators compare equal."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "c" and len(t) == 3:
        return t
    if t and t[0] == "comp":
        return I(("comp", "*") + tuple(strip_kind(x) for x in t[2:]))
    return I(tuple(strip_kind(x) for x in t))


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    if not isinstance(t[0], str):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if depth > 8:
        return "..."
    k = t[0]
    d = depth + 1
    s = lambda x: show(x, d)
    try:
        if k == "c":
            return repr(t[2])
        if k == "p":
            return t[1]
        if k == "self":
            return "self"
        if k in ("g", "fn", "cls"):
            return t[1].split(".")[-1] if k != "g" else t[1].replace("builtins.", "")
        if k == "clo":
            return "<function #%s>" % (t[1],)
        if k == "attr":
            return s(t[1]) + "." + t[2]
        if k == "sub":
            return "%s[%s]" % (s(t[1]), s(t[2]))
        if k == "call":
            a = [s(x) for x in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]
            return "%s(%s)" % (s(t[1]), ", ".join(a))
        if k in ("bin", "cmp"):
            return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
        if k == "un":
            return "(%s%s)" % (t[1], s(t[2]))
        if k == "not":
            return "not " + s(t[1])
        if k in ("and", "or"):
            return "(" + (" %s " % k).join(s(x) for x in t[1]) + ")"
        if k in ("tuple", "list", "set"):
            return "%s(%s)" % ("" if k == "tuple" else k, ", ".join(s(x) for x in t[1]))
        if k == "dict":
            return "{%s}" % ", ".join("%s: %s" % (s(a), s(b)) for a, b in t[1])
        if k == "elem":
            return "each(%s)" % s(t[1])
        if k == "idx":
            return "index_of_each(%s)" % s(t[1])
        if k == "comp":
            return "[%s for each %s%s]" % (s(t[2]), ", ".join(s(g) for g in t[3]), _conds(t[4], d))
        if k == "exists":
            return "any(each %s%s)" % (", ".join(s(g) for g in t[1]), _conds(t[2], d))
        if k == "sum":
            return "sum(%s for each %s%s)" % (s(t[2]), ", ".join(s(g) for g in t[3]), _conds(t[4], d))
        if k == "phi":
            return "{%s}" % "; ".join("%s%s" % (s(v), _conds(c, d)) for c, v in t[1])
        if k == "new":
            return "%s(%s)" % (t[1].split(".")[-1], ", ".join("%s=%s" % (n, s(v)) for n, v in t[2]))
        if k == "partial":
            a = [s(x) for x in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]
            return "partial(%s)" % ", ".join([s(t[1])] + a)
        if k == "fmt":
            return "fmt(%s)" % ", ".join(s(x) for x in t[1])
        if k == "exc":
            return "<exception %s>" % (t[1] or "")
        if k == "unk":
            return "<%s>" % (t[1],)
        return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else repr(x) for x in t[1:]) + ")"
    except Exception:
        return repr(t)


def _conds(conds, d):
    if not conds:
        return ""
    if conds[0] == "dnf":
        return " if " + " or ".join("(" + _conj(c, d) + ")" for c in conds[1])
    return " if " + _conj(conds, d)


def _conj(conds, d):
    return " and ".join(("" if b else "not ") + show(a, d) for a, b in conds)


# ---------------------------------------------------------------- conditions
def simplify_dnf(paths):
    """
    ``paths``: an iterable of conjunctions (tuples of (atom, bool)).  Merge
    pairs that differ in the polarity of one atom, absorb implied ones.
    Returns () for "always", a conjunction, or ("dnf", conjunctions).
    """
    ps = {frozenset(p) for p in paths}
    changed = True
    while changed:
        changed = False
        lst = sorted(ps, key=lambda p: (len(p), [digest(x) for x in sorted(p, key=digest)]))
        for i, a in enumerate(lst):
            for b in lst[i + 1:]:
                if a <= b:
                    ps.discard(b)
                    changed = True
                    break
                d = a ^ b
                if len(d) == 2 and len(a) == len(b):
                    (x, bx), (y, by) = d
                    if x == y and bx != by:
                        ps.discard(a)
                        ps.discard(b)
                        ps.add(a & b)
                        changed = True
                        break
                # a has literal l, b = (a without l) + not l + more
                neg = [l for l in a if (l[0], not l[1]) in b]
                if len(neg) == 1 and (a - {neg[0]}) <= b:
                    ps.discard(b)
                    ps.add(b - {(neg[0][0], not neg[0][1])})
                    changed = True
                    break
            if changed:
                break
    if not ps or frozenset() in ps:
        return ()
    lst = [tuple(sorted(p, key=digest)) for p in ps]
    if len(lst) == 1:
        return lst[0]
    return ("dnf", tuple(sorted(lst, key=digest)))


def conj(*parts):
    out = []
    for p in parts:
        if p and p[0] == "dnf":
            out.append((("anyof", p[1]), True))
        else:
            out.extend(p)
    return tuple(sorted(set(out), key=digest))


# ------------------------------------------------------------------ matching
def callee(t):
    """The callee term of a call term."""
    return t[1] if isinstance(t, tuple) and t and t[0] == "call" else None


def fname(f):
    """Last component of the name of a callee term."""
    if f is None:
        return None
    if f[0] in ("g", "fn", "cls"):
        return f[1].rsplit(".", 1)[-1]
    if f[0] == "attr":
        return f[2]
    if f[0] == "bm":
        return f[2].rsplit(".", 1)[-1]
    if f[0] == "partial":
        return fname(f[1])
    return None


def is_call(t, name):
    return isinstance(t, tuple) and t and t[0] == "call" and (fname(t[1]) == name if isinstance(name, str) else fname(t[1]) in name)
