"""Recognising terms and events."""
import ast

from .interp import Ev, flat
from .loader import AnalysisBroken
from .terms import (
    FALSE, I, NONE, TRUE, ZERO, callee, const, contains, cval, digest, fname, is_call, is_const, mentions, norm, show, strip_kind,
    subst, walk,
)


def same(a, b):
    return strip_kind(norm(I(a))) == strip_kind(norm(I(b)))


def p(name):
    return I(("p", name))


def attr(t, *names):
    for n in names:
        t = ("attr", t, n)
    return I(t)


def self_field(ctx, cls, *, type=None, name=None):
    """
    The term for a field of ``self``, found by the type it is declared with
    (or by name).
    """
    c = ctx.program.cls(cls)
    for f in ctx.program.all_fields(c):
        if name is not None and (f.name == name or f.name.lstrip("_") == name):
            return I(("attr", ("self", c.qual), f.name))
    if type is not None:
        for f in ctx.program.all_fields(c):
            ann = f.annotation
            if ann is not None and ast.unparse(ann).split(".")[-1].strip("'\"") == type:
                return I(("attr", ("self", c.qual), f.name))
    raise AnalysisBroken("anchor vanished: field %s of %s" % (name or type, cls))


def arg(call, i, name=None, default=None):
    """Positional argument i or keyword argument ``name`` of a call term."""
    if len(call[2]) > i and not any(a[0] == "star" for a in call[2][: i + 1]):
        return call[2][i]
    for k, v in call[3]:
        if k == name:
            return v
    return default


def nargs(call):
    return len(call[2]) + len(call[3])


def field(new, name, default=None):
    """A field of a ("new", ...) term."""
    if new is not None and new[0] == "new":
        for k, v in new[2]:
            if k == name or k.lstrip("_") == name:
                return v
    return default


def less(t):
    """(a, b) when the term is a < b."""
    if t[0] == "cmp" and t[1] == "<":
        return t[2], t[3]
    return None


def lenof(t):
    if t[0] == "call" and t[1] == ("g", "builtins.len") and len(t[2]) == 1:
        return t[2][0]
    return None


def strip_list(t):
    """Look through list()/tuple()/iter() conversions."""
    while t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t[2]) == 1:
        t = t[2][0]
    return t


def strip_set(t):
    while t[0] == "call" and t[1][0] == "g" and t[1][1] in (
        "builtins.list", "builtins.tuple", "builtins.iter", "builtins.set", "builtins.frozenset", "builtins.sorted",
    ) and len(t[2]) >= 1:
        t = t[2][0]
    return t


def repeat(t):
    """``(element, counted)`` if the term is one equal element per element of ``counted``."""
    t = strip_list(t)
    if t[0] == "bin" and t[1] == "*":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            a = strip_list(a)
            if a[0] in ("list", "tuple") and len(a[1]) == 1:
                n = lenof(b)
                return a[1][0], (strip_set(n) if n is not None else ("count", b))
    if t[0] == "comp" and t[4] == () and len(t[3]) == 1:
        g = t[3][0]
        if not mentions(t[2], lambda x: x[0] in ("elem", "idx")):
            if is_call(g, "range") and len(g[2]) == 1:
                n = lenof(g[2][0])
                return t[2], (strip_set(n) if n is not None else ("count", g[2][0]))
            return t[2], keys(g)
    if is_call(t, "repeat") and len(t[2]) == 2:
        n = lenof(t[2][1])
        return t[2][0], (strip_set(n) if n is not None else ("count", t[2][1]))
    return None


def has_set(t):
    """Are equal elements merged into one?"""
    return mentions(t, lambda x: (x[0] == "comp" and x[1] == "set") or (x[0] == "call" and x[1][0] == "g" and x[1][1] in ("builtins.set", "builtins.frozenset")))


def keys(t, strip=strip_set):
    """A mapping, when the term is its keys/values/items."""
    t = strip(t)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "values", "items") and not t[2]:
        return t[1][1]
    return t


def enumerate_events(events, ctx=()):
    """
    (event, guards known at that point) for all events; the guards of the
    enclosing loop bodies are included.
    """
    known = list(ctx)
    for e in events:
        if e.kind == "loop":
            yield e, tuple(known)
            for s in e.b:
                yield from enumerate_events(s.events, tuple(known))
        else:
            yield e, tuple(known)
            if e.kind == "guard":
                known.append((e.a, e.b))


def loc(e):
    return e.loc


def all_calls(p, *names):
    for e in flat(p.events):
        if e.kind == "call" and (not names or fname(e.a[1]) in names):
            yield e


def awaited_calls(p, *names):
    return all_calls(p, *names)


def receiver(call):
    """The object a method is called on."""
    f = call[1]
    return f[1] if f[0] == "attr" else None


def ceil_div(t):
    """``(x, y)`` when the term is x / y rounded up, in one of its integer forms."""
    if t[0] == "phi" and len(t[1]) == 2:
        for (c1, v1), (c2, v2) in (t[1], t[1][::-1]):
            # v1: the exact quotient, v2: one more
            if v1[0] == "bin" and v1[1] == "//":
                x, y = v1[2], v1[3]
                rem = ("bin", "%", x, y)
                if plus_one(v2) == v1 and has_remainder(c2, rem) is True and has_remainder(c1, rem) is False:
                    return x, y
        return None
    if t[0] == "bin" and t[1] == "+":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "bin" and a[1] == "//":
                x, y = a[2], a[3]
                rem = I(("bin", "%", x, y))
                if one_if_remainder(b, rem):
                    return x, y
                if b == const(1) and x[0] == "bin" and x[1] == "-" and x[3] == const(1):
                    return x[2], y
    if t[0] == "un" and t[1] == "-" and t[2][0] == "bin" and t[2][1] == "//":
        n, y = t[2][2], t[2][3]
        if n[0] == "un" and n[1] == "-":
            return n[2], y
    if t[0] == "bin" and t[1] == "//":
        # (x + y - 1) // y
        n, y = t[2], t[3]
        parts = linear(n)
        if parts is not None:
            pos, neg, k = parts
            if k == -1 and not neg and y in pos and len(pos) == 2:
                pos = list(pos)
                pos.remove(y)
                return pos[0], y
    if is_call(t, "div_ceil") and len(t[2]) == 2:
        return t[2]
    return None


def linear(t):
    """(positive terms, negative terms, constant) of a sum."""
    if is_const(t) and isinstance(cval(t), int):
        return [], [], cval(t)
    if t[0] == "bin" and t[1] in "+-":
        a, b = linear(t[2]), linear(t[3])
        if t[1] == "+":
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        return a[0] + b[1], a[1] + b[0], a[2] - b[2]
    return [t], [], 0


def plus_one(t):
    if t[0] == "bin" and t[1] == "+":
        if t[3] == const(1):
            return t[2]
        if t[2] == const(1):
            return t[3]
    return None


def has_remainder(conds, rem):
    """True/False when the (single) condition says that the remainder is (not) zero."""
    if len(conds) != 1:
        return None
    c, b = conds[0]
    if c == ("cmp", "<", ZERO, rem) or c == rem:
        return b
    if c == ("cmp", "==", rem, ZERO):
        return not b
    return None


def one_if_remainder(t, rem):
    if t[0] == "phi" and len(t[1]) == 2:
        for (c1, v1), (c2, v2) in (t[1], t[1][::-1]):
            if v1 == const(0) and v2 == const(1) and has_remainder(c2, rem) is True and has_remainder(c1, rem) is False:
                return True
    if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.bool", "builtins.int") and len(t[2]) == 1:
        x = t[2][0]
        if t[1][1] == "builtins.bool" and x == rem:
            return True
        return one_if_remainder(x, rem)
    if t == ("cmp", "<", ZERO, rem):
        return True
    if t == ("not", ("cmp", "==", rem, ZERO)):
        return True
    if t == ("un", "not", ("cmp", "==", rem, ZERO)):
        return True
    return False


def disjuncts(conds):
    """The alternatives of a condition: a list of sets of (atom, truth)."""
    if conds and conds[0] == "dnf":
        out = []
        for c in conds[1]:
            out.extend(disjuncts(c))
        return out
    alts = [set()]
    for c, b in conds:
        if c[0] == "anyof" and b is True:
            alts = [a | d for a in alts for inner in c[1] for d in disjuncts(inner)]
        else:
            for a in alts:
                a.add((c, b))
    return alts
