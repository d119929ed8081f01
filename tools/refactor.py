#!/usr/bin/env python3
"""
Edits which keep the behaviour, made mechanically all over the package: every
check has to stay quiet on each of them.

    refactor.py [KIND ...] [FILE.py ...] [-j N]

For every file and kind of edit all functions of the file are edited at once in
a scratch copy and all checks are run on it; when one is not quiet, the edit is
repeated for one function after another to name those it objects to.
"""
import ast
import copy
import glob
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/_zkapauthorizer"
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNCS + (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)
counter = itertools.count(1)


def fresh(base):
    return "%s_%d" % (base, next(counter))


def name(i, ctx=ast.Load):
    return ast.Name(i, ctx())


def assign(n, v):
    return ast.Assign([name(n, ast.Store)], v)


def own(node):
    """Nodes of the function's own scope."""
    for c in ast.iter_child_nodes(node):
        yield c
        if not isinstance(c, SCOPES):
            yield from own(c)


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def stored(f):
    out = set()
    for b in f.body:
        for n in [b] + ([] if isinstance(b, SCOPES) else list(own(b))):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split(".")[0] for x in n.names}
    return out


def has(node, kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def blocks(node):
    """Every statement list of a function's own scope (not of nested functions)."""
    for field in ("body", "orelse", "finalbody"):
        b = getattr(node, field, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield node, field
            for s in b:
                if not isinstance(s, FUNCS + (ast.ClassDef,)):
                    yield from blocks(s)
    for h in getattr(node, "handlers", ()):
        yield from blocks(h)


def per_stmt(edit):
    """An edit of a function from an edit of statements: stmt -> [stmt] or None."""
    def f(fn, mod):
        n = 0
        for owner, field in list(blocks(fn)):
            out = []
            for s in getattr(owner, field):
                r = edit(s, fn, mod)
                if r is None:
                    out.append(s)
                else:
                    n += 1
                    out.extend(r)
            setattr(owner, field, out)
        return n
    return f


def rename_locals(fn, mod):
    nested = [n for n in ast.walk(fn) if isinstance(n, SCOPES) and n is not fn]
    bad = params(fn)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(x.asname or x.name).split(".")[0] for x in n.names}
    for n in nested:
        if isinstance(n, FUNCS + (ast.Lambda,)):
            bad |= params(n)
        if isinstance(n, FUNCS):
            bad |= stored(n)
            bad.add(n.name)
        if isinstance(n, ast.ClassDef):
            bad |= {n.name}
            bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                bad |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    names = {n for n in stored(fn) if n not in bad}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names:
            n.id += "_renamed"
        if isinstance(n, ast.ExceptHandler) and n.name in names:
            n.name += "_renamed"
    return len(names)


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


@per_stmt
def name_result(s, fn, mod):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
        n = fresh("result")
        return [assign(n, s.value), ast.Return(name(n))]


@per_stmt
def swap_branches(s, fn, mod):
    if isinstance(s, ast.If) and s.orelse:
        return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]


def add_else(fn, mod):
    n = 0
    for owner, field in list(blocks(fn)):
        b = getattr(owner, field)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                setattr(owner, field, b[:i + 1])
                n += 1
                break
    return n


@per_stmt
def drop_else(s, fn, mod):
    if isinstance(s, ast.If) and s.orelse and ends(s.body):
        rest, s.orelse = s.orelse, []
        return [s] + rest


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            r = copy.deepcopy(self.m[n.id])
            if isinstance(r, ast.Name):
                r.ctx = n.ctx
            return r
        return n


@per_stmt
def comp_to_loop(s, fn, mod):
    if not (isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp))):
        return None
    if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return None
    c = s.value
    if any(isinstance(n, SCOPES) for x in ast.iter_child_nodes(c) for n in ast.walk(x)) or any(g.is_async for g in c.generators):
        return None
    m = {x.id: name(fresh(x.id)) for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    first = c.generators[0].iter
    c.generators[0].iter = ast.Constant(None)
    c = Sub(m).visit(c)
    c.generators[0].iter = first
    v = fresh("collected")
    if isinstance(c, ast.ListComp):
        init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [c.elt], []))
    elif isinstance(c, ast.SetComp):
        init, add = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(v), "add", ast.Load()), [c.elt], []))
    else:
        init, add = ast.Dict([], []), ast.Assign([ast.Subscript(name(v), c.key, ast.Store())], c.value)
    body = [add]
    for g in reversed(c.generators):
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    last = ast.Return(name(v)) if isinstance(s, ast.Return) else ast.Assign(s.targets, name(v))
    return [assign(v, init)] + body + [last]


def loop_to_comp(fn, mod):
    n = 0
    for owner, field in list(blocks(fn)):
        b = getattr(owner, field)
        for i in range(len(b) - 1):
            s, l = b[i], b[i + 1]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts):
                continue
            if not (isinstance(l, ast.For) and not l.orelse and len(l.body) == 1):
                continue
            v = s.targets[0].id
            inner, ifs = l.body[0], []
            while isinstance(inner, ast.If) and not inner.orelse and len(inner.body) == 1:
                ifs.append(inner.test)
                inner = inner.body[0]
            if not (isinstance(inner, ast.Expr) and isinstance(inner.value, ast.Call) and isinstance(inner.value.func, ast.Attribute)
                    and inner.value.func.attr == "append" and isinstance(inner.value.func.value, ast.Name) and inner.value.func.value.id == v):
                continue
            if any(isinstance(x, ast.Name) and x.id == v for y in ifs + [inner.value.args[0], l.iter] for x in ast.walk(y)):
                continue
            b[i] = assign(v, ast.ListComp(inner.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)]))
            b[i + 1] = ast.Pass()
            n += 1
    return n


@per_stmt
def name_arguments(s, fn, mod):
    v = getattr(s, "value", None)
    if not isinstance(s, (ast.Return, ast.Assign, ast.Expr)):
        return None
    aw = isinstance(v, ast.Await)
    c = v.value if aw else v
    if not isinstance(c, ast.Call) or not simple(c.func) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
        return None
    out = []
    for i, a in enumerate(c.args):
        if not simple(a):
            n = fresh("argument")
            out.append(assign(n, a))
            c.args[i] = name(n)
    for k in c.keywords:
        if not simple(k.value):
            n = fresh(k.arg + "_value")
            out.append(assign(n, k.value))
            k.value = name(n)
    return out + [s] if out else None


def locals_around(fn, mod):
    """Names local to the function or to those around it."""
    out = set()
    def go(node, seen):
        for c in ast.iter_child_nodes(node):
            if c is fn:
                out.update(seen)
                out.update(params(fn) | stored(fn))
            elif isinstance(c, FUNCS):
                go(c, seen | params(c) | stored(c))
            elif isinstance(c, ast.ClassDef):
                go(c, seen)
            else:
                go(c, seen)
    go(mod, frozenset())
    return out


def extractable(e):
    return has(e, ast.Call) and not has(e, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda)) and not any(
        isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__") for n in ast.walk(e)) and not any(
        isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(e))


def bound_inside(e):
    return {x.id for n in ast.walk(e) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}


def extract_expression(fn, mod):
    loc = locals_around(fn, mod)
    helpers = []

    def edit(s, fn, mod):
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None and extractable(s.value):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                return None
            free = sorted({n.id for n in ast.walk(s.value) if isinstance(n, ast.Name) and n.id in loc} - bound_inside(s.value))
            if len(free) > 8:
                return None
            h = fresh("_extracted")
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(s.value)], [], None))
            s.value = ast.Call(name(h), [name(x) for x in free], [])
            return [s]
    n = per_stmt(edit)(fn, mod)
    mod.body.extend(helpers)
    return n


def extract_condition(fn, mod):
    loc = locals_around(fn, mod)
    helpers = []

    def edit(s, fn, mod):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not has(s.test, (ast.Await, ast.NamedExpr, ast.Lambda)):
            free = sorted({n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and n.id in loc} - bound_inside(s.test))
            h = fresh("_condition")
            helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(s.test)], [], None))
            s.test = ast.Call(name(h), [name(x) for x in free], [])
            return [s]
    n = per_stmt(edit)(fn, mod)
    mod.body.extend(helpers)
    return n


def extract_tail(fn, mod):
    """The second half of the body becomes a nested function."""
    if is_gen(fn) or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
        return 0
    body = fn.body
    k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
    if len(body) - k < 2:
        return 0
    i = k + (len(body) - k) // 2
    tail = body[i:]
    if any(isinstance(s, FUNCS + (ast.ClassDef, ast.Import, ast.ImportFrom)) for s in tail):
        return 0
    f = copy.copy(fn)
    f.body = tail
    assigned = stored(f)
    before = copy.copy(fn)
    before.body = body[:i]
    if assigned & (params(fn) | stored(before)):
        return 0
    if any(isinstance(n, ast.Name) and n.id == "super" for s in tail for n in ast.walk(s)):
        return 0
    h = fresh("remainder")
    a = ast.arguments([], [], None, [], [], None, [])
    if isinstance(fn, ast.AsyncFunctionDef):
        d = ast.AsyncFunctionDef(h, a, tail, [], None)
        r = ast.Return(ast.Await(ast.Call(name(h), [], [])))
    else:
        d = ast.FunctionDef(h, a, tail, [], None)
        r = ast.Return(ast.Call(name(h), [], []))
    fn.body = body[:i] + [d, r]
    return 1


def extract_loop_body(fn, mod):
    """The body of each loop (without continue, break, return, assignment) becomes a nested function."""
    if is_gen(fn):
        return 0

    def edit(s, fn, mod):
        if isinstance(s, ast.For) and not s.orelse and not any(
                isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.Nonlocal, ast.AugAssign)) for x in s.body for n in ast.walk(x)):
            f = copy.copy(fn)
            f.body = s.body
            mine = stored(f)
            others = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id in mine]
            inside = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id in mine]
            if len(others) != len(inside) or not isinstance(s.target, (ast.Name, ast.Tuple)) or any(isinstance(x, FUNCS) for x in s.body):
                return None
            h = fresh("step")
            ps = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
            a = ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, [])
            is_async = any(isinstance(n, ast.Await) for x in s.body for n in ast.walk(x))
            call = ast.Call(name(h), [name(x) for x in ps], [])
            d = (ast.AsyncFunctionDef if is_async else ast.FunctionDef)(h, a, s.body, [], None)
            s.body = [ast.Expr(ast.Await(call) if is_async else call)]
            return [d, s]
    return per_stmt(edit)(fn, mod)


def guard_loops(fn, mod):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            i = x.body[-1]
            x.body = x.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
            n += 1
    return n


@per_stmt
def nest_and(s, fn, mod):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        a = s.test.values
        rest = a[1] if len(a) == 2 else ast.BoolOp(ast.And(), a[1:])
        return [ast.If(a[0], [ast.If(rest, s.body, [])], [])]


@per_stmt
def split_or(s, fn, mod):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and ends(s.body):
        return [ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values]


@per_stmt
def ternary_to_if(s, fn, mod):
    v = getattr(s, "value", None)
    if isinstance(s, ast.Return) and isinstance(v, ast.IfExp):
        return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
    if isinstance(s, ast.Assign) and isinstance(v, ast.IfExp):
        return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]


@per_stmt
def if_to_ternary(s, fn, mod):
    if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
        a, b = s.body[0], s.orelse[0]
        if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
            return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
        if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
            return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def flip_compare(fn, mod):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FLIP and (simple(x.left) or simple(x.comparators[0])):
            x.left, x.comparators, x.ops = x.comparators[0], [x.left], [FLIP[type(x.ops[0])]()]
            n += 1
    return n


class Neg(ast.NodeTransformer):
    n = 0

    def visit_Compare(self, x):
        self.generic_visit(x)
        # (not for possible NaNs: <, > only with is/in/==)
        if len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq, ast.NotEq)):
            self.n += 1
            return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [NEG[type(x.ops[0])]()], x.comparators))
        return x


def negate_compare(fn, mod):
    t = Neg()
    fn.body = [t.visit(s) for s in fn.body]
    return t.n


def split_with(fn, mod):
    def edit(s, fn, mod):
        if isinstance(s, (ast.With, ast.AsyncWith)) and len(s.items) > 1:
            return [type(s)([s.items[0]], [type(s)(s.items[1:], s.body)])]
    return per_stmt(edit)(fn, mod)


def merge_with(fn, mod):
    def edit(s, fn, mod):
        if isinstance(s, ast.With) and len(s.body) == 1 and isinstance(s.body[0], ast.With):
            return [ast.With(s.items + s.body[0].items, s.body[0].body)]
    return per_stmt(edit)(fn, mod)


@per_stmt
def plain_assign(s, fn, mod):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
        return [ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))]


def reorder_keywords(fn, mod):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg and simple(k.value) for k in x.keywords):
            x.keywords = x.keywords[::-1]
            n += 1
    return n


@per_stmt
def try_else(s, fn, mod):
    if isinstance(s, ast.Try) and not s.orelse and s.handlers and not s.finalbody and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None:
        n = fresh("value")
        s.body[-1] = assign(n, s.body[-1].value)
        s.orelse = [ast.Return(name(n))]
        return [s]


@per_stmt
def try_after(s, fn, mod):
    """What follows in the else clause moves behind the statement when the handlers leave."""
    if isinstance(s, ast.Try) and s.orelse and not s.finalbody and all(ends(h.body) for h in s.handlers):
        rest, s.orelse = s.orelse, []
        return [s] + rest


def inline_single(fn, mod):
    n = 0
    for owner, field in list(blocks(fn)):
        b = getattr(owner, field)
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Return, ast.Expr, ast.Assign)) and t.value is not None:
                v = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == v]
                if len(uses) == 2 and len(here) == 1 and first_use(t.value, v):
                    t.value = Sub({v: s.value}).visit(t.value)
                    del b[i]
                    n += 1
                    continue
            i += 1
    return n


def first_use(e, v):
    """Is v evaluated before anything but names and constants?"""
    if isinstance(e, ast.Name):
        return e.id == v
    if isinstance(e, ast.Await):
        return first_use(e.value, v)
    if isinstance(e, ast.Attribute):
        return first_use(e.value, v)
    if isinstance(e, ast.Call):
        if not simple(e.func):
            return first_use(e.func, v)
        if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(e.func)):
            return True
        for a in e.args + [k.value for k in e.keywords]:
            if isinstance(a, ast.Starred):
                return False
            if simple(a) and not (isinstance(a, ast.Name) and a.id == v) and not any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(a)):
                continue
            return first_use(a, v)
    return False


def explicit_format(fn, mod):
    class T(ast.NodeTransformer):
        n = 0

        def visit_JoinedStr(self, j):
            self.generic_visit(j)
            text, args = "", []
            for p in j.values:
                if isinstance(p, ast.Constant):
                    text += p.value.replace("{", "{{").replace("}", "}}")
                elif p.format_spec is None:
                    text += "{}" if p.conversion == -1 else "{!%s}" % chr(p.conversion)
                    args.append(p.value)
                else:
                    return j
            self.n += 1
            return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])
    t = T()
    fn.body = [t.visit(s) for s in fn.body]
    return t.n


def f_strings(fn, mod):
    class T(ast.NodeTransformer):
        n = 0

        def visit_Call(self, c):
            self.generic_visit(c)
            f = c.func
            if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not any(isinstance(a, ast.Starred) for a in c.args):
                import string
                vals, i = [], 0
                kw = {k.arg: k.value for k in c.keywords}
                for lit, fld, spec, conv in string.Formatter().parse(f.value.value):
                    if lit:
                        vals.append(ast.Constant(lit))
                    if fld is None:
                        continue
                    if spec or conv:
                        return c
                    if fld == "":
                        v, i = c.args[i], i + 1
                    elif fld in kw:
                        v = kw[fld]
                    else:
                        return c
                    vals.append(ast.FormattedValue(v, -1, None))
                self.n += 1
                return ast.JoinedStr(vals)
            return c
    t = T()
    fn.body = [t.visit(s) for s in fn.body]
    return t.n


@per_stmt
def name_conditions(s, fn, mod):
    if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
        n = fresh("condition")
        return [assign(n, s.test), ast.If(name(n), s.body, s.orelse)]


@per_stmt
def name_iterables(s, fn, mod):
    if isinstance(s, ast.For) and not simple(s.iter):
        n = fresh("iterable")
        old, s.iter = s.iter, name(n)
        return [assign(n, old), s]


@per_stmt
def unpack_later(s, fn, mod):
    """for (a, b) in x  ->  for item in x: (a, b) = item"""
    if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
        n = fresh("item")
        s.body.insert(0, ast.Assign([s.target], name(n)))
        s.target = name(n, ast.Store)
        return [s]


def calls_as_steps(fn, mod):
    """f(g(x)) -> t = g(x); f(t) for awaited values: await f() in expressions"""
    def edit(s, fn, mod):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.Subscript, ast.Attribute)) and isinstance(s.value.value, (ast.Call, ast.Await)):
            n = fresh("step")
            inner, s.value.value = s.value.value, name(n)
            return [assign(n, inner), s]
    return per_stmt(edit)(fn, mod)


def partial_to_lambda(fn, mod):
    class T(ast.NodeTransformer):
        n = 0

        def visit_Call(self, c):
            self.generic_visit(c)
            if isinstance(c.func, ast.Name) and c.func.id == "partial" and c.args and all(simple(a) for a in c.args) and all(k.arg and simple(k.value) for k in c.keywords):
                names = {x.id for a in c.args + [k.value for k in c.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                if not names & once:
                    return c
                self.n += 1
                return ast.Lambda(ast.arguments([], [], ast.arg("more"), [], [], ast.arg("named"), []),
                                  ast.Call(c.args[0], c.args[1:] + [ast.Starred(name("more"), ast.Load())], c.keywords + [ast.keyword(None, name("named"))]))
            return c
    stores = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    once = (params(fn) - set(stores)) | {x for x in stores if stores.count(x) == 1} | {"self"}
    if any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(fn)):
        return 0
    t = T()
    fn.body = [t.visit(s) for s in fn.body]
    return t.n


KINDS = {f.__name__ if hasattr(f, "__name__") and f.__name__ != "f" else k: f for k, f in {
    "rename_locals": rename_locals, "name_result": name_result, "swap_branches": swap_branches, "add_else": add_else,
    "drop_else": drop_else, "comp_to_loop": comp_to_loop, "loop_to_comp": loop_to_comp, "name_arguments": name_arguments,
    "extract_expression": extract_expression, "extract_condition": extract_condition, "extract_tail": extract_tail,
    "extract_loop_body": extract_loop_body, "guard_loops": guard_loops, "nest_and": nest_and, "split_or": split_or,
    "ternary_to_if": ternary_to_if, "if_to_ternary": if_to_ternary, "flip_compare": flip_compare,
    "negate_compare": negate_compare, "split_with": split_with, "merge_with": merge_with, "plain_assign": plain_assign,
    "reorder_keywords": reorder_keywords, "try_else": try_else, "try_after": try_after, "inline_single": inline_single,
    "explicit_format": explicit_format, "f_strings": f_strings, "name_conditions": name_conditions,
    "name_iterables": name_iterables, "unpack_later": unpack_later, "calls_as_steps": calls_as_steps,
    "partial_to_lambda": partial_to_lambda,
}.items()}


def functions(mod):
    out = []

    def go(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, FUNCS):
                out.append((prefix + c.name, c))
                go(c, prefix + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                go(c, prefix + c.name + ".")
            else:
                go(c, prefix)
    go(mod, "")
    return out


def edit(path, kind, only=None):
    """(new source, [functions edited])"""
    mod = ast.parse(open(path).read())
    done = []
    for q, fn in functions(mod):
        if only is not None and q not in only:
            continue
        if KINDS[kind](fn, mod):
            done.append(q)
    src = ast.unparse(ast.fix_missing_locations(mod))
    compile(src, path, "exec")
    return src, done


def checks(rel, src, pids):
    tmp = tempfile.mkdtemp(prefix="zkapsa-")
    try:
        dst = os.path.join(tmp, "src", "_zkapauthorizer")
        shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns("tests", "__pycache__"))
        open(os.path.join(dst, rel), "w").write(src)
        env = dict(os.environ, ZKAPSA_REPO=tmp, ZKAPSA_EVIDENCE=tmp)
        bad = {}
        for pid in pids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid], env=env, capture_output=True, text=True)
            if r.returncode:
                lines = [x for x in (r.stdout + r.stderr).strip().split("\n") if "KNOWN" not in x]
                bad[pid] = (r.returncode, lines[0][:330] if r.returncode == 1 else lines[-1][:330])
        return bad
    finally:
        shutil.rmtree(tmp)


def job(rel, kind, have):
    path = os.path.join(SRC, rel)
    src, done = edit(path, kind)
    if not done:
        return rel, kind, 0, []
    bad = checks(rel, src, have)
    if not bad:
        return rel, kind, len(done), []
    out, named = [], set()
    for q in done:
        one, d = edit(path, kind, {q})
        b = checks(rel, one, sorted(bad))
        for pid, (code, why) in sorted(b.items()):
            named.add(pid)
            out.append("%s %s %s: %s exit %d %s" % (rel, kind, q, pid, code, why))
    for pid in sorted(set(bad) - named):
        out.append("%s %s (all together): %s exit %d %s" % (rel, kind, pid, *bad[pid]))
    return rel, kind, len(done), out


def main():
    args = sys.argv[1:]
    have = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(os.path.join(HERE, "zkapsa/rules/p[0-9]*.py")))
    pids = [a for a in args if a in have] or have
    kinds = [a for a in args if a in KINDS] or list(KINDS)
    files = [a for a in args if a.endswith(".py")]
    if not files:
        for root, dirs, fs in os.walk(SRC):
            dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
            files += [os.path.relpath(os.path.join(root, f), SRC) for f in fs if f.endswith(".py") and f != "_version.py"]
    jobs = [(f, k) for k in kinds for f in sorted(files)]
    total = bad = 0
    with ThreadPoolExecutor(8) as pool:
        for rel, kind, n, out in pool.map(lambda j: job(*j, pids), jobs):
            total += n
            bad += len(out)
            for line in out:
                print(line, flush=True)
            if n:
                print("# %s %s: %d functions" % (rel, kind, n), file=sys.stderr, flush=True)
    print(total, "edits,", bad, "objections")


if __name__ == "__main__":
    main()
