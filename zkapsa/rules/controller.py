"""Shared knowledge about the payment controller: redemption attempts along paths."""
import ast

from ..match import *  # noqa: F401,F403
from ..match import p
from ..terms import I, const, fname
from .store import VS

PC = "controller.PaymentController"
ATOMS = (VS + ".*",)
REDEEM = "redeemWithCounter"


def bodies(path):
    """(events, gens, kind, guards before) of the path and of each way through each loop in it."""
    def go(events, gens, kind, guards):
        yield events, gens, kind, tuple(guards)
        known = list(guards)
        for e in events:
            if e.kind == "guard":
                known.append((e.a, e.b))
            if e.kind == "loop":
                for s in e.b:
                    yield from go(s.events, gens + tuple(e.a), s.kind, known)
    yield from go(path.events, (), path.kind, ())


class Attempt:
    """One request to the redeemer."""

    def __init__(self, call, index, events, gens, kind, before):
        self.call, self.index, self.events, self.gens, self.kind = call, index, events, gens, kind
        self.guards = before + tuple((e.a, e.b) for e in events[:index] if e.kind == "guard")
        self.loc = events[index].loc
        self.term = call
        self.voucher, self.counter, self.tokens = (call[2] + (None,) * 3)[:3]
        for k, v in call[3]:
            if k == "voucher":
                self.voucher = v
            elif k == "counter":
                self.counter = v
            elif k == "random_tokens":
                self.tokens = v

    @property
    def after(self):
        return self.events[self.index + 1:]

    @property
    def before(self):
        return self.events[:self.index]

    @property
    def outcome(self):
        """"answered" or "failed" """
        seen = False
        for e in self.after:
            if e.kind == "await" and e.a == self.call:
                seen = True
            if e.kind == "raised" and e.a == self.call:
                return "failed"
            if e.kind == "call" and e.a[1][0] == "attr" and fname(e.a[1]) == REDEEM:
                break
        return "answered" if seen else "not awaited"


class Controller:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.program.cls(PC)
        self.store = self_field(ctx, PC, name="store")
        self.groups = self_field(ctx, PC, name="num_redemption_groups")
        self.redeemer = self_field(ctx, PC, name="redeemer")
        self.active = self.errors = self.unpaid = None
        for f in ctx.program.all_fields(self.cls):
            a = ast.unparse(f.annotation) if f.annotation is not None else ""
            if a.startswith(("dict[", "Dict[")):
                t = I(("attr", ("self", self.cls.qual), f.name))
                if "Redeeming" in a:
                    self.active = t
                elif "Error" in a:
                    self.errors = t
                elif "datetime" in a:
                    self.unpaid = t
        if None in (self.active, self.errors, self.unpaid):
            raise AnalysisBroken("anchor vanished: the controller's record of active, unpaid and failed vouchers")

    def paths(self, name="redeem", **kw):
        f = self.ctx.program.find_method(self.cls, name)
        if f is None:
            raise AnalysisBroken("anchor vanished: %s.%s" % (PC, name))
        return self.ctx.run(f, ATOMS, **kw)[1]

    def attempts(self, **kw):
        """(path, Attempt) for each distinct way through an attempt."""
        out, seen = [], set()
        for path in self.paths(**kw):
            for events, gens, kind, before in bodies(path):
                for i, e in enumerate(events):
                    if e.kind == "call" and e.a[1][0] == "attr" and fname(e.a[1]) == REDEEM:
                        out.append((path, Attempt(e.a, i, events, gens, kind, before)))
        if not out:
            raise AnalysisBroken("redeem makes no request to the redeemer")
        return out

    def is_store_call(self, t, name):
        return t[0] == "call" and t[1] == ("attr", self.store, name)

    def of_voucher(self, t):
        """Is the term the number of the voucher being redeemed?"""
        if t == p("voucher"):
            return True
        return t[0] == "attr" and t[2] == "number" and self.is_store_call(t[1], "get") and t[1][2] == (p("voucher"),)


def call_sites(program, name):
    """(owner, module, node) of all references ``x.name`` outside of tests."""
    out = []
    for m in program.modules.values():
        if ".tests" in m.name:
            continue

        def visit(node, owner):
            for ch in ast.iter_child_nodes(node):
                o = owner
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    o = owner + "." + ch.name
                if isinstance(ch, ast.Attribute) and ch.attr == name and isinstance(ch.ctx, ast.Load):
                    out.append((o, m, ch))
                visit(ch, o)
        visit(m.tree, m.name)
    return out


def under(t, facts):
    """The value of a term when the conditions are known."""
    if t in facts:
        return const(facts[t])
    if t[0] == "phi":
        for conds, v in t[1]:
            verdicts = [facts.get(c) for c, b in conds]
            if all(f is not None and f == b for f, (c, b) in zip(verdicts, conds)):
                return under(v, facts)
    if t[0] == "not":
        v = under(t[1], facts)
        if is_const(v):
            return const(not cval(v))
    if t[0] == "un" and t[1] == "not":
        v = under(t[2], facts)
        if is_const(v):
            return const(not cval(v))
    if is_call(t, ("bool", "int")) and len(t[2]) == 1:
        v = under(t[2][0], facts)
        if is_const(v):
            return v
    if t[0] == "bin" and t[1] == "*":
        a, b = under(t[2], facts), under(t[3], facts)
        for x, y in ((a, b), (b, a)):
            if is_const(x) and cval(x) in (True, False):
                return y if cval(x) else const(0)
    if t[0] == "bin" and t[1] == "-":
        a, b = under(t[2], facts), under(t[3], facts)
        if a == b:
            return const(0)
        if b == const(0):
            return a
        return I(("bin", "-", a, b))
    return t


def feasible(guards, facts):
    """Can the guards be decided as they were, given the facts?"""
    for c, b in guards:
        v = under(c, facts)
        if is_const(v) and isinstance(cval(v), bool) and cval(v) != b:
            return False
    return True


def owned(ctx, owner, entries=()):
    """Is the function one of those analysed, or part of one?"""
    known = set(ctx.functions) | set(ctx.inlined) | set(entries)
    while True:
        if owner in known:
            return True
        if ctx.program.inlinable(owner):
            return all(owned(ctx, c, entries) for c in ctx.program.callers(owner))
        if "." not in owner:
            return False
        owner = owner.rsplit(".", 1)[0]
        if owner in ctx.program.classes or owner in ctx.program.modules:
            return False


def delegates(program, owner, name, seen=()):
    """Is it a method of that name, part of one, or a helper of such methods only?"""
    parts = owner.split(".")
    q = next((".".join(parts[:i]) for i in range(1, len(parts) + 1) if ".".join(parts[:i]) in program.functions), None)
    if q is None or q in seen:
        return False
    cls, _, last = q.rpartition(".")
    if last == name and cls in program.classes:
        return True
    return program.inlinable(q) and all(delegates(program, c, name, seen + (q,)) for c in program.callers(q))


def membership(e, m):
    """(key, is it in the map m?) when the event tells."""
    if e.kind == "subfail" and e.a[0] == "sub" and e.a[1] == m:
        return e.a[2], False
    if e.kind != "guard":
        return None
    return member_guard(e.a, e.b, m)


def member_guard(t, b, m):
    if t[0] == "cmp" and t[1] == "in" and (t[3] == m or (is_call(t[3], "keys") and receiver(t[3]) == m)):
        return t[2], b
    if t[0] == "cmp" and t[1] in ("is", "==") and NONE in t[2:]:
        o = t[2] if t[3] == NONE else t[3]
        if is_call(o, "get") and receiver(o) == m:
            return o[2][0], not b
    if is_call(t, "get") and receiver(t) == m:
        return t[2][0], b
    return None


def looked_up(t, m):
    """The key, when the term is a lookup in the map."""
    if t[0] == "sub" and t[1] == m:
        return t[2]
    if is_call(t, ("get", "pop")) and receiver(t) == m:
        return t[2][0]
    return None
