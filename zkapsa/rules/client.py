"""Shared knowledge about the storage client's side."""
import ast

from ..match import *  # noqa: F401,F403
from ..match import attr, p, self_field
from ..terms import I

CLS = "_storage_client.ZKAPAuthorizerStorageClient"
ATOMS = ("required_passes", "get_required_new_passes_for_mutable_write", "summarize")
PAYING = ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")
FREE = ("get_version", "get_buckets", "slot_readv", "advise_corrupt_share", "stat_shares")


class Client:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.program.cls(CLS)
        self.pass_value = self_field(ctx, CLS, name="pass_value")
        self.get_passes = self_field(ctx, CLS, name="get_passes")

    def method(self, name):
        f = self.ctx.program.find_method(self.cls, name)
        if f is None:
            raise AnalysisBroken("anchor vanished: %s.%s" % (CLS, name))
        return f

    def public(self):
        return [f for n, f in self.cls.methods.items() if not n.startswith("_")]

    def paths(self, name, atoms=ATOMS, **kw):
        f = self.method(name)
        # the decorator supplies the first argument
        skip = 0
        for d in f.decorators:
            if ast.unparse(d).split(".")[-1] == "with_rref":
                skip = 1
        return self.ctx.run(f, atoms, decorated=True, skip=skip, **kw)

    def acquisitions(self, path):
        return [e for e in flat(path.events) if e.kind == "call" and e.a[1] == self.get_passes]

    def remote_calls(self, path):
        return [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "callRemote"]

    def is_group_none(self, path):
        """An infeasible path: a pass group which is None."""
        for e in path.events:
            if e.kind == "guard" and e.b is True and e.a[0] == "cmp" and e.a[1] == "is" and e.a[3] == NONE:
                if any(is_call(x, "split") or is_call(x, "expand") or (x[0] == "call" and x[1] == self.get_passes) for x in [e.a[2]] + ([e.a[2][1]] if e.a[2][0] == "sub" else [])):
                    return True
        return False


class Groups:
    """
    What happened to the tokens of the pass groups of one path.  ``items``
    maps group terms to their state; a group which was divided is replaced by
    its two parts, one which was extended by itself and the new tokens.
    """

    def __init__(self, client):
        self.client = client
        self.items = {}      # term -> list of what happened to it
        self.parts = {}      # term -> terms it was divided into
        self.events = []
        self.problem = None

    def is_group(self, t):
        return t in self.items or t in self.parts

    def leaves(self, t):
        if t in self.parts:
            return [x for q in self.parts[t] for x in self.leaves(q)]
        return [t]

    def run(self, path):
        evs = list(flat(path.events))
        failed = [e.a for e in evs if e.kind == "raised"]
        for e in evs:
            if e.kind != "call":
                continue
            c = I(e.a)
            bad = any(x is c or x == c for x in failed)
            if c[1] == self.client.get_passes:
                if not bad:
                    self.items[c] = []
                continue
            r = receiver(c)
            if r is None or not self.is_group(I(r)):
                continue
            r = I(r)
            n = fname(c[1])
            if n == "split" and not bad:
                a, b = I(("sub", c, const(0))), I(("sub", c, const(1)))
                state = self.items.pop(r, None)
                if state is None:
                    # parts of it may already have other owners: merge
                    state = [x for q in self.leaves(r) for x in self.items.pop(q, [])]
                self.parts[r] = (a, b)
                self.items[a], self.items[b] = list(state), list(state)
            elif n == "expand" and not bad:
                new = I(("added", c))
                self.items[new] = []
                self.parts[c] = (r, new)
                self.items.pop(c, None)
            elif n in ("mark_spent", "mark_invalid", "reset"):
                for q in self.leaves(r):
                    self.items.setdefault(q, []).append((n, bad, e))
        return self
