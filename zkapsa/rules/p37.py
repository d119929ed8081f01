"""
P37: downloads are atomic and only transient errors are retried.  Every
operation of the Tahoe-LAFS client is followed from the public method through
its decorators to the HTTP requests, with failures at each request, each read
of an answer and each file operation.
"""
from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import contains, fname, is_const, norm, walk
from .p35 import method

TECHNIQUE = "path rules over each grid operation with faults at every request, read and file operation"
ASSUMPTIONS = [
    "treq.content and treq.collect fail if the body of the response is not received in full",
    "FilePath.moveTo within a directory and FilePath.setContent replace the target atomically",
    "an unbounded number of attempts behaves like the first two",
]
OPS = {"download": (200,), "upload": (200, 201), "make_directory": (200,), "list_directory": (200,), "link": (200,), "unlink": (200,)}
RETRIED = [x for x in OPS if x != "download"]
DATA = ("upload", "make_directory", "list_directory")
VERBS = ("get", "put", "post", "delete", "request", "head", "patch")
TEXTS = ("allmydata.interfaces.NoServersError", "allmydata.mutable.common.NotEnoughServersError")
REFUSED = "twisted.internet.error.ConnectionRefusedError"
FILES = ("open", "moveTo", "setContent", "write", "close")


def is_request(t):
    return method(t) in VERBS and t[1][1][0] == "attr" and t[1][1][1][0] == "self"


def body_call(t):
    return t[0] == "call" and t[1][0] == "g" and t[1][1].startswith("treq") and fname(t[1]) in ("content", "collect", "text_content", "json_content")


def hazards(it, st, op, t):
    if not (isinstance(t, tuple) and t and t[0] == "call"):
        return ()
    if is_request(t) or body_call(t):
        return ["Exception"]
    if method(t) in FILES or t[1][0] == "g" and fname(t[1]) in ("rename", "replace", "open"):
        return ["OSError"]
    return ()


def check(ctx):
    ctx.rule("status", "an operation succeeds only with a response whose status says so, received in full", minimum=6)
    ctx.rule("error", "the error for another response carries its status and body", minimum=6)
    ctx.rule("data", "what is returned is made from the body of the response", minimum=3)
    ctx.rule("retry", "an operation is attempted again if and only if the last attempt failed with a transient error", minimum=10)
    ctx.rule("attempt", "each attempt sends the data from the start", minimum=1)
    ctx.rule("final name", "data appears under its final name only after all of it was written elsewhere", minimum=3)
    ctx.rule("child", "a file below a directory is found by following its path", minimum=2)
    for name in sorted(OPS):
        operation(ctx, name)
    described(ctx)
    child(ctx)


def operation(ctx, name):
    f = ctx.func("tahoe.Tahoe." + name)
    it, ps = ctx.run(f, ("tahoe._scrub*", "config.*"), hazards=hazards, unroll=2)
    n = 0
    for path in ps:
        evs = list(flat(path.events))
        starts = [i for i, e in enumerate(evs) if e.kind == "call" and is_request(e.a)]
        if not starts:
            if path.kind == "return":
                ctx.bad("status", name, f.loc(), "success without a request", path)
            continue
        n += 1
        bounds = starts[1:] + [len(evs)]
        attempts = [Attempt(evs, i, j, OPS[name]) for i, j in zip(starts, bounds)]
        for a in attempts[:-1]:
            ctx.check(a.transient(), "retry", "%s: only after a transient error" % name, evs[a.start].loc, "attempted again although the error is not transient", path)
        last = attempts[-1]
        loc = evs[last.start].loc
        if path.kind == "return":
            ctx.check(last.success and last.awaited, "status", name, loc, "success without a response which says so", path)
            if name in DATA:
                ok = any(norm(x) in last.bodies for x in walk(path.value)) or any(norm(x) in last.bodies for e in evs[last.start:] if e.kind == "setitem" for x in walk(e.c if isinstance(e.c, tuple) else ()))
                ctx.check(ok, "data", name, loc, "the result is not made from the body of the response", path)
            else:
                ctx.check(name == "download" or bool(last.bodies), "status", "%s: in full" % name, loc, "success before the response was received", path)
        elif path.kind == "raise":
            if name in RETRIED:
                ctx.check(not last.transient(), "retry", "%s: after a transient error" % name, loc, "not attempted again after a transient error", path)
                if last.failure is not None or path.value[0] == "new":
                    ctx.check(last.lasting(path.value), "retry", "%s: classified" % name, loc, "the error is raised without asking whether it is transient", path)
            v = path.value
            if v[0] == "new" and v[1].endswith(".TahoeAPIError"):
                g = dict(v[2])
                ok = g.get("status") is not None and norm(g["status"]) == norm(("attr", last.request, "code")) and any(norm(x) in last.bodies for x in walk(g.get("body", ("none",))))
                ctx.check(ok, "error", name, loc, "the error does not carry the status and the body of the response", path)
        if name == "upload":
            for a in attempts:
                t = a.request
                data = [x for x in list(t[2][1:]) + [y for k, y in t[3] if k == "data"]]
                given = p(f.node.args.args[-1].arg)
                ok = len(data) == 1 and data[0][0] == "call" and data[0][1] == given and sum(1 for b in attempts if data[0] in walk(b.request)) == 1
                ctx.check(ok, "attempt", name, loc, "an attempt does not send the data from the start", path)
        if name == "download":
            final(ctx, f, path, evs, attempts)
    if not n:
        raise AnalysisBroken("Tahoe.%s makes no request" % name)


class Attempt:
    def __init__(self, evs, start, end, allowed):
        self.start = start
        self.request = evs[start].a
        part = evs[start:end]
        self.guards = [(e.a, e.b) for e in part if e.kind == "guard"]
        code = norm(("attr", self.request, "code"))
        self.failure = None
        for e in part:
            if e.kind == "raised" and isinstance(e.a, tuple) and e.a[0] == "call":
                self.failure = e.b if self.failure is None else self.failure
        raised = [norm(e.a) for e in part if e.kind == "raised" and isinstance(e.a, tuple)]
        self.raised = raised
        self.awaited = any(e.kind == "await" and norm(e.a) == norm(self.request) for e in part) and norm(self.request) not in raised
        self.success = False
        for a, b in self.guards:
            if a[0] == "cmp" and a[1] == "==" and b:
                x, y = a[2], a[3]
                for u, v in ((x, y), (y, x)):
                    if norm(u) == code and is_const(v) and v[2] in allowed:
                        self.success = True
        self.bodies = {norm(e.a) for e in part if e.kind == "await" and body_call(e.a) and e.a[2] and norm(e.a[2][0]) == norm(self.request) and norm(e.a) not in raised}

    def tests(self):
        """What is known about the error: {"refused": bool, "api": bool, text: bool}"""
        out = {}
        for a, b in self.guards:
            if a[0] in ("isinstance", "inst") or a[0] == "call" and fname(a[1]) == "isinstance":
                for x in walk(a):
                    n = x[1] if x and x[0] in ("g", "cls", "class") and len(x) > 1 and isinstance(x[1], str) else None
                    if n == REFUSED:
                        out["refused"] = b
                    elif n and n.endswith(".TahoeAPIError"):
                        out["api"] = b
            elif a[0] == "cmp" and a[1] == "in" and is_const(a[2]) and isinstance(a[2][2], str):
                if a[2][2] in TEXTS:
                    out[a[2][2]] = b
                if any(x and (x[0] == "new" and x[1].endswith(".TahoeAPIError") or norm(x) in self.bodies) for x in walk(a[3])):
                    out["api"] = True
        return out

    def transient(self):
        t = self.tests()
        return bool(t.get("refused") or t.get("api") and any(t.get(x) for x in TEXTS))

    def lasting(self, v):
        t = self.tests()
        api = t.get("api")
        if v[0] == "new":
            if not v[1].endswith(".TahoeAPIError"):
                return True
            api = True
        texts = all(t.get(x) is False for x in TEXTS)
        return (t.get("refused") is False or bool(api)) and (api is False or texts)


def final(ctx, f, path, evs, attempts):
    """What happens to the file names in a download."""
    last = attempts[-1]
    out = p(f.node.args.args[1].arg)
    own = "temporarySibling"
    loc = evs[last.start].loc
    placed = []
    for i, e in enumerate(evs):
        if e.kind != "call":
            continue
        t = e.a
        m = method(t)
        if m is not None and t[1][1] == out:
            if m == "setContent":
                placed.append((i, t, None))
            elif m not in (own, "parent", "sibling", "basename", "dirname", "siblingExtension", "exists", "isfile"):
                ctx.bad("final name", "only moved to", e.loc, "the final name is used (%s) before the data is complete" % m, path)
        elif any(x == out for x in t[2]) and (m in ("moveTo", "copyTo", "linkTo") or t[1][0] == "g" and fname(t[1]) in ("rename", "replace", "open", "copy", "move")):
            if m != "moveTo" and fname(t[1]) not in ("rename", "replace"):
                ctx.bad("final name", "only moved to", e.loc, "the final name is used (%s) before the data is complete" % (m or fname(t[1])), path)
            placed.append((i, t, t[1][1] if m == "moveTo" else t[2][0]))
        elif m is not None and t[1][1][0] == "attr" and t[1][1][1] == out and m == "open":
            ctx.bad("final name", "only moved to", e.loc, "the final name is written to", path)
        elif t[1][0] in ("g", "b") and fname(t[1]) == "open" and contains(t, out) and not contains(t, ("attr", out, own)):
            ctx.bad("final name", "only moved to", e.loc, "the final name is written to", path)
    if path.kind == "return":
        placed_last = [x for x in placed if x[0] > last.start]
        ctx.check(len(placed_last) == 1 and norm(placed_last[0][1]) not in last.raised, "final name", "in place", loc, "success without the data under its final name", path)
    for i, t, temp in placed:
        last = [a for a in attempts if a.start < i][-1]
        raised = last.raised
        ctx.check(last.success, "final name", "status", evs[i].loc, "the body of an error appears as data", path)
        if temp is None:
            ok = len(t[2]) >= 1 and norm(t[2][0]) in last.bodies
            ctx.check(ok, "final name", "complete", evs[i].loc, "incomplete data appears under the final name", path)
            continue
        good = method(strip_path(temp)) == own and strip_path(temp)[1][1] == out
        ctx.check(good, "final name", "a temporary sibling", evs[i].loc, "the data is not moved from a temporary file beside the final one", path)
        ctx.check(written(evs[last.start:i], temp, last, raised), "final name", "complete", evs[i].loc, "incomplete data appears under the final name", path)


def strip_path(t):
    while t[0] == "attr" and t[2] == "path":
        t = t[1]
    return t


def written(evs, temp, last, raised):
    """Was the whole body written to the temporary file, and the file closed?"""
    same = norm(strip_path(temp))
    handle = None
    done = closed = False
    for e in evs:
        if e.kind == "call":
            m = method(e.a)
            if m == "setContent" and norm(e.a[1][1]) == same and e.a[2] and norm(e.a[2][0]) in last.bodies and norm(e.a) not in raised:
                return True
            if m == "open" and norm(e.a[1][1]) == same or e.a[1][0] in ("g", "b") and fname(e.a[1]) == "open" and e.a[2] and norm(strip_path(e.a[2][0])) == same:
                mode = [x[2] for x in list(e.a[2]) + [y for k, y in e.a[3]] if is_const(x) and isinstance(x[2], str)]
                if mode and mode[0].rstrip("b") in ("w", "x"):
                    handle = norm(e.a)
            if handle is not None and m == "write" and contains(e.a[1][1], handle) and e.a[2] and norm(e.a[2][0]) in last.bodies and norm(e.a) not in raised:
                done = True
            if handle is not None and m == "close" and contains(e.a[1][1], handle) and norm(e.a) not in raised:
                closed = done
        elif e.kind == "await" and handle is not None and norm(e.a) in last.bodies and fname(e.a[1]) == "collect":
            sink = e.a[2][1] if len(e.a[2]) > 1 else None
            done = done or sink is not None and sink[0] == "attr" and sink[2] == "write" and contains(sink, handle)
        elif e.kind == "exit" and handle is not None and isinstance(e.a, tuple) and contains(e.a, handle):
            closed = done
    return closed


def described(ctx):
    """The classification looks for the error in the text of the exception."""
    cls = ctx.program.classes["_zkapauthorizer.tahoe.TahoeAPIError"]
    node = cls.node
    import ast
    text = any(isinstance(x, ast.FunctionDef) and x.name == "__str__" and any(isinstance(y, ast.Attribute) and y.attr == "body" for y in ast.walk(x)) for x in node.body)
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "str" and isinstance(k.value, ast.Constant) and k.value.value is True:
                    text = True
    for x in node.body:
        if isinstance(x, ast.AnnAssign) and getattr(x.target, "id", "") == "body" and isinstance(x.value, ast.Call):
            for k in x.value.keywords:
                if k.arg == "repr" and not (isinstance(k.value, ast.Constant) and k.value.value is True):
                    text = False
    ctx.check(text, "error", "described by its body", "src/_zkapauthorizer/tahoe.py:%d" % node.lineno, "the text of the error does not include the body of the response, by which it is classified")


def child(ctx):
    f = ctx.func("tahoe.download_child")
    out, client, cap, names = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f)
    for path in ps:
        if path.kind != "return":
            continue
        evs = list(flat(path.events))
        loads = [e for e in evs if e.kind == "call" and method(e.a) == "download" and e.a[1][1] == client]
        more = [e for e in evs if e.kind == "call" and fname(e.a[1]) == "download_child"]
        awaited = [norm(e.a) for e in evs if e.kind == "await"]
        ok = len(loads) + len(more) == 1 and norm((loads + more)[0].a) in awaited
        ctx.check(ok, "child", "one file", f.loc(), "success without the file", path)
        if not ok:
            continue
        e = (loads + more)[0]
        ok = out in e.a[2]
        ctx.check(ok, "child", "where asked for", e.loc, "the file is not written where it was asked for", path)
        what = e.a[2][1] if loads and len(e.a[2]) > 1 else e.a[2][2] if more and len(e.a[2]) > 2 else None
        ok = what is not None and what[0] == "attr" and what[2] == "ro_uri" and any(method(x) == "list_directory" for x in walk(what) if x) and contains(what, names)
        ctx.check(ok, "child", "the entry of that name", e.loc, "another entry is followed", path)
