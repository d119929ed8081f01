"""
P02: provenance of the request-binding message.  The message the server
validates against and the message the client requests passes for are taken
apart into constant prefix and encoded storage index; both sides must give the
same term, it depends on nothing but the storage index, and the constant
prefixes of the operations are different and delimited from the encoding.
"""
import string

from . import client, server
from .server import *  # noqa: F401,F403
from .server import Server, PAYING
from .client import Client

ENCODERS = {"b64encode", "urlsafe_b64encode", "hex", "b2a", "b32encode", "hexlify", "standard_b64encode"}
ALPHABET = set(string.ascii_letters + string.digits + "+/=-_")
ASSUMPTIONS = ["the encodings %s are injective" % ", ".join(sorted(ENCODERS))]


def parts(t):
    """A string or bytes term as a list of constants (str) and other terms."""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bytes):
            return [v.decode("latin-1")]
        if isinstance(v, str):
            return [v]
        return [t]
    if t[0] == "fmt":
        return join([y for x in t[1] for y in parts(x)])
    if t[0] == "bin" and t[1] == "+":
        return join(parts(t[2]) + parts(t[3]))
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("encode", "decode") and not mentions(t[1][1], lambda x: x[0] == "obj"):
        return parts(t[1][1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and len(t[2]) == 1 and t[2][0][0] in ("list", "tuple"):
        sep = parts(t[1][1])
        out = []
        for i, x in enumerate(t[2][0][1]):
            out += (sep if i else []) + parts(x)
        return join(out)
    if t[0] == "call" and t[1] in (("g", "builtins.str"), ("g", "builtins.bytes")) and len(t[2]) >= 1:
        return parts(t[2][0])
    return [t]


def join(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def encoded_index(t):
    """Is the term an injective encoding of the whole storage index?"""
    if t[0] != "call":
        return t == p("storage_index")
    n = fname(t[1])
    if n not in ENCODERS:
        return False
    x = t[2][0] if t[2] else (t[1][1] if t[1][0] == "attr" else None)
    return x is not None and encoded_index(x)


def binding(t):
    """(constant prefix, ok)"""
    ps = parts(t)
    if len(ps) >= 2 and isinstance(ps[0], str) and not isinstance(ps[1], str) and encoded_index(ps[1]):
        rest = ps[2:]
        if all(isinstance(x, str) for x in rest):
            return ps[0], "".join(rest)
    return None


def check(ctx):
    s, c = Server(ctx), Client(ctx)
    ctx.rule("bound-to-index", "the server's message is a constant prefix naming the operation followed by an injective encoding of the requested storage index and nothing else", 3)
    ctx.rule("client-same-message", "the client requests passes for the very same message", 3)
    ctx.rule("operations-distinct", "the prefixes of the operations are pairwise different and end in a delimiter", 3)
    ctx.rule("checked-for-message", "whatever makes a presented pass count includes the check of its signature over the message", 1)
    ctx.rule("group-keeps-message", "the group of passes remembers the message and replacements are made for the same message", 2)
    ctx.rule("signature-over-message", "the redeemer signs the message given for every token", 1)
    seen = {}
    for op in PAYING:
        it, paths = s.paths(op)
        msgs = {}
        for path in paths:
            for e in s.validations(path):
                msgs[arg(e.a, 0, "message")] = e
        if not msgs:
            raise AnalysisBroken("remote_%s validates no passes" % op)
        good = None
        for m, e in msgs.items():
            b = binding(m)
            if ctx.check(b is not None, "bound-to-index", op, e.loc, "the passes are validated against %s" % show(m)[:200]):
                good = b
        if good is not None:
            seen[op] = (good, e)
        cpaths = c.paths(op)[1]
        n = 0
        for path in cpaths:
            for e in c.acquisitions(path):
                n += 1
                m = arg(e.a, 0, "message")
                same_as = any(parts(m) == parts(x) or same(m, x) or (binding(m) is not None and binding(m) == binding(x)) for x in msgs)
                ctx.check(same_as, "client-same-message", op, e.loc,
                          "the client makes passes for %s, the server checks them against %s" % (show(m)[:200], " or ".join(show(x)[:200] for x in msgs)), path)
        if not n:
            raise AnalysisBroken("client %s acquires no passes" % op)
    ops = sorted(seen)
    for i, a in enumerate(ops):
        pre = seen[a][0][0]
        ctx.check(pre[-1] not in ALPHABET, "operations-distinct", a + ": delimited", seen[a][1].loc, "the prefix %r is not delimited from the storage index" % pre)
        for b in ops[i + 1:]:
            ctx.check(pre != seen[b][0][0], "operations-distinct", a + " / " + b, seen[a][1].loc,
                      "passes for %s are also valid for %s: both are bound by %r" % (a, b, pre))
    checked(ctx)
    # the group
    cls = "spending.SpendingController"
    fac = "spending.PassGroup"
    it, paths = ctx.run(cls + ".get")
    for path in paths:
        if path.kind != "return":
            continue
        v = path.value
        ctx.check(v[0] == "new" and field(v, "message") == p("message"), "group-keeps-message", "SpendingController.get: message", ctx.func(cls + ".get").loc,
                  "the group returned does not hold the message it was made for", path)
        made = [e for e in flat(path.events) if e.kind == "call" and e.a[1] == self_field(ctx, cls, name="tokens_to_passes")]
        ctx.check(len(made) == 1 and made[0].a[2][0] == p("message"), "group-keeps-message", "SpendingController.get: passes", made[0].loc if made else ctx.func(cls + ".get").loc,
                  "the passes are not made for the requested message", path)
    it, paths = ctx.run(fac + ".expand")
    for path in paths:
        got = [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "get" and receiver(e.a) == self_field(ctx, fac, name="factory")]
        ctx.check(len(got) == 1 and got[0].a[2][0] == self_field(ctx, fac, name="message"), "group-keeps-message", "PassGroup.expand", got[0].loc if got else ctx.func(fac + ".expand").loc,
                  "replacement passes are not made for the message of the group", path)
    # the redeemer
    f = ctx.func("controller.RistrettoRedeemer.tokens_to_passes")
    it, paths = ctx.run(f)
    for path in paths:
        if path.kind != "return":
            continue
        signs = [e for e in all_calls(path, "sign_sha512")]
        v = strip_list(path.value)
        ok = len(signs) >= 1 and all(e.a[2] == (p("message"),) for e in signs) and v[0] == "comp" and v[4] == ()
        if ok:
            pre, sig = field(v[2], "preimage"), field(v[2], "signature")
            signed = [x for x in walk(sig or NONE) if is_call(x, "sign_sha512")]
            ok = len(signed) == 1 and is_call(receiver(signed[0]), "derive_verification_key_sha512") and pre is not None
            if ok:
                tok = receiver(receiver(signed[0]))
                ok = any(is_call(x, "preimage") and same(receiver(x), tok) for x in walk(pre)) and mentions(tok, lambda x: x[0] == "elem")
        ctx.check(ok, "signature-over-message", f.name, f.loc,
                  "a pass is not the token's preimage with the signature by that token's key over the given message", path)


def checked(ctx):
    """Nothing but the check of the signature over the message makes a pass count."""
    f = ctx.func("_storage_server._ValidationResult.validate_passes")
    it, paths = ctx.run(f, ("from_bytes",))
    for path in paths:
        if path.kind != "return" or path.value is None or path.value[0] != "new":
            continue
        valid = strip_set(field(path.value, "valid") or NONE)
        if valid[0] != "comp":
            ctx.bad("checked-for-message", f.name, f.loc, "the passes which count are %s" % show(valid)[:200], path)
            continue
        for alt in disjuncts(valid[4]):
            over = [c for c, b in alt if b is False and is_call(c, "invalid_sha512") and c[2] and c[2][-1] == p("message")]
            ctx.check(bool(over), "checked-for-message", f.name, f.loc,
                      "a pass counts for the message if " + " and ".join(("" if b else "not ") + show(c) for c, b in alt)[:300], path)
