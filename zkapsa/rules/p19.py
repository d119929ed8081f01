"""
P19: along every path of a redemption request, tokens are returned only after
the answer said success, and they are the result of unblinding through the
answer's own batch proof, with the random tokens given, the blinded tokens that
were sent and the signatures and public key of the answer; the two special
outcomes are raised exactly for their two answers; and a changed process limit
is put back on every path, also on exceptional ones.
"""
from .controller import *  # noqa: F401,F403
from .controller import call_sites, owned

TECHNIQUE = "dataflow and path rules over enumerated paths, including exceptional ones"
ASSUMPTIONS = ["invalid_or_unblind of the Ristretto library raises unless the proof verifies for all the tokens given"]
REDEEMER = "controller.RistrettoRedeemer"


def check(ctx):
    ctx.rule("needs-success", "tokens are accepted only from an answer which says success", 1)
    ctx.rule("needs-proof", "the tokens are unblinded through the answer's proof over what was sent", 1)
    ctx.rule("key-of-answer", "the public key returned is the one the proof was verified with", 1)
    ctx.rule("outcomes", "an already redeemed and an unpaid voucher are told exactly by their answers", 2)
    ctx.rule("limits-restored", "a process limit which was changed is put back on every way", 1)
    f = ctx.func(REDEEMER + ".redeemWithCounter")
    it, paths = ctx.run(f, raise_all=True, closing=True)
    n = 0
    for path in paths:
        limits(ctx, f, path)
        posts = [e.a for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) in ("post", "put", "request")]
        if path.kind == "return":
            n += 1
            accepted(ctx, f, path, posts)
        elif path.value is not None and path.value[0] == "new":
            refused(ctx, f, path, posts)
        if path.kind != "return":
            missed(ctx, f, path, posts)
    if not n:
        raise AnalysisBroken("redeemWithCounter never returns tokens")
    for owner, m, node in call_sites(ctx.program, "invalid_or_unblind"):
        ctx.check(owned(ctx, owner), "needs-proof", owner.split(".", 1)[1], (m.relpath, node.lineno), "tokens are unblinded outside of a redemption")
    for m in ctx.program.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "setrlimit" and ".tests" not in m.name:
                owner = owner_of(m, x)
                ctx.check(owned(ctx, owner), "limits-restored", "setrlimit in %s" % owner.split(".", 1)[1], (m.relpath, x.lineno), "a limit is changed elsewhere")


def owner_of(m, node):
    best = m.name

    def visit(x, o):
        nonlocal best
        for ch in ast.iter_child_nodes(x):
            o2 = o + "." + ch.name if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else o
            if ch is node:
                best = o2
            visit(ch, o2)
    visit(m.tree, m.name)
    return best


def of_answer(t, posts):
    """Is it (decoded from) the body of the answer?"""
    return any(contains(t, x) for x in posts)


def member_of(t, name, posts):
    """Is the term the named member of the answer?  Gives the answer, too."""
    if t[0] == "sub" and t[2] == const(name) and of_answer(t[1], posts):
        return t[1]
    if is_call(t, "get") and t[2] and t[2][0] == const(name) and of_answer(t[1][1], posts):
        d = t[2][1] if len(t[2]) > 1 else NONE
        if is_const(d) and not cval(d):
            return t[1][1]
    return None


def told(path, posts, name):
    """{value or None: truth}: what the path knows about a member of the answer."""
    out = {}
    for e in path.events:
        if e.kind != "guard":
            continue
        g, b = norm(e.a), e.b
        if member_of(g, name, posts) is not None:
            out[None] = b
        elif g[0] == "cmp" and g[1] in ("==", "is") and len(g) == 4:
            for x, y in ((g[2], g[3]), (g[3], g[2])):
                if is_const(y) and member_of(x, name, posts) is not None:
                    if y == const(True):
                        out[None] = b
                    elif y == const(False):
                        out[None] = not b
                    else:
                        out[cval(y)] = b
    return out


def plain(t):
    """The text or bytes before encoding."""
    while is_call(t, ("encode", "decode")) and t[1][0] == "attr" and (not t[2] or is_const(t[2][0])):
        t = t[1][1]
    return t


def decoded(t, cls):
    """The text decoded by the library's class, or None."""
    if t[0] == "call" and t[1] == ("g", "challenge_bypass_ristretto.%s.decode_base64" % cls) and len(t[2]) == 1:
        return plain(t[2][0])
    return None


def every(t):
    """(element, iterable) when t has one element for each of the iterable."""
    t = strip_list(t)
    if t[0] == "comp" and len(t[3]) == 1 and not t[4]:
        return t[2], t[3][0]
    return None, None


def accepted(ctx, f, path, posts):
    said = told(path, posts, "success").get(None)
    ctx.check(said is True, "needs-success", "redeemWithCounter", f.loc, "tokens are accepted although the answer may not say success", path)
    v = path.value
    toks = field(v, "unblinded_tokens") if v[0] == "new" else None
    elt, src = every(toks) if toks is not None else (None, None)
    u = None
    ok = elt is not None and elt[0] == "new" and elt[1].endswith(".UnblindedToken")
    why = "what is returned is not made of unblinded tokens"
    if ok:
        x = field(elt, "unblinded_token")
        u = strip_list(src)
        ok = x is not None and plain_base64(x) == ("elem", src, 0) and is_call(u, "invalid_or_unblind")
        why = "the tokens returned are not all those which were unblinded through a proof"
    if ok:
        answer = None
        proof = decoded(u[1][1], "BatchDLEQProof")
        rnd, blind, signed, key = ([arg(u, i) for i in range(4)])
        answer = member_of(proof, "proof", posts) if proof is not None else None
        ok, why = answer is not None, "the proof is not the one of the answer"
        if ok:
            e, g = every(rnd)
            token = decoded(e, "RandomToken") if e is not None else None
            ok = token is not None and strip_list(g) == p("random_tokens") and token == ("attr", ("elem", g, 0), "token_value")
            why = "the proof is not verified with the random tokens given"
        if ok:
            e2, g2 = every(blind)
            ok = e2 is not None and is_call(e2, "blind") and e2[1][1] == e and strip_list(g2) == p("random_tokens")
            why = "the proof is not verified with the blinded tokens of the random tokens given"
        if ok:
            sent = [y for x in posts for y in walk(x) if y[0] == "comp" and is_call(plain(y[2]), "encode_base64") and plain_base64(plain(y[2])) == e2 and not y[4]]
            ok, why = bool(sent), "the blinded tokens which are verified are not those that were sent"
        if ok:
            e3, g3 = every(signed)
            st = decoded(e3, "SignedToken") if e3 is not None else None
            ok = st is not None and st == ("elem", g3, 0) and member_of(strip_list(g3), "signatures", posts) == answer
            why = "the proof is not verified with all signatures of the answer"
        if ok:
            k = decoded(key, "PublicKey") if key is not None else None
            ok = k is not None and member_of(k, "public-key", posts) == answer
            why = "the proof is not verified with the public key of the answer"
            pk = field(v, "public_key")
            ctx.check(ok and pk is not None and plain(pk) == k, "key-of-answer", "redeemWithCounter", f.loc, "the key returned is %s" % (show(pk)[:200] if pk else None), path)
    ctx.check(ok, "needs-proof", "redeemWithCounter", f.loc, why, path)


def plain_base64(x):
    x = plain(x)
    return x[1][1] if is_call(x, "encode_base64") and x[1][0] == "attr" else None


SPECIAL = {"AlreadySpent": "double-spend", "Unpaid": "unpaid"}


def refused(ctx, f, path, posts):
    name = path.value[1].rsplit(".", 1)[-1]
    if name in SPECIAL:
        reason = told(path, posts, "reason")
        ok = told(path, posts, "success").get(None) is False and reason.get(SPECIAL[name]) is True
        ctx.check(ok, "outcomes", name, f.loc, "%s is raised although the answer does not say so" % name, path)


def missed(ctx, f, path, posts):
    if told(path, posts, "success").get(None) is not False or path.value is None or path.value[0] != "new":
        return
    reason = told(path, posts, "reason")
    for name, word in SPECIAL.items():
        if reason.get(word) is True:
            got = path.value[1].rsplit(".", 1)[-1]
            ctx.check(got == name, "outcomes", name, f.loc, "%s is raised for the answer %r" % (got, word), path)
        elif word not in reason and not any(v for v in reason.values()):
            ctx.bad("outcomes", name, f.loc, "the answer %r is not recognised" % word, path)


def limits(ctx, f, path):
    changed = None
    events = [e for e in flat(path.events)]
    for i, e in enumerate(events):
        if e.kind in ("await", "yield") and changed is not None:
            ctx.bad("limits-restored", "while waiting", e.loc, "the request waits while a process limit is changed", path)
        if e.kind == "call" and fname(e.a[1]) == "setrlimit":
            which, value = e.a[2][0], e.a[2][1]
            if is_original(which, value):
                changed = None
            elif not (i + 1 < len(events) and events[i + 1].kind == "raised" and events[i + 1].a == e.a):
                changed = (e, which)
    ctx.check(changed is None, "limits-restored", "redeemWithCounter", changed[0].loc if changed else f.loc, "the changed limit is not put back (%s)" % path.kind, path)


def is_original(which, value):
    def got(t):
        return is_call(t, "getrlimit") and t[2] == (which,)
    if got(value):
        return True
    return value[0] == "tuple" and len(value[1]) == 2 and all(x[0] == "sub" and x[2] == const(i) and got(x[1]) for i, x in enumerate(value[1]))
