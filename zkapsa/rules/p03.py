"""
P03: the two result lists of the validation are read as comprehensions over
the presented passes.  The condition under which a pass lands in the valid
list must be that invalid_sha512, called on the key rederived from the signing
key for that pass's preimage, returned false for that pass's signature and the
request's message; the rejected list must take exactly the other passes, among
them those for which any step of the verification raises.
"""
from .server import *  # noqa: F401,F403
from .server import PAYING, Server

ASSUMPTIONS = [
    "VerificationKey.invalid_sha512 decides the validity of a signature",
    "a byte string which does not have the form of a pass makes the whole request fail before anything is changed",
]
CLS = "_storage_server._ValidationResult"


def verification(c):
    """(preimage holder, signature, message, key) of an invalid_sha512 call, or None"""
    if not is_call(c, "invalid_sha512") or len(c[2]) != 2:
        return None
    vk = receiver(c)
    if not is_call(vk, "derive_verification_key_sha512"):
        return None
    ut = receiver(vk)
    if not is_call(ut, "rederive_unblinded_token") or len(ut[2]) != 1:
        return None
    return ut[2][0], c[2][0], c[2][1], receiver(ut)


def decoded(t, what, cls):
    """The pass from which a primitive was decoded"""
    if is_call(t, "decode_base64") and t[1][0] == "attr" and t[1][1][0] == "g" and t[1][1][1].endswith("." + cls) or \
       (is_call(t, "decode_base64") and t[1][0] == "g" and t[1][1].endswith("." + cls + ".decode_base64")):
        x = t[2][0]
        if x[0] == "attr" and x[2] == what:
            return x[1]
    return None


def check(ctx):
    s = Server(ctx)
    ctx.rule("own-key", "passes are validated with the server's own signing key", 3)
    ctx.rule("valid-only-if-verified", "a pass is valid only if the signature on it was verified for the message under the rederived key", 1)
    ctx.rule("errors-reject", "every step of the verification is covered by a handler that rejects the pass", 1)
    ctx.rule("partition", "the rejected passes are exactly the others, by their position in the request", 1)
    ctx.rule("spent-identity", "what is remembered of a valid pass is its preimage", 1)
    for op in PAYING:
        it, paths = s.paths(op)
        n = 0
        for path in paths:
            for e in s.validations(path):
                n += 1
                ctx.check(arg(e.a, 2, "signing_key") == s.key, "own-key", op, e.loc, "the passes are validated with %s" % show(arg(e.a, 2, "signing_key") or NONE), path)
        if not n:
            raise AnalysisBroken("remote_%s validates no passes" % op)
    f = ctx.func(CLS + ".validate_passes")
    it, paths = ctx.run(f, ("from_bytes",))
    for path in paths:
        if path.kind == "raise":
            v = path.value
            fine = (v[0] == "exc" and v[1] == "builtins.AssertionError") or (len(v) > 2 and isinstance(v[2], tuple) and is_call(v[2], "from_bytes"))
            ctx.check(fine, "errors-reject", f.name, f.loc, "an error escapes from the validation of a single pass: %s" % show(v)[:200], path)
            continue
        v = path.value
        if v is None or v[0] != "new":
            ctx.bad("partition", f.name, f.loc, "the validation returns %s" % show(v or NONE)[:200], path)
            continue
        valid, failed = (strip_set(field(v, n) or NONE) for n in ("valid", "signature_check_failed"))
        if not (valid[0] == "comp" and failed[0] == "comp" and valid[3] == (p("passes"),) and failed[3] == (p("passes"),)):
            ctx.bad("partition", f.name, f.loc, "the results are not made of all presented passes in order: %s / %s" % (show(valid)[:150], show(failed)[:150]), path)
            continue
        # the condition for valid
        pass_ = None
        ok = False
        reason = "is accepted without a condition"
        call = None
        vl = disjuncts(valid[4])
        for alt in vl:
            inv = [(c, b) for c, b in alt if is_call(c, "invalid_sha512")]
            ok = False
            if len(inv) != 1 or inv[0][1] is not False:
                reason = "is accepted if " + " and ".join(("" if b else "not ") + show(c) for c, b in alt)[:300]
                break
            call = inv[0][0]
            d = verification(call)
            if d is None:
                reason = "is verified by %s" % show(call)[:200]
                break
            pre, sig, msg, key = d
            p1, p2 = decoded(pre, "preimage", "TokenPreimage"), decoded(sig, "signature", "VerificationSignature")
            ok = p1 is not None and p1 == p2 and is_call(p1, "from_bytes") and p1[2][0] == ("elem", p("passes"), 0) and msg == p("message") and key == p("signing_key")
            pass_ = p1
            reason = "is verified by %s" % show(call)[:300]
            if not ok:
                break
        ctx.check(ok, "valid-only-if-verified", f.name, f.loc, "a pass " + reason, path)
        if not ok:
            continue
        ctx.check(valid[2] == ("attr", pass_, "preimage"), "spent-identity", f.name, f.loc, "a valid pass is remembered as %s" % show(valid[2]), path)
        # the condition for rejected: the complement
        fl = disjuncts(failed[4])
        steps = [x for x in walk(call) if x[0] == "call" and fname(x[1]) in ("decode_base64", "rederive_unblinded_token", "derive_verification_key_sha512", "invalid_sha512")]
        need = [(call, True)] + [(("raises", x), True) for x in steps]
        have = {next(iter(a)) for a in fl if len(a) == 1}
        for n_ in need:
            covered = any(same_lit(h, n_) for h in have) or any(any(same_lit(x, n_) for x in a) and implied(a, n_, need) for a in fl)
            ctx.check(covered, "errors-reject" if n_[0][0] == "raises" else "partition", "validate_passes: " + (fname(n_[0][1][1]) if n_[0][0] == "raises" else "invalid"), f.loc,
                      "a pass is not rejected when %s" % (show(n_[0]))[:200], path)
        more = [x for a in vl for x in a if not any(same(x[0], n_[0]) and x[1] is not n_[1] for n_ in need)]
        ctx.check(not more, "partition", "validate_passes: all valid", f.loc,
                  "a pass which verified is accepted only if %s" % "; ".join(("" if b else "not ") + show(c) for c, b in more)[:200], path)
        extra = [a for a in fl if not any(any(same_lit(x, n_) for n_ in need) for x in a)]
        ctx.check(not extra, "partition", "validate_passes: only invalid", f.loc, "a pass which verified is rejected", path)
        ctx.check(failed[2] == ("idx", p("passes")), "partition", "validate_passes: positions", f.loc,
                  "a rejected pass is reported as %s" % show(failed[2]), path)


def same_lit(a, b):
    return a[1] == b[1] and same(a[0], b[0])


def implied(alt, lit, need):
    """The other conditions next to a reason to reject only say that no earlier step failed."""
    rest = [x for x in alt if not same_lit(x, lit)]
    return all(any(same(x[0], n[0]) and x[1] is not n[1] for n in need) for x in rest)
