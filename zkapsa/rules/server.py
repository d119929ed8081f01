"""Shared knowledge about the storage server's side."""
from ..match import *  # noqa: F401,F403
from ..match import attr, p, self_field
from ..terms import I

CLS = "_storage_server.ZKAPAuthorizerStorageServer"
PAYING = ("allocate_buckets", "add_lease", "slot_testv_and_readv_and_writev")
ATOMS = (
    "required_passes", "get_required_new_passes_for_mutable_write", "validate_passes", "get_share_stats",
    "get_all_share_paths", "summarize",
)
# operations of the wrapped storage server which change nothing that is stored
READONLY = {
    "get_version", "get_buckets", "slot_readv", "advise_corrupt_share", "get_available_space",
    "register_bucket_writer_close_handler", "get_shares", "get_leases", "get_slot_leases",
}
# calls on anything which change stored shares or leases
GRANTING = {
    "allocate_buckets", "add_lease", "renew_lease", "slot_testv_and_readv_and_writev", "slot_writev",
    "add_or_renew_lease", "cancel_lease", "add_lease_for", "create_mutable_sharefile", "remote_write",
}
FILE_CHANGES = {
    "remove", "unlink", "rename", "rmdir", "mkdir", "makedirs", "rmtree", "setContent", "truncate", "utime", "chmod",
    "write_bytes", "write_text", "moveTo", "replace_file", "touch", "copyTo",
}


class Server:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = ctx.program.cls(CLS)
        self.original = self_field(ctx, CLS, name="original", type="StorageServer")
        self.key = self_field(ctx, CLS, type="SigningKey")
        self.public_key = self_field(ctx, CLS, type="PublicKey")
        self.spender = self_field(ctx, CLS, type="ISpender")
        self.pass_value = self_field(ctx, CLS, name="pass_value")
        self.histogram = self_field(ctx, CLS, type="Histogram")

    def method(self, name):
        f = self.ctx.program.find_method(self.cls, name)
        if f is None:
            raise AnalysisBroken("anchor vanished: %s.%s" % (CLS, name))
        return f

    def remotes(self):
        out = []
        for c in self.ctx.program.mro(self.cls):
            for n, f in c.methods.items():
                if n.startswith("remote_") and n not in [x.name for x in out]:
                    out.append(f)
        return out

    def paths(self, name, atoms=ATOMS):
        return self.ctx.run(self.method("remote_" + name), atoms)

    def is_backend_call(self, call):
        return receiver(call) == self.original

    def is_grant(self, call):
        """Does this call change what the backend stores?"""
        n = fname(call[1])
        r = receiver(call)
        if r == self.original:
            return n not in READONLY
        if call[1][0] == "attr" and n in GRANTING:
            return True
        return n == "getattr_call"

    def validations(self, path):
        return [e for e in flat(path.events) if e.kind == "call" and fname(e.a[1]) == "validate_passes"]


def valid_of(validation):
    return I(("attr", validation, "valid"))


def failed_of(validation):
    return I(("attr", validation, "signature_check_failed"))


def is_price(s, op, term):
    """Is the term the full price of the operation?  A reason when it is not."""
    if op in ("allocate_buckets", "add_lease"):
        if not is_call(term, "required_passes"):
            # price of one share times the number of shares
            if op == "allocate_buckets" and term[0] == "bin" and term[1] == "*":
                for a, b in ((term[2], term[3]), (term[3], term[2])):
                    if is_call(a, "required_passes") and lenof(b) is not None and keys(lenof(b)) == p("sharenums"):
                        one = a[2][1]
                        if a[2][0] == s.pass_value and one[0] == "list" and one[1] == (p("allocated_size"),):
                            return None
            return "it is not computed by required_passes"
        if term[2][0] != s.pass_value:
            return "the value of a pass is not the configured one"
        sizes = term[2][1]
        if op == "allocate_buckets":
            r = repeat(sizes)
            if r is None or r[0] != p("allocated_size") or r[1] != p("sharenums"):
                return "the sizes are not one allocated_size per requested share"
            return None
        return all_share_sizes(s, sizes)
    parts = write_price(term)
    if parts is None:
        return "it is not get_required_new_passes_for_mutable_write for the growth and required_passes for the leases renewed"
    term, renewal = parts
    if term[2][0] != s.pass_value or renewal[2][0] != s.pass_value:
        return "the value of a pass is not the configured one"
    why = unleased_sizes(s, renewal[2][1])
    if why is not None:
        return "the leases renewed are %s" % why
    if term[2][2] != p("tw_vectors"):
        return "it is not computed for the writes requested"
    cs = term[2][1]
    if not any(is_call(x, ("get_share_stats", "get_all_share_paths")) and x[2][0] == s.original and x[2][1] == p("storage_index") for x in walk(cs)):
        return "the current sizes are not those of the shares in the requested slot"
    return None


def write_price(t):
    """The two parts of the price of a write: (growth of the shares, renewal of leases)."""
    if t[0] == "bin" and t[1] == "+":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if is_call(a, "get_required_new_passes_for_mutable_write") and is_call(b, "required_passes"):
                return a, b
    return None


def share_stats(s, g):
    """Why the generator is not the shares of the requested slot which are written."""
    src = strip_list(g)
    if not is_call(src, "get_share_stats") or src[2][:2] != (s.original, p("storage_index")):
        return "not those of the requested slot"
    sel = src[2][2] if len(src[2]) > 2 else next((v for k, v in src[3] if k == "sharenums"), None)
    if sel is None:
        return "unknown selection"
    if sel == NONE or not is_write_set(sel, p("tw_vectors")):
        return "not those written: %s" % show(sel)[:200]
    return None


def is_write_set(t, tw):
    t = strip_set(t)
    if t == tw or keys(t) == tw:
        return True
    return t[0] == "comp" and t[3] == (tw,) and t[2] == ("elem", tw, 0) and len(t[4]) <= 1 and all(
        b is True and c == ("sub", ("sub", tw, ("elem", tw, 0)), const(1)) for c, b in t[4])


def unleased_sizes(s, t):
    """Why the sizes are not those of every written share without unexpired lease."""
    t = strip_list(t)
    if t[0] != "comp" or len(t[3]) != 1:
        return "not computed share by share: %s" % show(t)[:200]
    if t[1] == "set":
        return "of shares of different sizes only"
    g = t[3][0]
    why = share_stats(s, g)
    if why is not None:
        return why
    e = ("elem", g, 0)
    if t[2] != ("attr", ("sub", e, const(1)), "size"):
        return "priced as %s" % show(t[2])[:200]
    if not t[4]:
        return "of shares which have an unexpired lease, too"
    if t[4][0] == "dnf" or len(t[4]) != 1:
        return "restricted by %s" % show(t[4])[:200]
    c, b = t[4][0]
    if active_lease(c, g) is None or b is not False:
        return "restricted by %s%s" % ("" if b else "not ", show(c)[:200])
    return None


def all_share_sizes(s, sizes):
    sizes = strip_list(sizes)
    if sizes[0] == "comp" and sizes[1] == "set":
        return "shares of equal size are counted once"
    if sizes[0] != "comp":
        return "the sizes are not computed share by share"
    elt, gens, conds = sizes[2], sizes[3], sizes[4]
    if conds != ():
        return "the price leaves out some of the shares"
    stats = [x for g in gens for x in walk(g) if is_call(x, "get_share_stats")]
    if len(gens) != 1 or not stats or strip_list(gens[0]) != stats[0]:
        return "the sizes are not those of all shares of the storage index"
    call = stats[0]
    if call[2][0] != s.original or call[2][1] != p("storage_index"):
        return "the sizes are not those of the requested storage index"
    if elt != ("attr", ("sub", ("elem", gens[0], 0), const(1)), "size"):
        return "the price is not computed from the sizes of the shares"
    sel = call[2][2] if len(call[2]) > 2 else NONE
    if sel == NONE:
        return None
    sel = strip_set(sel)
    if sel[0] != "comp" or sel[4] != () or len(sel[3]) != 1:
        return "the price leaves out some of the shares"
    g = strip_list(sel[3][0])
    if not is_call(g, "get_all_share_paths") or g[2][:2] != (s.original, p("storage_index")):
        return "the sizes are not those of all shares of the storage index"
    if sel[2] != ("sub", ("elem", sel[3][0], 0), const(0)):
        return "the price is not computed for the share numbers which exist"
    return None


def active_lease(t, gen):
    """
    When the term says that the share at the current element of ``gen`` has an
    unexpired lease: the time it is compared with, else None.
    """
    if t[0] != "exists" or len(t[1]) != 1 or len(t[2]) != 1:
        return None
    g, (cond, truth) = t[1][0], t[2][0]
    if not is_call(g, "get_leases"):
        return None
    share = receiver(g)
    if not is_call(share, "get_share_file") or len(share[2]) != 1:
        return None
    e = ("elem", gen, 0)
    path = share[2][0]
    by_number = mentions(path, lambda x: x == ("sub", e, const(0))) and mentions(path, lambda x: x == p("storage_index")) and mentions(path, lambda x: x[0] == "attr" and x[2] == "sharedir")
    if not (by_number or path == ("sub", e, const(1))):
        return None
    expiry = ("elem", g, 0)
    ab = less(cond)
    if ab is not None and truth is True and is_call(ab[1], "get_expiration_time") and receiver(ab[1]) == expiry and not mentions(ab[0], lambda x: x == expiry):
        return ab[0]
    return None
