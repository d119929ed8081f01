"""
P34: lease maintenance reaches every object below the root.  The traversal is
followed through one arbitrary round of its loop; every way through the round
has to handle the object it took from the work list completely: its storage
index is visited, and its children join the work list unless this directory was
listed before.
"""
from ..interp import flat
from ..loader import AnalysisBroken
from ..match import p
from ..terms import I, contains, fname, is_const, norm, walk

TECHNIQUE = "work-list invariants checked on every path through an arbitrary round of the traversal"
ASSUMPTIONS = [
    "a directory's list() gives all of its children, get_storage_index() is constant for a node and differs between directories",
]
TRAVERSE = "lease_maintenance.visit_storage_indexes"
TAKE = {"pop", "popleft"}
PUT = {"append", "appendleft", "extend", "extendleft", "add", "insert", "put"}
COPY = {"builtins.list", "builtins.tuple", "collections.deque", "builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset", "builtins.iter"}


def method(t):
    return t[1][2] if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "attr" else None


def dotted(t):
    f = t[1]
    if f[0] == "attr" and f[1][0] == "g":
        return f[1][1] + "." + f[2]
    return f[1] if f[0] in ("g", "fn", "cls") else None


def check(ctx):
    ctx.rule("work list", "the traversal starts with all roots, takes one object per round and goes on until nothing is left", minimum=3)
    ctx.rule("visited", "every object with a storage index is visited, files and directories and roots alike, and nothing without one", minimum=2)
    ctx.rule("children", "all children of every directory join the work list, unless the directory was listed before", minimum=2)
    ctx.rule("cycles", "a directory with a storage index is listed once only", minimum=1)
    ctx.rule("collected", "every visited storage index is in the list of those to maintain, once", minimum=1)
    ctx.rule("roots", "each run starts from the roots configured at that time, and a configured root capability is one of them", minimum=4)
    traversal(ctx)
    collected(ctx)
    wiring(ctx)


# -- the traversal ------------------------------------------------------------
def rounds(events):
    """The events before the loop, in each round, split at the 'while' marks."""
    out = [[]]
    for e in events:
        if e.kind == "while":
            out.append([])
        out[-1].append(e)
    return out


def source(t):
    """The collection a copy was made from."""
    while True:
        if t[0] == "call" and t[1][0] == "g" and t[1][1] in COPY and t[2]:
            t = t[2][0]
        elif t[0] == "sub" and t[2][0] == "slice" and all(is_const(x) and x[2] is None for x in t[2][1:]):
            t = t[1]
        elif t[0] == "call" and method(t) == "copy" and not t[2]:
            t = t[1][1]
        elif t[0] == "comp" and t[2][0] == "elem" and not [c for c in t[4] if c]:
            t = t[3][0]
        elif t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "star":
            t = t[1][0][1]
        else:
            return t


def traversal(ctx):
    f = ctx.func(TRAVERSE)
    where = f.loc()
    names = [a.arg for a in f.node.args.args]
    roots, visit = p(names[0]), p(names[1])
    it, ps = ctx.run(f, opaque_containers=True)
    segments = []
    ends = []
    for path in ps:
        rs = rounds(list(path.events))
        if len(rs) == 1:
            continue
        for i, seg in enumerate(rs[1:]):
            last = i == len(rs) - 2
            segments.append((seg, path, last))
        if path.kind in ("return", "raise"):
            ends.append((rs[-1], path))
    if not segments:
        raise AnalysisBroken("the traversal has no loop")

    work = None
    takes = [e for seg, path, last in segments for e in flat(seg) if e.kind == "call" and method(e.a) in TAKE]
    # The work list is what objects are taken from.
    for e in takes:
        work = e.a[1][1]
        break
    if work is None:
        raise AnalysisBroken("the traversal takes nothing from a work list")
    work = norm(work)
    start(ctx, ps, roots, work, where)

    # What is known of an index that is in one of the sets?
    visited_sets, listed_sets = {}, {}
    infos = []
    for seg, path, last in segments:
        info = facts(it, seg, path, work, visit)
        infos.append((info, seg, path, last))
        if info.elem is None:
            continue
        for s, v in info.added:
            if info.si is None or norm(v) != norm(info.si):
                visited_sets[s] = listed_sets[s] = False
                continue
            listed_sets[s] = listed_sets.get(s, True) and (info.listed or info.isdir is False)
            visited_sets[s] = visited_sets.get(s, True) and bool(info.visits)
    none_added = any(info.nonnull is not True for info, seg, path, last in infos for s, v in info.added)

    for info, seg, path, last in infos:
        if info.elem is None:
            if info.actions:
                ctx.bad("work list", "one object per round", info.actions[0].loc, "a round handles an object it did not take from the work list", path)
            if last and path.kind == "return" and not info.exhausted:
                ctx.bad("work list", "until nothing is left", where, "the traversal ends although the work list may not be empty", path)
            continue
        if info.broken:
            ctx.bad("work list", "one object per round", info.broken.loc, "more than one object is taken, or one is left unhandled", path)
            continue
        if last and path.kind == "raise":
            v = path.value
            own = v[0] in ("new", "call")
            if own:
                ctx.bad("visited", "a strange object", where, "the traversal is given up because of one object", path)
            continue
        if last and path.kind == "return" and not info.exhausted:
            ctx.bad("work list", "until nothing is left", where, "the traversal ends although the work list may not be empty", path)
            continue
        # visited
        for e, v in info.visits:
            ok = info.si is not None and norm(v) == norm(info.si) and info.nonnull is True
            ctx.check(ok, "visited", "what is visited", e.loc, "what is visited is not a storage index (or may be none)", path)
        known = [s for s, b in info.member if b]
        if info.nonnull is not False:
            seen = bool(info.visits) or info.nonnull is True and any(visited_sets.get(s) for s in known)
            ctx.check(seen, "visited", "every object", where, "an object with a storage index is not visited", path)
        # children
        impossible = info.nonnull is False and not none_added
        done = info.nonnull is True and any(listed_sets.get(s) for s in known)
        if info.isdir is None and not info.listed and not done:
            ctx.bad("children", "every directory", where, "whether the object is a directory is not looked at", path)
        elif info.isdir and not info.listed:
            ctx.check(bool(known) and (impossible or done), "children", "every directory", where, "a directory which was not listed before is not listed", path)
        elif info.listed:
            ctx.ok("children", "every directory")
            ctx.check(info.all_children, "children", "every child", info.listed[0].loc, "not all children of the directory join the work list", path)
        if info.listed and info.nonnull is not False:
            new = any(b is False and any(s == s2 and norm(v) == norm(info.si) for s2, v in info.added) for s, b in info.member)
            ctx.check(new, "cycles", "listed once", info.listed[0].loc, "the directory may be listed again and again", path)
    ctx.ok("work list", "one object per round")
    if not any(path.kind == "return" for rs, path in ends):
        raise AnalysisBroken("the traversal does not end")
    ctx.ok("work list", "until nothing is left")


class Facts:
    pass


def facts(it, seg, path, work, visit):
    i = Facts()
    i.elem = i.si = i.nonnull = i.isdir = i.broken = None
    i.visits, i.added, i.member, i.listed, i.actions = [], [], [], [], []
    i.all_children = i.exhausted = False
    evs = list(flat(seg))
    for e in evs:
        if e.kind == "call" and method(e.a) in TAKE and norm(e.a[1][1]) == work:
            if i.elem is not None:
                i.broken = e
            i.elem = e.a
    for e in evs:
        if e.kind == "guard":
            t = e.a
            if t[0] == "call" and t[1] == ("g", "builtins.len"):
                t = t[2][0]
            if norm(t) == work and not e.b:
                i.exhausted = True
            if t[0] == "cmp" and t[1] in ("is", "==") and any(is_const(x) and x[2] is None for x in t[2:4]):
                x = t[3] if is_const(t[2]) else t[2]
                if is_index(x, i.elem):
                    i.si, i.nonnull = x, not e.b
            elif is_index(t, i.elem) and e.b:
                i.si, i.nonnull = t, True
            elif t[0] == "cmp" and t[1] == "in":
                if is_index(t[2], i.elem):
                    i.si = t[2] if i.si is None else i.si
                    i.member.append((collection(t[3]), e.b))
            elif t[0] == "call" and (dotted(t) or "").endswith("IDirectoryNode.providedBy") and i.elem is not None and norm(t[2][0]) == norm(i.elem):
                i.isdir = e.b
            elif t[0] == "call" and t[1] == ("g", "builtins.isinstance") and i.elem is not None and norm(t[2][0]) == norm(i.elem):
                i.isdir = e.b
    for e in evs:
        if e.kind != "call":
            continue
        n = method(e.a)
        if e.a[1] == visit:
            i.actions.append(e)
            i.visits.append((e, e.a[2][0] if e.a[2] else ("c", "NoneType", None)))
        elif n == "list" and i.elem is not None and norm(e.a[1][1]) == norm(i.elem):
            i.actions.append(e)
            i.listed.append(e)
        elif n == "add" and norm(e.a[1][1]) != work and e.a[2]:
            i.added.append((collection(e.a[1][1]), e.a[2][0]))
    if i.listed and not any(e.kind == "loopexit" and e.a and children_of(e.a, i.listed[0].a) for e in seg):
        for e in seg:
            if e.kind == "loop" and children_of(e.a, i.listed[0].a) and not e.c:
                subs = [s for s in e.b]
                if subs and all(s.kind == "next" and any(puts_child(x, work) for x in s.events) for s in subs):
                    i.all_children = True
            elif e.kind == "call" and method(e.a) in ("extend", "extendleft") and norm(e.a[1][1]) == work and e.a[2] and all_nodes(e.a[2][0], i.listed[0].a):
                i.all_children = True
    return i


def is_index(t, elem):
    return elem is not None and t[0] == "call" and method(t) == "get_storage_index" and norm(t[1][1]) == norm(elem)


def collection(t):
    """Which set is it?"""
    return t


def children_of(gens, listing):
    return any(contains(g, listing) and not any(x[0] == "call" and method(x) not in ("items", "values", "keys", "list", None) and not contains(listing, x) for x in walk(g) if x and x[0] == "call") and
               not any(x[0] == "slice" for x in walk(g) if x and contains(g, listing) and not contains(listing, x)) for g in gens)


def puts_child(e, work):
    if e.kind != "call" or method(e.a) not in PUT or norm(e.a[1][1]) != work:
        return False
    return True


def all_nodes(t, listing):
    """A value for every child of the listing."""
    if t[0] == "comp":
        return children_of(t[3], listing) and not [c for c in (t[4][1] if t[4] and t[4][0] == "dnf" else t[4]) if c]
    return False


def start(ctx, ps, roots, work, where):
    w = work
    ctx.check(norm(source(w)) == norm(roots), "work list", "all roots", where, "the work list does not start with all roots", ps[0])


# -- what is collected ----------------------------------------------------------
def collected(ctx):
    f = ctx.func("lease_maintenance.iter_storage_indexes")
    given = f.node.args.args[0].arg
    it, ps = ctx.run_model(f, {given: "async def visit_assets(visit):\n    for x in ASSETS:\n        visit(x)\n"})
    for path in ps:
        v = path.value
        ok = path.kind == "return"
        if ok:
            distinct = False
            while v[0] == "call" and v[1][0] == "g" and v[1][1] in COPY | {"builtins.list", "builtins.dict"} and len(v[2]) == 1:
                distinct = distinct or v[1][1] in ("builtins.set", "builtins.frozenset", "builtins.dict")
                v = v[2][0]
            if v[0] == "call" and fname(v[1]) == "builtins.dict.fromkeys":
                distinct = True
                v = v[2][0]
            ok = v[0] == "comp" and (v[1] in ("set", "dict") or distinct) and v[2][0] in ("elem", "kv") and len(v[3]) == 1 and not [c for c in (v[4][1] if v[4] and v[4][0] == "dnf" else v[4]) if c]
            ok = ok and any(x[0] == "unk" for x in walk(v[3][0]))
        ctx.check(ok, "collected", "storage indexes to maintain", f.loc(), "not exactly the storage indexes which were visited", path)
    it, ps = ctx.run(f)
    for path in ps:
        calls = [e.a for e in flat(path.events) if e.kind == "call" and e.a[1] == p(given)]
        awaited = [norm(e.a) for e in flat(path.events) if e.kind == "await"]
        if path.kind == "return":
            ctx.check(len(calls) == 1 and norm(calls[0]) in awaited, "collected", "after the traversal", f.loc(), "the storage indexes are taken before the traversal is complete", path)


# -- where the traversal starts ---------------------------------------------------
def wiring(ctx):
    f = ctx.func("lease_maintenance.visit_storage_indexes_from_root")
    names = [a.arg for a in f.node.args.args]
    it, ps = ctx.run_model(f, {names[0]: "async def visit_assets(visit_all):\n    await visit_all(VISITOR)\n"}, ("lease_maintenance.visit_storage_indexes",))
    get = p(names[1])
    for outer in ps:
        if any(e.kind == "call" and e.a[1] == get for e in flat(outer.events)):
            ctx.bad("roots", "looked up in each run", f.loc(), "the roots are looked up once only", outer)
        for path in it.apply(outer.value, [], outer.st):
            calls = [e for e in flat(path.events) if e.kind == "call"]
            trav = [e for e in calls if (fname(e.a[1]) or "").endswith("visit_storage_indexes")]
            if path.kind != "return":
                continue
            ok = len(trav) == 1 and len(trav[0].a[2]) == 2 and trav[0].a[2][0][0] == "call" and trav[0].a[2][0][1] == get
            ctx.check(ok, "roots", "the traversal of a run", f.loc(), "the run does not traverse what is reachable from the roots", path)
            ok = len(trav) == 1 and any(x[0] == "unk" for x in walk(trav[0].a[2][1]))
            ctx.check(ok, "roots", "the visitor of a run", f.loc(), "what is visited is not passed on", path)
            fresh = ok and any(e.a[1] == get for e in calls)
            ctx.check(fresh, "roots", "looked up in each run", f.loc(), "the roots are not looked up in each run", path)
    f = ctx.func("lease_maintenance.maintain_leases_from_root")
    names = [a.arg for a in f.node.args.args]
    it, ps = ctx.run(f, ("lease_maintenance.visit_storage_indexes_from_root",))
    for path in ps:
        e = [e for e in flat(path.events) if e.kind == "call" and (fname(e.a[1]) or "").endswith("visit_storage_indexes_from_root")]
        good = path.kind == "return" and len(e) == 1 and p(names[0]) in list(e[0].a[2]) + [v for k, v in e[0].a[3]] and norm(path.value) == norm(e[0].a)
        ctx.check(good, "roots", "passed on", f.loc(), "the roots are not passed on", path)
    f = ctx.func("_plugin.get_root_nodes")
    node, config = [p(a.arg) for a in f.node.args.args]
    it, ps = ctx.run(f)
    for path in ps:
        caught = [e for e in path.events if e.kind == "catch"]
        if path.kind == "raise":
            continue
        v = path.value
        if caught:
            ok = all((e.b if isinstance(e.b, str) else str(e.b)).endswith("MissingConfigEntry") for e in caught)
            ctx.check(ok, "roots", "no root", f.loc(), "a root capability which cannot be read counts as none", path)
            continue
        ok = v[0] in ("list", "tuple") and any(x[0] == "call" and method(x) == "create_node_from_uri" and x[1][1] == node and is_rootcap(x[2][0], config) for x in v[1])
        ctx.check(ok, "roots", "the configured root", f.loc(), "the configured root is not among the roots", path)
    f = ctx.func("_plugin._create_maintenance_service")
    it, ps = ctx.run(f, ("lease_maintenance.*", "_plugin.get_root_nodes"))
    for path in ps:
        for e in flat(path.events):
            if e.kind == "call" and (fname(e.a[1]) or "").endswith("maintain_leases_from_root"):
                r = next((v for k, v in e.a[3] if k == names[0]), e.a[2][0] if e.a[2] else None)
                ok = r is not None and any((x[0] == "fn" and x[1].endswith(".get_root_nodes")) for x in walk(r)) or r is not None and r[0] == "clo" and closure_calls(it, path, r, "get_root_nodes")
                ctx.check(ok, "roots", "of the node", e.loc, "the roots are not those of the node's configuration", path)


def closure_calls(it, outer, f, name):
    return all(x.kind != "return" or x.value[0] == "call" and (fname(x.value[1]) or "").endswith(name) for x in it.apply(f, [], outer.st))


def is_rootcap(t, config):
    while t[0] == "call" and method(t) in ("encode", "strip"):
        t = t[1][1]
    return t[0] == "call" and method(t) == "get_private_config" and norm(t[1][1]) == norm(config) and bool(t[2]) and is_const(t[2][0]) and t[2][0][2] == "rootcap"
