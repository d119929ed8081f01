"""
What every check shares: running the interpreter, recording which obligations
were discharged and which were not, and reporting.
"""
import ast
import json
import os
import sys
import time
import traceback

from . import remembered
from .interp import Interp, Policy, flat
from .loader import AnalysisBroken, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def load_known(path=KNOWN):
    """
    ``known: property=P21 key=<rule>|<construct> :: description``
    """
    out = {}
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, text = line[len("known:"):].strip().partition(" :: ")
            parts = dict(x.split("=", 1) for x in head.split(" ", 1))
            out[(parts["property"], parts["key"])] = text
    return out


def where_of(loc):
    if not loc:
        return "?"
    if callable(loc):
        loc = loc()
    return loc if isinstance(loc, str) else "%s:%s" % tuple(loc)[:2]


class Finding:
    def __init__(self, rule, construct, loc, msg, path=None):
        self.rule, self.construct, self.loc, self.msg, self.path = rule, construct, loc, msg, path

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def text(self):
        where = where_of(self.loc)
        out = ["%s: [%s] %s: %s" % (where, self.rule, self.construct, self.msg)]
        if self.path is not None:
            out.append("  on the path:")
            out.extend("    " + line for line in describe(self.path))
        return "\n".join(out)


def describe(path, limit=40):
    """The decisions and effects along a path, for a report."""
    out = []
    for e in getattr(path, "events", path):
        if e.kind in ("guard", "raise", "raised", "catch", "await", "setattr", "loop") or e.kind == "call":
            t = repr(e)
            out.append(t if len(t) < 200 else t[:200] + "...")
    if len(out) > limit:
        out = out[: limit // 2] + ["..."] + out[-limit // 2:]
    if hasattr(path, "kind"):
        out.append("=> %s" % path.kind)
    return out


class Ctx:
    def __init__(self, pid, program=None, tier="quick"):
        self.pid = pid
        self.program = program or Program()
        self.tier = tier
        self.rules = {}          # rule -> description
        self.minimum = {}        # rule -> least number of instances
        self.held = {}           # rule -> list of constructs
        self.findings = []
        self.functions = set()
        self.inlined = set()
        self.called = set()
        self.paths = 0
        self.events = 0
        self.notes = []
        self._runs = {}

    # ------------------------------------------------------------- running
    def interp(self, atoms=(), **kw):
        it = Interp(self.program, Policy(atoms=atoms, **kw))
        it.inlined = self.inlined  # also what is run later, by apply
        return it

    def func(self, short):
        return self.program.func(short)

    def run(self, short, atoms=(), args=None, decorated=False, skip=0, **kw):
        """Paths of a function; ``(interp, paths)``."""
        key = (short if isinstance(short, str) else short.qual, tuple(atoms), tuple(sorted((args or {}).items())), decorated, skip, tuple(sorted(kw.items())))
        if key not in self._runs:
            f = self.func(short) if isinstance(short, str) else short
            it = self.interp(atoms, **kw)
            ps = it.run(f, args=args, decorated=decorated, skip=skip)
            self.account(it, f, ps)
            self._runs[key] = (it, ps)
        return self._runs[key]

    def run_model(self, short, models, atoms=(), **kw):
        """Paths of a function which is given functions with the bodies in ``models`` (parameter -> source)."""
        f = self.func(short) if isinstance(short, str) else short
        it = self.interp(atoms, **kw)
        args = {}
        for name, source in models.items():
            node = ast.parse(source).body[0]
            cid = it.fresh()
            it.closures[cid] = (node, f.module, None, None, None, None)
            args[name] = ("clo", cid)
        ps = it.run(f, args=args)
        self.account(it, f, ps)
        return it, ps

    def expression(self, module, node, atoms=(), **kw):
        """The ways to evaluate an expression at the top level of a module or class."""
        it = self.interp(atoms, **kw)
        ps = it.expression(module, node)
        self.account(it, None, ps)
        return ps

    def snippet(self, module, source, atoms=(), **kw):
        """
        Paths of a piece of code of ours, which uses what is defined in a
        module of the repository.
        """
        it = self.interp(atoms, **kw)
        node = ast.parse(source).body[0]
        cid = it.fresh()
        it.closures[cid] = (node, self.program.module(module), None, None, None, None)
        a = node.args
        ps = it.apply(("clo", cid), [("p", x.arg) for x in a.posonlyargs + a.args])
        self.account(it, None, ps)
        return it, ps

    def account(self, it, f, ps):
        if f is not None:
            self.functions.add(f.qual)
        self.paths += len(ps)
        for p in ps:
            for e in flat(p.events):
                self.events += 1
                if e.kind == "call" and hasattr(e.target, "decorators"):
                    self.called.add(e.target.qual)

    # ----------------------------------------------------------- reporting
    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.minimum[name] = minimum
        self.held.setdefault(name, [])

    def ok(self, rule, construct):
        assert rule in self.rules, rule
        if construct not in self.held[rule]:
            self.held[rule].append(construct)

    def bad(self, rule, construct, loc, msg, path=None):
        assert rule in self.rules, rule
        if not any(f.rule == rule and f.construct == construct for f in self.findings):
            self.findings.append(Finding(rule, construct, loc, msg, path))

    def check(self, cond, rule, construct, loc, msg, path=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, loc, msg, path)
        return bool(cond)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)


def stated_by_rule(e):
    """Is this about a construct which a rule looked for and did not find?"""
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.basename(os.path.dirname(tb.tb_frame.f_code.co_filename)) == "rules"


def run_check(pid, module, argv=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in argv:
        tier = "thorough"
    try:
        ctx = Ctx(pid, tier=tier)
        known = load_known()

        def unknown():
            return [f for f in ctx.findings if (pid, f.key) not in known]

        try:
            module.check(ctx)
        except AnalysisBroken as e:
            # What a rule is about is not there: the source has no construct
            # which could provide what the property says.  (Without findings
            # the interpreter's own limits give no answer.)
            if stated_by_rule(e):
                ctx.rule("provided", "there is a construct which provides what the property is about", minimum=0)
                ctx.bad("provided", str(e), "/repo/src/_zkapauthorizer", "no construct was found which provides this")
            elif not unknown():
                raise
            else:
                ctx.note("the analysis ended early: %s" % e)
        else:
            if not unknown():
                for r, n in ctx.minimum.items():
                    total = len(ctx.held[r]) + sum(1 for f in ctx.findings if f.rule == r)
                    if total < n:
                        ctx.bad(r, "number of constructs", "/repo/src/_zkapauthorizer",
                                "%d constructs were found to which this rule applies, there should be at least %d: something which has to provide it is missing (%s)" % (total, n, ctx.rules[r]))
        remembered.check(ctx)
        new = unknown()
        old = [f for f in ctx.findings if (pid, f.key) in known]
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-9:]))
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 2
    EV = os.environ.get("ZKAPSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(EV, exist_ok=True)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo/src/_zkapauthorizer (%d modules parsed): all paths of "
            "the listed entry functions were enumerated by an abstract interpreter which inlines the repository's own helpers, "
            "and each rule below was decided on every path and at every site found. %s" % (len(ctx.program.modules), module.__doc__.strip() if module.__doc__ else ""),
            "rules": {r: {"rule": ctx.rules[r], "instances_holding": ctx.held[r], "instances": len(ctx.held[r]),
                          "violations": [f.text().split("\n")[0] for f in ctx.findings if f.rule == r]} for r in ctx.rules},
            "entry_functions": sorted(ctx.functions),
            "inlined_functions": sorted(ctx.inlined),
            "paths": ctx.paths,
            "events": ctx.events,
            "modules_digest": ctx.program.digest(),
            "notes": ctx.notes,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())) + [
            "Python semantics as modelled by zkapsa/interp.py; code outside the package behaves as its callers here assume",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[(pid, f.key)], f.key))
    total = sum(len(v) for v in ctx.held.values())
    if new:
        report = os.path.join(EV, pid + ".report.txt")
        with open(report, "w") as out:
            out.write("Property %s is violated by the current source.\n\n" % pid)
            for x in new:
                out.write(x.text() + "\n\n")
        for x in new:
            print(x.text().split("\n")[0])
        print("VIOLATION property=%s replay=%s" % (pid, report))
        return 1
    stale = os.path.join(EV, pid + ".report.txt")
    if os.path.exists(stale):
        os.remove(stale)
    print("OK property=%s: %d obligations in %d rules, %d functions, %d paths, %.1fs" % (pid, total, len(ctx.rules), len(ctx.functions) + len(ctx.inlined), ctx.paths, time.time() - t0))
    return 0


def main(argv):
    import importlib
    pid = argv[0]
    module = importlib.import_module("zkapsa.rules." + pid.lower())
    try:
        code = run_check(pid, module, argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
