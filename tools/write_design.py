"""Writes DESIGN.md from tools/design/*.md, the rule modules and the evidence of the last runs (run all checks first)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def read(n):
    return open(os.path.join(ROOT, "tools", "design", n)).read()


def main():
    out = [read("head.md"), "\n## The properties\n\nPer property: what is analysed, the rules, the number of constructs they were decided for on the current tree, and the\nassumptions.  Rules quantify over all paths (inputs, failures, interleavings at suspension points) of the entry functions.\n"]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        pid = d["id"]
        if not os.path.exists(os.path.join(ROOT, "zkapsa", "rules", pid.lower() + ".py")):
            continue
        m = importlib.import_module("zkapsa.rules." + pid.lower())
        e = json.load(open(os.path.join(ROOT, "evidence", pid + ".json")))
        doc = " ".join(m.__doc__.split())
        doc = doc.split(": ", 1)[1] if doc.startswith(pid + ": ") else doc
        c = e["coverage"]
        out.append("\n### %s %s\n\n%s\n\n" % (pid, d["title"], doc[0].upper() + doc[1:]))
        out.append("Entry functions: %s (%d more functions inlined).\n\n" % (
            ", ".join("`%s`" % f.replace("_zkapauthorizer.", "") for f in c["entry_functions"][:12]) + (" and %d more" % (len(c["entry_functions"]) - 12) if len(c["entry_functions"]) > 12 else ""),
            len(c["inlined_functions"])))
        for r, v in sorted(c["rules"].items()):
            out.append("- *%s* (%d): %s.\n" % (r, v["instances"], v["rule"]))
        a = tuple(getattr(m, "ASSUMPTIONS", ()))
        if a:
            out.append("\nAssumes: %s.\n" % "; ".join(a))
    out.append("\n## Planted changes\n\n| planted change | property | needs | caught by |\n|---|---|---|---|\n")
    caught = json.load(open(os.path.join(ROOT, "tools", "design", "caught.json")))
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        out.append("| %s: %s | %s | %s | %s |\n" % (i, meta["what_it_breaks"], meta["property"], meta["needs"], caught.get(i, "?")))
    out.append("\n" + read("tail.md"))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))


main()
