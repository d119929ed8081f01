"""Writes /verif/MANIFEST.json: one check for every rule module."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    "P40": "Unlinkability is an indistinguishability claim about a probabilistic cryptographic protocol (blinding inside the Ristretto library); no source-level static rule decides it.",
    "P41": "It quantifies over wall-clock durations: sampled intervals, how long runs take, when servers can be reached. No sound static argument bounds these; P36 covers that maintenance keeps being scheduled.",
    "P42": "It is equality of database contents after executing arbitrary recorded statements; the statements are run-time data. The mechanisms are covered by P23-P26.",
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for d in props:
    pid = d["id"]
    if os.path.exists(os.path.join(ROOT, "zkapsa", "rules", pid.lower() + ".py")):
        m = importlib.import_module("zkapsa.rules." + pid.lower())
        doc = " ".join(m.__doc__.split())
        body = doc.split(": ", 1)[1] if doc.startswith(pid + ": ") else doc
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "python3 check.py " + pid + " --thorough",
            "technique": getattr(m, "TECHNIQUE", "static path enumeration and dataflow over the syntax tree"),
            "level": "other",
            "level_note": "Static analysis of the current source, nothing is executed. " + body[0].upper() + body[1:] + " Assumes: " + "; ".join(
                tuple(getattr(m, "ASSUMPTIONS", ())) + ("Python semantics as modelled by zkapsa/interp.py",)) + ".",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check has been finished for this property yet.")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -m compileall -q zkapsa",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are static analyses in Python 3 (standard library only) of /repo/src/_zkapauthorizer as it is on disk. See DESIGN.md.",
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
