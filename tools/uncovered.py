"""Which functions of the package does no check look at?  Reads the evidence."""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from zkapsa.loader import Program  # noqa: E402

seen = set()
for f in glob.glob(os.path.join(os.path.dirname(__file__), "..", "evidence", "*.json")):
    c = json.load(open(f))["coverage"]
    if len(c.get("entry_functions", ())) > 150:
        continue  # a rule about all of the package
    for k, v in c.items():
        if k.endswith("functions") and isinstance(v, list):
            seen.update(v)
program = Program(os.environ.get("ZKAPSA_REPO", "/repo"))
for q, f in sorted(program.functions.items()):
    if ".tests." not in q and q not in seen:
        print("%5d lines  %s" % (f.node.end_lineno - f.node.lineno + 1, q))
