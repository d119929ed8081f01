#!/usr/bin/env python3
"""Write down what the released schema versions are (run once, on the pinned commit)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from zkapsa.framework import Ctx
from zkapsa.rules import p22
from zkapsa import sqlread

ctx = Ctx("P22")
it, paths = ctx.run("model.initialize_database", p22.CURSOR)
steps = p22.read_mapping(ctx, p22.find_mapping(paths))
schema = {"version": {"version": "num"}}
out = {}
for v in sorted(steps):
    data = []
    for text in steps[v]:
        assert p22.step(schema, sqlread.read(text), data) is None
    out[v + 1] = p22.signature(schema, data)
json.dump(out, open(p22.RELEASED, "w"), indent=1, sort_keys=True)
