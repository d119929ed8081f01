"""mk(id, property, [(file, old, new)...], demo, needs, breaks): writes seeded/<id>."""
import json, os, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 ZKAPAUTHORIZER_HYPOTHESIS_PROFILE=fast
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
export TMPDIR=$work
cd "$work" && timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def mk(i, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in edits:
            p = tmp + "/r/src/_zkapauthorizer/" + f
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
