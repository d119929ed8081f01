#!/usr/bin/env python3
"""
For every repair listed in known_findings.txt: undo it in a scratch clone of
/repo; the check of its property has to report.  With --all, all checks are run.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    bad = 0
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
        if not m:
            continue
        pid, commit, what = m.groups()
        tmp = tempfile.mkdtemp(prefix="fix-")
        try:
            sh("git", "clone", "-q", "/repo", tmp + "/r")
            r = sh("git", "-C", tmp + "/r", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", "--no-commit", commit)
            if r.returncode:
                files = sh("git", "-C", tmp + "/r", "diff", "--name-only", "--diff-filter=U").stdout.split()
                print("%s %s  later repairs touch the same lines (%s)" % (pid, commit, " ".join(files)))
                continue
            env = dict(os.environ, ZKAPSA_REPO=tmp + "/r", ZKAPSA_EVIDENCE=tmp + "/ev")
            c = sh(sys.executable, os.path.join(HERE, "check.py"), pid, env=env)
            ok = c.returncode == 1 and "VIOLATION property=" + pid in c.stdout
            bad += not ok
            print("%s %s  %s  %s" % (pid, commit, "reported" if ok else "NOT REPORTED (%d)" % c.returncode, what[:80]))
        finally:
            shutil.rmtree(tmp)
    sys.exit(1 if bad else 0)


main()
