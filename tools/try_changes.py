#!/usr/bin/env python3
"""
Test the checks both ways: every entry of changes/*.txt is a textual change to
a scratch copy of the sources.  "break P01" entries must be reported by P01's
check, "keep" entries must leave every check (or the listed ones) quiet.

Entry format:

    === break P01 P02 | _storage_server.py | what it does
    --- old
    ...
    --- new
    ...

Several old/new pairs (optionally preceded by "--- file NAME") may follow.
"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/_zkapauthorizer"


def entries(path):
    cur = None
    for line in open(path):
        if line.startswith("=== "):
            if cur:
                yield cur
            head = [x.strip() for x in line[4:].split("|")]
            kind, *pids = head[0].split()
            cur = {"kind": kind, "pids": pids, "file": head[1], "what": head[2] if len(head) > 2 else "", "edits": []}
            curfile = head[1]
            mode = None
        elif line.startswith("--- file "):
            curfile = line[9:].strip()
        elif line.startswith("--- old"):
            cur["edits"].append([curfile, "", ""])
            mode = 1
        elif line.startswith("--- new"):
            mode = 2
        elif cur is not None and mode is not None:
            cur["edits"][-1][mode] += line
    if cur:
        yield cur


def run(entry, pids):
    tmp = tempfile.mkdtemp(prefix="zkapsa-")
    try:
        dst = os.path.join(tmp, "src", "_zkapauthorizer")
        shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns("tests", "__pycache__"))
        for fn, old, new in entry["edits"]:
            fp = os.path.join(dst, fn)
            s = open(fp).read()
            old, new = old[:-1], new[:-1]
            if s.count(old) < 1:
                return "STALE (text not found in %s: %r)" % (fn, old[:90])
            s = s.replace(old, new, 1)
            try:
                compile(s, fp, "exec")
            except SyntaxError as x:
                return "NOT PYTHON (%s)" % x
            open(fp, "w").write(s)
        out = []
        env = dict(os.environ, ZKAPSA_REPO=tmp, ZKAPSA_EVIDENCE=tmp)
        bad = False
        for pid in pids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid], env=env, capture_output=True, text=True)
            want = entry["kind"] == "break" and pid in entry["pids"]
            got = r.returncode if r.returncode != 1 or "VIOLATION property=" + pid in r.stdout else 99
            if (want and got != 1) or (not want and got not in (0,) and not (entry["kind"] == "break" and got == 1)):
                bad = True
                out.append("%s exit %d %s" % (pid, got, (r.stdout + r.stderr).strip()[-600:]))
            elif want:
                out.append("%s caught: %s" % (pid, r.stdout.split("\n")[0][:160]))
        return ("FAIL " if bad else "ok   ") + "; ".join(out)
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    have = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(os.path.join(HERE, "zkapsa/rules/p[0-9]*.py")))
    only = [a for a in args if a in have]
    filt = [a for a in args if a not in have]
    jobs = []
    for path in sorted(glob.glob(os.path.join(HERE, "tools", "changes", "*.txt"))):
        for e in entries(path):
            if filt and not any(x in e["what"] or x in os.path.basename(path) for x in filt):
                continue
            if e["kind"] == "break":
                pids = [x for x in e["pids"] if not only or x in only]
            else:
                pids = [x for x in (e["pids"] or have) if x in have and (not only or x in only)]
            if pids:
                jobs.append((e, pids))
    bad = 0
    with ThreadPoolExecutor(8) as pool:
        for (e, pids), res in zip(jobs, pool.map(lambda j: run(*j), jobs)):
            if not res.startswith("ok"):
                bad += 1
            if not res.startswith("ok") or "-v" in sys.argv or True:
                print("%-5s %-12s %-60s %s" % (e["kind"], ",".join(e["pids"]), e["what"][:60], res))
    print(len(jobs), "changes,", bad, "unexpected")


main()
