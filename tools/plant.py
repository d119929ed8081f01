#!/usr/bin/env python3
"""
Validate planted changes: plant.py ID... [--no-tests]

In a scratch copy of /repo: the demonstration must pass, the patch must apply
and the result build, the stable tests must pass and the demonstration fail.
Then every check is run on the changed copy and those which report are listed.
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def script(name, copy, tmp):
    s = open("/opt/vp/" + name).read().replace("/repo", copy)
    dst = os.path.join(tmp, name)
    open(dst, "w").write(s)
    return dst


def main(i, tests=True, checks=True):
    d = os.path.join(ROOT, "seeded", i)
    tmp = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(tmp, "repo")
    try:
        sh("cp -a /repo %s" % copy)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        def rundemo():
            return sh("bash %s/demo.sh" % demo, cwd=copy, timeout=300)
        r = rundemo()
        if r.returncode != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (i, (r.stdout + r.stderr)[-1500:])
        r = sh("git -C %s apply %s/patch.diff" % (copy, d))
        if r.returncode:
            return "%s: patch does not apply: %s" % (i, r.stderr)
        r = sh("bash " + script("build.sh", copy, tmp))
        if r.returncode:
            return "%s: build fails: %s" % (i, r.stderr[-800:])
        r = rundemo()
        if r.returncode == 0:
            return "%s: demo passes with the patch" % i
        out = ["%s: demo %s" % (i, (r.stdout + r.stderr).strip().split("\n")[-1][:200])]
        if tests:
            res = os.path.join(tmp, "out.json")
            s = open("/opt/vp/test.sh").read().replace("/repo", copy)
            rm = script("run_module.py", copy, tmp)
            s = s.replace("/opt/vp/run_module.py", rm)
            open(os.path.join(tmp, "test.sh"), "w").write(s)
            sh("bash %s/test.sh %s" % (tmp, res))
            got = json.load(open(res))
            base = json.load(open("/opt/vp/BASELINE.json"))
            def names(x):
                for k in ("passed", "stable", "pass", "tests"):
                    if isinstance(x, dict) and k in x:
                        return set(x[k])
                raise Exception(list(x)[:5])
            missing = names(base) - names(got)
            out.append("tests: %s" % ("ok" if not missing else "FAIL %s" % sorted(missing)[:5]))
        if checks:
            pid = json.load(open(os.path.join(d, "meta.json")))["property"]
            ids = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, "zkapsa", "rules"))) if re.match(r"p\d\d\.py$", f)]
            caught = []
            env = dict(os.environ, ZKAPSA_REPO=copy, ZKAPSA_EVIDENCE=tmp)
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                for c, r in zip(ids, ex.map(lambda c: sh("python3 check.py " + c, cwd=ROOT, env=env), ids)):
                    if r.returncode == 1:
                        caught.append(c)
                    elif r.returncode:
                        caught.append(c + "(exit %d)" % r.returncode)
            table = os.path.join(ROOT, "tools", "design", "caught.json")
            known = json.load(open(table)) if os.path.exists(table) else {}
            known[i] = ", ".join(caught) or "none"
            json.dump(known, open(table, "w"), indent=1, sort_keys=True)
            out.append(("CAUGHT by " if pid in caught else "MISSED (%s); reported by " % pid) + ", ".join(caught))
        return "\n   ".join(out)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        print(main(i, "--no-tests" not in sys.argv), flush=True)
