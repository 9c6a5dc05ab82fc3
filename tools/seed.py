"""Developer tool: turns the descriptions in tools/seeds/*.py into confirmed planted bugs in /verif/seeded.

    python3 tools/seed.py [--force] [ids ...]

Every bug is confirmed in a scratch copy which is mounted over /repo in a private mount namespace: the demonstration
passes without and fails with it, and all stable tests pass with it."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "d70df34"
W = "/tmp/seedwork"


def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def original(lines_removed, path):
    """Number of the removed lines which are part of the original repository"""
    r = run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", path]).stdout.splitlines()
    new = set(run(["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"]).stdout.split())
    return sum(1 for n in lines_removed if r[n - 1].split()[0].lstrip("^") not in new and not any(c.startswith(r[n - 1].split()[0].lstrip("^")) for c in new))


def build(s):
    d = os.path.join(W, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = os.path.join(d, "repo")
    run(["cp", "-a", "/repo", repo])
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return s["id"], "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "-C", repo, "diff"]).stdout
    # removed lines
    cnt, path, ln = 0, None, 0
    for x in diff.splitlines():
        if x.startswith("--- a/"):
            path = x[6:]
        elif x.startswith("@@"):
            ln = int(x.split()[1].split(",")[0][1:])
            continue
        elif path and x.startswith("-") and not x.startswith("---"):
            cnt += original([ln], path)
            ln += 1
        elif path and x.startswith(" "):
            ln += 1
    if not cnt and not s.get("insert"):
        return s["id"], "changes no original line"
    out = os.path.join(d, "out")
    os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\n# exit 0: the property holds\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    r = run(["bash", out + "/demo.sh"], cwd="/repo")
    if r.returncode:
        return s["id"], "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
    os.makedirs(d + "/reports")
    os.makedirs(d + "/ipython")
    run(["cp", "-a", "/opt/vp/ipython/.", d + "/ipython"])
    sh = "mount --bind %s /repo && cd /repo && bash %s/demo.sh >%s/demo.log 2>&1; echo demo=$?" % (repo, out, d)
    r = run(["unshare", "-m", "bash", "-c", sh])
    if "demo=0" in r.stdout or "demo=" not in r.stdout:
        return s["id"], "demo passes with the change" + r.stdout
    log = open(d + "/demo.log").read()
    if "AssertionError" not in log:
        return s["id"], "demo fails otherwise:\n" + log[-1500:]
    sh = ("mount --bind %s /repo && mount --bind %s/reports /opt/vp/reports && mount --bind %s/ipython /opt/vp/ipython && sed 's#rm -rf \"$R\"#rm -rf \"$R\"/*#' /opt/vp/test.sh > %s/test.sh "
          "&& bash %s/test.sh %s/res.json > %s/test.log 2>&1") % (repo, d, d, d, d, d, d)
    run(["unshare", "-m", "bash", "-c", sh])
    try:
        res = json.load(open(d + "/res.json"))
    except Exception:
        return s["id"], "tests did not run: " + open(d + "/test.log").read()[-800:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - set(res["passed"])
    if miss:
        return s["id"], "%d tests fail: %s" % (len(miss), sorted(miss)[:5])
    dst = os.path.join(HERE, "seeded", s["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    shutil.rmtree(d, ignore_errors=True)
    return s["id"], "ok"


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    force = "--force" in sys.argv
    seeds = load()
    todo = [s for i, s in seeds.items() if (i in ids if ids else True) and (force or ids or not os.path.exists(os.path.join(HERE, "seeded", i)))]
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for i, r in ex.map(build, todo):
            print("%s: %s" % (i, r), flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
