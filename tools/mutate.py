"""Developer tool: applies the edits of tools/mutants/*.py to scratch copies of the sources and reports what the checks say.

    python3 tools/mutate.py [-v] [names ...]

A mutant is (name, property, edits); property None: the edit keeps the behaviour and all checks have to stay quiet."""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAST = bool(os.environ.get("MUTATE_FAST"))  # bugs are only checked against their own property
JOBS = int(os.environ.get("MUTATE_JOBS", "8"))
W = "/tmp/mutwork%d" % os.getpid()
sys.path.insert(0, HERE)


def load():
    r = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "mutants", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        r += [(os.path.basename(f)[:-3] + "/" + m[0],) + tuple(m[1:]) for m in ns["MUTANTS"]]
    assert len({m[0] for m in r}) == len(r), "names"
    return r


def one(m):
    from sa import registry

    name, prop, edits = m[:3]
    only = m[3] if len(m) > 3 else None
    d = os.path.join(W, name.replace("/", "_"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/openscm", d + "/openscm")
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return name, prop, "EDIT MATCHES %d TIMES: %r" % (t.count(old), old[:50]), ""
        open(p, "w").write(t.replace(old, new))
    hits, errs, text, und = [], [], "", []
    for q in registry.PROPERTIES:
        if only and q not in only or FAST and prop is not None and q != prop:
            continue
        r = subprocess.run([sys.executable, "-m", "sa", q, "--no-evidence", "-v", "--repo", d], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            hits.append(q)
        elif r.returncode:
            errs.append(q)
        elif " 0 undecided" not in r.stdout:
            und.append(q)
        if r.returncode or " 0 undecided" not in r.stdout:
            if prop is None and r.returncode or q == prop:
                text += "\n".join([x[:250] for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][:3]) + "\n"
    shutil.rmtree(d)
    if errs:
        v = "ERROR " + ",".join(errs)
    elif prop is None:
        v = "FALSE ALARM" if hits else "quiet"
    else:
        v = "caught" if prop in hits else "MISSED"
    return name, prop, "%s hits=%s und=%s" % (v, ",".join(hits), ",".join(und)), text


def main():
    v = "-v" in sys.argv
    names = [a for a in sys.argv[1:] if a != "-v"]
    ms = [m for m in load() if not names or any(m[0].startswith(n) or n in m[0] for n in names)]
    cnt = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for name, prop, r, text in ex.map(one, ms):
            k = r.split(" hits")[0]
            cnt[k] = cnt.get(k, 0) + 1
            if k not in ("caught", "quiet") or v:
                print("%-40s %-4s %s" % (name, prop, r), flush=True)
                if text and k not in ("caught", "quiet"):
                    print(text)
    print(cnt)
    shutil.rmtree(W, ignore_errors=True)


main()
