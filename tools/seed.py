#!/usr/bin/env python3
"""Build a planted bug from a description file and confirm it (a development tool).
seed.py DESC.py [...]: DESC defines id, prop, edits=[(file, old, new)], demo (python text), needs, breaks.
Confirms in a scratch copy: the demo passes unchanged and fails changed, the stable tests still pass, then runs the check."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/vp/cache/mpl", PYTHONHASHSEED="0")


def main(path, notests=False):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(V, "seeded", d["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/demo.py", "w").write(d["demo"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/vp/cache/mpl}"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        c = t + "/repo"
        shutil.copytree("/repo", c, symlinks=True)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=c, env=ENV, capture_output=True, text=True)
        for f, old, new in d["edits"]:
            p = os.path.join(c, f)
            s = open(p).read()
            assert s.count(old) == 1, (d["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", c, "diff"], text=True)
        open(out + "/patch.diff", "w").write(diff)
        # the changed lines are lines of the original repository
        mine = []
        base = "b5cd8f0"
        for f, old, new in d["edits"]:
            s = open("/repo/" + f).read()
            start = s[:s.index(old)].count("\n") + 1
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (start, start + old.rstrip("\n").count("\n")), f], text=True)
            mine += [l for l in bl.splitlines() if not l.startswith("^" + base)]
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=c, env=ENV, capture_output=True, text=True)
        ok = True
        bad = []
        if not notests:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + t + "/j.xml", "tests"], cwd=c, env=dict(ENV, PYTHONPATH=c), capture_output=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", t + "/o.json", "junit:" + t + "/j.xml"], capture_output=True)
            bad = sorted(STABLE - set(json.load(open(t + "/o.json"))["passed"]))
        rc = []
        for p in d.get("checks", d["prop"]).split():
            r = subprocess.run(["python3-vt", V + "/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=c), capture_output=True, text=True)
            rc.append((p, r.returncode, [l.strip()[:110] for l in r.stdout.splitlines() if "violated:" in l][:1]))
        print(d["id"], "demo", r0.returncode, "->", r1.returncode, "| tests broken:", bad, "| not original:", len(mine), "| check:", rc)
        if r0.returncode:
            print(r0.stdout[-300:], r0.stderr[-800:])
        for l in mine:
            print("   ", l[:100])
    finally:
        shutil.rmtree(t, ignore_errors=True)


for a in sys.argv[1:]:
    if a != "--notests":
        main(a, "--notests" in sys.argv)
