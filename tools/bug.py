"""Plant a bug: plant(id, property, [(file, old, new)], demo source, needs, what_it_breaks).

Writes seeded/<id>/ only after confirming in a scratch copy that the package builds, that the demonstration passes without
the change and fails with it, and that the stable tests still pass."""
import json
import os
import shutil
import subprocess
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# cwd is the repository under test; everything the code writes goes to a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d)
cd "$scratch" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" %s "$here/demo.py"
rc=$?
rm -rf "$scratch"
exit $rc
""" % PY
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPYCACHEPREFIX="/nonexistent")


def plant(id, prop, edits, demo, needs, breaks):
    w = tempfile.mkdtemp(prefix="bug")
    try:
        r = w + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        d = w + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        a = subprocess.run([d + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if a.returncode:
            print(id, "DEMO FAILS UNCHANGED", a.stdout[-1500:], a.stderr[-1500:])
            return
        for f, old, new in edits:
            p = r + "/reliabilityassessment/" + f
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(id, "EDIT", f, "matches", s.count(old))
                return
            open(p, "w", newline="").write(s.replace(old, new))
        b = subprocess.run([d + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if b.returncode == 0:
            print(id, "DEMO PASSES WITH THE BUG", b.stdout[-1500:])
            return
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--runslow", "--benchmark-disable", "--timeout=60", "--junitxml=" + w + "/j.xml"], cwd=r, env=ENV, capture_output=True)
        bad = set()
        ok = set()
        for t in ET.parse(w + "/j.xml").getroot().iter("testcase"):
            n = (t.get("classname"), t.get("name"))
            (bad if any(c.tag in ("failure", "error", "skipped") for c in t) else ok).add(n)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [s for s in stable if not any(s.endswith(n) and c.split(".")[-1] in s for c, n in ok)]
        if miss:
            print(id, "TESTS BREAK", miss[:5], len(ok), sorted(bad)[:5])
            return
        o = ROOT + "/seeded/" + id
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True, check=True).stdout
        open(o + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
        print(id, "planted; demo says:", (b.stdout + b.stderr).strip().splitlines()[-1:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
