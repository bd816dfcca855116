#!/usr/bin/env python3
"""Planted bugs (development aid, no check uses it).

plant.py make SPEC.py      SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
plant.py check [-p PID] ID...   runs the checks of the bug's property (or PID) against a patched copy of /repo
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
STABLE = None


def env(copy):
    e = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HF_HUB_OFFLINE="1", JAX_PLATFORMS="cpu", LANG="C.UTF-8",
             VERIF_REPO=copy)
    return e


def copy_repo():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    c = os.path.join(d, "repo")
    shutil.copytree("/repo", c, symlinks=True)
    return d, c


def tests(copy):
    x = os.path.join(os.path.dirname(copy), "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--junitxml=" + x,
                    "tests/core", "tests/numba", "tests/stopwords"], cwd=copy, env=env(copy), capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(x).iter("testcase"):
        if not list(tc.iter("failure")) and not list(tc.iter("error")) and not list(tc.iter("skipped")):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    return ok


def demo(copy, d):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env(copy), capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def make_one(b):
    root, c = copy_repo()
    try:
        d = os.path.join(root, b["id"])
        os.makedirs(d)
        for f, old, new in b["edits"]:
            p = os.path.join(c, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return "%s: %d matches of %r in %s" % (b["id"], s.count(old), old[:60], f)
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=c, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DISABLE_TQDM=1 JAX_PLATFORMS=cpu HF_HUB_OFFLINE=1\n'
            'PY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = demo(c, d)
        if rc == 0:
            return "%s: demo passes with the bug: %s" % (b["id"], out)
        ok = tests(c)
        if not STABLE <= ok:
            return "%s: tests notice: %s" % (b["id"], sorted(STABLE - ok)[:4])
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=c)
        rc2, out2 = demo(c, d)
        if rc2 != 0:
            return "%s: demo fails without the bug: %s" % (b["id"], out2)
        dest = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        return "%s: kept (demo: %s)" % (b["id"], out.strip().splitlines()[-1][:150] if out.strip() else rc)
    finally:
        shutil.rmtree(root)


def check_one(i, pid=None, extra=()):
    d = os.path.join(SEEDED, i)
    pid = pid or json.load(open(os.path.join(d, "meta.json")))["property"]
    root, c = copy_repo()
    try:
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=c, capture_output=True, text=True)
        if p.returncode:
            return "%s: does not apply" % i
        v = os.path.join(root, "verif")
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        p = subprocess.run([sys.executable, "run.py", pid, *extra], cwd=v, env=dict(env(c), PYTHONPATH=""), capture_output=True, text=True)
        m = re.search("^VIOLATION property=%s .*" % pid, p.stdout, re.M)
        return "%-12s %s rc=%d %s %s" % (i, pid, p.returncode, "CAUGHT" if m and p.returncode == 1 else "MISSED", " | ".join(
            l[:160] for l in (p.stdout + p.stderr).splitlines() if not l.startswith("VIOLATION"))[-220:])
    finally:
        shutil.rmtree(root)


def main():
    global STABLE
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2], encoding="utf-8").read(), ns)
        bugs = [b for b in ns["BUGS"] if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        root, c = copy_repo()
        STABLE = tests(c)
        shutil.rmtree(root)
        print(len(STABLE), "stable tests")
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make_one, bugs):
                print(r, flush=True)
    else:
        a = sys.argv[2:]
        pid = None
        if a[0] == "-p":
            pid, a = a[1], a[2:]
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda i: check_one(i, pid), a):
                print(r, flush=True)


if __name__ == "__main__":
    main()
