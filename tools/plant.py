"""plant.py ID PROPERTY: builds seeded/ID from a spec file (python) given on stdin:
edits = [(file, old, new)], demo = C++ text, needs, breaks.  Confirms the bug in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s-I"$PWD" "$d/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
"""


def run(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)


def plant(id, prop, edits, demo, needs, breaks, flags=""):
    t = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        R = os.path.join(t, "repo")
        run(["git", "clone", "-q", "/repo", R])
        out = os.path.join(V, "seeded", id)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.cpp"), "w") as f:
            f.write(demo)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO % (flags + " " if flags else ""))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r0 = run(["bash", os.path.join(out, "demo.sh")], R)
        for file, old, new in edits:
            p = os.path.join(R, file)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT", s.count(old), "times:", old[:60])
                shutil.rmtree(out)
                return False
            open(p, "w").write(s.replace(old, new))
        d = run(["git", "diff"], R).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        r1 = run(["bash", os.path.join(out, "demo.sh")], R)
        ok, info = tests(R)
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and ok
        # 2 is used for a compile error
        print(id, "unchanged", r0.returncode, "patched", r1.returncode, "tests", info, "KEEP" if good else "DROP", (r0.stderr + r0.stdout)[-300:] if r0.returncode else "", r1.stderr[-200:] if r1.returncode == 2 else "")
        if not good:
            shutil.rmtree(out)
            return False
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return True
    finally:
        shutil.rmtree(t, ignore_errors=True)


def tests(R):
    W = os.path.join(os.path.dirname(R), "vp")
    shutil.copytree("/opt/vp", W)
    for d, _, fs in os.walk(W):
        for f in fs:
            p = os.path.join(d, f)
            try:
                x = open(p).read()
            except UnicodeDecodeError:
                continue
            open(p, "w").write(x.replace("/repo", R).replace("/opt/vp", W))
    r = run(["bash", os.path.join(W, "build.sh")])
    if r.returncode:
        return False, "build failed " + (r.stdout + r.stderr)[-400:]
    r = run(["bash", os.path.join(W, "test.sh"), os.path.join(W, "o.json")])
    t = r.stdout.strip().splitlines()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open(os.path.join(W, "o.json")))["passed"])
    return base <= passed, "ok" if base <= passed else "FAIL " + ",".join(sorted(base - passed))[:200]
