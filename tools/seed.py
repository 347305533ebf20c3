#!/usr/bin/env python3
"""Planted bugs: make one from a replacement, confirm it, run checks against it (all in a scratch copy of /repo).

seed.py make ID PROPERTY FILE NEEDS BREAKS [--add]   (old text on stdin, a line '=====', new text)
seed.py confirm ID [CHECK...]                (stable Python tests, demo both ways, the checks; `-` for no check)
seed.py all                                  (confirm every planted bug)"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
R = "/tmp/seedrepo"
IGN = ["algorithms", "apps", "branching", "heuristic", "lab", "logger"]


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def fresh():
    if not pathlib.Path(R).exists():
        sh("cp", "-a", "/repo", R)
    head = sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    if sh("git", "-C", R, "rev-parse", "HEAD").stdout.strip() != head:
        shutil.rmtree(R)
        sh("cp", "-a", "/repo", R)
    sh("git", "-C", R, "checkout", "--", ".")


def make(i, prop, file, needs, breaks):
    old, new = sys.stdin.read().split("\n=====\n")
    new = new.rstrip("\n") if not old.endswith("\n") else new
    fresh()
    d = V / "seeded" / i
    d.mkdir(parents=True, exist_ok=True)
    if (d / "patch.diff").exists() and "--add" in sys.argv:
        sh("git", "-C", R, "apply", str(d / "patch.diff"))
    p = pathlib.Path(R) / file
    t = p.read_text()
    assert t.count(old) == 1, f"{t.count(old)} matches"
    p.write_text(t.replace(old, new))
    (d / "patch.diff").write_text(sh("git", "-C", R, "diff").stdout)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if not (d / "demo.sh").exists():
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')


def demo(d):
    return sh("bash", str(d / "demo.sh"), cwd=R, timeout=300)


def confirm(i, checks):
    d = V / "seeded" / i
    m = json.loads((d / "meta.json").read_text())
    fresh()
    r0 = demo(d)
    a = sh("git", "-C", R, "apply", str(d / "patch.diff"))
    assert a.returncode == 0, a.stderr
    r1 = demo(d)
    t = sh("/opt/vp/venv/bin/python", "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", *(f"--ignore=tests/test_{x}.py" for x in IGN),
           cwd=R, env=dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1"))
    res = {}
    for c in checks or [m["property"]]:
        if c != "-":
            x = sh(sys.executable, str(V / "check.py"), c, env=dict(os.environ, VP_REPO=R))
            res[c] = (x.returncode, [l for l in (x.stdout + x.stderr).splitlines()][-6:])
    print(i, "tests:", t.stdout.strip().splitlines()[-1], "| demo clean", r0.returncode, "patched", r1.returncode)
    if r0.returncode:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
    else:
        print("   ", (r1.stdout + r1.stderr)[-300:].replace("\n", "\n    "))
    for c, (rc, tail) in res.items():
        print("   check", c, "CAUGHT" if rc == 1 else f"rc={rc}", *(tail if rc != 1 else tail[:2]), sep="\n      ")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(*sys.argv[2:7])
    elif sys.argv[1] == "all":
        for x in sorted(p.name for p in (V / "seeded").iterdir()):
            confirm(x, sys.argv[2:])
    else:
        confirm(sys.argv[2], sys.argv[3:])
