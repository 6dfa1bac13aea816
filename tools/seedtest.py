"""Development helper: confirm planted bugs.   seedtest.py [--no-tests] [--check C01,C02 | --all-checks] ID...

In a scratch copy: the patch applies and the test suite passes. In /repo (undone straight afterwards): the demo
passes without and fails with the patch, and what the named check (default: the one of its property) says.
"""
import json
import os
import subprocess
import sys
import shutil
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- . ")
    sh("git -C /repo clean -fdq -- src binary")


def demo(d):
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = sh(f"PATH=/opt/venv/bin:$PATH timeout 300 bash {t}/d/demo.sh", cwd=REPO)
    shutil.rmtree(t)
    return p


args = sys.argv[1:]
tests = "--no-tests" not in args
checks = None
if "--check" in args:
    i = args.index("--check")
    checks = args[i + 1].split(",")
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")]
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
rows = []
for s in ids:
    d = V / "seeded" / s
    meta = json.loads((d / "meta.json").read_text())
    row = {"id": s}
    if tests:
        t = tempfile.mkdtemp()
        sh(f"cp -a /repo {t}/r")
        p = sh(f"git -C {t}/r apply {d}/patch.diff")
        row["applies"] = p.returncode == 0 or p.stderr
        p = sh(f". /opt/vss/env.sh; cd {t}/r && PYTHONPATH={t}/r/src /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 "
               f"--timeout=300 --ignore=tests/backward_compatibility 2>&1 | tail -15")
        row["tests"] = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr
        if "failed" in row["tests"]:
            print(p.stdout)
        shutil.rmtree(t)
    p = demo(d)
    row["demo_clean"] = p.returncode
    if p.returncode:
        print(p.stdout[-800:], p.stderr[-800:])
    try:
        p = sh(f"git -C /repo apply {d}/patch.diff")
        assert p.returncode == 0, p.stderr
        p = demo(d)
        row["demo_bug"] = p.returncode
        for c in checks or [meta["property"]]:
            p = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {c}", cwd=V)
            row[c] = p.returncode
            out = [x for x in p.stdout.splitlines() if x.strip()]
            row[c + "_first"] = out[0][:230] if out else p.stderr[-300:]
    finally:
        undo()
    print(json.dumps(row), flush=True)
