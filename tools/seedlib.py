"""Helpers to plant a bug in a scratch copy of /repo, confirm it and store it under /verif/seeded (development only; no check uses it)."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd = the repository root
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mplconfig}
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def run_tests(repo):
    e = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/vp/mplconfig")
    x = os.path.join(repo, ".junit.xml")
    subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=repo, env=e,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = os.path.join(repo, ".res.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x])
    r = json.load(open(out))
    os.unlink(x)
    os.unlink(out)
    passed = set(r.get("passed", []))
    return sorted(STABLE - passed)


def demo(repo, d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)


def plant(sid, prop, edits, demo_py, needs, breaks, tests=True):
    """edits: list of (file below src/chainconsumer, old, new)"""
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "demo.py"), "w").write(demo_py)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    scratch = f"/tmp/seed.{sid}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    try:
        r0 = demo(scratch, d)
        for f, old, new in edits:
            p = os.path.join(scratch, "src", "chainconsumer", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        r1 = demo(scratch, d)
        bad = run_tests(scratch) if tests else []
        ok = r0.returncode == 0 and r1.returncode != 0 and not bad
        print(sid, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "lost tests", bad[:3])
        if r0.returncode != 0:
            print(r0.stdout[-800:], r0.stderr[-1500:])
        return ok
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def against(sid, prop):
    """run the check of a property on a scratch copy with the bug"""
    d = os.path.join(V, "seeded", sid)
    scratch = f"/tmp/seedc.{sid}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    try:
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=scratch, check=True)
        r = subprocess.run(["python3", os.path.join(V, "check.py"), prop], env=dict(os.environ, VERIF_REPO=scratch), capture_output=True, text=True)
        tail = [x for x in r.stdout.strip().split("\n")][-4:]
        print(sid, prop, "rc", r.returncode, "|", " || ".join(x[:160] for x in tail))
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    for sid in sys.argv[1:]:
        against(sid, json.load(open(os.path.join(V, "seeded", sid, "meta.json")))["property"])
