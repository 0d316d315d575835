#!/opt/venv/bin/python
"""Validate planted bugs (seeded/<id>) in a scratch copy of /repo.

    plant.py [--no-tests] [--check] [ID...]

Per bug: the patch applies to HEAD, touches only non-test sources and changes
lines of the original repository; demo.sh exits 0 without and nonzero with the
patch; the stable tests pass with it; with --check, what the property's check says.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
BASE = "1178c39"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def original_lines(d, patch):
    """Number of removed lines of the patch that blame to the base commit."""
    n = 0
    f = None
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            blame = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], "/repo").stdout.splitlines()
        elif m := re.match(r"@@ -(\d+)", line):
            pos = int(m[1])
        elif line.startswith("-") and not line.startswith("---"):
            n += blame[pos - 1].lstrip("^").startswith(BASE[:6])
            pos += 1
        elif line.startswith(" "):
            pos += 1
    return n


def tests(d):
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="4", PYTHONPATH=f"{d}:/opt/vp/plugins")
    x = os.path.join(d, ".junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-p", "vp_seed", "--timeout=300", "--continue-on-collection-errors",
        "-m", "not inference", "-o", "junit_family=xunit2", f"--junitxml={x}", "skops"], d, env=env)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = os.path.join(d, ".out.json")
    sh(["python3", "/opt/vp/results.py", out, f"junit:{x}"], d)
    res = json.load(open(out))
    passed = set(res["passed"] if isinstance(res.get("passed"), list) else [])
    return sorted(base - passed)


def main():
    a = sys.argv[1:]
    opts = {x for x in a if x.startswith("--")}
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEEDED))
    for i in ids:
        src = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(src, "meta.json")))
        patch = os.path.join(src, "patch.diff")
        d = tempfile.mkdtemp(prefix="skplant-", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            demo = os.path.join(d, ".demo")
            shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            env = dict(os.environ, PYTHONPATH=d)
            good = sh(["bash", os.path.join(demo, "demo.sh")], d, env=env, timeout=300)
            r = sh(["git", "apply", patch], d)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr)
                continue
            bad = sh(["bash", os.path.join(demo, "demo.sh")], d, env=env, timeout=300)
            msg = [f"original-lines={original_lines(d, patch)}", f"demo {good.returncode}/{bad.returncode}"]
            if good.returncode or not bad.returncode:
                msg.append("DEMO-WRONG " + (good.stdout + good.stderr)[-600:])
            else:
                msg.append("[" + ((bad.stderr + bad.stdout).strip().splitlines() or [""])[-1][:110] + "]")
            if "--no-tests" not in opts:
                f = tests(d)
                msg.append(f"tests-broken={len(f)} {f[:3] if f else ''}")
            if "--check" in opts:
                out = sh([PY, "-m", "simskops", "check", meta["property"]], "/verif", env=dict(os.environ, SIMSKOPS_REPO=d))
                v = [l for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
                msg.append({0: "missed", 1: "caught"}.get(out.returncode, f"exit {out.returncode}") + " " + (v[0][-60:] if v else ""))
            print(i, *msg, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
