#!/opt/venv/bin/python
"""Sensitivity runs over the catalogue of small edits in tools/mutants.d/*.py.

    mutants.py [-c C20[,C05]] [-j JOBS] [NAME...]      run (by check, by name)

A catalogue file defines MUTANTS = {name: (check, [(file, old, new), ...])}.
Each mutant is applied to a scratch copy of /repo and the check is run on it
(quick tier, seed 1, unless ARGS in the environment says otherwise).
"""
import argparse
import glob
import os
import re
import runpy
import shutil
import subprocess
import tempfile
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def catalogue():
    res = {}
    for f in sorted(glob.glob(os.path.join(HERE, "mutants.d", "*.py"))):
        res.update(runpy.run_path(f)["MUTANTS"])
    return res


def run(name, check, edits, args):
    d = tempfile.mkdtemp(prefix="skmut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"BAD-EDIT ({s.count(old)} occurrences in {f})", 0
            open(p, "w").write(s.replace(old, new))
        t = time.time()
        out = subprocess.run(
            [PY, "-m", "simskops", "check", check, *args],
            cwd="/verif", env=dict(os.environ, SIMSKOPS_REPO=d), capture_output=True, text=True,
        )
        v = [l for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
        text = {0: "missed", 1: "caught"}.get(out.returncode, f"exit {out.returncode}")
        if out.returncode not in (0, 1):
            print(out.stderr[-1500:])
        why = ""
        if v:
            m = re.search(r"replay=(\S+)", v[0])
            why = os.path.basename(m.group(1)) if m else v[0][:100]
            if m and os.path.exists(m.group(1)):
                os.unlink(m.group(1))
        return f"{text} {why}", time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-c", default="")
    ap.add_argument("-a", default="", help="more arguments of the check")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    checks = [c for c in a.c.split(",") if c]
    for name, (check, edits) in catalogue().items():
        if (checks and check not in checks) or (a.names and name not in a.names):
            continue
        res, t = run(name, check, edits, a.a.split())
        print(f"{check} {name:34s} {t:6.0f}s {res}", flush=True)


main()
