#!/usr/bin/env python
"""Sensitivity runs: apply one small edit to a scratch copy of /repo and run a
check against the copy.

    mut.py CHECK FILE OLD NEW [CHECK-ARGS...]      (OLD/NEW: literal text or @file)
    mut.py --patch PATCH CHECK [CHECK-ARGS...]
"""
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"


def text(a):
    return open(a[1:]).read() if a.startswith("@") else a.encode().decode("unicode_escape") if "\\n" in a else a


def main(a):
    d = tempfile.mkdtemp(prefix="skmut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        if a[0] == "--patch":
            subprocess.run(["git", "-C", d, "apply", os.path.abspath(a[1])], check=True)
            pid, rest = a[2], a[3:]
        else:
            pid, f, old, new = a[0], a[1], text(a[2]), text(a[3])
            rest = a[4:]
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{s.count(old)} occurrences of {old!r}")
            open(p, "w").write(s.replace(old, new))
        out = subprocess.run([PY, "-m", "simskops", "check", pid, *rest], cwd="/verif", env=dict(os.environ, SIMSKOPS_REPO=d), capture_output=True, text=True)
        print("\n".join(l[:300] for l in (out.stdout + out.stderr).splitlines() if not l.startswith("KNOWN-FINDING"))[-1500:])
        print("exit", out.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1:])
