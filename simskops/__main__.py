from __future__ import annotations

import os
import sys

# one deterministic interpreter configuration for every run
if os.environ.get("SIMSKOPS_REEXEC") != "1":
    env = dict(os.environ)
    env.update(
        SIMSKOPS_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore", PYTHONUTF8="1", TZ="UTC",
    )
    env.pop("PYTHONPATH", None)
    os.execve(sys.executable, [sys.executable, "-m", "simskops", *sys.argv[1:]], env)

sys.dont_write_bytecode = True
import argparse  # noqa: E402
import json  # noqa: E402
import tempfile  # noqa: E402

from .core import REPO  # noqa: E402

sys.path.insert(0, REPO)


def _private_tmp():
    """Everything the checks write lives under one scratch root, removed at exit."""
    import atexit
    import shutil

    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    root = tempfile.mkdtemp(prefix="simskops-", dir=base)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(root, ignore_errors=True)

    atexit.register(clean)
    os.environ["SIMSKOPS_SCRATCH"] = root
    return root


def main(argv=None):
    ap = argparse.ArgumentParser(prog="simskops")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    c.add_argument("--wall", type=float)
    c.add_argument("--jobs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    d = sub.add_parser("digests")
    d.add_argument("property")
    d.add_argument("--tier", default="quick")
    d.add_argument("--seed", type=int, default=1)
    d.add_argument("--indices", required=True)
    d.add_argument("--jobs", type=int, default=8)
    t = sub.add_parser("determinism", help="many seeds, several worker counts and hash seeds")
    t.add_argument("property")
    t.add_argument("--campaigns", type=int, default=40)
    t.add_argument("--seeds", default="1,2,3")
    sub.add_parser("selftest")
    a = ap.parse_args(argv)

    _private_tmp()
    import skops
    got = os.path.realpath(os.path.dirname(os.path.dirname(skops.__file__)))
    if got != os.path.realpath(REPO):
        print(f"HARNESS-ERROR: skops imported from {got}, wanted {REPO}", file=sys.stderr)
        return 2
    from . import runner

    if a.cmd == "check":
        return runner.check(a.property, a.tier, a.seed, a.jobs, a.runs, a.wall)
    if a.cmd == "replay":
        return runner.do_replay(a.file)
    if a.cmd == "selftest":
        from . import selftest
        return selftest.main()
    if a.cmd == "digests":
        idx = [int(x) for x in a.indices.split(",")]
        out = runner.digests(a.property, a.tier, a.seed, idx, a.jobs)
        print(json.dumps(out))
        return 0
    if a.cmd == "determinism":
        import subprocess
        bad = total = 0
        for seed in a.seeds.split(","):
            outs = []
            for hs, jobs in (("0", 8), ("0", 2), ("77", 5), ("random", 8)):
                env = dict(os.environ, PYTHONHASHSEED=hs, SIMSKOPS_REEXEC="1")
                p = subprocess.run(
                    [sys.executable, "-m", "simskops", "digests", a.property, "--seed", seed, "--jobs", str(jobs),
                     "--indices", ",".join(map(str, range(a.campaigns)))],
                    capture_output=True, text=True, env=env)
                outs.append(json.loads(p.stdout.splitlines()[-1]))
            for i in outs[0]:
                total += 1
                if any(o[i] != outs[0][i] for o in outs[1:]):
                    bad += 1
                    print("MISMATCH seed", seed, "campaign", i, [o[i][:3] for o in outs])
        print(f"{a.property}: {total} campaigns x4 configurations, {bad} mismatches")
        return 0 if not bad else 3


if __name__ == "__main__":
    sys.exit(main())
