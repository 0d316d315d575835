"""Campaign runner: seeded search over simulated runs.

One forked child per campaign index (so no run inherits state from another
campaign), at most ``jobs`` children at a time.  Everything a child does is
derived from (property, VERIF_SEED, index).
"""
from __future__ import annotations

import gc
import importlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from .core import REPO, VERIF, HarnessError, Result, digest, jdump, rng_for

LEVEL = "exploration"
perf = time.perf_counter


def load_prop(pid):
    return importlib.import_module(f"simskops.props.{pid.lower()}")


# --------------------------------------------------------------------------
# child side
# --------------------------------------------------------------------------
class _Pipe:
    def __init__(self, fd):
        self.fd = fd

    def send(self, obj):
        data = pickle.dumps(obj, protocol=4)
        data = struct.pack(">I", len(data)) + data
        view = memoryview(data)
        while view:
            n = _oswrite(self.fd, view)
            view = view[n:]


_oswrite = os.write
_osread = os.read
_os_exit = os._exit


def _limits(mod):
    gb = getattr(mod, "MEM_GB", 6)
    resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_one(mod, scen) -> Result:
    """Execute one scenario; harness exceptions propagate."""
    from . import simfs
    simfs.EXHAUSTED = 0
    res = mod.execute(scen)
    if simfs.EXHAUSTED:     # the run was cut short by the simulator: it decides nothing
        res.violations = []
        res.probes["run-cut-short"] += 1
    return res


CAMPAIGN_SOFT = 180     # seconds after which a campaign starts no further run


class _Enough(BaseException):
    pass


def _child(mod, what, pipe):
    """what = ("campaign", seed, index, tier) or ("history", [scen...])."""
    try:
        devnull = os.open("/dev/null", os.O_RDWR)
        os.dup2(devnull, 0)
        if not os.environ.get("SIMSKOPS_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        _limits(mod)
        sys.setrecursionlimit(getattr(mod, "RECURSION", 1000))
        if hasattr(mod, "child_init"):
            mod.child_init()

        t0 = perf()

        def run(scen):
            if what[0] == "campaign" and perf() - t0 > CAMPAIGN_SOFT:
                raise _Enough
            pipe.send(("start", scen))
            r = run_one(mod, scen)
            pipe.send(("done", summarise(r)))
            return r

        if what[0] == "campaign":
            _, seed, index, tier = what
            rng = rng_for(mod.PROPERTY, seed, index)
            try:
                mod.campaign(rng, run, tier, index)
            except _Enough:
                pass
        else:
            for scen in what[1]:
                run(scen)
        pipe.send(("end",))
    except BaseException as e:  # noqa
        try:
            pipe.send(("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
        except BaseException:
            pass
    finally:
        _os_exit(0)


def summarise(r: Result):
    return {
        "violations": r.violations,
        "digest": r.digest(),
        "events": len(r.trace),
        "faults": dict(r.faults),
        "probes": dict(r.probes),
        "states": sorted(r.states),
        "simtime": r.simtime,
        "nontrivial": r.nontrivial,
        "trace_tail": r.trace[-60:] if r.violations else None,
    }


# --------------------------------------------------------------------------
# parent side
# --------------------------------------------------------------------------
class Kid:
    def __init__(self, mod, what, timeout):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            _child(mod, what, _Pipe(w))
            _os_exit(0)
        os.close(w)
        self.pid, self.fd, self.what = pid, r, what
        self.buf = b""
        self.msgs = []
        self.timeout = timeout              # of silence: each run has this long
        self.deadline = perf() + timeout
        self.eof = False
        self.status = None
        self.timed_out = False

    def pump(self):
        chunk = os.read(self.fd, 1 << 20)
        if not chunk:
            self.eof = True
            os.close(self.fd)
            _, self.status = os.waitpid(self.pid, 0)
            try:
                os.killpg(self.pid, signal.SIGKILL)  # stragglers
            except OSError:
                pass
            return
        self.deadline = perf() + self.timeout
        self.buf += chunk
        while len(self.buf) >= 4:
            (n,) = struct.unpack(">I", self.buf[:4])
            if len(self.buf) < 4 + n:
                break
            self.msgs.append(pickle.loads(self.buf[4 : 4 + n]))
            self.buf = self.buf[4 + n :]

    def kill(self):
        self.timed_out = True
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass


def _interpret(kid):
    """-> list of (scenario, summary), harness error text or None.

    A child that died or overran while a run was in flight becomes a summary
    with a 'process-died' / 'hang' violation for that run."""
    runs, cur, harness, ended = [], None, None, False
    for m in kid.msgs:
        if m[0] == "start":
            cur = m[1]
        elif m[0] == "done":
            runs.append((cur, m[1]))
            cur = None
        elif m[0] == "harness":
            harness = m[1]
        elif m[0] == "end":
            ended = True
    if not ended and harness is None:
        sig = os.WTERMSIG(kid.status) if os.WIFSIGNALED(kid.status) else None
        cls = "hang" if kid.timed_out else "process-died"
        if cur is None:
            harness = f"child ended without result (signal {sig}, timeout {kid.timed_out})"
        else:
            runs.append(
                (
                    cur,
                    {
                        "violations": [{"cls": cls, "msg": f"signal={sig} wall-timeout={kid.timed_out}"}],
                        "digest": cls, "events": 0, "faults": {}, "probes": {},
                        "states": [], "simtime": 0.0, "nontrivial": True, "trace_tail": [],
                    },
                )
            )
    return runs, harness


def spawn_and_wait(mod, what, timeout=None):
    kid = Kid(mod, what, timeout or getattr(mod, "RUN_TIMEOUT", 60))
    while not kid.eof:
        left = kid.deadline - perf()
        if left <= 0 and not kid.timed_out:
            kid.kill()
        rl, _, _ = select.select([kid.fd], [], [], max(0.05, min(left, 1.0)))
        if rl:
            kid.pump()
    return _interpret(kid)


def run_batch(mod, seed, tier, indices, jobs, wall_cap):
    """Run campaigns; yields (index, runs, harness)."""
    t0 = perf()
    todo = iter(indices)
    live = {}
    exhausted = False
    timeout = getattr(mod, "CAMPAIGN_TIMEOUT", 120)
    while True:
        while not exhausted and len(live) < jobs:
            if perf() - t0 > wall_cap:
                exhausted = True
                break
            try:
                i = next(todo)
            except StopIteration:
                exhausted = True
                break
            kid = Kid(mod, ("campaign", seed, i, tier), timeout)
            kid.index = i
            live[kid.fd] = kid
        if not live:
            return
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rl:
            kid = live[fd]
            kid.pump()
            if kid.eof:
                del live[fd]
                runs, harness = _interpret(kid)
                stop = yield kid.index, runs, harness
                if stop:
                    for k in live.values():
                        k.kill()
                        k.timed_out = False
                    for k in live.values():
                        while not k.eof:
                            k.pump()
                    return
        now = perf()
        for kid in live.values():
            if now > kid.deadline and not kid.timed_out:
                kid.kill()


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def match_known(mod, known, scen, v):
    for k in known:
        if k["cls"] == v["cls"] and mod.matches_known(k, scen, v):
            return k
    return None


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def still_fails(mod, history, cls, timeout=None):
    runs, harness = spawn_and_wait(mod, ("history", history), timeout)
    if harness or not runs or len(runs) != len(history):
        # (a run that dies is the last of the list)
        if not runs:
            return None
    s = runs[-1][1]
    for v in s["violations"]:
        if v["cls"] == cls:
            return s
    return None


def minimise(mod, history, cls, budget_s=60.0, max_exec=400):
    """Greedy: first drop earlier runs of the same process, then shrink the last."""
    t0, n = perf(), 0
    hist = list(history)

    def ok(h):
        nonlocal n
        n += 1
        return still_fails(mod, h, cls)

    if len(hist) > 1 and ok(hist[-1:]):
        hist = hist[-1:]
    i = 0
    while len(hist) > 1 and i < len(hist) - 1 and perf() - t0 < budget_s / 2:
        cand = hist[:i] + hist[i + 1 :]
        if ok(cand):
            hist = cand
        else:
            i += 1
    progress = True
    while progress and perf() - t0 < budget_s and n < max_exec:
        progress = False
        for cand in mod.shrink(hist[-1]):
            if perf() - t0 > budget_s or n >= max_exec:
                break
            if len(jdump(cand)) >= len(jdump(hist[-1])) and cand != hist[-1]:
                if not getattr(mod, "SHRINK_ANY", False):
                    continue
            if ok(hist[:-1] + [cand]):
                hist = hist[:-1] + [cand]
                progress = True
                break
    return hist, n


def replay_path(pid, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{pid}-{tag}.json")


def do_replay(path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    mod = load_prop(rec["property"])
    runs, harness = spawn_and_wait(mod, ("history", rec["history"]))
    if harness:
        print("HARNESS-ERROR", harness)
        return 2
    s = runs[-1][1]
    same = [v for v in s["violations"] if v["cls"] == rec["cls"]]
    if not quiet:
        for v in s["violations"]:
            print(f"violation class={v['cls']}: {v['msg']}")
        print(f"trace digest {s['digest']} (recorded {rec.get('digest')})")
    if same:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("replay: no violation of the recorded class")
    return 0


# --------------------------------------------------------------------------
def check(pid, tier, seed, jobs=None, runs=None, wall=None):
    t0 = perf()
    mod = load_prop(pid)
    if hasattr(mod, "parent_init"):
        mod.parent_init()
    gc.collect()
    gc.freeze()
    jobs = jobs or int(os.environ.get("SIMSKOPS_JOBS", "0")) or min(8, os.cpu_count() or 1)
    n = runs or mod.CAMPAIGNS[tier]
    wall_cap = wall or mod.WALL.get(tier, 300)
    known = load_known(pid)

    tot = Counter()
    faults, probes = Counter(), Counter()
    states, digests = set(), set()
    simtime = 0.0
    samples = []
    failing = {}          # cls -> (index, history, violation, summary)
    suppressed = Counter()
    harness_errors = []
    unreproduced = []     # deaths and time-outs that did not come back: the machine, not the code
    first_digests = {}

    gen = run_batch(mod, seed, tier, range(n), jobs, wall_cap)
    send = None
    while True:
        try:
            item = gen.send(send) if send is not None else next(gen)
        except StopIteration:
            break
        send = False
        index, rs, harness = item
        tot["campaigns"] += 1
        if harness:
            harness_errors.append((index, harness))
            if len(harness_errors) >= 5:
                send = True
        first_digests[index] = [s["digest"] for _, s in rs]
        history = []
        for scen, s in rs:
            history.append(scen)
            tot["runs"] += 1
            tot["events"] += s["events"]
            faults.update(s["faults"])
            probes.update(s["probes"])
            states.update(s["states"])
            simtime += s["simtime"]
            if s["nontrivial"]:
                digests.add(s["digest"])
            if len(samples) < 4 and s["nontrivial"] and len(jdump(scen)) < 4000:
                samples.append({"index": index, "scenario": scen, "digest": s["digest"]})
            for v in s["violations"]:
                k = match_known(mod, known, scen, v)
                if k:
                    suppressed[k["id"]] += 1
                elif v["cls"] not in failing:
                    failing[v["cls"]] = (index, list(history), v, s)
        # stop the search early once violations were found and some effort spent
        if failing and (len(failing) >= 3 or perf() - t0 > 60):
            send = True
    search_s = perf() - t0

    # -- determinism self-check on a sample of campaigns -------------------
    det = determinism_sample(mod, pid, seed, tier, first_digests, tier == "thorough")

    # -- known findings: still there? --------------------------------------
    known_lines = []
    for k in known:
        s = still_fails(mod, k["history"], k["cls"], k.get("timeout"))
        if s is not None:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            known_lines.append(k["id"])
        else:
            print(f"note: known finding {k['id']} no longer reproduces")

    # -- report ------------------------------------------------------------
    reported = 0
    violations_out = []
    for cls, (index, history, v, s) in sorted(failing.items(), key=lambda kv: len(jdump(kv[1][1]))):
        if reported >= 3:
            break
        confirmed = still_fails(mod, history[-1:], cls)
        hist = history[-1:] if confirmed else history
        if not confirmed:
            confirmed = still_fails(mod, hist, cls)
        if confirmed is None:
            # a hang/death that does not come back is not evidence
            if cls in ("hang", "process-died"):
                unreproduced.append([index, cls, v["msg"]])
            else:
                harness_errors.append((index, f"violation {cls} not reproducible: {v['msg']}"))
            continue
        hist, nex = minimise(mod, hist, cls, budget_s=45 if reported == 0 else 15)
        final = still_fails(mod, hist, cls)
        if final is None:
            hist, final = history, still_fails(mod, history, cls) or s
        fv = [x for x in final["violations"] if x["cls"] == cls]
        fv = fv[0] if fv else v
        # after minimisation it may turn out to be a listed finding
        k = match_known(mod, known, hist[-1], fv)
        if k:
            suppressed[k["id"]] += 1
            continue
        path = replay_path(pid, f"s{seed}-i{index}-{cls}".replace("/", "_").replace(" ", "_")[:80])
        rec = {
            "property": pid, "seed": seed, "index": index, "cls": cls, "msg": fv["msg"],
            "digest": final["digest"], "history": hist, "trace_tail": final.get("trace_tail"),
            "shrink_executions": nex, "repo": REPO,
        }
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run(
            [sys.executable, "-m", "simskops", "replay", path],
            cwd=VERIF, capture_output=True, text=True, timeout=300,
        )
        if p.returncode != 1 and cls in ("hang", "process-died"):
            unreproduced.append([index, cls, fv["msg"]])
            os.unlink(path)
            continue
        rec["fresh_process_replay_exit"] = p.returncode
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print(f"{pid}: {cls}: {fv['msg']}")
        print(f"{pid}: campaign index {index}, seed {seed}, minimised in {nex} executions, "
              f"fresh-process replay exit {p.returncode}")
        print(f"VIOLATION property={pid} replay={path}")
        reported += 1
        violations_out.append({"cls": cls, "replay": path, "fresh_replay_exit": p.returncode})

    wall_s = perf() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples,
            "campaigns": tot["campaigns"], "campaigns_planned": n,
            "simulated_runs_per_hour": int(tot["runs"] / max(search_s, 1e-9) * 3600),
            "campaign_seeds_per_hour": int(tot["campaigns"] / max(search_s, 1e-9) * 3600),
            "simulated_seconds": round(simtime, 3),
            "events": tot["events"],
            "faults_fired": dict(sorted(faults.items())),
            "probes": {**{p: 0 for p in getattr(mod, "PROBES", [])}, **dict(sorted(probes.items()))},
            "distinct_states": len(states),
            "distinct_states_measure": mod.STATE_MEASURE,
            "real_components": mod.REAL, "simulated_components": mod.STUBS,
            "determinism_sample": det,
            "known_findings_reproduced": known_lines,
            "suppressed_as_known": dict(suppressed),
            "reported": violations_out,
            "unreproduced_deaths": unreproduced,
            "harness_errors": [h for _, h in harness_errors][:3],
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    zero = [p for p in getattr(mod, "PROBES", []) if not probes[p]]
    print(f"{pid} {tier}: {tot['runs']} runs in {tot['campaigns']}/{n} campaigns, {len(digests)} distinct, "
          f"{sum(faults.values())} faults fired, {len(states)} states, {wall_s:.1f}s"
          + (f", probes at zero: {zero}" if zero else ""))
    if reported:
        return 1
    if harness_errors:
        for i, h in harness_errors[:3]:
            print(f"HARNESS-ERROR index={i}: {h}", file=sys.stderr)
        return 2
    if tot["campaigns"] < min(n, getattr(mod, "MIN_CAMPAIGNS", 20)):
        print("HARNESS-ERROR: wall cap reached before the minimum number of campaigns", file=sys.stderr)
        return 2
    return 0


def determinism_sample(mod, pid, seed, tier, first, deep):
    """Re-run a sample of the campaigns in a fresh interpreter under another
    PYTHONHASHSEED and compare the event-log digests."""
    idx = sorted(i for i in first if first[i])[: (40 if deep else 8)]
    if not idx:
        return {"campaigns": 0}
    env = dict(os.environ, PYTHONHASHSEED="12345", SIMSKOPS_REEXEC="1")
    try:
        p = subprocess.run(
            [sys.executable, "-m", "simskops", "digests", pid, "--tier", tier, "--seed", str(seed),
             "--indices", ",".join(map(str, idx)), "--jobs", "3"],
            cwd=VERIF, capture_output=True, text=True, timeout=240, env=env,
        )
        other = {int(k): v for k, v in json.loads(p.stdout.splitlines()[-1]).items()}
    except Exception as e:
        return {"campaigns": len(idx), "error": f"{type(e).__name__}: {e}"[:300]}
    bad = [i for i in idx if other.get(i) != first[i]]
    return {"campaigns": len(idx), "runs": sum(len(first[i]) for i in idx),
            "other_hashseed": 12345, "other_jobs": 3, "mismatching_campaigns": bad}


def digests(pid, tier, seed, indices, jobs):
    mod = load_prop(pid)
    if hasattr(mod, "parent_init"):
        mod.parent_init()
    gc.freeze()
    out = {}
    for index, rs, harness in run_batch(mod, seed, tier, indices, jobs, 3600):
        out[index] = [s["digest"] for _, s in rs]
        if harness:
            out[index].append("harness:" + harness[-200:])
    return out
