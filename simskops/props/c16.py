"""C16 - `skops update` as a process on the simulated disk.

A run = one update process (plus, after a crash, its restart).  The destination
is observed after every file-system event and after every partial effect of
one, so each run checks all the instants its schedule passes through, not only
the instant of the injected crash.
"""
from __future__ import annotations

import os
import random

from .. import archive, values as V
from ..cliproc import run_cli
from ..core import Result, digest, jdump
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimDisk, peek, poke

PROPERTY = "C16"
CAMPAIGNS = {"quick": 1800, "thorough": 9000}
WALL = {"quick": 240, "thorough": 3000}
RUN_TIMEOUT = 90
CAMPAIGN_TIMEOUT = 300
RULE = ("campaign = random object x protocol x destination form x inplace x mount layout x I/O knobs, run once "
        "fault-free and then re-run with seeded crash/torn/short/errno/interrupt faults placed at events of the "
        "fault-free trace; non-trivial = the update reached the writing phase or had to refuse; distinct by event-log digest")
STATE_MEASURE = "distinct (event-kind prefix up to the fault, fault kind, outcome, destination state) tuples"
REAL = ["skops.cli.entrypoint/_update", "skops.io dump/load/get_untrusted_types", "zipfile", "shutil", "tempfile", "pathlib"]
STUBS = ["disk (SimRaw + wrapped os.*): crash, torn/short writes, errno, EXDEV mounts", "id()", "uuid4", "time.time",
         "tempfile names"]
ASSUMPTIONS = [
    "the destination's parent directory exists and is a directory; destination is not a symlink or directory",
    "process death only: data handed to the kernel survives (no power-loss model, no fsync demanded)",
    "temporary files may remain after a crash, and where the injected error hit the clean-up call itself",
    "output naming the input without --inplace: old or complete new content are both accepted",
]
PROBES = ["wrote", "refused-both", "current-untouched", "newer-untouched", "no-dest", "crash-restart",
          "error-in-write-phase", "dest-existed", "inplace", "nested-relative", "same-as-input", "double-fault"]
MUTATING = {"open-w", "write", "close", "rename", "replace", "unlink", "remove", "mkdir", "rmdir", "truncate", "link",
            "fsync", "ftruncate", "utime", "chmod", "fchmod", "symlink"}


def parent_init():
    import sklearn.linear_model  # noqa
    import skops.cli.entrypoint  # noqa
    import scipy.special  # noqa


child_init = lambda: setattr(V, "SEED_SEQ", False)  # noqa


# ------------------------------------------------------------------ scenario
def gen(rng):
    from skops.io._protocol import PROTOCOL as P
    form = rng.choice(["none", "bare", "nested", "nested", "dot", "parent", "abs", "abs", "abswork", "same", "sameabs"])
    inplace = rng.random() < 0.3
    if inplace and rng.random() < 0.75:
        form = "none"
    proto = rng.choice([0, 1, 0, 1, 0, 1, P, P + 1] if P >= 2 else [P, P + 1])
    mounts = rng.choice([{}, {}, {"tmp": 1}, {"tmp": 1}, {"data": 2}, {"data": 2, "tmp": 1}, {"work/od": 3, "tmp": 1}])
    fam = "plain" if rng.random() < 0.3 else "all"
    spec = V.g_value(rng, rng.choice([1, 2, 3]), fam)
    if rng.random() < 0.1:
        spec = ["array", "f8", [rng.choice([3000, 30000])], "C", rng.getrandbits(20)]
    return {
        "value": spec, "protocol": proto,
        "input": rng.choice(["model.skops", "./model.skops", "sub/model.skops", "ABS:data/model.skops", "noext", "ABS:work/m v1.skops"]),
        "form": form, "inplace": inplace, "name": rng.choice(["out.skops", "out", "new model.skops", "é.skops", "out.tmp", "model.tmp"]),
        "dest": rng.choice([None, None, "garbage", "archive", "empty"]),
        "verbose": rng.choice([0, 0, 1, 2]),
        "longopt": rng.random() < 0.5,
        "mounts": mounts,
        "bufsize": rng.choice([None, None, 16, 512, 4096]),
        "short": rng.getrandbits(20) if rng.random() < 0.35 else None,
        "clock": rng.choice([1.7e9, 4.0e8, 4.2e9]),
        "faults": [], "refaults": [],
    }


FAULTS = ["crash", "crash", "crash_after", "torn", "torn", "EIO", "ENOSPC", "ENOSPC", "EACCES", "intr", "short"]


def campaign(rng, run, tier, index):
    scen = gen(rng)
    r = run(scen)
    ev = r.extra.get("ops", [])
    if not ev:
        return
    mut = [n for n, op in ev if op in MUTATING]
    reads = [n for n, op in ev if op not in MUTATING]
    k = 14 if tier == "quick" else 30
    for _ in range(k):
        if mut and rng.random() < 0.85:
            # bias to the last mutating events: the window between temp file and destination
            at = rng.choice(mut[-6:]) if rng.random() < 0.5 else rng.choice(mut)
        elif reads:
            at = rng.choice(reads)
        elif mut:
            at = rng.choice(mut)
        else:
            return
        f = {"at": at, "kind": rng.choice(FAULTS), "frac": rng.choice([0.0, 0.01, 0.3, 0.5, 0.9, 0.999])}
        if dict(ev).get(at) in ("read", "open-r", "rmdir", "unlink", "close") and f["kind"] == "ENOSPC":
            f["kind"] = "EIO"
        s = dict(scen, faults=[f], refaults=[])
        if rng.random() < 0.2 and mut:
            s["faults"] = [f, {"at": at + rng.randint(1, 5), "kind": rng.choice(FAULTS), "frac": 0.5}]
        if f["kind"] in ("crash", "crash_after", "torn") and rng.random() < 0.25:
            s["refaults"] = [{"at": rng.choice(mut or [at]), "kind": rng.choice(["crash", "torn", "EIO"]), "frac": 0.5}]
        run(s)


def shrink(s):
    for key, val in (("refaults", []), ("short", None), ("bufsize", None), ("dest", None), ("mounts", {}), ("verbose", 0),
                     ("input", "model.skops"), ("name", "out.skops"), ("clock", 1.7e9), ("longopt", False)):
        if s[key] != val:
            yield dict(s, **{key: val})
    for i in range(len(s["faults"])):
        yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    for c in V.shrink_spec(s["value"]):
        yield dict(s, value=c)
    for i, f in enumerate(s["faults"]):
        if f["at"] > 9:
            yield dict(s, faults=s["faults"][:i] + [dict(f, at=f["at"] // 2)] + s["faults"][i + 1:])


def matches_known(k, scen, v):
    return False


# ------------------------------------------------------------------- execute
_old_cache = {}


def make_input(scen):
    """bytes of the input archive and the object it stands for"""
    from skops.io import dumps, get_untrusted_types, loads
    from skops.io._protocol import PROTOCOL as P
    obj = V.build(scen["value"])
    data = dumps(obj)
    data, proto = archive.set_protocol(data, scen["protocol"], P)
    ref = loads(data, trusted=get_untrusted_types(data=data))
    return data, proto, ref


def execute(scen):
    res = Result()
    r1, r2, r3 = (random.Random(f"{digest(scen['value'])}{i}") for i in range(3))
    with Scratch() as sc:
        clock = Clock(scen["clock"])
        with Seams(Allocator(r1), r2, clock):
            try:
                data, proto, ref = make_input(scen)
            except Exception as e:
                # not a dumpable/loadable object on this tree (C05's business)
                res.nontrivial = False
                res.ev("unusable-object", type(e).__name__)
                return res
            simulate(scen, res, sc, data, proto, ref, r3)
        res.simtime = clock.elapsed
    return res


def simulate(scen, res, sc, data, proto, ref, r3):
    from skops.io import get_untrusted_types, loads
    from skops.io._protocol import PROTOCOL as P
    top = sc.top
    for d in ("work/sub", "work/od", "work/od/deep", "data/out"):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    inp = scen["input"]
    inp_arg = os.path.join(top, inp[4:]) if inp.startswith("ABS:") else inp
    inp_abs = os.path.normpath(os.path.join(top, "work", inp_arg))
    name = scen["name"]
    form = scen["form"]
    out_arg = {
        "none": None, "bare": name, "nested": os.path.join("od", "deep", name), "dot": os.path.join(".", "od", name),
        "parent": os.path.join("..", "data", "out", name), "abs": os.path.join(top, "data", "out", name),
        "abswork": os.path.join(top, "work", name), "same": inp_arg, "sameabs": inp_abs,
    }[form]
    poke(inp_abs, data)
    poke(os.path.join(top, "work", "bystander.txt"), b"do not touch")
    poke(os.path.join(top, "tmp", "other.tmp"), b"other process")
    dest_abs = None
    if scen["inplace"] and out_arg is None:
        dest_abs = inp_abs
    elif out_arg is not None:
        dest_abs = os.path.normpath(os.path.join(top, "work", out_arg))
    same = dest_abs == inp_abs
    if dest_abs and not same and scen["dest"]:
        poke(dest_abs, {"garbage": b"previous content " * 50, "archive": data[:-1] + b"x", "empty": b""}[scen["dest"]])
        res.probes["dest-existed"] += 1
    argv = ["update", inp_arg]
    if out_arg is not None:
        argv += ["--output-file" if scen["longopt"] else "-o", out_arg]
    if scen["inplace"]:
        argv.append("--inplace")
    argv += ["-v"] * scen["verbose"]

    both = scen["inplace"] and out_arg is not None
    writes = dest_abs is not None and not both and proto < P
    if form in ("nested", "dot", "parent"):
        res.probes["nested-relative"] += 1
    if scen["inplace"]:
        res.probes["inplace"] += 1

    disk = SimDisk(top, scen["faults"], scen["mounts"], scen["bufsize"],
                   short_rng=random.Random(scen["short"]) if scen["short"] is not None else None)
    before = disk.snapshot()
    seen_dest = {}      # bytes -> first event where seen
    bad_other = []
    rel_dest = disk.rel(dest_abs) if dest_abs else None

    def observe(d):
        n = d.n - 1
        if dest_abs:
            cur = peek(dest_abs)
            seen_dest.setdefault(cur, n)
        for p, old in before.items():
            if old is None or p == rel_dest:
                continue
            if peek(os.path.join(top, p)) != old and len(bad_other) < 3:
                bad_other.append((n, p))

    disk.observers.append(observe)
    observe(disk)

    complete = {}

    def is_complete_new(b):
        if b in complete:
            return complete[b]
        why = None
        try:
            schema, _ = archive.read(b)
            if schema.get("protocol") != P:
                why = f"protocol {schema.get('protocol')} instead of {P}"
            else:
                got = loads(b, trusted=get_untrusted_types(data=b))
                why = V.diff(ref, got)
        except Exception as e:
            why = f"does not load: {type(e).__name__}: {e}"
        complete[b] = why
        return why

    def process(faults, tag):
        disk.start(faults)
        n0 = len(disk.log)
        with disk:
            p = run_cli(argv)
        disk.stop()
        observe(disk)
        ops = disk.log[n0:]
        for e in ops:
            res.ev(*e)
        res.ev(tag, p.status, p.exc)
        return p, ops

    p, ops = process(scen["faults"], "exit")
    res.extra["ops"] = [(e[0], e[1]) for e in ops]
    fired = dict(disk.fired)
    injected = [k for k in fired if not k.startswith(("EXDEV", "short_"))]
    res.faults.update(disk.fired)
    if any(k.startswith("EXDEV") for k in fired):
        res.probes["exdev"] += 1
    if len(injected) > 1 or sum(fired[k] for k in injected) > 1:
        res.probes["double-fault"] += 1
    old_dest = before.get(rel_dest) if rel_dest else None
    where = f"argv={argv[1:]} protocol={proto} status={p.status}/{p.exc} faults={scen['faults']}"

    def check_instants():
        for b, n in seen_dest.items():
            if b == old_dest:
                continue
            if b is None:
                res.fail("dest-lost", f"destination vanished at event {n}: {where}")
                continue
            why = is_complete_new(b)
            if why:
                cls = "input-damaged" if same else "dest-partial"
                res.fail(cls, f"destination at event {n} is neither the previous content nor the complete new archive "
                              f"({why}; {len(b)} bytes): {where}")
        for n, pth in bad_other:
            what = "input-altered" if pth == disk.rel(inp_abs) else "bystander-altered"
            res.fail(what, f"{pth} changed at event {n}: {where}")

    check_instants()
    after = disk.snapshot()

    def residue():
        return sorted(x for x in after if x not in before and x != rel_dest)

    crashed = p.status == "crash"
    if disk.escapes:
        res.fail("escape", f"wrote outside destination/temp directories: {disk.escapes[:2]}: {where}")

    final = peek(dest_abs) if dest_abs else None
    if not writes:
        allowed = before
        if after != allowed and not crashed:
            changed = sorted(x for x in set(after) | set(before) if after.get(x, 0) != before.get(x, 0))
            res.fail("touched-when-refusing", f"no update was due but {changed[:4]} changed: {where}")
        if both:
            res.probes["refused-both"] += 1
            if p.status == "ok":
                res.fail("both-accepted", f"output and --inplace together did not fail: {where}")
        elif not injected and p.status != "ok":
            res.fail("refusal-errored", f"nothing to do but the command failed: {where}")
        res.probes["newer-untouched" if proto > P else "current-untouched" if proto == P else "no-dest"] += 1
        res.states.add(digest([both, proto > P, proto == P, form, scen["inplace"], p.status]))
    else:
        cleanup_hit = any(k.split("@")[-1] in ("unlink", "remove", "rmdir") for k in injected)
        if not crashed and not cleanup_hit and residue():
            res.fail("residue", f"temporary files remain: {residue()[:3]}: {where}")
        if p.status == "ok":
            if same and not scen["inplace"]:
                res.probes["same-as-input"] += 1
            elif final == old_dest:
                res.fail("not-written", f"command succeeded but the destination was not rewritten: {where}")
            else:
                res.probes["wrote"] += 1
        elif p.status == "error":
            if not injected and not (same and not scen["inplace"]):
                res.fail("update-failed", f"fault-free update failed with {p.exc}: {where}")
            else:
                res.probes["error-in-write-phase"] += 1
        kind = "old" if final == old_dest else "new"
        opseq = [e[1] for e in ops]
        res.states.add(digest([opseq, sorted(injected), p.status, kind]))
        if crashed:
            # restart: the same command must still reach its goal
            res.probes["crash-restart"] += 1
            if scen["refaults"]:
                p2, _ = process(scen["refaults"], "exit-restart")
                res.faults.update({k: v - fired.get(k, 0) for k, v in disk.fired.items() if v > fired.get(k, 0)})
                check_instants()
            left = set(disk.snapshot())
            p3, _ = process([], "exit-final")
            check_instants()
            final = peek(dest_abs)
            after = disk.snapshot()
            if p3.status != "ok":
                res.fail("restart-failed", f"after a crash the same command fails with {p3.exc}: {where}")
            elif not (same and not scen["inplace"]):
                why = "destination missing" if final is None else is_complete_new(final)
                if why:
                    res.fail("restart-incomplete", f"after crash and re-run: {why}: {where}")
            if set(after) - left - {rel_dest}:
                res.fail("residue", f"re-run after crash leaves {sorted(set(after) - left)[:3]}: {where}")
    # report each class once per run
    uniq, keep = set(), []
    for v in res.violations:
        if v["cls"] not in uniq:
            uniq.add(v["cls"])
            keep.append(v)
    res.violations = keep
