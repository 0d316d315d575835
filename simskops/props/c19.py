"""C19 - corrupted archives fail cleanly.

One run = one valid archive, damaged by seeded storage and schema corruption,
then given to load/loads, get_untrusted_types and visualize in a seeded order,
from memory and from a simulated disk that also returns short reads and errors.
"""
from __future__ import annotations

import contextlib
import gc
import importlib.util
import io
import json
import locale
import logging
import os
import random
import socket
import sys
import warnings

import numpy as np

from .. import archive, mutate, zoo
from .. import values as V
from ..core import HarnessError, Result, digest
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimDisk

PROPERTY = "C19"
CAMPAIGNS = {"quick": 2400, "thorough": 40000}
WALL = {"quick": 400, "thorough": 3300}
CAMPAIGN_TIMEOUT = 240
RUN_TIMEOUT = 60
MEM_GB = 4
RULE = ("campaign = 8 runs; a run = one archive (named objects and fitted estimators covering every node kind, or a random value; protocol 0/1/2) x "
        "1-5 stacked corruptions (schema values/types/keys/ids/cycles/nesting/members/text, member contents behind valid checksums, raw bytes) x "
        "4-7 calls of load/loads/get_untrusted_types/visualize in seeded order and form (bytes, path on a simulated disk with short reads and "
        "errors, trusted or not, every show mode, both sinks); checked after each call: returned or raised an Exception, within the step budget, no file "
        "touched, cwd/environ/sys.path/random states/recursion limit/error modes unchanged; non-trivial = the corrupted bytes differ from the valid "
        "ones; distinct by (archive, corruption, outcomes) digest")
STATE_MEASURE = "distinct (corruption kinds, node kind or archive, per-call outcome classes) tuples"
REAL = ["skops.io load/loads/get_untrusted_types/visualize", "zipfile", "json", "numpy/scipy/sklearn constructors and __setstate__", "rich"]
STUBS = ["disk reads (SimRaw)", "id()", "uuid4", "time.time"]
ASSUMPTIONS = [
    "promptness is measured in interpreter steps (calls, resumptions and backward jumps; 20 million + 100,000 per schema node + 1,500 per node and path, at most 120 million; "
    "the valid archives need at most 0.5 million) plus a wall-clock limit of 60 s per run for C code",
    "the address space of a run is limited to 4 GB; MemoryError counts as an ordinary exception",
    "trusted is None, the names the undamaged archive needs, or these and the names get_untrusted_types reports that are names of nothing (trusting other names "
    "that damage put there would run what they name)",
]
PROBES = ["ok-load", "ok-visualize", "exception", "cycle", "deep", "shared-chain", "file-call", "short-read", "read-error", "named", "value", "old-protocol",
          "evil-import-attempt", "pickle-attempt", "memory-error", "recursion-error", "native-constructor", "npz", "missing-member", "loaded-despite-damage"]
_ok = None


def names():
    global _ok
    if _ok is None:
        _ok = zoo.warm()
    return _ok


def parent_init():
    import rich.console, rich.tree  # noqa
    import skops.io, skops.card  # noqa
    V._est_class("Ridge")
    names()


def child_init():
    V.SEED_SEQ = True
    warnings.simplefilter("ignore")
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evil")
    if d not in sys.path:
        sys.path.append(d)


# ------------------------------------------------------------------ campaign
HEAVY = ["tree", "tree-mo", "forest", "gbm", "knn-kd", "knn-ball", "kde", "sgd-hinge", "sgd-log", "sgd-huber", "gbm-reg", "hgb", "gamma", "lof", "nn-mahal"]


def g_base(rng, index):
    r = rng.random()
    if r < 0.5:
        return ["named", rng.choice(zoo.NAMES)]
    if r < 0.75:
        return ["named", rng.choice(HEAVY + sorted(zoo.OBJECTS))]
    if r < 0.95:
        V.KEYS_EXTRA = False
        return ["value", V.g_value(rng, rng.choice([1, 2, 3]))]
    return ["value", V.g_obj(rng)]


def g_calls(rng):
    out = []
    kinds = ["loads", "gut", "viz", "load"] + [rng.choice(["loads", "load", "gut", "viz", "viz"]) for _ in range(rng.choice([0, 1, 2, 3]))]
    rng.shuffle(kinds)
    for i, k in enumerate(kinds):
        c = {"k": k, "trusted": rng.choice([True] * 6 + ["reported"] * 2 + [False] * 3)}
        if k in ("gut", "viz"):
            c["file"] = rng.random() < 0.4
        if k == "viz":
            c["show"] = rng.choice(["all", "all", "untrusted", "trusted"])
            c["sink"] = rng.choice(["collect", "pretty", "pretty", "plain", "stop"])
            c["colors"] = rng.random() < 0.7
        if c.get("file") or k == "load":
            c["faults"] = [{"at": rng.choice([0, 1, 2, 3, 4, 6, 9, 15]), "kind": rng.choice(["EIO", "short", "short", "ENOENT", "EACCES", "intr"]), "frac": rng.random()}
                           for _ in range(rng.choice([0, 0, 1, 1, 3]))]
        out.append(c)
    return out


def campaign(rng, run, tier, index):
    names()
    for _ in range(8):
        base = g_base(rng, index)
        ops = mutate.g_ops(rng)
        if base == ["named", "sparse"] and rng.random() < 0.7:
            ops = [mutate.g_member(rng) for _ in range(rng.choice([1, 2]))]
        calls = g_calls(rng)
        if rng.random() < 0.02:     # deep sharing: without calls that print the whole tree
            ops = [o for o in ops if o[0] not in ("chain", "b")]
            ops.append(["chainroot", rng.choice([20, 40, 100]), rng.choice(["list", "tuple"])])
            calls = [c for c in calls if c["k"] != "viz"]
        run({"base": base, "proto": rng.choice([None] * 9 + [0, 1]), "ops": ops, "calls": calls, "seed": rng.getrandbits(24)})


def shrink(s):
    for i in range(len(s["calls"])):
        if len(s["calls"]) > 1:
            yield dict(s, calls=s["calls"][:i] + s["calls"][i + 1:])
    for i in range(len(s["ops"])):
        if len(s["ops"]) > 1:
            yield dict(s, ops=s["ops"][:i] + s["ops"][i + 1:])
    if s["proto"] is not None:
        yield dict(s, proto=None)
    for i, c in enumerate(s["calls"]):
        for k, v in (("faults", []), ("file", False), ("sink", "collect"), ("show", "all"), ("trusted", False)):
            if c.get(k) not in (None, v):
                yield dict(s, calls=s["calls"][:i] + [dict(c, **{k: v})] + s["calls"][i + 1:])
    if s["base"][0] == "value":
        for c in V.shrink_spec(s["base"][1]):
            yield dict(s, base=["value", c])
    for i, o in enumerate(s["ops"]):
        for j, x in enumerate(o):
            if isinstance(x, int) and not isinstance(x, bool) and x > 1000:
                for y in (0, 1, 2, 3, 5, 8):
                    yield dict(s, ops=s["ops"][:i] + [o[:j] + [y] + o[j + 1:]] + s["ops"][i + 1:])


def matches_known(k, scen, v):
    if k["cls"] == "exponential-visualize":     # (a class of its own: the walk hit its limit and the shared structure unfolds to a multiple of the schema)
        return True
    return k["op"] in scen["ops"] and k["base"] == scen["base"]


# ------------------------------------------------------------------- the runs
class StepLimit(BaseException):
    pass


class Steps:
    """interpreter steps of this thread (sys.monitoring)"""
    TOOL = 4

    def __init__(self, budget):
        self.next, self.n = budget, 0

    def _tick(self, *a):
        self.n += 1
        if self.n > self.next:
            self.next += 300_000    # (again, should it be swallowed)
            raise StepLimit()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "steps")
        E = m.events
        for e in (E.PY_START, E.PY_RESUME, E.JUMP):
            m.register_callback(self.TOOL, e, self._tick)
        m.set_events(self.TOOL, E.PY_START | E.PY_RESUME | E.JUMP)
        return self

    def __exit__(self, *exc):
        self.next = float("inf")
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        for e in (m.events.PY_START, m.events.PY_RESUME, m.events.JUMP):
            m.register_callback(self.TOOL, e, None)
        m.free_tool_id(self.TOOL)


def np_state(st):
    return (st[0], st[1].tobytes(), st[2:])


def state():
    import signal
    import threading
    return {
        "cwd": os.getcwd(), "environ": dict(os.environ), "sys.path": list(sys.path), "np.random": np_state(np.random.get_state()),
        "random": random.getstate(), "recursion limit": sys.getrecursionlimit(), "np.errstate": np.geterr(), "threads": threading.active_count(),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)],
        "warnings": list(warnings.filters), "showwarning": id(warnings.showwarning), "printoptions": str(np.get_printoptions()), "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable), "int digits": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(), "path hooks": len(sys.path_hooks), "stdin": id(sys.stdin), "socket": socket.getdefaulttimeout(),
        "bytecode": sys.dont_write_bytecode, "gc threshold": gc.get_threshold(), "trace": sys.gettrace() is None,
        "gc": gc.isenabled(), "umask": _umask(), "meta_path": len(sys.meta_path), "excepthook": id(sys.excepthook),
    }


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def restore(before):
    os.chdir(before["cwd"])
    os.environ.clear()
    os.environ.update(before["environ"])
    sys.path[:] = before["sys.path"]
    np.random.seed(0)
    random.setstate(before["random"])
    sys.setrecursionlimit(before["recursion limit"])
    np.seterr(**before["np.errstate"])
    sys.set_int_max_str_digits(before["int digits"])
    warnings.filters[:] = before["warnings"]
    sys.setswitchinterval(before["switch interval"])


def tree_of(top):
    out = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files) + dirs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            out.append((os.path.relpath(p, top), st.st_size, st.st_mode, st.st_mtime_ns if f in files else 0))
    return out


def base_of(b):
    if b[0] == "named":
        return zoo.base(b[1])
    from skops.io import dumps, get_untrusted_types
    try:
        obj = V.build(b[1])
        with Seams(Allocator(random.Random(1)), random.Random(1), Clock()):
            data = dumps(obj)
        data = zoo.canonical(data)
        return data, get_untrusted_types(data=data)
    except HarnessError:
        raise
    except Exception:       # (this value cannot be dumped: another property's business)
        return zoo.base("scalars")


def unfolded(schema, cap=10**9):
    """(#nodes, #paths from the root to a node), sharing by __id__"""
    seen, order, kids = {}, [], {}
    count = 0
    stack = [schema]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            count += 1
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    # path counts: follow stubs to the first node with that id
    firsts = {}
    paths = 0
    memo = {}
    sys.setrecursionlimit(3000)

    def size(x, depth=0):
        if depth > 700:
            return 1
        if isinstance(x, dict):
            i = x.get("__id__")
            if isinstance(i, int) and set(x) == {"__id__"}:
                return memo.get(i, 1)
            n = 1 + sum(size(v, depth + 1) for v in x.values() if isinstance(v, (dict, list)))
            if isinstance(i, int):
                memo.setdefault(i, min(n, cap))
            return n
        return sum(size(v, depth + 1) for v in x if isinstance(v, (dict, list)))
    try:
        n = size(schema)
    except RecursionError:
        n = count
    sys.setrecursionlimit(1000)
    return count, n


def forget_evil():
    hit = False
    for m in [m for m in sys.modules if m.split(".")[0] == "simskops_evil"]:
        del sys.modules[m]
        hit = True
    return hit


def sink_for(c, box):
    from skops.io._visualize import pretty_print_tree
    if c["sink"] in ("pretty", "plain"):
        return pretty_print_tree

    def collect(nodes, show, **kw):
        for i, n in enumerate(nodes):
            box.append((n.level, n.key, n.is_safe))
            if c["sink"] == "stop" and i == 1:
                return
    return collect


def unresolvable(name):
    """no object has this name, and looking it up imports nothing new"""
    if not isinstance(name, str):
        return False
    module, _, attr = name.rpartition(".")
    parts = module.split(".")
    for i in range(len(parts)):
        m = ".".join(parts[:i + 1])
        if m in sys.modules:
            continue
        try:
            return importlib.util.find_spec(m) is None
        except Exception:
            return True
    return not hasattr(sys.modules.get(module), attr)


def one_call(c, data, path, trusted):
    from skops import io as sio
    tr = trusted if c["trusted"] else None
    k = c["k"]
    if c["trusted"] == "reported" and k != "gut":
        try:
            tr = [*trusted, *(t for t in sio.get_untrusted_types(data=data) if unresolvable(t))]
        except Exception:
            pass
    if k == "loads":
        return sio.loads(data, trusted=tr)
    if k == "load":
        return sio.load(path, trusted=tr)
    if k == "gut":
        return sio.get_untrusted_types(file=path) if c["file"] else sio.get_untrusted_types(data=data)
    box = []
    kw = {} if c["sink"] in ("collect", "stop") else {"use_colors": c["colors"]}
    sio.visualize(path if c["file"] else data, show=c["show"], trusted=tr, sink=sink_for(c, box), **kw)
    return box


def execute(scen):
    res = Result()
    good, trusted = base_of(scen["base"])
    if scen["proto"] is not None:
        from skops.io._protocol import PROTOCOL
        good, p = archive.set_protocol(good, scen["proto"], PROTOCOL)
        res.probes["old-protocol"] += 1
    try:
        data = mutate.apply(good, scen["ops"])
    except RecursionError:
        data = good
    res.nontrivial = data != good
    for o in scen["ops"]:
        res.faults[o[1][0] if o[0] == "b" else o[0]] += 1
    res.probes[scen["base"][0]] += 1
    try:
        nodes, paths = unfolded(archive.read(data)[0])
    except Exception:
        nodes, paths = len(data) // 200, 0
    blowup = paths > 20 * nodes + 1000
    text = json.dumps(scen["ops"], default=str)
    if "evil" in text:
        res.probes["evil-import-attempt"] += 1
    if '"pickle"' in text or '"object"' in text:
        res.probes["pickle-attempt"] += 1
    for probe, keys in (("cycle", ('"cycle"', '"cached"')), ("deep", ('"wrap"', '"wraproot"', '"t-deep"')), ("shared-chain", ('"chain"', '"chainroot"')),
                        ("npz", ('"m-npz"',)), ("missing-member", ('"m-drop"',))):
        if any(k in text for k in keys):
            res.probes[probe] += 1
    if any(w in good for w in (b"TreeNode", b"LossNode", b"KDTree", b"BallTree")):
        res.probes["native-constructor"] += 1
    # (an unfolded cycle ends at the recursion limit, after some 300 times the paths, each with an audit of all nodes)
    budget = min(20_000_000 + 100_000 * nodes + 1500 * nodes * paths, 120_000_000)
    outcomes = []
    clock = Clock()
    old_out = sys.stdout
    with Scratch() as sc:
        disk = SimDisk(sc.top, [])
        path = os.path.join(sc.top, "data", "m.skops")
        with open(path, "wb") as f:
            f.write(data)
        sys.stdout = io.StringIO()
        np.random.seed(7)
        before = state()
        files = tree_of(sc.top)
        for i, c in enumerate(scen["calls"]):
            what = f"call {i} {c['k']}({'file' if c.get('file') or c['k'] == 'load' else 'bytes'}{', trusted' if c['trusted'] is True else ', reported names trusted' if c['trusted'] else ''}" \
                   f"{', ' + c['show'] + '/' + c['sink'] if c['k'] == 'viz' else ''}) of {scen['base']} damaged by {text[:300]}"
            hide_rich = c.get("sink") == "plain"
            saved_rich = {k: sys.modules[k] for k in list(sys.modules) if k.split(".")[0] == "rich"} if hide_rich else {}
            if hide_rich:
                for k in saved_rich:
                    sys.modules[k] = None
                sys.modules["rich.console"] = sys.modules["rich.tree"] = sys.modules["rich"] = None
            result, ex = None, None
            disk.escapes.clear()
            with disk:
                disk.start(c.get("faults", []))
                try:
                    with Seams(Allocator(random.Random(scen["seed"])), random.Random(scen["seed"]), clock), Steps(budget * (2 if c["trusted"] == "reported" else 1)) as steps:
                        result = one_call(c, data, path, trusted)
                except HarnessError:
                    raise
                except BaseException as e:  # noqa
                    ex = e
                disk.stop()
            if hide_rich:
                for k in ("rich", "rich.console", "rich.tree"):
                    sys.modules.pop(k, None)
                sys.modules.update(saved_rich)
            fired = dict(disk.fired)
            disk.fired.clear()
            for k, n in fired.items():
                res.faults[k] += n
                res.probes["short-read" if k.startswith("short") else "read-error"] += n
            if c.get("file") or c["k"] == "load":
                res.probes["file-call"] += 1
            outcomes.append(type(ex).__name__ if ex is not None else "ok")
            res.ev(i, c["k"], outcomes[-1], fired)
            if ex is None:
                res.probes["ok-" + {"loads": "load", "viz": "visualize"}.get(c["k"], c["k"])] += 1
                if c["k"].startswith("load"):
                    res.probes["loaded-despite-damage"] += 1
            elif isinstance(ex, StepLimit):
                how = "exponential-visualize" if blowup and c["k"] == "viz" else "no-prompt-end"
                res.fail(how, f"{what}: more than {budget} interpreter steps ({nodes} schema nodes, {paths} paths)")
            elif isinstance(ex, Exception):
                res.probes["exception"] += 1
                if isinstance(ex, RecursionError):
                    res.probes["recursion-error"] += 1
                if isinstance(ex, MemoryError):
                    res.probes["memory-error"] += 1
            elif isinstance(ex, KeyboardInterrupt) and any("KeyboardInterrupt" in k for k in fired):
                pass
            else:
                res.fail("not-an-exception", f"{what}: raised {type(ex).__name__}: {ex}")
            # whatever it made must also go away without harm
            result = None
            if ex is not None:
                ex.__traceback__ = None
            ex = None
            if res.probes["native-constructor"]:
                gc.collect()
            if disk.escapes:
                res.fail("files", f"{what}: opened {disk.escapes[:2]} for writing")
            now = state()
            for k in before:
                if now[k] != before[k]:
                    res.fail("process-state", f"{what}: {k} changed" + (f" to {str(now[k])[:100]}" if k in ("cwd", "recursion limit") else ""))
                    restore(before)
                    np.random.seed(7)
            forget_evil()
            nf = tree_of(sc.top)
            if nf != files:
                res.fail("files", f"{what}: files changed: {sorted(set(nf) ^ set(files))[:3]}")
                files = nf
            if res.violations:
                break
        sys.stdout = old_out
        gc.collect()
    res.simtime = clock.elapsed
    res.ev(digest(scen["ops"]), scen["base"][1] if scen["base"][0] == "named" else digest(scen["base"]))
    res.states.add(digest([sorted({o[1][0] if o[0] == "b" else o[0] for o in scen["ops"]}), scen["base"][1] if scen["base"][0] == "named" else "v", outcomes]))
    return res
