"""C05 - supported data through checkpoint/crash/restart histories.

A simulated application keeps a few values in memory, checkpoints them with
skops to a simulated disk, dies, comes back from its last good checkpoint,
replays its journal and goes on.  The reference is the same application that is
never interrupted and never persists anything.
"""
from __future__ import annotations

import io
import os
import pathlib
import random

import numpy as np

from .. import values as V
from ..core import Result, digest, jdump
from ..seams import Allocator, Clock, Seams
from ..simfs import Scratch, SimCrash, SimDisk, peek

PROPERTY = "C05"
CAMPAIGNS = {"quick": 4500, "thorough": 60000}
WALL = {"quick": 300, "thorough": 3300}
CAMPAIGN_TIMEOUT = 300
RULE = ("campaign = 1-3 values of the supported families (directed families first, then the random grammar) x a history of "
        "in-memory cycles, checkpoints to alternating generations, draws from the contained random generators, mutations, "
        "clock jumps, crashes and restarts; re-run with seeded torn/short/errno/crash faults at file-system events; the "
        "live value is compared with an uninterrupted twin after every step; distinct by event-log digest")
STATE_MEASURE = "distinct (value kind set, operation kinds, fault kinds, outcome) tuples"
REAL = ["skops.io dump/dumps/load/loads/get_untrusted_types", "numpy save/load", "scipy save_npz/load_npz", "zipfile", "json"]
STUBS = ["disk (SimRaw + wrapped os.*)", "id()", "uuid4", "time.time", "process crash/restart"]
ASSUMPTIONS = [
    "clock within 1980-2107, the range of zip timestamps",
    "dump to a path is not atomic: a torn checkpoint is detected by the application (error or crash), which falls back to "
    "the previous generation",
    "trailing NULs of numpy str_/bytes_ scalars, NaN payloads of long doubles, dtype metadata and the aligned flag are not "
    "compared; object arrays: no memory layout (as stated)",
]
PROBES = ["cycle", "cycle-twice", "checkpoint", "torn-checkpoint", "crash", "restart-from-disk", "restart-from-scratch",
          "journal-replay", "draw", "mutate", "fileobj-sink", "compressed", "short-read-load", "read-fault-retried", "clock-jump",
          "f-order", "byte-order", "structured", "rng", "sparse", "masked", "object-array", "numpy-keys", "large"]
COMP = [[0, None], [0, None], [8, None], [8, 1], [8, 9], [12, None], [12, 1], [14, None]]


# ------------------------------------------------------------- directed values
def directed():
    out = []
    dts = [o + d for d in V.NUM_DTYPES for o in ("<", ">") if d not in ("?", "i1", "u1")] + ["?", "i1", "u1"]
    dts = [d.replace("<g", "g").replace(">g", "g").replace("<G", "G").replace(">G", "G") for d in dts]
    dts += ["<U3", ">U3", "S4", "V5", "<M8[ns]", ">M8[D]", "M8", "<m8[25s]", ">m8[W]", "U0", "S0"]
    dts += [{"fields": [["a", ">i4"], ["b", "f8", [2]]]}, {"fields": [["x", {"fields": [["y", "U2"]]}], ["z", "S3"]], "pad": 1}]
    for d in dict.fromkeys(map(jdump, dts)):
        import json
        d = json.loads(d)
        for shape in ([], [0], [3], [2, 3], [0, 2], [2, 1, 3, 2]):
            for lay in ("C", "F") if len(shape) > 1 else ("C",):
                out.append(["array", d, shape, lay, len(out)])
        out.append(["dtype", d])
        out.append(["npscalar", d, len(out)])
    for lay in "TSNBR":
        for shape in ([4], [4, 4], [2, 3, 4]):
            out.append(["array", "f8", shape, lay, len(out)])
    for bg in V.BITGENS:
        for n in (0, 1, 3, 6, 700):
            out.append(["gen", bg, 5 + n, n, n, 0])
            out.append(["rs", bg, 5 + n, n, n])
        out.append(["gen", bg, 2**100 + 3, 2, 3, 2])
    out.append(["gen", "MT19937", "77", 3, 1, 0])
    for n in range(1, 5):
        out.append(["rs", "MT19937", 11, n, 1])     # cached gaussian
    for f in ("csr", "csc", "coo", "bsr", "dia"):
        for kind in ("matrix", "array"):
            for d in ("f8", "f4", "i8", "i4", "u1", "?", "c16", "c8", ">f8", "g"):
                if f in ("bsr", "dia") and d == "?":
                    continue
                for fl in ("", "z", "u"):
                    out.append(["sparse", f, kind, d, [3, 4], len(out), fl])
            out.append(["sparse", f, kind, "f8", [1, 1], 0, ""])
            if f in ("csr", "csc", "coo"):
                out.append(["sparse", f, kind, "f8", [0, 3], 0, ""])
    for kd in V.NPKEYS:
        v = [[1.0, 0.5], [2.0, 0.0]] if kd in ("c8", "c16", "G") else [0, 3]
        out.append(["dict", [[["npkey", kd, x], ["int", i]] for i, x in enumerate(v)]])
    for ks in (["str"], ["int"], ["float"], ["np"], ["clash"], ["str", "int", "float", "np", "clash"]):
        for kind in ("dict", "odict", "ddict"):
            for s in range(3):
                r = random.Random(f"{ks}{kind}{s}")
                items = [[V.g_key(r, ks), V.g_scalar(r)] for _ in range(4)]
                out.append([kind, r.choice(sorted(V.FACTORIES)), items] if kind == "ddict" else [kind, items])
    # the listed findings, so that each quick run meets them
    out += [["int", "bigint:5000"], ["array", {"overlap": 1}, [2], "C", 1], ["stringdtype", ["a", "b"]], ["type", "NoneType"]]
    for nm in sorted(V.TYPES):
        out.append(["type", nm])
    for nm in sorted(V.FUNCS):
        out.append(["partial", ["func", nm], [["int", 1]], [["k", ["str", "v"]]]])
    for u in V.UFUNCS:
        out.append(["ufunc", "np." + u])
    for u in V.SP_UFUNCS:
        out.append(["ufunc", "sp." + u])
    for sh in ([1], [3], [2, 2], [1, 1], [2, 1, 2], [1, 3, 1, 2]):
        n = int(np.prod(sh))
        for s in range(4):
            r = random.Random(f"{sh}{s}")
            out.append(["objarray", sh, [r.choice([V.g_scalar(r), ["str", V.g_str(r)], ["none"], ["str", "ab"]]) for _ in range(n)], "CF"[s % 2]])
        out.append(["objarray", sh, [["str", "xy"]] * n, "C"])
        out.append(["objarray", sh, [["none"]] * n, "C"])
        out.append(["objarray", sh, [["float", "nan"]] * n, "C"])
    r = random.Random("masked")
    for i in range(60):
        out.append(V.g_masked(r))
    for how in ("fields", "other", "all", "shrink", "pickled", "part", "transposed"):
        for dt in ("f8", "<U3", {"fields": [["a", ">c16"], ["Z", "S3"]], "pad": 4}, {"fields": [["a", "<i4"], ["b", "f8", [2]]]}):
            for lay in ("C", "T"):
                out.append(["masked", ["array", dt, [3, 4], lay, 3], 894879, {"hard": lay == "T", "mask": how}])
    out += [["slice", None, None, None], ["slice", 0, -1, 2], ["slicev", [["npscalar", "i8", 3], ["none"], ["npscalar", "u1", 4]]],
            ["slicev", [["float", "nan"], ["tuple", [["int", 1]]], ["str", "b"]]], ["masked_const"],
            ["bytes", ""], ["bytearray", ""], ["bytes", bytes(range(256)).hex()], ["bytearray", bytes(range(256)).hex()],
            ["npscalar", "S1", 5], ["npscalar", "S7", 6], ["set", [["int", 1], ["str", "1"], ["float", (1.5).hex()], ["none"]]],
            ["set", []], ["tuple", []], ["list", []], ["dict", []], ["odict", []], ["ddict", "none", []],
            ["set", [["tuple", [["int", 1], ["bytes", "00ff"]]], ["bytes", "61"]]],
            ["attrgetter", ["a"]], ["attrgetter", ["a.b", "é"]], ["itemgetter", [["int", 0]]],
            ["itemgetter", [["str", "k"], ["slice", 1, None, None]]]]
    for s in V.STR_POOL:
        out.append(["str", s])
        out.append(["dict", [[["str", s], ["str", s]], [["str", s + "2"], ["int", 1]]]])
    for sz in (1, 2, 3):     # large payloads
        out.append(["array", "f8", [30000 * sz], "C", sz])
        out.append(["array", "<U8", [100, 300 * sz], "F", sz])
        out.append(["bytes", random.Random(sz).randbytes(70000 * sz).hex()])
        out.append(["list", [["int", i] for i in range(400 * sz)]])
        out.append(["dict", [[["int", i], ["float", float(i).hex()]] for i in range(300 * sz)]])
    out.append(["rep", 2500, [["tuple", [["slice", 1, None, None]]], ["float", "nan"], ["str", "é"]]])
    out.append(["rep", 1500, [["array", "i2", [3], "C", 4]]])
    out.append(["repdict", 2500, [["set", [["int", 1], ["tuple", []]]]]])
    out.append(["rep", 1200, [["ddict", "int", [[["npkey", "f4", 0.5], ["bytes", "00"]]]]]])
    for k in range(3):
        deep = ["int", 1]
        for i in range(140):
            deep = [["list", [deep]], ["tuple", [deep]], ["dict", [[["int", i], deep]]]][k]
        out.append(deep)
    deep = ["int", 1]
    for i in range(60):
        deep = [["list", [deep]], ["tuple", [deep, ["int", i]]], ["dict", [[["int", i], deep]]]][i % 3]
    out.append(deep)
    return out


_directed = None


def g_slot(rng):
    r = rng.random()
    if r < 0.12:
        return V.g_rng(rng)
    if r < 0.2:
        return V.g_array(rng, big=True)
    if r < 0.26:
        return ["ddict", rng.choice(sorted(V.FACTORIES)), V.g_items(rng, 2, "all")]
    if r < 0.3:
        return ["dict", V.g_items(rng, 1, "plain", ["np", "clash", "int", "float", "str"]) + V.g_items(rng, 1, "plain")]
    return V.g_value(rng, rng.choice([1, 2, 3, 4]))


def gen(rng, index):
    global _directed
    if _directed is None:
        _directed = directed()
    V.KEYS_EXTRA = False
    n = rng.choice([1, 1, 2, 3])
    slots = [g_slot(rng) for _ in range(n)]
    if index is not None and index < len(_directed):
        slots[0] = _directed[index]
    ops = []
    if index is not None and index < len(_directed):
        ops += [["cycle", 0, rng.choice([1, 2]), rng.choice(COMP)], ["draw", 0, 3, rng.randint(0, 4)]]
    for _ in range(rng.randint(3, 9)):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.25:
            ops.append(["cycle", i, rng.choice([1, 1, 2, 3]), rng.choice(COMP)])
        elif r < 0.5:
            ops.append(["ckpt", i, rng.choice(["str", "path", "fileobj"]), rng.choice(COMP)])
        elif r < 0.65:
            ops.append(["draw", i, rng.randint(1, 4), rng.randint(0, 4)])
        elif r < 0.8:
            ops.append(["mutate", i, rng.getrandbits(16)])
        elif r < 0.95:
            ops.append(["restart", i])
        else:
            ops.append(["clock", rng.choice([3.2e8, 4.3e9, 1.6e9, 9.5e8])])
    ops.append(["cycle", rng.randrange(n), 1, [0, None]])
    return {"slots": slots, "ops": ops, "bufsize": rng.choice([None, None, 16, 512]) if "'rep" not in repr(slots) else None,
            "short": rng.getrandbits(20) if rng.random() < 0.35 else None,
            "alloc": rng.choice(["bump", "reuse"]), "faults": []}


def campaign(rng, run, tier, index):
    scen = gen(rng, index)
    r = run(scen)
    ev = r.extra.get("ops", [])
    for _ in range((3 if tier == "quick" else 6) if ev else 0):
        n, op = rng.choice(ev)
        kinds = {"write": ["crash", "torn", "torn", "ENOSPC", "EIO", "short"], "read": ["EIO", "short", "crash"],
                 "open-r": ["EIO", "EACCES", "crash"]}.get(op, ["crash", "EIO", "intr"])
        faults = [{"at": n, "kind": rng.choice(kinds), "frac": rng.choice([0.0, 0.1, 0.5, 0.99])}]
        if rng.random() < 0.3:
            n2, _ = rng.choice(ev)
            faults.append({"at": n2, "kind": rng.choice(["crash", "torn", "EIO"]), "frac": 0.5})
        run(dict(scen, faults=faults))


def shrink(s):
    for i in range(len(s["ops"])):
        yield dict(s, ops=s["ops"][:i] + s["ops"][i + 1:])
    for i in range(len(s["faults"])):
        yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    for key, val in (("short", None), ("bufsize", None), ("alloc", "bump")):
        if s[key] != val:
            yield dict(s, **{key: val})
    if len(s["slots"]) > 1:
        for i in range(len(s["slots"])):
            ops = [o if o[0] == "clock" or o[1] < i else [o[0], o[1] - 1] + o[2:] for o in s["ops"]
                   if o[0] == "clock" or o[1] != i]
            yield dict(s, slots=s["slots"][:i] + s["slots"][i + 1:], ops=ops)
    for i, sp in enumerate(s["slots"]):
        for c in V.shrink_spec(sp):
            yield dict(s, slots=s["slots"][:i] + [c] + s["slots"][i + 1:])
    for i, o in enumerate(s["ops"]):
        if o[0] in ("cycle", "ckpt") and o[3] != [0, None]:
            yield dict(s, ops=s["ops"][:i] + [o[:3] + [[0, None]]] + s["ops"][i + 1:])


def matches_known(k, scen, v):
    """the listed history's slot value, recognised by its kind"""
    want = k.get("match")
    return want is not None and any(_has(sp, want) for sp in scen["slots"])


def _has(spec, want):
    if spec == want:
        return True
    if isinstance(spec, list):
        return any(_has(x, want) for x in spec)
    return False


def parent_init():
    import scipy.special  # noqa
    import skops.io  # noqa
    global _directed
    _directed = directed()


def child_init():
    V.SEED_SEQ = True


def walk(o, fn, seen=None):
    """containers, arrays and generators inside o, each once, in order"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    fn(o)
    for _, c in V.children(o):
        walk(c, fn, seen)


def rngs(o):
    out = []
    walk(o, lambda x: out.append(x) if isinstance(x, (np.random.RandomState, np.random.Generator)) else None)
    return out


def mutables(o):
    out = []

    def f(x):
        if isinstance(x, (list, dict, bytearray, set)):
            out.append(x)
        elif isinstance(x, np.ma.MaskedArray):
            if x is not np.ma.masked and x.ndim and x.size and x.dtype.names is None:
                out.append(x)
        elif isinstance(x, np.ndarray) and x.ndim and x.size > 1 and x.dtype != object:
            out.append(x)

    walk(o, f)
    return out


def execute(scen):
    res = Result()
    rng1, rng2 = (random.Random(f"{digest(scen['slots'])}{i}") for i in range(2))
    with Scratch() as sc:
        clock = Clock(step=0.01)
        with Seams(Allocator(rng1, scen["alloc"]), rng2, clock):
            App(scen, res, sc, clock).run()
        res.simtime = clock.elapsed
    return res


class App:
    def __init__(self, scen, res, sc, clock):
        self.s, self.res, self.sc, self.clock = scen, res, sc, clock
        n = len(scen["slots"])
        self.ref = [V.build(sp) for sp in scen["slots"]]
        self.live = [V.build(sp) for sp in scen["slots"]]
        self.gen = [-1] * n            # last good generation on disk
        self.next = [0] * n
        self.journal = [[] for _ in range(n)]
        self.kinds = sorted({k for sp in scen["slots"] for k in kinds_in(sp)})
        for k in self.kinds:
            if k in PROBES:
                res.probes[k] += 1

    def run(self):
        self.res.ev("start", [V.diff(a, b) for a, b in zip(self.ref, self.live)])
        self.disk = SimDisk(self.sc.top, [], {}, self.s["bufsize"],
                            short_rng=random.Random(self.s["short"]) if self.s["short"] is not None else None)
        disk = self.disk
        disk.start(self.s["faults"])
        done = []
        with disk:
            for op in self.s["ops"]:
                done.append(op[0])
                try:
                    getattr(self, "op_" + op[0])(*op[1:])
                except SimCrash:
                    self.crashed()
                if self.res.violations:
                    break
            if not self.res.violations:
                # the application goes down for good; the next one finds its state
                disk.faults = {}
                for i in range(len(self.ref)):
                    self.op_restart(i)
        disk.stop()
        for e in disk.log:
            self.res.ev(*e)
        self.res.faults.update(disk.fired)
        self.res.extra["ops"] = [(e[0], e[1]) for e in disk.log]
        self.res.states.add(digest([self.kinds, sorted(set(done)), sorted(disk.fired), bool(self.res.violations)]))

    def crashed(self):
        self.res.probes["crash"] += 1
        f = {k: v for k, v in self.disk.faults.items() if k >= self.disk.n}
        n = self.disk.n
        self.disk.start()
        self.disk.n, self.disk.faults = n, f     # event numbers go on
        for i in range(len(self.live)):
            while True:
                try:
                    self.op_restart(i)
                    break
                except SimCrash:
                    n = self.disk.n
                    self.disk.start()
                    self.disk.n = n

    def compare(self, i, what):
        d = V.diff(self.ref[i], self.live[i])
        self.res.ev("cmp", what, i, d)
        if d:
            self.res.fail("not-equal", f"slot {i} after {what}: {d}")

    # ------------------------------------------------------------ operations
    def op_cycle(self, i, k, comp):
        from skops.io import dumps, get_untrusted_types, loads
        for j in range(k):
            try:
                data = dumps(self.live[i], compression=comp[0], compresslevel=comp[1])
            except Exception as e:
                self.res.fail("dump-failed", f"slot {i} cycle {j}: {type(e).__name__}: {e}")
                return
            try:
                self.live[i] = loads(data, trusted=get_untrusted_types(data=data))
            except Exception as e:
                self.res.fail("load-failed", f"slot {i} cycle {j}: {type(e).__name__}: {e}")
                return
            self.compare(i, f"cycle {j + 1}")
            self.res.probes["cycle"] += 1
        if k > 1:
            self.res.probes["cycle-twice"] += 1
        if comp[0]:
            self.res.probes["compressed"] += 1

    def path(self, i, g):
        return os.path.join(self.sc.top, "data", f"slot{i}.gen{g % 2}.skops")

    def op_ckpt(self, i, sink, comp):
        from skops.io import dump
        g = self.next[i]
        p = self.path(i, g)
        before = dict(self.disk.fired)
        try:
            if sink == "fileobj":
                with open(p, "wb") as f:
                    dump(self.live[i], f, compression=comp[0], compresslevel=comp[1])
                self.res.probes["fileobj-sink"] += 1
            else:
                dump(self.live[i], pathlib.Path(p) if sink == "path" else p, compression=comp[0], compresslevel=comp[1])
        except SimCrash:
            if peek(p) is not None:
                self.res.probes["torn-checkpoint"] += 1
            raise
        except BaseException as e:
            hard = {k: v - before.get(k, 0) for k, v in self.disk.fired.items() if not k.startswith("short")}
            if not any(hard.values()):
                self.res.fail("dump-failed", f"slot {i} checkpoint: {type(e).__name__}: {e}")
            self.res.ev("ckpt-error", type(e).__name__)
            self.disk.full.clear()
            return
        self.gen[i] = g
        self.next[i] = g + 1
        self.journal[i] = []
        self.res.probes["checkpoint"] += 1
        if len(peek(p) or b"") > 100000:
            self.res.probes["large"] += 1
        self.compare(i, "dump")      # dumping leaves the live value alone

    def op_restart(self, i):
        from skops.io import get_untrusted_types, load
        if self.gen[i] < 0:
            self.live[i] = V.build(self.s["slots"][i])
            self.res.probes["restart-from-scratch"] += 1
        else:
            p = self.path(i, self.gen[i])
            for attempt in range(4):
                before = dict(self.disk.fired)
                try:
                    self.live[i] = load(p, trusted=get_untrusted_types(file=p))
                    break
                except SimCrash:
                    raise
                except BaseException as e:
                    hard = {k: v - before.get(k, 0) for k, v in self.disk.fired.items() if not k.startswith("short")}
                    if not any(hard.values()):
                        self.res.fail("load-failed", f"slot {i} restart: {type(e).__name__}: {e}")
                        return
                    self.res.probes["read-fault-retried"] += 1
            self.res.probes["restart-from-disk"] += 1
            if self.disk.short_rng is not None:
                self.res.probes["short-read-load"] += 1
        # the twin's history since the checkpoint, replayed on the live value;
        # draws are compared with what the uninterrupted run saw
        for j in self.journal[i]:
            self.res.probes["journal-replay"] += 1
            if j[0] == "draw":
                if not self.draw_live(i, j[1], j[2], j[3], "replayed draws"):
                    return
            else:
                mutate_one(self.live[i], j[1])
        self.compare(i, "restart")

    def draw_live(self, i, n, w, want, what):
        got = [V.draw(g, n, w) for g in rngs(self.live[i])]
        if repr(got) != repr(want):
            self.res.fail("stream-differs", f"slot {i} {what}: {got} instead of {want}")
            return False
        return True

    def op_draw(self, i, n, w):
        want = [V.draw(g, n, w) for g in rngs(self.ref[i])]
        if not want:
            return
        self.res.probes["draw"] += 1
        self.journal[i].append(["draw", n, w, want])
        self.draw_live(i, n, w, want, "draws")

    def op_mutate(self, i, m):
        if not can_mutate(self.ref[i], m) or not can_mutate(self.live[i], m):
            return
        mutate_one(self.ref[i], m)
        mutate_one(self.live[i], m)
        self.journal[i].append(["mutate", m])
        self.res.probes["mutate"] += 1
        self.compare(i, "mutation")

    def op_clock(self, t):
        self.clock.jump(t)
        self.res.probes["clock-jump"] += 1


def can_mutate(o, m):
    a = mutables(o)
    if not a:
        return False
    x = a[m % len(a)]
    return not isinstance(x, np.ndarray) or x.flags.writeable


def mutate_one(z, m):
    a = mutables(z)
    if not a:
        return
    z = a[m % len(a)]
    if isinstance(z, list):
        z.append(m) if m % 3 or not z else z.pop(0)
    elif isinstance(z, dict):
        if m % 3 or not z:
            z[f"new{m}"] = [m, None, "é"]
        else:
            del z[next(iter(z))]
    elif isinstance(z, bytearray):
        z += bytes([m % 256])
    elif isinstance(z, set):
        z.add(("new", m))
    elif isinstance(z, np.ma.MaskedArray):
        if z.flags.writeable:
            z[m % z.shape[0]] = np.ma.masked
    elif z.flags.writeable:
        z[0] = z[-1]


def kinds_in(spec):
    k = spec[0]
    names = {"rs": ["rng"], "gen": ["rng"], "sparse": ["sparse"], "masked": ["masked"], "objarray": ["object-array"],
             "npkey": ["numpy-keys"]}.get(k, [])
    yield k
    yield from names
    if k in ("array", "masked"):
        a = spec[1] if k == "masked" else spec
        if a[3] in ("F", "T"):
            yield "f-order"
        if not isinstance(a[1], str):
            yield "structured"
        elif a[1].startswith(">"):
            yield "byte-order"
    for x in spec[1:]:
        if isinstance(x, list):
            yield from _kinds_list(x)


def _kinds_list(x):
    if x and isinstance(x[0], str) and x[0] in ALLKINDS and len(x) > 1:
        yield from kinds_in(x)
    else:
        for y in x:
            if isinstance(y, list):
                yield from _kinds_list(y)


ALLKINDS = {"rep", "repdict", "list", "tuple", "set", "dict", "odict", "ddict", "array", "masked", "objarray", "rs", "gen", "sparse", "npkey",
            "npscalar", "dtype", "partial", "slice", "slicev", "bytes", "bytearray", "int", "float", "str", "bool"}
