"""Value specs: JSON descriptions of Python objects, their construction, a
strict structural comparator and the sharing (identity) comparator.

A spec is a list ``[kind, ...]``.  ``["def", n, spec]`` names the object built
from spec, ``["ref", n]`` is that same object again.
"""
from __future__ import annotations

import collections
import copy
import functools
import math
import operator
import pickle
import random
import struct
import types

import numpy as np
import scipy.sparse as sp

from .core import HarnessError

# ------------------------------------------------------------------ dtypes
NUM_DTYPES = [
    "?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "g", "c8", "c16", "G",
]
SCALAR_DTYPES = NUM_DTYPES + ["q", "Q", "l", "L", "U7", "S5", "M8[ns]", "M8[D]", "m8[s]", "M8", "m8", "p", "P"]


def to_dtype(d):
    """d: str, or {"fields": [[name, d, shape?]...], "align": bool, "offsets":..}"""
    if isinstance(d, str):
        return np.dtype(d)
    if "overlap" in d:
        return np.dtype({"names": ["a", "b"], "formats": ["i4", "i2"], "offsets": [0, 0] if d["overlap"] == 1 else [4, 0]})
    if "sub" in d:
        return np.dtype((to_dtype(d["sub"]), tuple(d["shape"])))
    fields = []
    for f in d["fields"]:
        t = to_dtype(f[1])
        if d.get("titles"):
            f = [("T " + f[0], f[0])] + f[1:]
        fields.append((f[0], t) if len(f) == 2 else (f[0], t, tuple(f[2])))
    if d.get("pad"):
        base = np.dtype(fields)
        offs, off = [], d["pad"]
        for n in base.names:
            offs.append(off)
            off += base.fields[n][0].itemsize + d["pad"]
        return np.dtype({"names": list(base.names), "formats": [base.fields[n][0] for n in base.names],
                         "offsets": offs, "itemsize": off})
    return np.dtype(fields)


def gen_dtype(rng, depth=0, structured=True):
    r = rng.random()
    if r < 0.6:
        d = rng.choice(NUM_DTYPES)
        if d not in "?" and d not in ("i1", "u1") and rng.random() < 0.3:
            d = ">" + d
        return d
    if r < 0.72:
        return rng.choice(["<", ">"]) + f"U{rng.choice([1, 2, 5, 17])}"
    if r < 0.8:
        return f"S{rng.choice([1, 3, 8, 33])}"
    if r < 0.9:
        unit = rng.choice(["", "[ns]", "[us]", "[s]", "[D]", "[M]", "[Y]", "[25s]", "[W]", "[h]"])
        return rng.choice(["<", ">"]) + rng.choice(["M8", "m8"]) + unit
    if r < 0.93 or not structured or depth > 1:
        return f"V{rng.choice([1, 3, 16])}"
    names = ["a", "b", "xyz", "é", "name with blank", "f0", "Z"]
    rng.shuffle(names)
    fields = []
    for nm in names[: rng.randint(1, 3)]:
        f = [nm, gen_dtype(rng, depth + 1)]
        if rng.random() < 0.25:
            f.append([rng.randint(1, 3) for _ in range(rng.randint(1, 2))])
        fields.append(f)
    d = {"fields": fields}
    if rng.random() < 0.25:
        d["pad"] = rng.choice([1, 4])
    elif rng.random() < 0.15:
        d["titles"] = 1
    return d


def fill(dt: np.dtype, shape, seed) -> np.ndarray:
    """Deterministic contents for any non-object dtype."""
    rng = np.random.Generator(np.random.PCG64(seed))
    a = np.zeros(shape, dtype=dt)
    n = a.size
    if n == 0:
        return a
    if dt.names:
        for k, nm in enumerate(dt.names):
            a[nm] = fill_sub(dt.fields[nm][0], a.shape, seed * 31 + k + 1)
        return a
    kind = dt.kind
    if kind == "b":
        v = rng.integers(0, 2, n).astype(bool)
    elif kind in "iu":
        info = np.iinfo(dt)
        v = rng.integers(info.min, info.max, n, dtype=dt.newbyteorder("="), endpoint=True)
        if n > 2:
            v[0], v[1] = info.min, info.max
    elif kind == "f":
        v = rng.standard_normal(n).astype(dt.newbyteorder("="))
        special = [np.nan, np.inf, -np.inf, -0.0, 0.0, np.finfo(dt).tiny, np.finfo(dt).max, np.finfo(dt).smallest_subnormal]
        for j, s in enumerate(special):
            if j * 3 < n:
                v[j * 3] = s
    elif kind == "c":
        v = (rng.standard_normal(n) + 1j * rng.standard_normal(n)).astype(dt.newbyteorder("="))
        if n > 1:
            v[0] = complex(np.nan, -0.0)
            v[1] = complex(-np.inf, np.inf)
    elif kind == "U":
        w = dt.itemsize // 4
        alpha = "ab \t\n\0é漢🎉\ud7ff/\\\"'"
        v = np.array(["".join(alpha[i] for i in rng.integers(0, len(alpha), rng.integers(0, w + 1))) for _ in range(n)],
                     dtype=f"U{max(w, 1)}")
    elif kind == "S":
        w = dt.itemsize
        v = np.array([bytes(rng.integers(0, 256, rng.integers(0, w + 1), dtype=np.uint8)) for _ in range(n)], dtype=f"S{max(w, 1)}")
    elif kind in "Mm":
        v = rng.integers(-(10**6), 10**6, n).astype("i8").view(f"{kind}8" + _unit(dt))
        if n > 1:
            v[0] = np.datetime64("NaT") if kind == "M" else np.timedelta64("NaT")
    elif kind == "V" and not dt.itemsize:
        return a
    elif kind == "V":
        raw = rng.integers(0, 256, n * dt.itemsize, dtype=np.uint8).tobytes()
        v = np.frombuffer(raw, dtype=dt)
    else:
        raise HarnessError(f"fill: {dt}")
    a[...] = np.asarray(v).reshape(a.shape)
    return a


def _unit(dt):
    s = np.datetime_data(dt)
    if s[0] == "generic":
        return ""
    return f"[{s[1]}{s[0]}]" if s[1] != 1 else f"[{s[0]}]"


def fill_sub(fdt, shape, seed):
    if fdt.subdtype:
        base, sub = fdt.subdtype
        return fill(base, tuple(shape) + sub, seed)
    return fill(fdt, shape, seed)


def make_array(dtspec, shape, layout, seed):
    dt = to_dtype(dtspec)
    a = fill(dt, tuple(shape), seed)
    if layout == "F":
        a = np.asfortranarray(a) if a.ndim else a
    elif layout == "T":
        a = np.ascontiguousarray(a).T
    elif layout == "S" and a.ndim and a.shape[-1] > 1:   # strided view
        a = a[..., ::2]
    elif layout == "N" and a.ndim and a.size:            # negative strides
        a = a[::-1]
    elif layout == "B" and a.ndim:                       # broadcast (stride 0)
        a = np.broadcast_to(a, (2,) + a.shape)
    elif layout == "R":
        a.setflags(write=False)
    return a


# ------------------------------------------------------------- bit generators
BITGENS = ["PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"]
UFUNCS = ["add", "sqrt", "exp", "maximum", "logical_and", "arctan2", "isnan"]
SP_UFUNCS = ["expit", "gamma", "logit", "erf", "xlogy"]
TYPES = {
    "int": int, "float": float, "str": str, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "set": set,
    "bytes": bytes, "complex": complex, "np.float64": np.float64, "np.int32": np.int32, "np.ndarray": np.ndarray,
    "np.bool": np.bool_, "OrderedDict": collections.OrderedDict, "np.longdouble": np.longdouble, "object": object,
    "bytearray": bytearray, "NoneType": type(None), "defaultdict": collections.defaultdict, "csr": sp.csr_matrix, "RandomState": np.random.RandomState,
}
FUNCS = {"np.sum": np.sum, "np.add": np.add, "int": int, "dict": dict, "sorted": sorted, "len": len, "np.sqrt": np.sqrt,
         "operator.add": operator.add, "math.sqrt": math.sqrt, "np.mean": np.mean}
FACTORIES = {"list": list, "dict": dict, "int": int, "set": set, "float": float, "str": str, "none": None}


def draw(rng, n, which):
    """advance a RandomState/Generator and return the values drawn"""
    out = []
    gen = isinstance(rng, np.random.Generator)
    for i in range(n):
        k = (which + i) % 5
        if k == 0:
            out.append(float(rng.random() if gen else rng.random_sample()))
        elif k == 1:
            out.append(float(rng.standard_normal()))
        elif k == 2:
            out.append(int((rng.integers if gen else rng.randint)(0, 1000, dtype=np.int32)))
        elif k == 3:
            out.append([int(x) for x in rng.permutation(5)])
        else:
            out.append(int((rng.integers if gen else rng.randint)(0, 2**31, dtype=np.uint32)))
    return out


# -------------------------------------------------------------------- build
def build(spec, env=None):
    env = {} if env is None else env
    k = spec[0]
    b = lambda s: build(s, env)  # noqa: E731
    if k == "def":
        env[spec[1]] = o = b(spec[2])
        return o
    if k == "ref":
        return env[spec[1]]
    if k == "none":
        return None
    if k == "bool":
        return bool(spec[1])
    if k == "int":
        return int_from(spec[1])
    if k == "float":
        return float.fromhex(spec[1]) if spec[1] not in ("nan", "inf", "-inf") else float(spec[1])
    if k == "str":
        return spec[1]
    if k == "list":
        return [b(s) for s in spec[1]]
    if k == "rep":       # many of a kind
        return [b(s) for _ in range(spec[1]) for s in spec[2]]
    if k == "repdict":
        return {i: b(s) for i in range(spec[1]) for s in spec[2]}
    if k == "tuple":
        return tuple([b(s) for s in spec[1]])
    if k == "set":
        return {b(s) for s in spec[1]}
    if k == "dict":
        return {b(kk): b(v) for kk, v in spec[1]}
    if k == "odict":
        return collections.OrderedDict([(b(kk), b(v)) for kk, v in spec[1]])
    if k == "ddict":
        d = collections.defaultdict(FACTORIES[spec[1]])
        for kk, v in spec[2]:
            d[b(kk)] = b(v)
        return d
    if k == "bytes":
        return bytes.fromhex(spec[1])
    if k == "bytearray":
        return bytearray.fromhex(spec[1])
    if k == "slice":
        return slice(*spec[1:4])
    if k == "slicev":
        return slice(*[b(s) for s in spec[1]])
    if k == "rec":
        return make_array(*spec[1][1:5]).view(np.recarray)
    if k == "matrix":
        return np.matrix(make_array(*spec[1][1:5]))
    if k == "masked_const":
        return np.ma.masked
    if k == "coo1d":
        n = spec[2]
        r = np.random.Generator(np.random.PCG64(spec[3]))
        idx = r.integers(0, max(n, 1), min(n, 3)).astype(np.int32)
        return sp.coo_array((np.nan_to_num(fill(to_dtype(spec[1]), (len(idx),), spec[3]), posinf=1, neginf=2), (idx,)), shape=(n,))
    if k == "array":
        return make_array(*spec[1:5])
    if k == "npscalar":
        return fill(to_dtype(spec[1]), (), spec[2])[()]
    if k == "npkey":
        return np.dtype(spec[1]).type(complex(*spec[2]) if isinstance(spec[2], list) else spec[2] if not isinstance(spec[2], str) else float(spec[2]))
    if k == "dtype":
        return to_dtype(spec[1])
    if k == "masked":
        data = make_array(*spec[1][1:5])
        opt = spec[3] if len(spec) > 3 else {}
        kw = {}
        if opt.get("fill") is not None:
            kw["fill_value"] = fill(data.dtype, (4,), opt["fill"])[opt["fill"] % 4]
        if opt.get("hard"):
            kw["hard_mask"] = True
        try:
            np.ma.MaskedArray(data)
        except ValueError:      # numpy: no fill value for records of dates
            return data
        if spec[2] is None:
            return np.ma.MaskedArray(data, **kw)
        g = np.random.Generator(np.random.PCG64(spec[2]))
        m = g.integers(0, 2, data.shape).astype(bool)
        how = opt.get("mask")
        if how == "fields" and data.dtype.names:    # each field masked on its own
            md = np.ma.make_mask_descr(data.dtype)
            raw = g.integers(0, 2, m.size * md.itemsize).astype(bool)
            m = raw.view(md).reshape(m.shape) if md.itemsize else m
        elif how == "other":                        # not in the order of the data
            m = np.asfortranarray(m) if data.flags.c_contiguous else np.ascontiguousarray(m)
        elif how == "all":
            m[...] = True
        elif how == "shrink":
            m[...] = False
        res = np.ma.MaskedArray(data, mask=m, **kw)
        if how == "pickled":                        # numpy: keeps orders that the constructor does not
            res = pickle.loads(pickle.dumps(res))
        elif how == "part" and res.ndim and len(res) > 1:
            res = res[::2]
        elif how == "transposed":
            res = res.T
        return res
    if k == "objarray":
        a = np.empty(int(np.prod(spec[1])), dtype=object)
        for i, s in enumerate(spec[2]):
            a[i] = b(s)
        a = a.reshape(spec[1])
        if len(spec) > 3 and spec[3] == "F":
            a = np.asfortranarray(a)
        return a
    if k == "rs":
        if spec[1] == "MT19937":
            r = np.random.RandomState(spec[2])
        else:
            r = np.random.RandomState(getattr(np.random, spec[1])(spec[2]))
        draw(r, spec[3], spec[4])
        return r
    if k == "gen":
        seed = spec[2]
        if isinstance(seed, str):     # bit generator without a seed sequence
            bg = np.random.RandomState(int(seed))._bit_generator
            g = np.random.Generator(bg)
            draw(g, spec[3], spec[4])
            return g
        ss = np.random.SeedSequence(seed)
        if len(spec) > 5 and spec[5]:
            ss = ss.spawn(spec[5])[-1]
        g = np.random.Generator(getattr(np.random, spec[1])(ss))
        draw(g, spec[3], spec[4])
        if len(spec) > 6 and spec[6]:
            g.spawn(spec[6])
        return g
    if k == "sparse":
        return make_sparse(*spec[1:])
    if k == "ufunc":
        import scipy.special
        mod, _, name = spec[1].partition(".")
        return getattr(np if mod == "np" else scipy.special, name)
    if k == "stringdtype":
        return np.array(spec[1], dtype=np.dtypes.StringDType())
    if k == "type":
        return TYPES[spec[1]]
    if k == "func":
        return FUNCS[spec[1]]
    if k == "partial":
        p = functools.partial(b(spec[1]), *[b(s) for s in spec[2]], **{kk: b(v) for kk, v in spec[3]})
        for kk, v in spec[4] if len(spec) > 4 else ():
            setattr(p, kk, b(v))
        return p
    if k == "method":
        return getattr(b(spec[1]), spec[2])
    if k == "chars":        # code points (JSON merges surrogate pairs)
        return "".join(map(chr, spec[1]))
    if k == "gens_shared":
        bg = np.random.PCG64(spec[1])
        return [np.random.Generator(bg), np.random.Generator(bg)]
    if k == "attrgetter":
        return operator.attrgetter(*spec[1])
    if k == "itemgetter":
        return operator.itemgetter(*[b(s) for s in spec[1]])
    if k == "view":
        return make_view(b(spec[1]), spec[2])
    if k in EXTRA_BUILD:
        return EXTRA_BUILD[k](spec, b)
    raise HarnessError(f"unknown spec {k}")


EXTRA_BUILD = {}


def make_view(o, n):
    """Another object on top of the same memory or the same parts."""
    if isinstance(o, np.ndarray):
        ways = [lambda: o[...], lambda: o.view(), lambda: o.T]
        if o.ndim:
            ways += [lambda: o[::-1], lambda: o[: o.shape[0] // 2 + 1], lambda: o.reshape(-1)]
        return ways[n % len(ways)]()
    if sp.issparse(o):
        if n % 2:
            return o.T
        x = o.copy()
        x.data = o.data
        if o.format in ("csr", "csc"):
            x.indices = o.indices[::-1].copy()
            x.has_sorted_indices = x.has_canonical_format = False
        elif o.format == "dia":
            x.offsets = -o.offsets
        elif o.format == "coo" and len(o.shape) == 2 and o.shape[0] == o.shape[1]:
            x = type(o)((o.data, (o.col, o.row)), shape=o.shape, copy=False)
        return x
    if isinstance(o, (np.random.Generator, np.random.RandomState)):
        return o
    return copy.copy(o)


def int_from(s):
    if isinstance(s, int):
        return s
    if s.startswith("bigint:"):
        return 10 ** int(s[7:])
    return int(s, 16)   # hex: no digit limit


def make_sparse(fmt, kind, dt, shape, seed, flags=""):
    rng = np.random.Generator(np.random.PCG64(seed))
    m, n = shape
    nnz = int(rng.integers(0, max(1, m * n) + 1)) if m * n else 0
    dtype = to_dtype(dt)
    data = fill(dtype, (nnz,), seed)
    row = rng.integers(0, max(m, 1), nnz).astype(np.int32)
    col = rng.integers(0, max(n, 1), nnz).astype(np.int32)
    if dtype.kind in "fc" and "n" not in flags and nnz:
        data = np.nan_to_num(data, nan=1.5, posinf=2.0, neginf=-3.0)
    cls = getattr(sp, f"{fmt}_{kind}")
    coo = getattr(sp, f"coo_{kind}")((data, (row, col)), shape=(m, n))
    if fmt == "coo":
        x = coo                     # duplicates kept
    elif fmt == "bsr":
        if m % 2 == 0 and n % 2 == 0 and m and n and dtype.kind in "fiu":
            x = coo.tocsr().tobsr(blocksize=(2, 2))
        else:
            x = coo.tobsr(blocksize=(1, 1))
    else:
        x = coo.asformat(fmt)
    if type(x) is not cls:
        x = cls(x)
    if "z" in flags and getattr(x, "data", None) is not None and x.data.size:
        x.data.flat[0] = 0          # explicit zero
    if "u" in flags and fmt in ("csr", "csc") and x.nnz:
        # unsorted indices: reverse each compressed row
        for i in range(len(x.indptr) - 1):
            s, e = x.indptr[i], x.indptr[i + 1]
            x.indices[s:e] = x.indices[s:e][::-1].copy()
            x.data[s:e] = x.data[s:e][::-1].copy()
        x.has_sorted_indices = False
    return x


# --------------------------------------------------------------- comparator
SEED_SEQ = True   # compare seed sequences of Generators


def diff(a, b, path="$", seen=None, layout=True):
    """None if b is a faithful copy of a, else a description of the first
    difference (type identity, key types and order, dtype, shape, values)."""
    seen = {} if seen is None else seen
    key = (id(a), id(b))
    if key in seen:
        return None
    seen[key] = (a, b)
    rec = lambda x, y, p: diff(x, y, path + p, seen, layout)  # noqa: E731
    if type(a) is not type(b):
        return f"{path}: type {type(a).__module__}.{type(a).__qualname__} became {type(b).__module__}.{type(b).__qualname__}"
    t = type(a)
    if a is None or t in (bool, int, str, bytes, bytearray):
        return None if a == b else f"{path}: {short(a)} became {short(b)}"
    if t is float:
        return None if struct.pack("d", a) == struct.pack("d", b) or (a != a and b != b) else f"{path}: {a!r} became {b!r}"
    if t is complex:
        return rec(a.real, b.real, ".real") or rec(a.imag, b.imag, ".imag")
    if t in (list, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = rec(x, y, f"[{i}]")
            if d:
                return d
        return None
    if t is set:
        if len(a) != len(b):
            return f"{path}: set of {len(a)} became set of {len(b)}"
        ka = sorted(a, key=_setkey)
        kb = sorted(b, key=_setkey)
        for x, y in zip(ka, kb):
            d = rec(x, y, "{}")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if t is collections.defaultdict and a.default_factory is not b.default_factory:
            return f"{path}: default_factory {a.default_factory} became {b.default_factory}"
        if len(a) != len(b):
            return f"{path}: {len(a)} entries became {len(b)}: {short(list(a))} -> {short(list(b))}"
        for (ka, va), (kb, vb) in zip(a.items(), b.items()):
            d = rec(ka, kb, f".key({short(ka)})") or rec(va, vb, f"[{short(ka)}]")
            if d:
                return d
        return None
    if t is slice:
        return rec(a.start, b.start, ".start") or rec(a.stop, b.stop, ".stop") or rec(a.step, b.step, ".step")
    if a is np.ma.masked or b is np.ma.masked:
        return None if a is b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, np.ma.MaskedArray):
        ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        return (rec(np.asarray(a.data), np.asarray(b.data), ".data")
                or rec(np.asarray(ma), np.asarray(mb), ".mask")
                or diff_fill(a, b, path)
                or (f"{path}: hardmask {a.hardmask} became {b.hardmask}" if a.hardmask != b.hardmask else None))
    if isinstance(a, np.ndarray):
        return diff_array(a, b, path, rec, layout)
    if isinstance(a, np.generic):
        if a.dtype != b.dtype:
            return f"{path}: scalar dtype {a.dtype} became {b.dtype}"
        return None if same_bytes(np.asarray(a), np.asarray(b)) else f"{path}: {a!r} became {b!r}"
    if isinstance(a, np.dtype):
        return diff_dtype(a, b, path)
    if isinstance(a, np.random.RandomState):
        d = rec(rs_state(a), rs_state(b), ".state")
        if d:
            return d
        x, y = copy.deepcopy(a), copy.deepcopy(b)
        return None if draw(x, 5, 0) == draw(y, 5, 0) else f"{path}: random stream differs"
    if isinstance(a, np.random.Generator):
        d = rec(a.bit_generator.state, b.bit_generator.state, ".state")
        if d:
            return d
        x, y = copy.deepcopy(a), copy.deepcopy(b)
        if draw(x, 5, 0) != draw(y, 5, 0):
            return f"{path}: random stream differs"
        sa, sb = getattr(a.bit_generator, "seed_seq", None), getattr(b.bit_generator, "seed_seq", None)
        if SEED_SEQ and type(sa) is np.random.SeedSequence:
            if type(sb) is not type(sa):
                return f"{path}: seed sequence lost"
            return rec(sa.state, sb.state, ".seed_seq")
        return None
    if sp.issparse(a):
        return diff_sparse(a, b, path, rec)
    if isinstance(a, (np.ufunc, type)) or callable(a) and not hasattr(a, "__dict__") and t.__name__ == "builtin_function_or_method":
        return None if a is b else f"{path}: {a!r} became {b!r}"
    if t is types.MethodType:
        return rec(a.__func__.__name__, b.__func__.__name__, ".func") or rec(a.__self__, b.__self__, ".self")
    if t is functools.partial:
        return rec(a.func, b.func, ".func") or rec(a.args, b.args, ".args") or rec(a.keywords, b.keywords, ".kw") or rec(vars(a), vars(b), ".__dict__")
    if t in (operator.attrgetter, operator.itemgetter):
        return rec(a.__reduce__()[1], b.__reduce__()[1], ".items")
    if t.__module__.partition(".")[0] == "sklearn" or t in EXTRA_DICT_TYPES:
        if hasattr(a, "__getstate__") and not hasattr(a, "__dict__"):
            return rec(a.__getstate__(), b.__getstate__(), ".state")
        return rec(dict(vars(a)), dict(vars(b)), ".__dict__")
    if t.__module__ in ("_loss", "sklearn._loss._loss") or t.__module__.endswith("._loss"):
        return rec(tuple(a.__reduce__()[1]), tuple(b.__reduce__()[1]), ".reduce")
    if hasattr(a, "__code__") or t.__name__ in ("function", "_ArrayFunctionDispatcher", "cython_function_or_method"):
        return None if a is b else f"{path}: {a!r} became {b!r}"
    raise HarnessError(f"diff: no rule for {t}")


EXTRA_DICT_TYPES = set()


def diff_fill(a, b, path):
    """the fill value, compared without making numpy materialise the default"""
    def get(m):
        if m._fill_value is None:
            return None
        try:
            return copy.copy(m).fill_value
        except Exception:       # numpy has no usable default for this dtype
            return None

    fa, fb = get(a), get(b)
    if fa is None or fb is None:
        # one side uses the default implicitly: the other must be the default
        f = fb if fa is None else fa
        if f is None or str(f) == str(np.ma.default_fill_value(a)):
            return None
        try:
            with np.errstate(all="ignore"):
                d = np.asarray(np.ma.default_fill_value(a)).astype(a.dtype, casting="unsafe")
            if same_bytes(np.asarray(f).astype(a.dtype), d):
                return None
        except Exception:
            return None
        return f"{path}: fill value {fa!r} became {fb!r}"
    # numpy may keep the default uncast, e.g. 999999 for int16
    with np.errstate(all="ignore"):
        xa, xb = (np.asarray(f).astype(a.dtype, casting="unsafe") for f in (fa, fb))
    if not same_bytes(xa, xb):
        return f"{path}: fill value {fa!r} became {fb!r}"
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 60 else s[:57] + "..."


def _setkey(x):
    if isinstance(x, tuple):
        return ("tuple", tuple(_setkey(y) for y in x))
    return (type(x).__name__, repr(x))


def rs_state(r):
    s = r.get_state(legacy=False)
    return s


def diff_dtype(a, b, path):
    if a != b or a.str != b.str or a.descr != b.descr if a.names is None else a != b:
        return f"{path}: dtype {a!r} became {b!r}"
    if a.itemsize != b.itemsize or a.subdtype != b.subdtype:
        return f"{path}: dtype {a!r} became {b!r}"
    return None


def same_bytes(a, b):
    """bitwise equality of same-dtype arrays, ignoring NaN payload sign noise is
    NOT allowed: np.save keeps bits, so bits are compared (void padding aside)"""
    if a.dtype.names:
        return all(same_bytes(np.asarray(a[n]), np.asarray(b[n])) for n in a.dtype.names)
    if a.dtype.kind in "gGfc" and a.dtype.char in "gG":
        # long double has padding bytes
        ra, rb = (a.real, b.real), (a.imag, b.imag)
        for x, y in (ra, rb):
            nx, ny = np.isnan(x), np.isnan(y)
            if not np.array_equal(nx, ny):
                return False
            if not np.array_equal(np.where(nx, 0, x), np.where(nx, 0, y)):
                return False
            if not np.array_equal(np.signbit(x) & ~nx, np.signbit(y) & ~nx):
                return False
        return True
    return a.tobytes("C") == b.tobytes("C")


def diff_array(a, b, path, rec, layout):
    if a.dtype != b.dtype or a.dtype.str != b.dtype.str:
        return f"{path}: dtype {a.dtype!r} became {b.dtype!r}"
    if a.dtype.names is not None and diff_dtype(a.dtype, b.dtype, path):
        return diff_dtype(a.dtype, b.dtype, path)
    if a.shape != b.shape:
        return f"{path}: shape {a.shape} became {b.shape}"
    if a.dtype == object:
        for i, (x, y) in enumerate(zip(a.ravel("C").tolist() if a.ndim else [a.item()],
                                       b.ravel("C").tolist() if b.ndim else [b.item()])):
            d = rec(x, y, f"[#{i}]")
            if d:
                return d
        return None
    if not same_bytes(a, b):
        return f"{path}: array contents differ ({a.dtype}, {a.shape})"
    if layout:
        if a.flags.c_contiguous and not b.flags.c_contiguous or (
            a.flags.f_contiguous and not b.flags.f_contiguous
        ):
            return (f"{path}: layout C={a.flags.c_contiguous},F={a.flags.f_contiguous} became "
                    f"C={b.flags.c_contiguous},F={b.flags.f_contiguous}")
    return None


def diff_sparse(a, b, path, rec):
    if a.format != b.format or a.shape != b.shape or a.dtype != b.dtype:
        return f"{path}: sparse {a.format} {a.shape} {a.dtype} became {b.format} {b.shape} {b.dtype}"
    attrs = {"csr": ("data", "indices", "indptr"), "csc": ("data", "indices", "indptr"),
             "bsr": ("data", "indices", "indptr"), "coo": ("data", "row", "col") if len(a.shape) == 2 else ("data", "col"), "dia": ("data", "offsets")}[a.format]
    for at in attrs:
        x, y = getattr(a, at), getattr(b, at)
        if x.shape != y.shape or x.dtype != y.dtype or not same_bytes(np.asarray(x), np.asarray(y)):
            return f"{path}: sparse {a.format} attribute {at} differs"
    return None


# ----------------------------------------------------------------- sharing
MUTABLE = (list, dict, set, bytearray, np.ndarray, np.random.BitGenerator, np.random.RandomState, np.random.Generator, sp.spmatrix, sp.sparray)


def children(o):
    """(label, child) pairs of the parts that persistence is about."""
    if isinstance(o, dict):
        return [(f"[{short(k)}]", v) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [(f"[{i}]", v) for i, v in enumerate(o)]
    if isinstance(o, np.ma.MaskedArray):
        return []
    if isinstance(o, np.ndarray) and o.dtype == object:
        return [(f"[#{i}]", v) for i, v in enumerate(o.ravel().tolist())]
    if isinstance(o, functools.partial):
        return [(".func", o.func), (".args", o.args), (".kw", o.keywords), (".__dict__", vars(o))]
    if isinstance(o, types.MethodType):
        return [(".self", o.__self__)]
    if isinstance(o, np.random.Generator):
        return [(".bit_generator", o.bit_generator)]
    if type(o).__module__.partition(".")[0] == "sklearn" and hasattr(o, "__dict__"):
        return [(f".{k}", v) for k, v in vars(o).items()]
    if type(o) in EXTRA_DICT_TYPES:
        return [(f".{k}", v) for k, v in vars(o).items()]
    return []


def is_mutable(o):
    return isinstance(o, MUTABLE) or hasattr(o, "get_params") or type(o) in EXTRA_DICT_TYPES


def sharing_diff(a, b):
    """The identity partition of a must be that of b (mutable objects only)."""
    fwd, bwd = {}, {}
    stack = [("$", a, b)]
    done = set()
    while stack:
        path, x, y = stack.pop()
        if is_mutable(x):
            kx, ky = id(x), id(y)
            if kx in fwd and fwd[kx][0] != ky:
                return f"shared object split: {fwd[kx][1]} and {path} were one {type(x).__name__}, now two"
            if ky in bwd and bwd[ky][0] != kx:
                return f"distinct objects merged: {bwd[ky][1]} and {path} were two {type(x).__name__}, now one"
            fwd[kx] = (ky, path)
            bwd[ky] = (kx, path)
        key = (id(x), id(y))
        if key in done:
            continue
        done.add(key)
        cx, cy = children(x), children(y)
        for (l, u), (_, v) in reversed(list(zip(cx, cy))):
            stack.append((path + l, u, v))
    return None


# --------------------------------------------------------------- generators
STR_POOL = ["", "a", "1", "key", "é", "漢字", "🎉", "with blank", "nul\0mid", "line\nbreak", "\u2028", "a/b", "content",
            "__class__", "__id__", "0.5", "nan", "None", "True", "\ud800", "\"quoted\"", "\\", "x" * 300]


def g_str(rng):
    if rng.random() < 0.7:
        return rng.choice(STR_POOL)
    return "".join(rng.choice("abcXYZ019 _-é漢\t\n\0\x1f\x7f'\"\\") for _ in range(rng.randint(0, 12)))


def g_float(rng):
    r = rng.random()
    if r < 0.3:
        x = rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 1e22, 0.1, -1.5, 1e16, 123456789.123456789])
    else:
        x = struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0] if r < 0.6 else rng.uniform(-10, 10)
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def g_int(rng):
    r = rng.random()
    if r < 0.5:
        return rng.randint(-5, 300)
    if r < 0.9:
        return hex(rng.choice([1, -1]) * rng.getrandbits(rng.choice([31, 32, 53, 63, 64, 65, 128, 300])))
    return hex(rng.getrandbits(rng.choice([1000, 5000, 14000])) + 1)


def g_scalar(rng):
    r = rng.random()
    if r < 0.12:
        return ["none"]
    if r < 0.24:
        return ["bool", rng.random() < 0.5]
    if r < 0.5:
        return ["int", g_int(rng)]
    if r < 0.75:
        return ["float", g_float(rng)]
    return ["str", g_str(rng)]


NPKEYS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", "q", "Q", "c8", "c16", "G"]


def g_key(rng, kinds):
    k = rng.choice(kinds)
    if k == "str":
        return ["str", g_str(rng)]
    if k == "int":
        return ["int", g_int(rng)]
    if k == "float":
        return ["float", g_float(rng)]
    if k == "bool":
        return ["bool", rng.random() < 0.5]
    if k == "none":
        return ["none"]
    if k == "nan":
        return rng.choice([["float", "nan"], ["float", "nan"], ["npkey", "f8", "nan"], ["npkey", "f4", "nan"]])
    if k == "clash":      # keys whose JSON names would coincide
        if KEYS_EXTRA and rng.random() < 0.3:
            return rng.choice([["bool", True], ["none"], ["npkey", "?", 1]])
        return rng.choice([["int", 1], ["str", "1"], ["float", (1.5).hex()], ["str", "1.5"], ["npkey", "f4", 1.5], ["float", "nan"],
                           ["str", "nan"], ["str", "NaN"], ["str", "true"], ["str", "null"],
                           ["npkey", "i8", 2], ["str", "2"], ["float", "inf"], ["str", "Infinity"], ["npkey", "f8", "nan"],
                           ["str", "keys"], ["str", "content"], ["int", "-0x1"], ["str", "-1"]])
    dt = rng.choice(NPKEYS)
    if dt[0] in "iu":
        v = rng.randint(0, 100)
    elif dt in "qQ?":
        v = rng.randint(0, 1 if dt == "?" else 3)
    elif dt in ("c8", "c16", "G"):
        v = [rng.choice([0.5, 1.0, -2.0]), rng.choice([0.0, 1.5])]
    else:
        v = rng.choice([0.5, 1.25, -2.0, 3.0, 1e3, 0.1, "nan", "inf", "-inf"])
    return ["npkey", dt, v]


KEYS_EXTRA = False      # bool and None keys (beyond C05's statement)


def g_items(rng, depth, fam, kinds=None):
    kinds = kinds or rng.choice([["str"], ["int"], ["float"], ["str", "int"], ["np"], ["str", "int", "float", "np"], ["clash"], ["clash", "int"],
                                 ["nan", "str"]])
    n = rng.choice([0, 1, 2, 3, 5])
    return [[g_key(rng, kinds), g_value(rng, depth - 1, fam)] for _ in range(n)]


def g_hashable(rng, depth=1):
    r = rng.random()
    if r < 0.8 or depth == 0:
        s = g_scalar(rng)
        return s
    if r < 0.9:
        return ["bytes", rng.randbytes(rng.randint(0, 5)).hex()]
    return ["tuple", [g_hashable(rng, depth - 1) for _ in range(rng.randint(0, 3))]]


def g_bytes(rng):
    b = rng.randbytes(rng.choice([0, 1, 7, 300]))
    if rng.random() < 0.5:       # contents that text or C-string handling would change
        pad = [b"\0", b"\0\0\0", b"\n", b"\r\n", b" ", b"\x1a", b"\xff\xfe", b"\xef\xbb\xbf", b"PK\x05\x06", b"{}", b"\x93NUMPY"]
        b = rng.choice([b"", rng.choice(pad)]) + b + rng.choice(pad)
    return b


def g_array(rng, structured=True, big=False):
    nd = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 4])
    shape = [rng.choice([0, 1, 1, 2, 3, 4, 5, 7]) for _ in range(nd)]
    if big and rng.random() < 0.1:
        shape = [rng.choice([1000, 20000])]
    layout = rng.choice(["C", "C", "F", "F", "T", "S", "N", "B", "R"])
    dt = gen_dtype(rng, structured=structured)
    if structured and rng.random() < 0.04:
        dt = rng.choice(["U0", "S0", "V0", {"fields": []}, {"fields": [["a", "<i4"], ["b", "S0"]]}])
    return ["array", dt, shape, layout, rng.getrandbits(30)]


def g_objarray(rng):
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    shape = [rng.randint(1, 3) for _ in range(nd)]
    n = 1
    for s in shape:
        n *= s
    cells = []
    for _ in range(n):
        c = rng.random()
        if c < 0.7:
            cells.append(g_scalar(rng))
        else:
            cells.append(["str", g_str(rng)] if c < 0.8 else ["none"] if c < 0.9 else g_npscalar(rng))
    return ["objarray", shape, cells, rng.choice(["C", "C", "F"])]


def g_masked(rng):
    return ["masked", g_array(rng, structured=rng.random() < 0.2), rng.choice([None, rng.getrandbits(20), rng.getrandbits(20)]),
            {"fill": rng.choice([None, None, rng.getrandbits(10)]), "hard": rng.random() < 0.25,
             **({"mask": rng.choice(["fields", "other", "all", "shrink", "pickled", "part", "transposed"])} if rng.random() < 0.4 else {})}]


def g_npscalar(rng):
    dt = rng.choice(SCALAR_DTYPES)
    return ["npscalar", dt, rng.getrandbits(30)]


def g_sparse(rng):
    if rng.random() < 0.05:
        return ["coo1d", rng.choice(["f8", "f4", "i8", "c16"]), rng.choice([1, 4, 9]), rng.getrandbits(20)]
    fmt = rng.choice(["csr", "csc", "coo", "bsr", "dia"])
    kind = rng.choice(["matrix", "array"])
    dt = rng.choice(["f8", "f8", "f4", "i8", "i4", "?", "c16", "u1", "i2", "c8"])
    if fmt == "bsr" and dt == "?":
        dt = "f8"
    shape = [rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4, 6])]
    if rng.random() < 0.08 and fmt in ("csr", "csc", "coo"):
        shape[rng.randrange(2)] = 0
    flags = "".join(c for c in "znu" if rng.random() < 0.25)
    return ["sparse", fmt, kind, dt, shape, rng.getrandbits(30), flags]


def g_rng(rng):
    if rng.random() < 0.4:
        bg = "MT19937" if rng.random() < 0.6 else rng.choice(BITGENS)
        return ["rs", bg, rng.getrandbits(32), rng.randint(0, 700) if rng.random() < 0.2 else rng.randint(0, 7), rng.randint(0, 4)]
    seed = rng.choice([rng.getrandbits(32), rng.getrandbits(128)])
    if rng.random() < 0.1:
        return ["gen", "MT19937", str(rng.getrandbits(31)), rng.randint(0, 7), rng.randint(0, 4), 0]
    return ["gen", rng.choice(BITGENS), seed, rng.randint(0, 7), rng.randint(0, 4), rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 0, 2])]


def g_callable(rng):
    r = rng.random()
    if r < 0.2:
        return ["ufunc", rng.choice(["np." + u for u in UFUNCS] + ["sp." + u for u in SP_UFUNCS])]
    if r < 0.4:
        return ["type", rng.choice(sorted(set(TYPES) - {"NoneType"}))]
    if r < 0.7:
        def part(func):
            p = ["partial", func, [g_value(rng, 1, "plain") for _ in range(rng.randint(0, 2))],
                 [[rng.choice(["axis", "k", "a"]), g_value(rng, 1, "plain")]][: rng.randint(0, 1)]]
            return p + [[["note", g_value(rng, 1, "plain")]]] if rng.random() < 0.3 else p
        p = part(["func", rng.choice(sorted(FUNCS))])
        return part(p) if rng.random() < 0.3 else p
    if r < 0.85:
        return ["attrgetter", rng.sample(["a", "b.c", "shape", "é"], rng.randint(1, 3))]
    return ["itemgetter", [g_hashable(rng, 0) if rng.random() < 0.7 else ["slice", None, 3, None] for _ in range(rng.randint(1, 3))]]


def g_value(rng, depth, fam="all"):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        if fam == "plain":
            return g_scalar(rng)
        r2 = rng.random()
        if r2 < 0.3:
            return g_scalar(rng)
        if r2 < 0.5:
            a = g_array(rng)
            if rng.random() < 0.06:
                if not isinstance(a[1], str):
                    return ["rec", a[:3] + ["C"] + a[4:]]
                if len(a[2]) <= 2 and a[3] == "C" and a[2]:
                    return ["matrix", a]
            return a
        if r2 < 0.56:
            return g_npscalar(rng)
        if r2 < 0.62:
            return ["dtype", {"sub": gen_dtype(rng), "shape": [rng.randint(1, 3) for _ in range(rng.randint(1, 2))]}
                    if rng.random() < 0.15 else gen_dtype(rng)]
        if r2 < 0.68:
            return g_masked(rng)
        if r2 < 0.74:
            return g_objarray(rng)
        if r2 < 0.80:
            return g_rng(rng)
        if r2 < 0.87:
            return g_sparse(rng)
        if r2 < 0.92:
            return g_callable(rng)
        if r2 < 0.96:
            return [rng.choice(["bytes", "bytearray"]), g_bytes(rng).hex()]
        if rng.random() < 0.35:
            return ["slicev", [rng.choice([["none"], g_scalar(rng), g_npscalar(rng), ["tuple", [g_scalar(rng)]], ["list", []]]) for _ in range(3)]]
        return ["slice"] + [rng.choice([None, 0, 1, -1, 5, 2**70]) for _ in range(3)]
    if r < 0.45:
        return ["list", [g_value(rng, depth - 1, fam) for _ in range(rng.choice([0, 1, 2, 3]))]]
    if r < 0.6:
        return ["tuple", [g_value(rng, depth - 1, fam) for _ in range(rng.choice([0, 1, 2, 3]))]]
    if r < 0.66:
        return ["set", [g_hashable(rng) for _ in range(rng.randint(0, 4))]]
    if r < 0.84:
        return ["dict", g_items(rng, depth, fam)]
    if r < 0.92:
        return ["odict", g_items(rng, depth, fam)]
    return ["ddict", rng.choice(sorted(FACTORIES)), g_items(rng, depth, fam)]


# ---------------------------------------------------------------- shrinking
def shrink_spec(spec):
    """Smaller specs (same position in the tree)."""
    k = spec[0]
    yield from _replace_with_child(spec)
    if k in ("rep", "repdict"):
        if spec[1] > 3:
            yield [k, spec[1] // 2, spec[2]]
            yield [k, spec[1] - 1, spec[2]]
    elif k in ("list", "tuple", "set"):
        for i in range(len(spec[1])):
            yield [k, spec[1][:i] + spec[1][i + 1:]]
        for i, s in enumerate(spec[1]):
            for c in shrink_spec(s):
                yield [k, spec[1][:i] + [c] + spec[1][i + 1:]]
    elif k in ("dict", "odict"):
        for it in _shrink_items(spec[1]):
            yield [k, it]
        if k == "odict":
            yield ["dict", spec[1]]
    elif k == "ddict":
        for it in _shrink_items(spec[2]):
            yield [k, spec[1], it]
        if spec[1] != "none":
            yield [k, "int", spec[2]]
    elif k == "array":
        _, dt, shape, lay, seed = spec
        for i in range(len(shape)):
            yield [k, dt, shape[:i] + shape[i + 1:], lay, seed]
            if shape[i] > 1:
                yield [k, dt, shape[:i] + [shape[i] // 2] + shape[i + 1:], lay, seed]
        if seed:
            yield [k, dt, shape, lay, 0]
            yield [k, dt, shape, "C", seed]
        if not isinstance(dt, str):
            for f in dt.get("fields", []):
                yield [k, f[1], shape, lay, seed]
    elif k == "dtype" and not isinstance(spec[1], str):
        for f in spec[1].get("fields", []):
            yield [k, f[1]]
    elif k == "slicev":
        for i in range(3):
            if spec[1][i] != ["none"]:
                yield [k, spec[1][:i] + [["none"]] + spec[1][i + 1:]]
    elif k in ("rec", "matrix"):
        for c in shrink_spec(spec[1]):
            if c[0] == "array" and c[3] == "C":
                yield [k, c]
    elif k == "masked":
        yield spec[1]
        if len(spec) > 3 and spec[3] != {}:
            yield [*spec[:3], {}]
        for c in shrink_spec(spec[1]):
            if c[0] == "array":
                yield [k, c, *spec[2:]]
    elif k == "objarray":
        if len(spec[1]) == 1:
            for i in range(len(spec[2])):
                if len(spec[2]) > 1:
                    yield [k, [len(spec[2]) - 1], spec[2][:i] + spec[2][i + 1:], *spec[3:]]
        for i, s in enumerate(spec[2]):
            if s != ["none"]:
                yield [k, spec[1], spec[2][:i] + [["none"]] + spec[2][i + 1:], *spec[3:]]
    elif k in ("rs", "gen"):
        yield [k, spec[1], 1, spec[3], *spec[4:]]
        yield [k, spec[1], spec[2], 0, *spec[4:]]
    elif k == "sparse":
        yield [*spec[:5], 0, *spec[6:]]
        yield [*spec[:4], [1, 1], *spec[5:]]
        yield [*spec[:6], ""]
    elif k == "str":
        s = spec[1]
        if len(s) > 1:
            yield [k, s[: len(s) // 2]]
            yield [k, s[len(s) // 2:]]
    elif k == "partial":
        for i in range(len(spec[2])):
            yield [k, spec[1], spec[2][:i] + spec[2][i + 1:], *spec[3:]]
        if spec[3]:
            yield [k, spec[1], spec[2], [], *spec[4:]]
        if len(spec) > 4:
            yield spec[:4]
        if spec[1][0] == "partial":
            yield spec[1]
    elif k == "def":
        for c in shrink_spec(spec[2]):
            yield [k, spec[1], c]
    elif k == "view":
        for c in shrink_spec(spec[1]):
            yield [k, c, spec[2]]
    elif k in ("est",):
        for i in range(len(spec[2])):
            yield [k, spec[1], spec[2][:i] + spec[2][i + 1:], *spec[3:]]
            for c in shrink_spec(spec[2][i][1]):
                yield [k, spec[1], spec[2][:i] + [[spec[2][i][0], c]] + spec[2][i + 1:], *spec[3:]]


def _shrink_items(items):
    for i in range(len(items)):
        yield items[:i] + items[i + 1:]
    for i, (kk, v) in enumerate(items):
        for c in shrink_spec(v):
            yield items[:i] + [[kk, c]] + items[i + 1:]


def _replace_with_child(spec):
    k = spec[0]
    if k in ("none",):
        return
    kids = []
    if k in ("list", "tuple", "set"):
        kids = spec[1]
    elif k in ("dict", "odict"):
        kids = [v for _, v in spec[1]]
    elif k == "ddict":
        kids = [v for _, v in spec[2]]
    elif k == "objarray":
        kids = spec[2]
    for c in kids:
        if valid_refs(c):
            yield c
    if valid_refs(["none"]) and k not in ("bool",):
        yield ["none"]


def refs(spec, defs=None, used=None):
    """(defined names, names used before being defined)"""
    defs = set() if defs is None else defs
    bad = set() if used is None else used

    def walk(s):
        if isinstance(s, list):
            if s and s[0] == "def":
                walk(s[2])
                defs.add(s[1])
                return
            if s and s[0] == "ref" and len(s) == 2:
                if s[1] not in defs:
                    bad.add(s[1])
                return
            for x in s:
                walk(x)

    walk(spec)
    return defs, bad


def valid_refs(spec):
    return not refs(spec)[1]


# ------------------------------------------------- estimators and user classes
def _fixtures():
    from . import fixtures
    return fixtures


def _build_obj(spec, b):
    cls = getattr(_fixtures(), spec[1])
    return cls(**{k: b(v) for k, v in spec[2]})


def _est_class(name):
    import sklearn.calibration, sklearn.cluster, sklearn.compose, sklearn.dummy, sklearn.ensemble, sklearn.impute  # noqa
    import sklearn.linear_model, sklearn.naive_bayes, sklearn.neighbors, sklearn.pipeline, sklearn.preprocessing, sklearn.svm, sklearn.tree  # noqa
    import sklearn.decomposition, sklearn.feature_selection, sklearn.model_selection  # noqa
    for m in (sklearn.linear_model, sklearn.tree, sklearn.ensemble, sklearn.preprocessing, sklearn.pipeline, sklearn.compose,
              sklearn.cluster, sklearn.dummy, sklearn.svm, sklearn.naive_bayes, sklearn.neighbors, sklearn.impute,
              sklearn.decomposition, sklearn.feature_selection, sklearn.model_selection):
        if hasattr(m, name):
            return getattr(m, name)
    raise HarnessError(name)


def _build_est(spec, b):
    est = _est_class(spec[1])(**{k: b(v) for k, v in spec[2]})
    if len(spec) > 3 and spec[3] is not None:
        rng = np.random.RandomState(spec[3])
        X = np.abs(rng.rand(12, 3))
        y = np.arange(12) % 2
        est.fit(X, y)
    return est


EXTRA_BUILD["obj"] = _build_obj
EXTRA_BUILD["est"] = _build_est


def _register():
    f = _fixtures()
    EXTRA_DICT_TYPES.update([f.Plain, f.Stateful, f.Other])


_register()

FITTABLE = ["LogisticRegression", "DecisionTreeClassifier", "RandomForestClassifier", "StandardScaler", "GaussianNB",
            "Ridge", "SGDClassifier", "LinearSVC", "DummyClassifier", "SimpleImputer", "PCA", "KMeans", "SelectKBest",
            "GradientBoostingClassifier", "MinMaxScaler", "OneHotEncoder", "SVC"]


def g_est(rng, fit=True):
    """an sklearn estimator, possibly composed"""
    r = rng.random()
    if r < 0.6:
        name = rng.choice(FITTABLE)
        params = {"RandomForestClassifier": [["n_estimators", ["int", 2]]], "GradientBoostingClassifier": [["n_estimators", ["int", 2]]],
                  "KMeans": [["n_clusters", ["int", 2]], ["n_init", ["int", 1]]],
                  "SelectKBest": [["k", ["int", 2]]]}.get(name, [])
        if name == "LogisticRegression" and rng.random() < 0.5:
            params = [["C", ["float", (0.5).hex()]], ["class_weight", ["dict", [[["int", 0], ["int", 1]], [["int", 1], ["int", 2]]]]]]
        if name in ("RandomForestClassifier", "DecisionTreeClassifier", "KMeans", "SGDClassifier", "GradientBoostingClassifier"):
            params = params + [["random_state", rng.choice([["int", 3], ["rs", "MT19937", 5, 0, 0]])]]
        return ["est", name, params, rng.randint(0, 99) if fit and rng.random() < 0.6 else None]
    if r < 0.75:
        return ["est", "FunctionTransformer", [["func", rng.choice([["ufunc", "np.sqrt"], ["func", "np.sum"], ["none"]])],
                                               ["kw_args", ["dict", [[["str", "a"], g_scalar(rng)]]]]], None]
    if r < 0.9:
        return ["est", "Pipeline", [["steps", ["list", [["tuple", [["str", f"s{i}"], g_est(rng, False)]] for i in range(2)]]]], None]
    return ["est", "ColumnTransformer", [["transformers", ["list", [
        ["tuple", [["str", "t"], ["est", "StandardScaler", [], None], rng.choice([["list", [["int", 0], ["int", 1]]], ["slice", 0, 2, None]])]]]]]], None]


def g_obj(rng, depth=2):
    return ["obj", rng.choice(["Plain", "Stateful", "Other"]),
            [[rng.choice(["a", "b_", "content", "x1"]), g_value(rng, depth - 1, "all")]][: rng.randint(0, 1)]
            + [["z", g_value(rng, depth - 1, "plain")]]]
