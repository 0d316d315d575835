"""Canonical texts of outcomes: equal texts = the same result up to object ids,
uuids, addresses, scratch paths and the order of sets."""
from __future__ import annotations

import functools
import io
import json
import re
import types
import zipfile

import numpy as np

from .core import jdump


# ------------------------------------------------------------------- arrays
def dtype_text(dt):
    t = repr(dt)
    return t + (f" meta {sorted(map(str, dt.metadata))}" if dt.metadata else "")


def raw(a):
    """bytes of the elements without the padding of structured types"""
    if a.dtype.names is not None:
        return "{" + ",".join(f"{n}:{raw(a[n])}" for n in a.dtype.names) + "}"
    if a.dtype.subdtype is not None:
        return raw(np.asarray(a))
    a = np.ascontiguousarray(a)
    if a.dtype.char in "gG":        # (padding of the x87 format)
        b = np.frombuffer(a.tobytes(), "u1").reshape(-1, np.dtype("g").itemsize)
        return b[:, :10].tobytes().hex()
    return a.tobytes().hex()


def array_text(a, rec=None):
    head = f"{type(a).__name__} {dtype_text(a.dtype)} {a.shape} {'F' if a.flags.f_contiguous and not a.flags.c_contiguous else 'C'} w{int(a.flags.writeable)} "
    if a.dtype.hasobject:
        if rec is None:
            return head + "objects"
        return head + "[" + ",".join(rec(x) for x in np.asarray(a, dtype=a.dtype).ravel()) + "]"
    return head + raw(np.asarray(a))


# ------------------------------------------------------------------- values
ATOMS = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))


def qual(t):
    return f"{getattr(t, '__module__', None)}.{getattr(t, '__qualname__', getattr(t, '__name__', None))}"


class Canon:
    """structure with sharing; `limit` nodes at most"""

    def __init__(self, limit=60000):
        self.seen, self.keep, self.n, self.limit = {}, [], 0, limit

    def __call__(self, x):
        self.n += 1
        if self.n > self.limit:
            return "..."
        t = type(x)
        if t in ATOMS:
            if t is float:
                return "f" + x.hex() + ("" if x == x else str(np.copysign(1, x)))
            if t is complex:
                return f"c{x.real.hex()},{x.imag.hex()}"
            if t is bytes:
                return "b" + x.hex()
            return f"{t.__name__[0]}{x!r}"
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, np.ufunc, types.ModuleType)):
            return f"<{type(x).__name__} {qual(x)}{'' if getattr(x, '__self__', None) is None or isinstance(x.__self__, types.ModuleType) else ' of ' + self(x.__self__)}>"
        if isinstance(x, np.dtype):
            return f"<dtype {dtype_text(x)}>"
        if isinstance(x, np.generic) and t.__module__ == "numpy":
            return f"<{t.__name__} {raw(np.asarray(x)) if not x.dtype.hasobject else '?'}>"
        i = self.seen.get(id(x))
        if i is not None:
            return f"#{i}"
        i = self.seen[id(x)] = len(self.seen)
        self.keep.append(x)
        try:
            return f"{i}=" + self.body(x, t)
        except RecursionError:
            raise
        except Exception as e:
            return f"{i}=<opaque {qual(t)} {type(e).__name__}>"

    def pairs(self, items):
        return "{" + ",".join(f"{self(k)}:{self(v)}" for k, v in items) + "}"

    def body(self, x, t):
        if t in (list, tuple):
            return ("[" if t is list else "(") + ",".join(map(self, x)) + ")"
        if t is dict:
            return self.pairs(x.items())
        if t in (set, frozenset):
            return t.__name__ + "{" + ",".join(sorted(Canon(self.limit)(e) for e in x)) + "}"
        if isinstance(x, np.ma.MaskedArray):
            return f"<masked {array_text(x.data, self)} mask {array_text(np.ma.getmaskarray(x)) if x.mask is not np.ma.nomask else 'no'}" \
                   f" fill {self(x._fill_value)} hard {x._hardmask} {self.pairs(sorted(x.__dict__.get('_optinfo', {}).items()))}>"
        if isinstance(x, np.ndarray):
            return f"<{array_text(x, self)}>"
        if isinstance(x, slice):
            return "slice" + self((x.start, x.stop, x.step))
        if t is bytearray:
            return "bytearray" + bytes(x).hex()
        if isinstance(x, types.MethodType):
            return f"<method {x.__func__.__name__} of {self(x.__self__)}>"
        if t is functools.partial:
            return f"<partial {self(x.func)} {self(x.args)} {self(x.keywords)} {self(x.__dict__)}>"
        if isinstance(x, np.random.RandomState):
            return f"<{t.__name__} {self(x.get_state(legacy=False))}>"
        if isinstance(x, np.random.BitGenerator):
            return f"<{t.__name__} {self(x.state)} {self(getattr(getattr(x, 'seed_seq', None), 'state', None))}>"
        if isinstance(x, np.random.Generator):
            return f"<{t.__name__} {self(x.bit_generator)}>"
        r = x.__reduce_ex__(2)
        if isinstance(r, str):
            return f"<global {r}>"
        r = tuple(r) + (None,) * (5 - len(r))
        out = [qual(t), self(r[0]), "(" + ",".join(map(self, r[1])) + ")"]
        if r[2] is not None:
            st = r[2]
            out.append(self.pairs(st.items()) if type(st) is dict else self(st))
        if r[3] is not None:
            out.append("[" + ",".join(map(self, r[3])) + "]")
        if r[4] is not None:
            out.append(self.pairs(r[4]))
        return "<" + " ".join(out) + ">"


def value(x):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return Canon()(x)
        except RecursionError:
            return "<too deep>"


# ------------------------------------------------------------------ archives
def archive(data):
    """-> text, or None if it cannot be read as an archive"""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = z.infolist()
        members = {i.filename: z.read(i) for i in infos}
        schema = json.loads(members["schema.json"])
    except Exception as e:
        return f"unreadable archive {type(e).__name__}"
    ids, files = {}, {}

    def bare(n):
        if isinstance(n, dict):
            return {k: bare(v) for k, v in n.items() if not (k == "__id__" and isinstance(v, int)) and not (k == "file" and isinstance(v, str))}
        return [bare(v) for v in n] if isinstance(n, list) else n

    def walk(n):
        if isinstance(n, dict):
            if n.get("__loader__") == "SetNode" and isinstance(n.get("content"), list):
                n["content"].sort(key=lambda x: jdump(bare(x)))
            for k, v in n.items():
                if k == "__id__" and isinstance(v, int):
                    n[k] = ids.setdefault(v, len(ids))
                elif k == "file" and isinstance(v, str) and v in members:
                    files.setdefault(v, f"m{len(files)}")
                    n[k] = files[v]
                else:
                    walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(schema)
    out = [json.dumps(schema)]
    for f in sorted(members, key=lambda f: (files.get(f, "z"), f)):
        if f != "schema.json":
            out.append(f"{files.get(f, 'unreferenced')}{'.' + f.rpartition('.')[2]}: {member(f, members[f])}")
    out.append(f"members {len(infos)} compression {sorted({i.compress_type for i in infos})}")
    return "\n".join(out)


def member(name, data):
    try:
        if name.endswith(".npy"):
            return array_text(np.load(io.BytesIO(data), allow_pickle=False))
        if name.endswith(".npz"):
            with np.load(io.BytesIO(data), allow_pickle=False) as z:
                return " ".join(f"{k}={array_text(z[k])}" for k in sorted(z.files))
    except Exception as e:
        return f"{type(e).__name__} {data.hex()[:200]}"
    return data.hex()


# --------------------------------------------------------------------- texts
def text(s, top=None):
    if top:
        s = s.replace(top, "<top>")
    s = re.sub(r"sk-(container|estimator)-id-\d+", "sk-id", s)
    return re.sub(r"0x[0-9a-fA-F]{6,}", "0xADDR", s)


def exception(e, top=None):
    if isinstance(e, RecursionError):
        return "RecursionError"
    try:
        m = str(e)
    except Exception as e2:
        m = f"<{type(e2).__name__}>"
    m = re.sub(r"\b\d{9,}\b", "N", text(m, top))
    return f"{type(e).__name__}: {m}"


def first_diff(a, b, n=110):
    if type(a) is not str or type(b) is not str:
        return f"{a!r:.200} / {b!r:.200}"
    i = 0
    m = min(len(a), len(b))
    while i < m and a[i] == b[i]:
        i += 1
    lo = max(0, i - 30)
    return f"at {i}: {a[lo:lo + n]!r} / {b[lo:lo + n]!r}"
