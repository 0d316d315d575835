"""Destinations of dump: paths and open binary files on the simulated disk, in
memory, and objects that only know how to write."""
from __future__ import annotations

import gzip
import io
import os
import tempfile
from pathlib import Path

from .simfs import peek, poke

PATHS = ["out.skops", "./a.b.skops", "sub/deep/m.skops", "../data/up.skops", "ABS:data/abs.skops", "ü ñ.skops", "noext", ".hidden"]


class Writer:
    """an open binary file that can only be written to"""

    def __init__(self, none=False):
        self.chunks, self.none, self.calls = [], none, []

    def write(self, b):
        self.calls.append("write")
        self.chunks.append(bytes(b))
        return None if self.none else len(b)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__["calls"].append(name)
        raise AttributeError(name)


class Sub(io.BytesIO):
    """a BytesIO that remembers what was done to it"""

    def __init__(self, data):
        self.did = []
        super().__init__(data)

    def write(self, b):
        self.did.append("write")
        return super().write(b)

    def truncate(self, *a):
        self.did.append("truncate")
        return super().truncate(*a)

    def close(self):
        self.did.append("close")
        super().close()


def g_sink(rng, bytes_too=True):
    r = rng.random()
    if bytes_too and r < 0.12:
        return {"kind": "bytes"}
    if r < 0.5:
        return {"kind": "path", "form": rng.choice(["str", "Path"]), "name": rng.choice(PATHS),
                "old": rng.choice([None, None, 1, 300, 200000])}
    k = rng.choice(["BytesIO", "BytesIO", "disk", "disk", "disk", "raw", "writer", "spooled", "gzip", "temp"])
    return {"kind": "file", "io": k, "mode": rng.choice(["wb", "w+b", "r+b", "ab", "xb"]), "pre": rng.choice([0, 0, 1, 22, 5000]),
            "post": rng.choice([0, 0, 7, 100000]), "buffering": rng.choice([-1, -1, 1 << 16, 100])}


class Sink:
    def __init__(self, spec, disk, i):
        self.spec, self.disk = spec, disk
        k = spec["kind"]
        self.f = self.path = None
        self.start = 0
        if k == "path":
            name = spec["name"]
            if name.startswith("ABS:"):
                self.path = os.path.join(disk.root, name[4:])
                a = self.path
            else:
                self.path = os.path.normpath(os.path.join(disk.root, "work", name))
                a = name
            self.arg = Path(a) if spec["form"] == "Path" else a
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            if peek(self.path) is not None:
                os.remove(self.path)
            if spec["old"] is not None:
                poke(self.path, (b"previous model " * (spec["old"] // 15 + 1))[: spec["old"]])
                if spec.get("link"):
                    target = os.path.join(disk.root, "data", f"target{i}")
                    os.replace(self.path, target)
                    os.symlink(target, self.path)
                    self.target = target
        elif k == "file":
            self.open(spec, disk, i)
            self.arg = self.f

    target = None

    def open(self, spec, disk, i):
        pre, post = b"p" * spec["pre"], b"t" * spec["post"]
        kind = spec["io"]
        self.pre = pre
        if kind == "BytesIO":
            self.f = Sub(pre + post)
            self.f.seek(len(pre))
        elif kind == "writer":
            self.f = Writer(none=bool(spec["post"]))
            self.pre = b""
        elif kind == "spooled":
            self.f = tempfile.SpooledTemporaryFile(max_size=spec["pre"] or 10 ** 9)
            self.f.write(pre)
        elif kind == "temp":
            self.f = tempfile.NamedTemporaryFile(dir=os.path.join(disk.root, "tmp"), delete=False)
            self.path = self.f.name
            self.f.write(pre)
            self.f.flush()
        elif kind == "gzip":
            self.path = os.path.join(disk.root, "work", f"z{i}.gz")
            self.f = gzip.open(self.path, "wb", 1)
            self.pre = b""
        else:
            self.path = os.path.join(disk.root, "work", f"f{i}.bin")
            if peek(self.path) is not None:
                os.remove(self.path)
            mode = spec["mode"]
            if mode in ("r+b", "ab"):
                poke(self.path, pre + (post if mode == "r+b" else b""))
            buffering = 0 if kind == "raw" else spec["buffering"]
            self.f = open(self.path, mode, buffering=buffering)
            if mode == "r+b":
                self.f.seek(len(pre))
            elif mode != "ab":
                self.f.write(pre)
                self.f.flush()
        self.start = len(self.pre)

    # state of the destination, for "exactly as before"
    def state(self):
        s = self.spec
        if s["kind"] == "path":
            return (peek(self.path), peek(self.target)) if self.target else peek(self.path)
        if s["kind"] == "bytes":
            return None
        f = self.f
        if isinstance(f, Writer):
            return (list(f.chunks), [c for c in f.calls if c in ("write", "truncate", "close", "writelines", "flush") and c != "flush"])
        if isinstance(f, Sub):
            if f.closed:
                return "closed"
            return (f.getvalue(), f.tell(), [d for d in f.did if d == "close"])
        if f.closed:
            return "closed"
        if s["io"] == "gzip":
            return (f.tell(), peek(self.path))
        if s["io"] == "spooled":
            pos = f.tell()
            f.seek(0)
            data = f.read()
            f.seek(pos)
            return (pos, data)
        f.flush()
        return (f.tell(), peek(self.path))

    def close(self):
        if self.f is not None and self.spec["io"] not in ("BytesIO", "writer", "spooled") and not self.f.closed:
            self.f.close()

    def result(self):
        """-> candidates for the archive bytes that arrived"""
        s = self.spec
        if s["kind"] == "path":
            b = peek(self.path)
            if self.target and b is not None and b.startswith(b"symlink:"):
                b = peek(self.target)
            return [b] if b is not None else []
        f = self.f
        if isinstance(f, Writer):
            return [b"".join(f.chunks)]
        if isinstance(f, Sub):
            if f.closed:
                return []
            whole, end = f.getvalue(), f.tell()
        elif s["io"] == "spooled":
            if f.closed:
                return []
            end = f.tell()
            f.seek(0)
            whole = f.read()
            f.close()
        elif s["io"] == "gzip":
            self.close()
            whole = gzip.decompress(peek(self.path))
            end = len(whole)
        else:
            end = None if f.closed else f.tell()
            self.close()
            whole = peek(self.path)
            if end is None:
                end = len(whole)
        if whole[: self.start] != self.pre:
            return []
        out = [whole[self.start:end]]
        if end == len(whole):
            out.append(whole)
        return out
