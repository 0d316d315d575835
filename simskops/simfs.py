"""Simulated disk.

Files physically live in a private scratch directory, but every system call the
code under test makes on them goes through this module: builtins.open/io.open
return Buffered*/TextIOWrapper objects over :class:`SimRaw`, and the os.*
functions that create, change or remove files are wrapped.  Each such call is a
numbered event of the simulated execution; a fault plan says at which event a
crash, a torn/short write or an errno happens.

Only paths inside the scratch root are simulated; opening anything else for
writing is refused and recorded as an escape.
"""
from __future__ import annotations

import builtins
import errno as _errno
import io
import os
import shutil
import stat as _stat
import sys
import tempfile

from .core import HarnessError

EXHAUSTED = 0       # disks that ran out of events during this run
_real = {}
for _n in (
    "open close read write rename replace unlink remove mkdir rmdir truncate ftruncate link symlink "
    "sendfile copy_file_range fsync fdatasync chmod utime scandir listdir stat lstat pwrite writev "
    "fchmod lseek dup pread _exit"
).split():
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
_real_open = builtins.open
_real_io_open = io.open
_O_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, path, mode, readable, writable, append=False, closefd=True):
        self._disk, self._fd, self._path = disk, fd, path
        self._r, self._w = readable, writable
        self.name = path
        self.mode = mode
        self._epoch = disk.epoch
        self._closefd = closefd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = self._disk.do_read(self._fd, self._path, len(b), self._epoch)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._disk.do_write(self._fd, self._path, bytes(b), self._epoch)

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        d = self._disk
        d.event("truncate", self._path, size, epoch=self._epoch,
                effect=lambda f: _real["ftruncate"](self._fd, size))
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd:
                self._disk.fdtab.pop(self._fd, None)
                try:
                    _real["close"](self._fd)
                except OSError:
                    pass
            if self._w and self._epoch == self._disk.epoch and not self._disk.crashed:
                self._disk.event("close", self._path, 0, epoch=self._epoch, effect=lambda f: None)


class SimDisk:
    """faults: list of {"at": event index, "kind": ..., "frac": 0..1}.

    kinds: crash (before the event), crash_after, torn (prefix of a write, then
    crash), EIO/EACCES/EROFS/... (errno, event has no effect), ENOSPC (prefix
    written, then the device stays full), short (prefix written, count
    returned), intr (KeyboardInterrupt instead of the event).
    """

    def __init__(self, root, faults=(), mounts=None, bufsize=None, locale="utf-8", short_rng=None):
        self.root = os.path.realpath(root)
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["at"], f)
        self.mounts = mounts or {}
        self.bufsize = bufsize
        self.locale = locale
        self.short_rng = short_rng      # random short writes/reads everywhere
        self.n = 0
        self.epoch = 0
        self.crashed = False
        self.armed = False
        self.full = set()
        self.log = []
        self.fired = {}
        self.observers = []
        self.fdtab = {}
        self.escapes = []
        self.maxevents = 200000
        self._saved = None

    # ------------------------------------------------------------- helpers
    def rel(self, path):
        if path.startswith(self.root):
            return path[len(self.root):].lstrip("/") or "."
        return path

    def _resolve(self, path, dir_fd=None):
        if isinstance(path, int):
            return self.fdtab.get(path)
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            base = self.fdtab.get(dir_fd)
            if base is None:
                base = os.getcwd()
        else:
            base = os.getcwd() if not os.path.isabs(path) else "/"
        full = os.path.normpath(os.path.join(base, path))
        # resolve the parent (symlinked directories), keep the last component
        parent, last = os.path.split(full)
        return os.path.join(os.path.realpath(parent), last)

    def inside(self, full):
        return full is not None and (full == self.root or full.startswith(self.root + "/"))

    def mount_of(self, full):
        rel = self.rel(full)
        best = ("", 0)
        for prefix, dev in self.mounts.items():
            if (rel == prefix or rel.startswith(prefix + "/")) and len(prefix) >= len(best[0]):
                best = (prefix, dev)
        return best[1]

    def start(self, faults=None):
        """Begin a new simulated process incarnation (clean start/restart)."""
        self.epoch += 1
        self.crashed = False
        self.full.clear()
        self.n = 0
        if faults is not None:
            self.faults = {}
            for f in faults:
                self.faults.setdefault(f["at"], f)
        self.armed = True

    def stop(self):
        self.armed = False

    def arm(self, faults):
        """From now on (same process) count events and inject these faults."""
        self.n = 0
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["at"], f)
        self.armed = True

    def _fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # -------------------------------------------------------------- events
    def event(self, op, full, size, effect, epoch=None, full2=None):
        """One system call.  ``effect(frac)``: frac None = complete effect; a
        fraction asks for a partial effect and returns the partial result."""
        if epoch is not None and epoch != self.epoch:
            raise SimCrash("stale file handle of a dead process")
        if self.crashed:
            raise SimCrash("process is dead")
        if not self.armed:
            return effect(None)
        n = self.n
        self.n += 1
        if n > self.maxevents:
            global EXHAUSTED
            EXHAUSTED += 1
            raise HarnessError("too many file system events")
        self.log.append([n, op, self.rel(full), size] + ([self.rel(full2)] if full2 else []))
        f = self.faults.get(n)
        kind = f["kind"] if f else None
        if op == "write" and kind != "torn" and self.mount_of(full) in self.full:
            raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC), full)
        if kind is None:
            res = effect(None)
            self._observe()
            return res
        if kind == "crash":
            self._fire(f"crash@{op}")
            self.crashed = True
            raise SimCrash(f"crash before event {n} {op}")
        if kind == "crash_after":
            effect(None)
            self._observe()
            self._fire(f"crash_after@{op}")
            self.crashed = True
            raise SimCrash(f"crash after event {n} {op}")
        if kind == "torn":
            if op == "write":
                effect(f.get("frac", 0.5))
                self._observe()
                self._fire("torn_write")
            else:
                self._fire(f"crash@{op}")
            self.crashed = True
            raise SimCrash(f"torn {op} at event {n}")
        if kind == "short":
            if op in ("write", "read"):
                res = effect(max(f.get("frac", 0.5), 1e-9))
                self._observe()
                self._fire(f"short_{op}")
                return res
            res = effect(None)
            self._observe()
            return res
        if kind == "intr":
            self._fire(f"KeyboardInterrupt@{op}")
            raise KeyboardInterrupt()
        if kind == "ENOSPC":
            if op == "write":
                effect(f.get("frac", 0.0))
                self._observe()
                self.full.add(self.mount_of(full))
            self._fire(f"ENOSPC@{op}")
            raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC), full)
        if kind.startswith("E"):
            self._fire(f"{kind}@{op}")
            no = getattr(_errno, kind)
            raise OSError(no, os.strerror(no), full)
        raise HarnessError(f"unknown fault kind {kind}")

    def _observe(self):
        for o in self.observers:
            o(self)

    def do_write(self, fd, path, data, epoch=None):
        def effect(frac):
            d = data
            if frac is not None:
                k = int(len(data) * frac)
                if frac and k == 0 and data:
                    k = 1
                d = data[:k]
            elif self.short_rng is not None and len(data) > 1 and self.short_rng.random() < 0.3 and self.armed:
                d = data[: self.short_rng.randrange(1, len(data))]
                self._fire("short_write")
            done = 0
            while done < len(d):
                done += _real["write"](fd, d[done:])
            return len(d)

        return self.event("write", path, len(data), effect, epoch)

    def do_read(self, fd, path, size, epoch=None):
        def effect(frac):
            n = size
            if frac is not None:
                n = max(1, int(size * frac))
            elif self.short_rng is not None and size > 1 and self.short_rng.random() < 0.3 and self.armed:
                n = self.short_rng.randrange(1, size)
                self._fire("short_read")
            return _real["read"](fd, n)

        return self.event("read", path, size, effect, epoch)

    # ------------------------------------------------------------ open()
    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        full = self._resolve(path, dir_fd)
        if not self.inside(full):
            if flags & _O_WRITE and full != "/dev/null":
                self.escapes.append(full)
                raise PermissionError(_errno.EACCES, "simulated: outside the scratch root", full)
            return _real["open"](path, flags, mode, dir_fd=dir_fd)
        isdir = flags & os.O_DIRECTORY or os.path.isdir(full)
        if isdir:
            fd = _real["open"](path, flags, mode, dir_fd=dir_fd)
            self.fdtab[fd] = full
            return fd
        op = "open-w" if flags & _O_WRITE else "open-r"
        box = []

        def effect(frac):
            box.append(_real["open"](path, flags, mode, dir_fd=dir_fd))

        self.event(op, full, 0, effect)
        self.fdtab[box[0]] = full
        return box[0]

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        if isinstance(file, int):
            full = self.fdtab.get(file)
            if full is None:
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        else:
            if not isinstance(file, (str, bytes, os.PathLike)):
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            full = self._resolve(file)
            wr = any(c in mode for c in "wax+")
            if not self.inside(full):
                if wr and full != "/dev/null" and opener is None:
                    self.escapes.append(full)
                    raise PermissionError(_errno.EACCES, "simulated: outside the scratch root", full)
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        ms = set(mode)
        if ms - set("axrwb+t") or len(mode) > len(ms) or len(ms & set("axrw")) != 1:
            raise ValueError(f"invalid mode: {mode!r}")
        text = "b" not in ms
        if not text and "t" in ms:
            raise ValueError("can't have text and binary mode at once")
        if not text and (encoding or errors or newline is not None):
            raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
        r, w, a, x, plus = ("r" in ms), ("w" in ms), ("a" in ms), ("x" in ms), ("+" in ms)
        readable = r or plus
        writable = w or a or x or plus
        if isinstance(file, int):
            fd = file
        else:
            flags = os.O_CLOEXEC
            flags |= os.O_RDWR if (readable and writable) else (os.O_RDONLY if readable else os.O_WRONLY)
            if w:
                flags |= os.O_CREAT | os.O_TRUNC
            if x:
                flags |= os.O_CREAT | os.O_EXCL
            if a:
                flags |= os.O_CREAT | os.O_APPEND
            if opener is not None:
                fd = opener(file, flags)
                full = self.fdtab.get(fd)
                if full is None:
                    return _real_io_open(fd, mode, buffering, encoding, errors, newline)
            else:
                if os.path.isdir(full):
                    raise IsADirectoryError(_errno.EISDIR, os.strerror(_errno.EISDIR), os.fspath(file))
                fd = self._os_open(file, flags, 0o666)
            if a:
                _real["lseek"](fd, 0, 2)
        raw = SimRaw(self, fd, file if isinstance(file, (int, str, bytes)) else os.fspath(file),
                     mode, readable, writable, closefd=closefd)
        raw._path = full
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else (self.bufsize or io.DEFAULT_BUFFER_SIZE)
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif writable:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        enc = encoding
        if enc in (None, "locale"):
            enc = self.locale
        t = io.TextIOWrapper(buf, enc, errors, newline, buffering == 1)
        t.mode = mode
        return t

    # ------------------------------------------------------ os.* wrappers
    def _one(self, name, op, path, args, kw, size=0):
        full = self._resolve(path, kw.get("dir_fd"))
        if not self.inside(full):
            self.escapes.append(f"{op}:{full}")
            raise PermissionError(_errno.EACCES, "simulated: outside the scratch root", str(full))
        box = []
        self.event(op, full, size, lambda f: box.append(_real[name](path, *args, **kw)))
        return box[0]

    def _two(self, name, op, src, dst, kw):
        s = self._resolve(src, kw.get("src_dir_fd"))
        d = self._resolve(dst, kw.get("dst_dir_fd"))
        if not (self.inside(s) and self.inside(d)):
            self.escapes.append(f"{op}:{s}->{d}")
            raise PermissionError(_errno.EACCES, "simulated: outside the scratch root", str(d))
        cross = self.mount_of(s) != self.mount_of(d)

        def effect(frac):
            if cross:
                self._fire(f"EXDEV@{op}")
                raise OSError(_errno.EXDEV, os.strerror(_errno.EXDEV), os.fspath(src), None, os.fspath(dst))
            _real[name](src, dst, **kw)

        self.event(op, d, 0, effect, full2=s)

    def _sendfile(self, out, in_, offset, count, *a, **k):
        p = self.fdtab.get(out)
        if p is None:
            return _real["sendfile"](out, in_, offset, count, *a, **k)
        st = os.fstat(in_).st_size
        pos = offset if offset is not None else _real["lseek"](in_, 0, 1)
        n = max(0, min(count, st - pos))
        if n == 0:
            return 0

        def effect(frac):
            m = n if frac is None else int(n * frac)
            done = 0
            while done < m:
                done += _real["sendfile"](out, in_, None if offset is None else pos + done, m - done)
            return m

        return self.event("write", p, n, effect)

    def _copy_file_range(self, src, dst, count, offset_src=None, offset_dst=None):
        p = self.fdtab.get(dst)
        if p is None:
            return _real["copy_file_range"](src, dst, count, offset_src, offset_dst)
        return self.event("write", p, count,
                          lambda f: _real["copy_file_range"](src, dst, count if f is None else int(count * f),
                                                             offset_src, offset_dst))

    def install(self):
        if self._saved is not None:
            raise HarnessError("disk installed twice")
        saved = self._saved = []

        def patch(mod, name, fn):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)

        patch(builtins, "open", self._open)
        patch(io, "open", self._open)
        patch(os, "open", self._os_open)

        def _close(fd):
            self.fdtab.pop(fd, None)
            return _real["close"](fd)

        def _write(fd, data):
            p = self.fdtab.get(fd)
            if p is None:
                return _real["write"](fd, data)
            return self.do_write(fd, p, bytes(data))

        def _read(fd, n):
            p = self.fdtab.get(fd)
            if p is None:
                return _real["read"](fd, n)
            return self.do_read(fd, p, n)

        patch(os, "close", _close)
        patch(os, "write", _write)
        patch(os, "read", _read)
        patch(os, "sendfile", self._sendfile)
        if hasattr(os, "copy_file_range"):
            patch(os, "copy_file_range", self._copy_file_range)

        def one(name, op=None):
            def f(path, *args, **kw):
                return self._one(name, op or name, path, args, kw)
            f.__name__ = name
            patch(os, name, f)

        for name in ("unlink", "remove", "mkdir", "rmdir", "truncate", "chmod", "utime"):
            one(name)

        def two(name):
            def f(src, dst, **kw):
                return self._two(name, name, src, dst, kw)
            f.__name__ = name
            patch(os, name, f)

        for name in ("rename", "replace", "link"):
            two(name)

        def _symlink(src, dst, *a, **kw):
            return self._one_symlink(src, dst, a, kw)
        patch(os, "symlink", _symlink)

        def fdop(name):
            def f(fd, *a):
                p = self.fdtab.get(fd if isinstance(fd, int) else fd.fileno())
                if p is None:
                    return _real[name](fd, *a)
                return self.event(name, p, 0, lambda fr: _real[name](fd, *a))
            f.__name__ = name
            patch(os, name, f)

        for name in ("fsync", "fdatasync", "ftruncate", "fchmod"):
            fdop(name)

        # shutil's capability sets were computed at import; keep them valid for
        # the wrapped functions.
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
            for name in ("open", "unlink", "rmdir", "mkdir", "rename", "chmod", "utime", "link"):
                if _real.get(name) in s:
                    s.add(getattr(os, name))
        saved.append((tempfile, "tempdir", tempfile.tempdir))
        saved.append((tempfile, "_name_sequence", tempfile._name_sequence))
        tempfile.tempdir = os.path.join(self.root, "tmp")
        tempfile._name_sequence = iter(f"sim{i:05d}" for i in range(10**6))
        self._unraisable = sys.unraisablehook
        sys.unraisablehook = lambda *a: None
        return self

    def _one_symlink(self, src, dst, a, kw):
        full = self._resolve(dst, kw.get("dir_fd"))
        if not self.inside(full):
            raise PermissionError(_errno.EACCES, "simulated: outside the scratch root", str(full))
        self.event("symlink", full, 0, lambda f: _real["symlink"](src, dst, *a, **kw))

    def uninstall(self):
        for mod, name, val in reversed(self._saved):
            setattr(mod, name, val)
        self._saved = None
        sys.unraisablehook = self._unraisable

    def __enter__(self):
        return self.install()

    def __exit__(self, *exc):
        self.uninstall()

    # ------------------------------------------------- looking at the disk
    def snapshot(self, sub=""):
        """{relpath: bytes | None for directories}; never goes through faults."""
        out = {}
        top = os.path.join(self.root, sub) if sub else self.root
        for dp, dn, fn in _walk(top):
            rel = self.rel(dp)
            for d in dn:
                out[os.path.normpath(os.path.join(rel, d))] = None
            for f in fn:
                p = os.path.join(dp, f)
                out[os.path.normpath(os.path.join(rel, f))] = peek(p)
        return out


def _walk(top):
    dn, fn = [], []
    for name in sorted(_real["listdir"](top)):
        p = os.path.join(top, name)
        if _stat.S_ISDIR(_real["lstat"](p).st_mode):
            dn.append(name)
        else:
            fn.append(name)
    yield top, dn, fn
    for d in dn:
        yield from _walk(os.path.join(top, d))


def peek(path):
    """Real bytes of a file, bypassing the simulation; None if absent."""
    try:
        st = _real["lstat"](path)
    except (FileNotFoundError, NotADirectoryError):
        return None
    if _stat.S_ISLNK(st.st_mode):
        return b"symlink:" + os.fsencode(os.readlink(path))
    fd = _real["open"](path, os.O_RDONLY)
    try:
        chunks = []
        while True:
            c = _real["read"](fd, 1 << 20)
            if not c:
                return b"".join(chunks)
            chunks.append(c)
    finally:
        _real["close"](fd)


def poke(path, data):
    """Create/overwrite a file outside the simulation (test fixture)."""
    fd = _real["open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        view = memoryview(data)
        while view:
            view = view[_real["write"](fd, view):]
    finally:
        _real["close"](fd)


class Scratch:
    """A private scratch tree root/{work,data,tmp}; removed on exit."""

    def __init__(self):
        base = os.environ.get("SIMSKOPS_SCRATCH")
        if not base or not os.path.isdir(base):
            raise HarnessError("no scratch root")
        self.base = base

    def __enter__(self):
        self.old = os.getcwd()
        # fixed-length, pid-tagged name: path lengths never differ between runs
        self.top = os.path.join(self.base, f"r{os.getpid():08d}")
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        for d in ("work", "data", "tmp"):
            os.mkdir(os.path.join(self.top, d))
        os.chdir(os.path.join(self.top, "work"))
        return self

    def __exit__(self, *exc):
        os.chdir(self.old)
        # written out: only ever the per-run directory created above
        if self.top.startswith(self.base + "/r"):
            shutil.rmtree(self.top, ignore_errors=True)
