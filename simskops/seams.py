"""Simulated allocator (object addresses), uuids, clock."""
from __future__ import annotations

import builtins
import itertools
import sys
import time as _time
import uuid as _uuid

_real_id = builtins.id


class Allocator:
    """Deterministic replacement for ``id`` inside the skops modules.

    Live objects always have distinct addresses.  An object that the code under
    test no longer references is freed, and the seeded choice ``reuse`` says how
    eagerly a new object gets a freed address back - a legal, adversarial
    allocator.  mode "bump" never reuses.
    """

    def __init__(self, rng=None, mode="bump", reuse=0.9, base=0x7F0000000000, pinned=()):
        self.rng, self.mode, self.reuse = rng, mode, reuse
        self.next = base
        self.table = {}     # real id -> (obj, addr)
        self.free = []
        self.reused = 0
        self.since = 0
        self.calls = 0
        self.pinned = list(pinned)  # addresses to hand out first (load side)
        self.taken = frozenset(self.pinned)
        self.keep = []

    def sweep(self):
        """Free what nobody holds: the newest 64 every time, all of them every now
        and then when there are many (a full sweep per call would be quadratic)."""
        self.since += 1
        full = self.since * 64 >= len(self.table)
        if full:
            self.since = 0
        changed = True
        while changed:
            changed = False
            for rid in list(self.table if full else itertools.islice(reversed(self.table), 64)):
                ent = self.table[rid]
                # references: the tuple `ent`'s slot and getrefcount's argument
                if sys.getrefcount(ent[0]) <= 2:
                    self.free.append(ent[1])
                    del self.table[rid]
                    del ent
                    changed = True

    def __call__(self, obj):
        rid = _real_id(obj)
        self.calls += 1
        ent = self.table.get(rid)
        if ent is not None and ent[0] is obj:
            return ent[1]
        if self.mode == "reuse":
            self.sweep()
        if self.pinned:
            addr = self.pinned.pop(0)
        elif self.mode == "reuse" and self.free and self.rng.random() < self.reuse:
            i = -1 if self.rng.random() < 0.7 else self.rng.randrange(len(self.free))
            addr = self.free.pop(i)
            self.reused += 1
        else:
            while self.next in self.taken:      # live objects never share an address
                self.next += 16
            addr = self.next
            self.next += 16 * (1 + (self.rng.randrange(8) if self.rng else 0))
        self.table[rid] = (obj, addr)
        return addr


class Clock:
    def __init__(self, start=1.7e9, step=0.001):
        self.t = start
        self.step = step
        self.reads = 0
        self.elapsed = 0.0

    def time(self):
        self.reads += 1
        self.advance(self.step)
        return self.t

    def advance(self, dt):
        self.t += dt
        self.elapsed += abs(dt)

    def jump(self, to):
        self.elapsed += abs(to - self.t)
        self.t = to


class Seams:
    """Install allocator/uuid/clock for the duration of a with block."""

    def __init__(self, alloc=None, uuid_rng=None, clock=None):
        self.alloc, self.uuid_rng, self.clock = alloc, uuid_rng, clock

    def __enter__(self):
        self.saved = []
        if self.alloc is not None:
            for name, mod in sorted(sys.modules.items()):
                if (name == "skops" or name.startswith("skops.")) and mod is not None:
                    had = "id" in mod.__dict__
                    self.saved.append((mod, "id", mod.__dict__.get("id"), had))
                    mod.__dict__["id"] = self.alloc
        if self.uuid_rng is not None:
            rng = self.uuid_rng
            self._patch(_uuid, "uuid4", lambda: _uuid.UUID(int=rng.getrandbits(128), version=4))
            self._patch(_uuid, "uuid1", lambda node=None, clock_seq=None: _uuid.UUID(int=rng.getrandbits(128), version=4))
            # entropy for unseeded bit generators
            import numpy.random.bit_generator as bg
            if hasattr(bg, "randbits"):
                self._patch(bg, "randbits", lambda n: rng.getrandbits(n))
        if self.clock is not None:
            self._patch(_time, "time", self.clock.time)
        return self

    def _patch(self, mod, name, val):
        self.saved.append((mod, name, getattr(mod, name), True))
        setattr(mod, name, val)

    def __exit__(self, *exc):
        for mod, name, val, had in reversed(self.saved):
            if had:
                setattr(mod, name, val)
            else:
                mod.__dict__.pop(name, None)
        if self.alloc is not None:
            self.alloc.table.clear()
