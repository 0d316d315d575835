"""Threads under a deterministic scheduler.

Real threads, of which exactly one runs at any time.  The running thread can be
preempted at every line, call and return of code in the package under test; the
seeded schedule says after how many of these events, and who goes on.  Locks
that the package makes are cooperative: waiting for one is a scheduling point.
"""
from __future__ import annotations

import _thread
import sys
import threading
import zlib

RealLock, RealRLock = threading.Lock, threading.RLock
_active = None


class Deadlock(BaseException):
    pass


class CoopLock:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        s = _active
        me = s.me() if s is not None else None
        if me is None:
            return self._real.acquire(True, timeout)
        while not self._real.acquire(False):
            s.block(me, self)
        return True

    def release(self):
        self._real.release()
        if _active is not None:
            _active.unblock(self)

    def locked(self):
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._real._is_owned()


def install():
    """package code that asks for a lock gets a cooperative one (before the
    package is imported)"""
    if threading.Lock is not RealLock:
        return

    def ours():
        f = sys._getframe(2)
        for _ in range(2):
            if f is not None and str(f.f_globals.get("__name__", "")).split(".")[0] == "skops":
                return True
            f = f and f.f_back
        return False

    def Lock():
        return CoopLock(RealLock()) if ours() else RealLock()

    def RLock():
        return CoopLock(RealRLock()) if ours() else RealRLock()
    threading.Lock, threading.RLock = Lock, RLock


class Sched:
    TOOL = 3

    def __init__(self, bodies, plan, prefix, first=0, loc=None):
        """bodies: one callable per thread; plan: iterable of (gap, pick)"""
        self.bodies, self.plan, self.prefix = bodies, iter(plan), prefix
        self.gates = [_thread.allocate_lock() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.done_gate = _thread.allocate_lock()
        self.done_gate.acquire()
        self.ident = {}
        self.done = [False] * len(bodies)
        self.waiting = [None] * len(bodies)
        self.cur = first % len(bodies)
        self.left, self.pick = self.draw()
        self.events = 0
        self.switches = []      # (from, where, to)
        self.blocked = 0
        self.errors = []
        self.deadlock = None
        self.known = {}
        self.loc = loc          # {"mod", "res", "nth"}: preempt where the hash of the location is res, at its nth visit by a thread
        self.hits, self.visits = {}, {}

    def draw(self):
        try:
            return next(self.plan)
        except StopIteration:
            return float("inf"), 0

    def me(self):
        return self.ident.get(_thread.get_ident())

    # ------------------------------------------------------------- monitoring
    def _start(self, code, offset):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if code not in self.known:
            self.known[code] = True
            E = sys.monitoring.events
            sys.monitoring.set_local_events(self.TOOL, code, E.LINE | E.CALL | E.PY_RETURN | E.PY_START | E.PY_RESUME)
        self.tick(code, -1)

    def _resume(self, code, offset):
        self.tick(code, -1)

    def _line(self, code, line):
        self.tick(code, line)

    def _call(self, code, offset, fn, arg):
        self.tick(code, -offset)

    def _return(self, code, offset, val):
        self.tick(code, -offset)

    def tick(self, code, where):
        if self.ident.get(_thread.get_ident()) != self.cur:
            return
        self.events += 1
        if self.loc is not None:
            key = (code, where)
            hit = self.hits.get(key)
            if hit is None:
                hit = self.hits[key] = zlib.crc32(f"{code.co_qualname}:{where - code.co_firstlineno if where > 0 else where}".encode()) % self.loc["mod"] == self.loc["res"]
            if hit:
                n = self.visits[self.cur, key] = self.visits.get((self.cur, key), 0) + 1
                if n == self.loc["nth"] or self.loc["nth"] == 0 and n < 40:
                    self.switch(self.cur, len(self.switches), f"{code.co_qualname}:{where}")
                    return
        self.left -= 1
        if self.left > 0:
            return
        pick = self.pick
        self.left, self.pick = self.draw()
        self.switch(self.cur, pick, f"{code.co_qualname}:{where}")

    def runnable(self):
        return [i for i in range(len(self.bodies)) if not self.done[i] and self.waiting[i] is None]

    def switch(self, me, pick, where):
        r = self.runnable()
        if not r:
            return
        to = r[pick % len(r)]
        if to == me:
            return
        self.switches.append((me, where, to))
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()

    def block(self, me, lock):
        self.waiting[me] = lock
        self.blocked += 1
        if not self.runnable():
            self.deadlock = f"threads {[i for i in range(len(self.bodies)) if self.waiting[i] is not None]} wait for each other"
            self.waiting[me] = None
            raise Deadlock()
        self.switch(me, 0, "lock")

    def unblock(self, lock):
        for i, w in enumerate(self.waiting):
            if w is lock:
                self.waiting[i] = None

    # ---------------------------------------------------------------- running
    def _thread(self, i):
        self.ident[_thread.get_ident()] = i
        self.gates[i].acquire()
        try:
            self.bodies[i]()
        except BaseException as e:  # noqa
            self.errors.append((i, e))
        self.done[i] = True
        r = self.runnable()
        if r:
            self.cur = r[self.pick % len(r)] if self.left != float("inf") else r[0]
            self.gates[self.cur].release()
        else:
            self.done_gate.release()

    def run(self):
        global _active
        m = sys.monitoring
        E = m.events
        m.use_tool_id(self.TOOL, "sched")
        for e, f in ((E.PY_START, self._start), (E.PY_RESUME, self._resume), (E.LINE, self._line), (E.CALL, self._call), (E.PY_RETURN, self._return)):
            m.register_callback(self.TOOL, e, f)
        old = threading.stack_size(64 << 20)
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        _active = self
        for t in ts:
            t.start()
        threading.stack_size(old)
        m.set_events(self.TOOL, E.PY_START)
        m.restart_events()
        self.gates[self.cur].release()
        self.done_gate.acquire()
        _active = None
        m.set_events(self.TOOL, 0)
        for c in self.known:
            m.set_local_events(self.TOOL, c, 0)
        m.free_tool_id(self.TOOL)
        return self
