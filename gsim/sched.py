"""Simulated thread scheduler: real threads, one baton, switches only where the case says so.

Every bytecode executed in gridded's own code is an event of the thread that executes it (sys.monitoring, one tool for
all threads; per-thread sys.settrace re-instruments code under other threads' feet and crashes CPython 3.12). The case lists, per thread, the events at which it gives the baton away. Locks created by gridded code
are simulated (SimLock), so that waiting is a scheduling decision and a deadlock is detected.
"""
import dis
import gc
import os
import sys
import threading
import types
import _thread

from . import boot

PREFIX = os.path.join(os.path.abspath(boot.REPO), "gridded") + os.sep
TESTS = os.path.join(PREFIX, "tests") + os.sep

_STORE = {dis.opmap[n] for n in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_GLOBAL")
          if n in dis.opmap}

_JUMP = {v for n, v in dis.opmap.items() if n.startswith("POP_JUMP_")}
_RESUME = dis.opmap["RESUME"]
OPS = {}
TOOL = 4

ACTIVE = None       # the running Scheduler, if any


def codes():
    """Every code object of gridded (but not of its tests)."""
    seen, todo = set(), []
    gc.unfreeze()       # frozen objects (boot.load) are not listed
    objs = gc.get_objects()
    gc.freeze()
    for f in objs:
        if isinstance(f, types.FunctionType):
            todo.append(f.__code__)
    out = []
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        if not c.co_filename.startswith(PREFIX) or c.co_filename.startswith(TESTS):
            continue
        out.append(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


_watched = False


def watch(cb):
    global _watched
    m = sys.monitoring
    if not _watched:
        m.use_tool_id(TOOL, "gsim")
        for c in codes():
            m.set_local_events(TOOL, c, m.events.INSTRUCTION)
        _watched = True
    m.register_callback(TOOL, m.events.INSTRUCTION, cb)


def unwatch():
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.INSTRUCTION, None)


def where(code, offset):
    line = 0
    for a, b, ln in code.co_lines():
        if a <= offset < b:
            line = ln
            break
    return f"{os.path.basename(code.co_filename)}:{code.co_qualname}:{line}"


class Deadlock(BaseException):
    pass


class Runaway(BaseException):
    pass


class Scheduler:
    def __init__(self, programs, yields, cap, order=()):
        """programs: list of functions; yields: per thread {event number: target thread}."""
        self.programs, self.yields, self.cap = programs, yields, cap
        self.n = len(programs)
        self.sem = [threading.Semaphore(0) for _ in range(self.n)]
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.count = [0] * self.n
        self.total = 0
        self.results = [None] * self.n
        self.current = None
        self.switches = []          # (from, event, to, where)
        self.dead = None
        self.ident = {}
        self.finished = _thread.allocate_lock()
        self.finished.acquire()

    # -- baton
    def runnable(self, k):
        return not self.done[k] and (self.blocked[k] is None or not self.blocked[k]._held_for(k))

    def pick(self, prefer=None, after=None):
        if prefer is not None and self.runnable(prefer):
            return prefer
        start = 0 if after is None else after + 1
        for d in range(self.n):
            k = (start + d) % self.n
            if self.runnable(k):
                return k
        return None

    def hand(self, me, to):
        self.current = to
        self.sem[to].release()
        self.sem[me].acquire()
        if self.dead:
            raise self.dead

    def stop_all(self, exc):
        self.dead = exc
        for k in range(self.n):
            if k != self.me() and not self.done[k]:
                self.sem[k].release()

    def me(self):
        return self.ident.get(_thread.get_ident())

    def block_on(self, lock):
        """The current thread waits for a simulated lock."""
        me = self.me()
        self.blocked[me] = lock
        while lock._held_for(me):
            to = self.pick(after=me)
            if to is None:
                self.blocked[me] = None
                e = Deadlock("every thread waits")
                self.stop_all(e)
                raise e
            self.switches.append((me, self.count[me], to, "lock"))
            self.hand(me, to)
        self.blocked[me] = None

    # -- events
    def event(self, code, offset):
        me = self.current
        self.count[me] = c = self.count[me] + 1
        self.total += 1
        if self.total > self.cap:
            e = Runaway(f"not finished after {self.total} steps")
            self.stop_all(e)
            raise e
        to = self.yields[me].get(c)
        if to is not None:
            k = self.pick(prefer=to, after=me)
            if k is not None and k != me:
                self.switches.append((me, c, k, where(code, offset)))
                self.hand(me, k)

    def body(self, k):
        self.ident[_thread.get_ident()] = k
        self.sem[k].acquire()
        if not self.dead:
            try:
                self.results[k] = self.programs[k]()
            except BaseException as e:      # noqa: BLE001
                self.results[k] = ("stopped", type(e).__name__, str(e))
        self.done[k] = True
        nxt = self.pick(after=k) if not self.dead else None
        if nxt is not None:
            self.current = nxt
            self.sem[nxt].release()
        elif all(self.done):
            self.finished.release()
        elif not self.dead:
            # someone is blocked for ever
            self.dead = Deadlock("the remaining threads wait for a lock nobody will release")
            for j in range(self.n):
                if not self.done[j]:
                    self.sem[j].release()

    def run(self, first=0, timeout=60):
        global ACTIVE
        ACTIVE = self
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts:
            t.start()
        self.current = first
        watch(self.event)
        self.sem[first].release()
        ok = self.finished.acquire(timeout=timeout)
        ACTIVE = None
        return ok


class SimLock:
    """Stands in for Lock and RLock of gridded code."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def _held_for(self, who):
        return self._n > 0 and not (self._re and self._owner == who)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.me() if s is not None else None
        if self._held_for(me):
            if not blocking:
                return False
            if s is None:
                raise RuntimeError("a lock is waited for although nobody will release it")
            if timeout is not None and timeout >= 0:
                return False        # simulated time passes at once
            s.block_on(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._n == 0:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._n > 0

    def _is_owned(self):
        s = ACTIVE
        return self._n > 0 and self._owner == (s.me() if s is not None else None)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


_real = (threading.Lock, threading.RLock)


def install():
    """Locks created by gridded code (at any time from now on) are simulated."""
    def factory(real, re):
        def make(*a, **k):
            f = sys._getframe(1)
            for _ in range(3):
                if f is None:
                    break
                fn = f.f_code.co_filename
                if fn.startswith(PREFIX) and not fn.startswith(TESTS):
                    return SimLock(re)
                f = f.f_back
            return real(*a, **k)
        return make
    threading.Lock = factory(_real[0], False)
    threading.RLock = factory(_real[1], True)


class Counter:
    """Serial run: number of events, which of them follow a store, and which start a function."""

    def __init__(self):
        self.n = 0
        self.stores = {}
        self.calls = {}
        self.branches = {}      # first event after a decision: the window of check-then-act
        self._last = None
        self._at = None

    def event(self, code, offset):
        """Of each class, the places in the code and the events at each."""
        self.n += 1
        if self._last is not None:
            self._last.setdefault(self._at, []).append(self.n)
        ops = OPS.get(code)
        if ops is None:
            ops = OPS[code] = code.co_code
        op = ops[offset]
        self._at = at = (code, offset)
        self._last = self.stores if op in _STORE else self.branches if op in _JUMP else None
        if op == _RESUME:
            self.calls.setdefault(at, []).append(self.n)

    def run(self, fn):
        watch(self.event)
        try:
            return fn()
        finally:
            unwatch()
