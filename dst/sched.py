"""Deterministic scheduler for real threads, and failures at chosen points.

Only the thread that holds the baton runs. Scheduling points are the lines
executed in the code under test (through sys.settrace) and the operations
of the simulated network. A schedule is a list of [task, points]: run the
task for that many points, then go on with the next entry; when the list is
used up, tasks run to their end in turn. Threads therefore interleave
exactly the same way in every run of a schedule.
"""
import os
import sys
import threading

from . import env
from .core import Violation

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
_SUT = os.path.join(env.REPO, 'seismostats') + os.sep
current = None          # the running Scheduler


class Deadlock(Exception):
    pass


class _Killed(BaseException):
    pass


class CoopLock:
    """Lock that gives the baton away instead of blocking the process."""
    _reentrant = False

    def __init__(self):
        self._l = _REAL_LOCK()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = current
        if s is None or not s.is_task():
            ok = self._l.acquire(blocking, timeout)
        else:
            while True:
                ok = self._l.acquire(False)
                if ok or not blocking or (timeout is not None
                                          and timeout >= 0):
                    break
                s.blocked()
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != threading.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        st = (self._owner, self._count)
        self._count = 0
        self._owner = None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._owner, self._count = st

    def _at_fork_reinit(self):
        self.__init__()


class CoopRLock(CoopLock):
    _reentrant = True


class patched_locks:
    """Locks created by the code under test are cooperative."""

    def __enter__(self):
        threading.Lock, threading.RLock = CoopLock, CoopRLock

    def __exit__(self, *_):
        threading.Lock, threading.RLock = _REAL_LOCK, _REAL_RLOCK


class Scheduler:
    def __init__(self, tasks, schedule, trace=True, limit=2_000_000,
                 fails=None):
        # fails: {task: [[step, exception class], ...]}
        self.fns = tasks
        self.fails = {(t, k): e for t, v in (fails or {}).items()
                      for k, e in v}
        self.fired = []
        self.n = len(tasks)
        self.schedule = [list(x) for x in schedule]
        self.trace = trace
        self.pos = -1
        self.left = 0
        self.cur = None
        self.alive = set(range(self.n))
        self.sems = [threading.Semaphore(0) for _ in tasks]
        self.done = threading.Semaphore(0)
        self.results = [None] * self.n
        self.steps = [0] * self.n
        self.switches = []
        self.total = 0
        self.limit = limit
        self.idents = {}
        self.stuck = 0
        self.failure = None
        self.in_task_depth = 0

    # ---- choosing
    def _next_entry(self):
        while self.pos + 1 < len(self.schedule):
            self.pos += 1
            t, n = self.schedule[self.pos]
            t = t % self.n
            if t in self.alive and n > 0:
                self.left = n
                return t
        self.left = None
        return None

    def _pick(self, after):
        t = self._next_entry()
        if t is None:
            order = [(after + 1 + k) % self.n for k in range(self.n)]
            t = next((k for k in order if k in self.alive), None)
        return t

    def is_task(self):
        return threading.get_ident() in self.idents

    def task(self):
        return self.idents.get(threading.get_ident())

    def _switch(self, me, to, why):
        if to == me:
            return
        self.switches.append((me, to, self.steps[me], why))
        self.cur = to
        self.sems[to].release()
        if me in self.alive:
            self.sems[me].acquire()
            if self.failure:
                raise _Killed()

    def point(self):
        me = self.idents.get(threading.get_ident())
        if me is None or me != self.cur:
            return
        self.steps[me] += 1
        self.total += 1
        self.stuck = 0
        if self.total > self.limit:
            self._fail('livelock', f'more than {self.limit} steps')
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                to = self._next_entry()
                if to is not None:
                    self._switch(me, to, 'preempt')
        exc = self.fails.get((me, self.steps[me])) if self.fails else None
        if exc is not None:
            self.fired.append((me, self.steps[me]))
            raise exc()

    def rearm(self):
        """Trace the calling task again (an injected failure ends it)."""
        if self.trace and self.is_task():
            sys.settrace(self._tracer)

    def blocked(self):
        me = self.task()
        self.stuck += 1
        if len(self.alive) == 1 or self.stuck > 4 * self.n + 8:
            self._fail('deadlock', 'all threads wait for a lock')
        order = [(me + 1 + k) % self.n for k in range(self.n)]
        to = next(k for k in order if k in self.alive and k != me)
        self._switch(me, to, 'blocked')

    def _fail(self, kind, msg):
        self.failure = (kind, msg)
        for t in self.alive:
            if t != self.cur:
                self.sems[t].release()
        raise _Killed()

    # ---- running
    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_SUT):
            return None
        return self._local_for(frame)

    def _local_for(self, frame):
        # Python repeats the event of a line depending on what ran before;
        # a point is a line other than the last one of this call.
        last = -1

        def local(frame, event, arg):
            nonlocal last
            if event == 'line' and frame.f_lineno != last:
                last = frame.f_lineno
                self.point()
            return local
        return local

    def _main(self, k):
        self.idents[threading.get_ident()] = k
        self.sems[k].acquire()
        try:
            if self.failure:
                raise _Killed()
            if self.trace:
                sys.settrace(self._tracer)
            try:
                self.results[k] = ('ok', self.fns[k]())
            finally:
                sys.settrace(None)
        except _Killed:
            self.results[k] = ('killed', None)
        except BaseException as e:
            self.results[k] = ('raised', e)
        finally:
            self.alive.discard(k)
            self.idents.pop(threading.get_ident(), None)
            if self.failure:
                if not self.alive:
                    self.done.release()
                else:
                    for t in self.alive:
                        self.sems[t].release()
            elif self.alive:
                to = self._pick(k)
                self.switches.append((k, to, self.steps[k], 'end'))
                self.cur = to
                self.sems[to].release()
            else:
                self.done.release()

    def run(self):
        global current
        ths = [threading.Thread(target=self._main, args=(k,), daemon=True,
                                name=f'task{k}') for k in range(self.n)]
        current = self
        with patched_locks():
            try:
                for t in ths:
                    t.start()
                first = self._pick(-1)
                self.cur = first
                self.sems[first].release()
                self.done.acquire()
            finally:
                current = None
        for t in ths:
            t.join(10)
        if self.failure:
            raise Violation(*self.failure)
        return self.results


def gen_schedule(rng, n, entries=12, longest=400):
    """Random schedule: a few preemptions at log-uniform distances."""
    out = []
    for _ in range(rng.randint(1, entries)):
        hi = rng.choice([2, 8, 30, 120, longest])
        out.append([rng.randrange(n), rng.randint(1, hi)])
    return out


class fail_at:
    """Raise exc() at the k-th line executed in the code under test (None:
    only count the lines)."""

    def __init__(self, k, exc=None, only=None, skip=None):
        self.k, self.exc, self.count, self.fired = k, exc, 0, None
        self.only, self.skip = only, skip

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_SUT):
            return None
        if self.only and self.only not in frame.f_code.co_filename:
            return None
        last = -1

        def local(frame, event, arg):
            nonlocal last
            if event == 'line' and frame.f_lineno != last:
                last = frame.f_lineno
                self.count += 1
                if self.k is not None and self.count == self.k \
                        and self.fired is None:
                    self.fired = (os.path.relpath(
                        frame.f_code.co_filename, env.REPO), last)
                    raise self.exc()
            return local
        return local

    def __enter__(self):
        sys.settrace(self._tracer)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
