"""A controlled scheduler for real threads.

Only one thread runs at a time.  Every executed line (or bytecode) of the files
under observation is a point at which the scheduler may hand over to another
thread; an execution is determined by who starts and by the list of points at
which a preemption takes place.  Locks made through ``threading`` are replaced
by ones that tell the scheduler when a thread has to wait.

Has to be imported before the code under test.
"""
import gc
import os
import sys
import threading
import _thread

REPO = os.environ.get('MC_REPO', '/repo')
PREFIX = os.path.join(os.path.realpath(REPO), 'marsh') + os.sep

_active = None
_by_ident = {}
_real_lock, _real_rlock = threading.Lock, threading.RLock


class Deadlock(Exception):
    pass


class Abandoned(BaseException):
    pass


class CoopLock:
    """A lock that hands over to other managed threads while it has to wait."""

    reentrant = False

    def __init__(self):
        self._lock = (_real_rlock if self.reentrant else _real_lock)()

    def acquire(self, blocking=True, timeout=-1):
        ex = _active
        me = _by_ident.get(_thread.get_ident()) if ex is not None else None
        if me is None:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking:
                return False
            ex.blocked(me, self)
        return True

    def release(self):
        self._lock.release()
        ex = _active
        if ex is not None:
            ex.waiting = {k: v for k, v in ex.waiting.items() if v is not self}

    def locked(self):
        if self._lock.acquire(False):
            self._lock.release()
            return False
        return True

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


class CoopRLock(CoopLock):
    reentrant = True


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Execution:
    """One run of some functions, each in a thread of its own."""

    def __init__(self, fns, plan, first=0, opcodes=False, only=None):
        self.fns, self.plan, self.first = fns, dict(plan), first
        self.opcodes, self.only = opcodes, only
        self.n = len(fns)
        self.sems = [_real_lock() for _ in fns]
        for s in self.sems:
            s.acquire()
        self.done = _real_lock()
        self.done.acquire()
        self.alive = set(range(self.n))
        self.waiting = {}           # thread -> lock it waits for
        self.points = []            # (thread, where, others that could run)
        self.results = [None] * self.n
        self.dead = False
        self.switches = 0

    # -- called by the running thread
    def enabled(self, me):
        return [t for t in sorted(self.alive) if t != me and t not in self.waiting]

    def point(self, me, where):
        i = len(self.points)
        others = self.enabled(me)
        self.points.append((me, where, tuple(others)))
        to = self.plan.get(i)
        if to is not None and to in others:
            self.hand_over(me, to)

    def candidates(self, visits, start=0):
        """The points from start on that are among the first visits of their place by their thread."""
        seen = {}
        for i, (me, where, others) in enumerate(self.points):
            n = seen[me, where] = seen.get((me, where), 0) + 1
            if i >= start and others and (n <= visits or where == 'pause'):
                yield i, others

    def hand_over(self, me, to):
        self.switches += 1
        self.sems[to].release()
        self.sems[me].acquire()
        if self.dead:
            raise Abandoned()

    def blocked(self, me, lock):
        self.waiting[me] = lock
        others = self.enabled(me)
        if not others:
            self.dead = True
            for t in self.alive:
                if t != me:
                    self.sems[t].release()
            raise Deadlock(f'all threads wait for a lock')
        self.hand_over(me, others[0])

    def finished(self, me):
        self.alive.discard(me)
        if not self.alive:
            self.done.release()
            return
        if self.dead:
            return
        rest = self.enabled(me)
        if rest:
            self.sems[rest[0]].release()
        else:
            self.dead = True
            for t in self.alive:
                self.sems[t].release()

    def tracer(self, me):
        wanted, opcodes = self.only, self.opcodes

        def local(frame, event, arg):
            if event == 'line' and not opcodes or event == 'opcode':
                self.point(me, (frame.f_code.co_qualname, frame.f_lasti if opcodes else frame.f_lineno))
            return local

        def start(frame, event, arg):
            name = frame.f_code.co_filename
            if not name.startswith(PREFIX):
                return None
            if wanted is not None and name[len(PREFIX):] not in wanted:
                return None
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return start

    def body(self, me):
        ident = _thread.get_ident()
        _by_ident[ident] = me
        self.sems[me].acquire()
        try:
            if self.dead:
                raise Abandoned()
            sys.settrace(self.tracer(me))
            try:
                value = self.fns[me]()
            finally:
                sys.settrace(None)
            self.results[me] = ('ok', value)
        except Abandoned:
            self.results[me] = ('abandoned', None)
        except BaseException as err:
            self.results[me] = ('raised', err)
        finally:
            del _by_ident[ident]
            self.finished(me)

    def run(self):
        global _active
        _active = self
        gc.disable()
        try:
            for t in range(self.n):
                _thread.start_new_thread(self.body, (t,))
            self.sems[self.first].release()
            self.done.acquire()
        finally:
            _active = None
            gc.enable()
        return self
