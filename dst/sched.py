"""Threads under a scheduler.

Every thread of a run (those the scenario starts and those the library starts)
is a real thread, but only one runs at a time.  At each statement of the
library, when a thread ends and when it would block on a lock, the plan in the
scenario decides which one goes on.  Locks and thread start/join made through
the threading module are simulated, so that a deadlock is seen as such.
"""
import _thread
import os
import sys
import threading
import queue

from dst import seams
from dst.core import Outcome
from dst.interrupt import excluded

_alloc = _thread.allocate_lock
_ident = _thread.get_ident


def _sched():
    sim = seams.current()
    return getattr(sim, 'sched', None) if sim is not None else None


class SimLock:
    """threading.Lock, aware of the scheduler"""

    def __init__(self):
        self._real = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = _sched()
        if s is None or not s.mine():
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            if not s.block(self, timeout):
                return False
        return True

    def release(self):
        self._real.release()
        s = _sched()
        if s is not None:
            s.unblock(self)

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _alloc()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def install_early():
    """before pvlib is imported"""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    queue.SimpleQueue = queue._PySimpleQueue
    L = sys.modules['_frozen_importlib']._ModuleLock
    acquire, release = L.acquire, L.release

    def sim_acquire(self):
        s = _sched()
        if s is not None and s.mine():
            while self.owner is not None and self.owner != _ident() and \
                    s.task_of(self.owner) is not None:
                if not s.block(self, -1):
                    break
        return acquire(self)

    def sim_release(self):
        release(self)
        s = _sched()
        if s is not None:
            s.unblock(self)
    L.acquire, L.release = sim_acquire, sim_release


class Abandoned(BaseException):
    """a thread that can never go on is taken apart"""


class Task:
    def __init__(self, name, number):
        self.name, self.number = name, number
        self.go = _alloc()
        self.go.acquire()
        self.state = 'ready'            # ready, blocked, done
        self.on = None
        self.timed_out = False
        self.timeout = -1
        self.thread = None
        self.ident = None
        self.count = 0                  # statements executed
        self.out = None
        self.inject = None              # (statement number, exception)
        self.fired = None


class Sched:
    def __init__(self, sim, plan, trace=True):
        """plan: dense = [[statements, to], ...] until used up;
        at = {(task number, statement): to}; at_place = {(task number, file,
        line): [times passed before, to]}; picks = choices where a choice
        has to be made anyway (a thread has ended or blocks)"""
        self.sim = sim
        self.tasks = []
        self.by_ident = {}
        self.by_thread = {}
        self.dense = [list(x) for x in plan.get('dense', [])]
        self.at = dict(plan.get('at', {}))
        self.at_place = {k: list(v) for k, v in plan.get(
            'at_place', {}).items()}
        self.picks = list(plan.get('picks', []))
        self.stalls = list(plan.get('stalls', []))  # 1: the next wait with
        # a timeout expires before the others get anywhere
        self.injections = {}            # task number -> (statement, exc)
        self.start_fault = None         # number of the start that fails
        self.starts = 0
        self.gap = self.dense[0][0] if self.dense else None
        self.main = _alloc()
        self.main.acquire()
        self.raw = set()
        self.deadlock = None
        self.switches = 0
        self.steps = 0
        self.trace = trace
        self.on_switch = None
        self.current = None
        import pvlib
        self.prefix = os.path.dirname(os.path.abspath(pvlib.__file__)) + \
            os.sep

    # -- who is who
    def mine(self):
        i = _ident()
        return i in self.by_ident and i not in self.raw

    def task_of(self, ident):
        return self.by_ident.get(ident)

    def controls(self, thread):
        return self.mine()

    # -- threads of the library
    def thread_start(self, thread):
        self.starts += 1
        if self.start_fault is not None and self.starts == self.start_fault:
            self.sim.fault('thread_start_fails', self.starts)
            raise RuntimeError("can't start new thread")
        t = self._new(thread.name)
        self.by_thread[thread] = t
        self._launch(t, thread)

    def _launch(self, t, thread):
        t.thread = thread
        run = thread.run

        def sim_run():
            self._main(t, run)
        thread.run = sim_run
        self.raw.add(_ident())
        try:
            seams.real_thread_start(thread)
        finally:
            self.raw.discard(_ident())

    def thread_join(self, thread, timeout=None):
        t = self.by_thread.get(thread)
        if t is not None:
            while t.state != 'done':
                if not self.block(t, -1 if timeout is None else timeout):
                    return
        self.raw.add(_ident())
        try:
            seams.real_thread_join(thread, None if t else timeout)
        finally:
            self.raw.discard(_ident())

    def _new(self, name):
        t = Task(name, len(self.tasks))
        t.inject = self.injections.get(t.number)
        self.tasks.append(t)
        return t

    def _main(self, t, fn):
        t.ident = _ident()
        self.by_ident[t.ident] = t
        t.go.acquire()
        try:
            if self.deadlock:
                return
            if self.trace:
                sys.settrace(self._tracer(t))
            try:
                fn()
            finally:
                sys.settrace(None)
        except Abandoned:
            pass
        finally:
            t.state = 'done'
            self.by_ident.pop(t.ident, None)
            self.unblock(t)
            self._leave()

    # -- statements
    def _tracer(self, t):
        prefix = self.prefix

        def glob(frame, event, arg):
            if event != 'call' or not frame.f_code.co_filename.startswith(
                    prefix):
                return None
            return line

        def line(frame, event, arg):
            if event == 'line' and not self.deadlock:
                k = t.count
                t.count += 1
                self.steps += 1
                if t.inject is not None and t.inject[0] <= k and \
                        frame.f_lineno not in excluded(
                            frame.f_code.co_filename):
                    t.fired = (os.path.basename(frame.f_code.co_filename),
                               frame.f_code.co_name, frame.f_lineno)
                    exc, t.inject = t.inject[1], None
                    raise exc
                self._point(t, k, frame)
            return line
        return glob

    def _point(self, t, k, frame):
        to = self.at.pop((t.number, k), None)
        if to is None and self.at_place:
            p = t.number, frame.f_code.co_filename, frame.f_lineno
            x = self.at_place.get(p)
            if x is not None:
                x[0] -= 1
                if x[0] < 0:
                    to = self.at_place.pop(p)[1]
        if to is None and self.gap is not None:
            self.gap -= 1
            if self.gap < 0:
                to = self.dense.pop(0)[1]
                self.gap = self.dense[0][0] if self.dense else None
        if to is None:
            return
        others = [x for x in self.tasks if x.state == 'ready' and x is not t]
        if not others:
            return
        n = others[to % len(others)]
        self.switches += 1
        if self.on_switch:
            self.on_switch(frame, t, n)
        self._hand(t, n)

    def _hand(self, t, n):
        self.current = n
        n.go.release()
        t.go.acquire()
        if self.deadlock:
            raise Abandoned

    def _choose(self):
        ready = [x for x in self.tasks if x.state == 'ready']
        if not ready:
            return None
        return ready[(self.picks.pop(0) if self.picks else 0) % len(ready)]

    def _expire(self):
        """nobody can go on: the shortest timeout expires"""
        w = [x for x in self.tasks if x.state == 'blocked' and x.timeout >= 0]
        if not w:
            return None
        n = min(w, key=lambda x: (x.timeout, x.number))
        n.state, n.timed_out = 'ready', True
        return n

    def _leave(self):
        if self.deadlock:
            return
        n = self._choose() or self._expire()
        if n is not None:
            self.current = n
            n.go.release()
        elif any(x.state != 'done' for x in self.tasks):
            self._dead()
        else:
            self.main.release()

    def _dead(self):
        self.deadlock = [(x.name, type(x.on).__name__) for x in self.tasks
                         if x.state == 'blocked']
        for x in self.tasks:
            if x.state != 'done':
                x.go.release()
        self.main.release()

    # -- blocking
    def block(self, on, timeout=-1):
        """-> False when the timeout expired"""
        t = self.by_ident[_ident()]
        if timeout is not None and timeout >= 0 and self.stalls and \
                self.stalls.pop(0):
            self.sim.fault('stalled_thread', timeout)
            return False
        t.state, t.on, t.timeout = 'blocked', on, timeout
        t.timed_out = False
        n = self._choose() or self._expire()
        if n is None:
            self._dead()
            t.go.acquire()
            raise Abandoned
        if n is not t:
            self._hand(t, n)
        t.state, t.on = 'ready', None
        return not t.timed_out

    def unblock(self, on):
        for x in self.tasks:
            if x.state == 'blocked' and x.on is on:
                x.state = 'ready'

    # -- the run
    def run(self, fns, limit=None):
        """Run the functions in threads; -> outcomes (None: never ended)."""
        hook = threading.excepthook
        threading.excepthook = lambda *a: None
        mine = []
        try:
            for k, fn in enumerate(fns):
                t = self._new(f't{k}')
                mine.append(t)

                def body(t=t, fn=fn):
                    try:
                        t.out = Outcome(True, fn())
                    except Abandoned:
                        raise
                    except BaseException as e:
                        t.out = Outcome(False, exc=e)
                self._launch(t, threading.Thread(target=body, daemon=True))
            n = self._choose()
            self.current = n
            n.go.release()
            self.main.acquire()
            if not self.deadlock:
                for t in self.tasks:
                    seams.real_thread_join(t.thread)
        finally:
            threading.excepthook = hook
        return [t.out for t in mine]
