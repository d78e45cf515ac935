"""A simulated scheduler for real threads.

Every thread of a run is a real thread parked on its own gate; exactly one is
let go at a time, so nothing the operating system does matters.  A thread can
be preempted before every source line of the library (and of functools, whose
caches the library shares between threads).  Which lines these are is written
in the plan, as fractions of the lines the thread executes when left alone.
Waiting for a lock (SimLock) is a scheduling decision as well; when nobody can
go on, the run is a deadlock.
"""
import _thread
import functools
import os
import sys

from . import seams

PREFIX = os.path.join(seams.REPO, 'golem_messages') + os.sep
FUNCTOOLS = functools.__file__


class Abandon(BaseException):
    """ends a thread of a run that is over"""


def quiet(fn):
    """harness work within a thread: neither traced nor preempted"""
    @functools.wraps(fn)
    def wrapped(*args, **kw):
        trace = sys.gettrace()
        if trace is None:
            return fn(*args, **kw)
        sys.settrace(None)
        try:
            return fn(*args, **kw)
        finally:
            sys.settrace(trace)
    return wrapped


class _Thread:
    def __init__(self, fn):
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.lines = 0
        self.done = False
        self.waits = None        # lock it waits for
        self.stops = []          # [(line, what, arg)], sorted
        self.spots = {}          # (file, line) -> [(nth, to)]
        self.passed = {}         # (file, line) -> times executed
        self.order = []          # distinct lines by first execution
        self.fixed = 0           # > 0: within an import

    def rare(self):
        return [x for x in self.order if self.passed[x] == 1]


class Scheduler:
    def __init__(self, fns, on_switch=None, on_jump=None):
        self.threads = [_Thread(f) for f in fns]
        self.current = None
        self.limit = 2_000_000
        self.trouble = None      # ('deadlock' | 'livelock', detail)
        self.error = None        # first exception out of a thread
        self.over = False
        self.on_switch = on_switch or (lambda *a: None)
        self.on_jump = on_jump or (lambda *a: None)
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.switched = 0
        self._files = {}

    def plan(self, thread, line, what, arg):
        self.threads[thread].stops.append((line, what, arg))

    def plan_spot(self, thread, spot, nth, to):
        self.threads[thread].spots.setdefault(spot, []).append((nth, to))

    # --- life --------------------------------------------------------------

    def run(self):
        for t in self.threads:
            t.stops.sort(key=lambda s: s[0])
        seams.SEAM.scheduler = self
        try:
            for i in range(len(self.threads)):
                _thread.start_new_thread(self._body, (i,))
            self._go(0)
            try:
                while not self.finished.acquire(timeout=0.5):
                    pass
            except BaseException:
                self.over = True
                raise
        finally:
            self.current = None
            seams.SEAM.scheduler = None

    def _body(self, i):
        t = self.threads[i]
        t.gate.acquire()
        if not self.over:
            sys.settrace(self._trace)
            try:
                t.fn()
            except Abandon:
                pass
            except BaseException as e:  # pylint: disable=broad-except
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
        t.done = True
        nxt = self._next(i)
        if nxt is None:
            if any(not x.done for x in self.threads):
                self._stuck()
                # let them end one by one
                nxt = next(j for j, x in enumerate(self.threads)
                           if not x.done)
                self._go(nxt)
            else:
                self.finished.release()
        else:
            self._go(nxt)

    def _stuck(self):
        if self.trouble is None:
            self.trouble = ('deadlock', 'threads %s wait for locks' % [
                j for j, x in enumerate(self.threads) if not x.done])
        self.over = True

    def _go(self, i):
        self.current = i
        self.threads[i].gate.release()

    def _ready(self, t):
        return not t.done and (
            self.over or t.waits is None or not t.waits.locked())

    def _next(self, i):
        n = len(self.threads)
        for k in range(1, n + 1):
            j = (i + k) % n
            if j != i and self._ready(self.threads[j]):
                return j
        return None

    def _switch(self, i, to):
        if to == i or to is None or not self._ready(self.threads[to]):
            to = self._next(i)
        if to is None:
            return False
        self.switched += 1
        self._go(to)
        t = self.threads[i]
        t.gate.acquire()
        if self.over:
            raise Abandon()
        return True

    def block_on(self, lock):
        """the running thread waits for a lock"""
        i = self.current
        t = self.threads[i]
        t.waits = lock
        self.on_switch(i, None, 'a lock', 0)
        try:
            if not self._switch(i, None):
                self._stuck()
                raise Abandon()
        finally:
            t.waits = None

    # --- tracing -----------------------------------------------------------

    def _kind(self, name):
        k = self._files.get(name)
        if k is None:
            k = 1 if name.startswith(PREFIX) else \
                2 if name == FUNCTOOLS else 0
            self._files[name] = k
        return k

    def _trace(self, frame, event, _arg):
        if event != 'call':
            return None
        k = self._kind(frame.f_code.co_filename)
        if k == 1 and frame.f_code.co_name == '<module>':
            self.threads[self.current].fixed += 1
            return self._module
        if not k or frame.f_code.co_name[0] == '<':
            # how often a comprehension reports its line is not determined
            return None
        if k == 2:
            # of the caches of functools only those the library made
            fn = frame.f_locals.get('user_function')
            if not getattr(fn, '__module__', '').startswith(
                    'golem_messages'):
                return None
        last = -1

        def line(frame, event, _arg):
            nonlocal last
            if event == 'line' and frame.f_lineno != last:
                last = frame.f_lineno
                self._line(frame)
            return line
        return line

    def _module(self, _frame, event, _arg):
        if event == 'return':
            self.threads[self.current].fixed -= 1
        return self._module

    def _line(self, frame):
        i = self.current
        t = self.threads[i]
        t.lines += 1
        if self.over:
            raise Abandon()
        if t.lines > self.limit:
            if self.trouble is None:
                self.trouble = ('livelock', '%d lines in thread %d, at %s:%d'
                                % (t.lines, i, frame.f_code.co_filename,
                                   frame.f_lineno))
            self.over = True
            raise Abandon()
        while t.stops and t.stops[0][0] <= t.lines and not t.fixed:
            _at, what, arg = t.stops.pop(0)
            where = frame.f_code.co_filename.rsplit('/', 1)[-1]
            if what == 'switch':
                self.on_switch(i, arg, where, frame.f_lineno)
                self._switch(i, arg)
            else:
                self.on_jump(i, arg, where, frame.f_lineno)
        here = (frame.f_code.co_filename, frame.f_lineno)
        n = t.passed.get(here, 0) + 1
        t.passed[here] = n
        if n == 1:
            t.order.append(here)
        if here in t.spots and not t.fixed:
            for nth, to in t.spots[here]:
                if nth == n:
                    self.on_switch(i, to, here[0].rsplit('/', 1)[-1],
                                   here[1])
                    self._switch(i, to)
