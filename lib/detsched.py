# -*- coding: utf-8 -*-
"""Controlled execution of the real multi-threaded code in virtual time.

Real OS threads run the code under test, but only one at a time: every blocking operation (lock, event, join, sleep, serial read)
and, optionally, every executed line/opcode of the code under test is a point at which a seeded scheduler decides which thread continues, and
whether the simulated device acts. Time is virtual: it advances only when every thread is blocked (plus small random lags), so timeouts are decided
exactly and independently of the load of the machine. The threading/time primitives are substituted before the code under
test is imported; Event, Condition, Semaphore, queue.Queue and Timer are the real library code running on the substituted locks.
"""
import sys, _thread, threading, time, heapq, traceback, os, gc

_real = {'allocate': _thread.allocate_lock, 'start': _thread.start_new_thread, 'sleep': time.sleep, 'time': time.time, 'monotonic': time.monotonic,
         'Thread': threading.Thread, 'get_ident': _thread.get_ident}
EPOCH = 1700000000.0
CUR = None # the scheduler of the running case

class SchedAbort(BaseException):
    """ ends the threads of a case that is over """
class Deadlock(BaseException):
    pass

class Task(object):
    __slots__ = ('name', 'baton', 'pred', 'deadline', 'done', 'started', 'fn', 'thread', 'idx')
    def __init__(self, name, idx):
        self.name, self.idx = name, idx
        self.baton = _real['allocate'](); self.baton.acquire()
        self.pred = self.deadline = None
        self.done = False
        self.started = False
        self.thread = None

class Sched(object):
    def __init__(self, rng, p_switch=.3, p_op=0.0, opcodes=False, p_lag=0.0, trace_prefixes=(), max_steps=400000):
        self.rng = rng
        self.p_switch, self.p_op, self.opcodes, self.p_lag = p_switch, p_op, opcodes, p_lag
        self.prefixes = tuple(trace_prefixes)
        self.now = 0.0
        self.tasks = []
        self.heap = []
        self.seq = 0
        self.by_ident = {}
        self.aborting = False
        self.uncaught = []
        self.steps = 0
        self.switches = 0
        self.preemptions = 0
        self.max_steps = max_steps
        self.failure = None
        self.p_freeze, self.frozen, self.thaw, self.thaw_time, self.holds, self.next_slow = 0, None, 0, 0.0, 0, 0.0
        self.countdown = self._next_countdown()
        self.sig = 0 # hash of the schedule

    # ---------------------------------------------------------------- tasks
    def task(self):
        return self.by_ident.get(_real['get_ident']())
    def spawn(self, fn, name, thread=None):
        t = Task(name, len(self.tasks)); t.thread = thread
        self.tasks.append(t)
        def boot():
            t.baton.acquire()
            self.by_ident[_real['get_ident']()] = t
            try:
                if not self.aborting:
                    self.install_trace()
                    fn()
            except SchedAbort: pass
            except BaseException as e:
                if not self.aborting:
                    self.uncaught.append((t.name, e, traceback.format_exc(limit=-6)))
            finally:
                sys.settrace(None)
                t.done = True
                self.by_ident.pop(_real['get_ident'](), None)
                self._leave(t)
        t.started = True
        _real['start'](boot, ())
        return t
    def _leave(self, t):
        if self.aborting:
            self.main.baton.release(); return
        try: n = self._choose(None)
        except Deadlock as e:
            self.failure = e; n = self.main
        n.baton.release()

    # ---------------------------------------------------------------- scheduling
    def at(self, delay, fn):
        """ the device does fn() after delay seconds """
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0.0, delay), self.seq, fn))
    def _ready(self, t):
        if t.done: return False
        if t.pred is None: return t.deadline is None or t.deadline <= self.now
        return (t.deadline is not None and t.deadline <= self.now) or t.pred()
    def _choose(self, cur):
        """ next task to run; lets the device act and time pass as needed """
        while True:
            self.steps += 1
            if self.steps > self.max_steps: raise Deadlock('step budget exhausted at virtual time %.3f' % self.now)
            if self.failure: return self.main
            ready = [t for t in self.tasks if self._ready(t)]
            due = self.heap and self.heap[0][0] <= self.now
            if self.frozen is not None:
                # one thread is held back although it could run: the others go on until they need it, as if it had been preempted for that long
                if self.steps > self.thaw or self.frozen.done: self.frozen = None
                elif self.frozen in ready:
                    if len(ready) > 1: ready.remove(self.frozen)
                    elif due: heapq.heappop(self.heap)[2](); continue
                    elif self.heap and self.heap[0][0] <= self.thaw_time: self.now = max(self.now, self.heap[0][0]); self.next_slow = self.thaw_time + .5; continue
                    else: self.frozen = None # (they cannot go on without it)
            if due and (not ready or self.rng.random() < .5):
                heapq.heappop(self.heap)[2](); continue
            if ready:
                n = ready[0] if len(ready) == 1 else self.rng.choice(ready)
                if n is not cur: self.switches += 1; self.sig = hash((self.sig, n.idx))
                return n
            nxt = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if self.heap: nxt.append(self.heap[0][0])
            if not nxt: raise Deadlock('all threads are blocked for ever at virtual time %.3f: %s' % (self.now, [t.name for t in self.tasks if not t.done]))
            self.now = max(self.now, min(nxt))
    def _switch(self, cur):
        try: n = self._choose(cur)
        except Deadlock as e:
            self.failure = e
            n = self.main
        if n is not cur:
            n.baton.release()
            cur.baton.acquire()
        if self.aborting: raise SchedAbort()
        if self.failure and cur is self.main: raise self.failure
    def _freeze(self, cur, f=1):
        if self.frozen is None and self.rng.random() < f * self.p_freeze:
            self.holds += 1
            self.frozen, self.thaw, self.thaw_time = cur, self.steps + self.rng.choice((10, 40, 150, 600)), self.now + self.rng.choice((0, .02, .04))
            if self.now < self.next_slow: self.thaw_time = self.now # (time lost by being held back does not add up)
            return True
        return False
    def point(self, f=1):
        """ voluntary scheduling point """
        cur = self.task()
        if cur is None: return
        if self.aborting:
            if cur is not self.main: raise SchedAbort()
            return
        if self.p_lag and self.heap and self.heap[0][0] <= self.now + .02 and self.rng.random() < self.p_lag:
            self.now = max(self.now, self.heap[0][0])
        if self.rng.random() < self.p_switch or self.p_freeze and self._freeze(cur, f): self._switch(cur)
    def preempt(self):
        cur = self.task()
        if cur is None or self.aborting: return
        self.preemptions += 1
        if self.p_lag and self.heap and self.heap[0][0] <= self.now + .02 and self.rng.random() < .3:
            self.now = max(self.now, self.heap[0][0])
        if self.p_freeze: self._freeze(cur)
        self._switch(cur)
    def block(self, pred, timeout=None):
        """ waits until pred() (or, if pred is None, for the whole timeout); returns False if it timed out """
        cur = self.task()
        if cur is None: raise RuntimeError('blocking operation outside of the scheduler')
        if self.aborting and cur is not self.main: raise SchedAbort()
        cur.pred, cur.deadline = pred, (None if timeout is None else self.now + max(0.0, timeout))
        if pred is None and timeout is None: cur.pred = lambda: False
        try: self._switch(cur)
        finally:
            cur.pred = cur.deadline = None
        return True if pred is None else bool(pred())

    # ---------------------------------------------------------------- preemption inside the code under test
    def _next_countdown(self):
        if not self.p_op: return 1 << 60
        r = self.rng.random()
        import math
        return 1 + int(math.log(1 - r) / math.log(1 - self.p_op))
    def install_trace(self):
        if self.p_op: sys.settrace(self._global)
    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes): return None
        if self.opcodes: frame.f_trace_opcodes = True
        return self._local
    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = self._next_countdown()
                try: self.preempt()
                except BaseException:
                    # the interpreter drops the trace function of this thread now, and CPython 3.12 then crashes at the next opcode event of these frames
                    while frame is not None: frame.f_trace_opcodes = False; frame = frame.f_back
                    raise
        return self._local

    # ---------------------------------------------------------------- one case
    def run(self, fn):
        """ runs fn as the main thread of the case, then ends all other threads; returns fn's result """
        global CUR
        assert CUR is None
        self.main = Task('main', 0); self.main.started = True
        self.tasks.append(self.main)
        self.by_ident[_real['get_ident']()] = self.main
        CUR = self
        clean = True
        gc.disable() # (finalizers and weak reference callbacks must not run in the midst of the scheduler's own work)
        try:
            self.install_trace()
            return fn()
        except (Exception, Deadlock):
            raise
        except BaseException: # the watchdog: some thread may still be running
            clean = False
            raise
        finally:
            sys.settrace(None)
            self.aborting = True
            k = 1
            while clean and k < len(self.tasks):
                t = self.tasks[k]; k += 1
                if not t.done:
                    t.baton.release()
                    self.main.baton.acquire(True, 10)
            self.leftover = [t.name for t in self.tasks[1:] if not t.done]
            CUR = None
            self.by_ident.clear()
            gc.enable()

# -------------------------------------------------------------------------------------------- substitutes
class VLock(object):
    def __init__(self): self._locked = False
    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is None or s.task() is None:
            self._locked = True; return True
        s.point()
        if not self._locked:
            self._locked = True; return True
        if not blocking: return False
        if not s.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout): return False
        self._locked = True
        return True
    acquire_lock = acquire
    def release(self):
        if not self._locked: raise RuntimeError('release unlocked lock')
        self._locked = False
        s = CUR
        if s is not None and s.task() is not None and not s.aborting: s.point(3) # (what the lock protected has just become available to others)
    release_lock = release
    def locked(self): return self._locked
    locked_lock = locked
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self._locked = False

class VRLock(object):
    def __init__(self): self._owner, self._count = None, 0
    def _me(self):
        s = CUR
        return (s.task() if s is not None else None) or _real['get_ident']()
    def acquire(self, blocking=True, timeout=-1):
        s = CUR; me = self._me()
        if self._owner is me or self._owner == me and self._owner is not None:
            self._count += 1; return True
        if s is None or s.task() is None:
            self._owner, self._count = me, 1; return True
        s.point()
        if self._owner is not None:
            if not blocking: return False
            if not s.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout): return False
        self._owner, self._count = me, 1
        return True
    def release(self):
        if self._owner is not self._me() and self._owner != self._me(): raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = CUR
            if s is not None and s.task() is not None and not s.aborting: s.point(3) # (what the lock protected has just become available to others)
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def _is_owned(self): return self._owner is self._me()
    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st
    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st
    def _recursion_count(self): return self._count if self._is_owned() else 0
    def _at_fork_reinit(self): self._owner, self._count = None, 0

class VThread(_real['Thread']):
    _vtask = None
    def start(self):
        s = CUR
        if s is None: raise RuntimeError('thread started outside of a case')
        if self._vtask is not None: raise RuntimeError('threads can only be started once')
        self._started._flag = True
        def body():
            ident = _real['get_ident']()
            self._ident = ident
            old = threading._active.get(ident)
            threading._active[ident] = self
            try: self.run()
            finally:
                threading._active.pop(ident, None)
        self._vtask = s.spawn(body, self.name, self)
        s.point()
    def join(self, timeout=None):
        if self._vtask is None: raise RuntimeError('cannot join thread before it is started')
        s = CUR
        if s is None or self._vtask.done: return
        if s.task() is self._vtask: raise RuntimeError('cannot join current thread')
        s.block(lambda: self._vtask.done, timeout)
    def is_alive(self): return self._vtask is not None and not self._vtask.done
    isAlive = is_alive

def vsleep(sec):
    s = CUR
    if s is None or s.task() is None: return _real['sleep'](sec)
    if sec < 0: raise ValueError('sleep length must be non-negative')
    s.block(None, sec)
def vtime():
    s = CUR
    if s is None or s.task() is None: return _real['time']()
    s.now += 1e-6
    return EPOCH + s.now
def vmono():
    s = CUR
    if s is None or s.task() is None: return _real['monotonic']()
    s.now += 1e-6
    return s.now

def patch():
    """ substitutes the primitives; call before importing the code under test """
    import queue
    threading.Lock = threading._allocate_lock = VLock
    threading.RLock = VRLock
    threading.Thread = VThread
    threading._time = vmono
    class Timer(VThread):
        def __init__(self, interval, function, args=None, kwargs=None):
            VThread.__init__(self)
            self.interval, self.function = interval, function
            self.args = args if args is not None else []
            self.kwargs = kwargs if kwargs is not None else {}
            self.finished = threading.Event()
        def cancel(self): self.finished.set()
        def run(self):
            self.finished.wait(self.interval)
            if not self.finished.is_set(): self.function(*self.args, **self.kwargs)
            self.finished.set()
    threading.Timer = Timer
    time.sleep, time.time, time.monotonic, time.perf_counter = vsleep, vtime, vmono, vmono
    queue.time = vmono
    if hasattr(queue, '_PySimpleQueue'): queue.SimpleQueue = queue._PySimpleQueue
