"""Threads, locks and clock under the simulator's control.

Real threads carry the tasks, but exactly one runs at any time: a task keeps the
baton until it blocks, finishes, or is preempted at a source line of the code
under test (sys.settrace).  Who runs next, and after how many lines a task is
preempted, are draws from the tape.  Time is simulated: when no task can run,
the clock jumps to the next deadline or scheduled event.
"""
import heapq
import os
import sys
import _thread
import threading as _threading

_RealThread = _threading.Thread
_alloc = _thread.allocate_lock
REPO = os.path.join(os.environ.get('PYBRAIN_REPO', '/repo'), 'pybrain') + os.sep

current = None          # the active Sched of this run, if any


class TaskKilled(BaseException):
    pass


class Task(object):
    def __init__(self, sched, name, fn, daemon=False):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.daemon = daemon
        self.go = _alloc()
        self.go.acquire()
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.killed = False
        self.error = None
        self.result = None
        self.lines = -1          # lines until preemption, -1: none
        self.waiting_on = None
        self.preemptible = True
        self.stalled = 0.0       # simulated time it was kept from running
        self.ident = None

    def _boot(self):
        self.go.acquire()
        s = self.sched
        try:
            if not self.killed:
                if s.preempt:
                    sys.settrace(s._trace)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except TaskKilled:
            pass
        except BaseException as e:
            self.error = e
            if not self.killed:
                s.errors.append((self, e))
        self.done = True
        s.cur = None
        s.ctl.release()


class Sched(object):
    def __init__(self, sim, preempt=True, max_gap=40, max_switches=20000):
        self.sim = sim
        self.preempt = preempt
        self.max_gap = max_gap
        self.tasks = []
        self.now = 1000.0
        self.t0 = 1000.0
        self.heap = []
        self.seq = 0
        self.ctl = _alloc()
        self.ctl.acquire()
        self.cur = None
        self.errors = []
        self.switches = 0
        self.max_switches = max_switches
        self.nspawn = 0
        self.preemptions = 0
        self.stalls = ()         # how long a preempted task may be kept from running
        self.exhausted = False

    # -- tasks -----------------------------------------------------------
    def spawn(self, fn, name=None, daemon=False):
        self.nspawn += 1
        t = Task(self, name or ('t%d' % self.nspawn), fn, daemon)
        self.tasks.append(t)
        self.sim.log('spawn', t.name)
        t.ident = _thread.start_new_thread(t._boot, ())
        return t

    def current_task(self):
        return self.cur

    def at(self, delay, fn, what=''):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, fn, what))

    def block(self, pred=None, timeout=None, what=''):
        """called by the running task: park until pred() or timeout. -> True if pred held"""
        t = self.cur
        if t is None:
            raise RuntimeError('blocking call outside a simulated task: %s' % what)
        if t.killed:
            raise TaskKilled()
        if pred is None and timeout is None:
            pred = _true
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        t.timed_out = False
        t.waiting_on = what
        sys_trace = sys.gettrace()
        self.cur = None
        self.ctl.release()
        t.go.acquire()
        if t.killed:
            raise TaskKilled()
        return not t.timed_out

    def yield_point(self, what=''):
        if self.cur is not None:
            self.block(_true, None, what)

    def sleep(self, secs):
        self.block(_false, max(0.0, secs), 'sleep')

    # -- preemption ------------------------------------------------------
    def _trace(self, frame, event, arg):
        t = self.cur
        if t is None:
            return None
        fn = frame.f_code.co_filename
        if not fn.startswith(REPO):
            return None
        if t.killed:
            raise TaskKilled()
        return self._trace_line

    def _trace_line(self, frame, event, arg):
        t = self.cur
        if t is None:
            return None
        if t.killed:
            raise TaskKilled()
        if event == 'line' and t.lines > 0 and t.preemptible:
            t.lines -= 1
            if t.lines == 0:
                self.preemptions += 1
                self.sim.fault('preemption')
                d = self.sim.choice(self.stalls) if self.stalls else 0.0
                if d:
                    self.sim.fault('stall')
                    t.stalled += d
                    self.block(_false, d, 'stalled')
                else:
                    self.block(_true, None, 'preempted')
        return self._trace_line

    # -- main loop --------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None and t.deadline is None:
                out.append(t)           # not started
            elif t.pred is not None and t.pred():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
        return out

    def run(self, until=None, max_time=None):
        """run until `until()` holds, or nothing can ever run again, or limits.
        -> 'until' | 'quiescent' | 'time' | 'switches'"""
        while True:
            if until is not None and until():
                return 'until'
            while self.heap and self.heap[0][0] <= self.now:
                _, _, fn, what = heapq.heappop(self.heap)
                fn()
            self.tasks = [t for t in self.tasks if not t.done]
            run = self._runnable()
            if not run:
                nxt = [t.deadline for t in self.tasks if t.deadline is not None]
                if self.heap:
                    nxt.append(self.heap[0][0])
                if not nxt:
                    return 'quiescent'
                n = min(nxt)
                if max_time is not None and n - self.t0 > max_time:
                    return 'time'
                if n > self.now:
                    self.sim.simtime += n - self.now
                    self.now = n
                continue
            if self.switches >= self.max_switches:
                self.exhausted = True
                return 'switches'
            t = run[self.sim.draw(len(run))]
            self.resume(t)

    def resume(self, t):
        self.switches += 1
        if t.pred is not None or t.deadline is not None:
            t.timed_out = not (t.pred is not None and t.pred())
        t.pred = None
        t.deadline = None
        t.waiting_on = None
        if self.preempt:
            g = self.sim.draw(self.max_gap * 2)
            t.lines = g if g <= self.max_gap else -1
            if g == 0:
                t.lines = -1
        self.cur = t
        t.go.release()
        self.ctl.acquire()

    def shutdown(self):
        """unwind every task that is still alive"""
        for t in list(self.tasks):
            n = 0
            while not t.done:
                t.killed = True
                n += 1
                if n > 2000:
                    break           # abandoned (daemon thread, parked for ever)
                t.pred = t.deadline = None
                self.cur = t
                t.go.release()
                self.ctl.acquire()
        self.tasks = []


def _true():
    return True


def _false():
    return False


# --- replacements for the threading module's classes --------------------------

class SimLock(object):
    """threading.Lock under the scheduler"""

    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is not None and s.cur is not None:
            s.yield_point('lock')
            if not self._held:
                self._held = True
                return True
            if not blocking:
                s.sim.probe('lock-contended')
                return False
            s.sim.probe('lock-waited')
            ok = s.block(lambda: not self._held, None if timeout is None or timeout < 0 else timeout, 'lock')
            if not ok:
                return False
            self._held = True
            return True
        if self._held:
            if blocking:
                raise RuntimeError('deadlock: lock held outside the scheduler')
            return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        s = current
        if s is not None and s.cur is not None:
            s.yield_point('unlock')

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock(object):
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def _me(self):
        return current.cur if current is not None else None

    def acquire(self, blocking=True, timeout=-1):
        me = self._me() or 'main'
        if self._owner is me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner is not (self._me() or 'main'):
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is (self._me() or 'main')


class SimEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        self._flag = True
        if current is not None:
            current.yield_point('event')

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        if current is None or current.cur is None:
            return self._flag
        return current.block(lambda: self._flag, timeout, 'event')


class SimCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        self._lock.release()
        ok = current.block(lambda: tok[0], timeout, 'condition')
        if not ok and tok in self._waiters:
            self._waiters.remove(tok)
        self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


class SimSemaphore(object):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        if current is not None:
            current.yield_point('sem')
        if self._value <= 0:
            if not blocking:
                return False
            if not current.block(lambda: self._value > 0, timeout, 'sem'):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        if current is not None:
            current.yield_point('sem')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimThread(object):
    """threading.Thread under the scheduler (subclassable)"""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._name = name
        self._daemonic = bool(daemon)
        self._task = None

    def start(self):
        if current is None:
            raise RuntimeError('thread started outside a simulated run')
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        s = current
        if s.sim is not None and getattr(s, 'fail_start', None) and s.fail_start():
            s.sim.fault('thread-start-fails')
            raise RuntimeError("can't start new thread")
        self._task = s.spawn(self.run, self._name, self._daemonic)
        s.yield_point('start')

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def join(self, timeout=None):
        t = self._task
        if t is None:
            raise RuntimeError('cannot join thread before it is started')
        current.block(lambda: t.done, timeout, 'join')

    def is_alive(self):
        return self._task is not None and not self._task.done

    @property
    def name(self):
        return self._name or 'sim'

    @name.setter
    def name(self, v):
        self._name = v

    def getName(self):
        return self.name

    def setName(self, v):
        self._name = v

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, v):
        if self._task is not None:
            raise RuntimeError('cannot set daemon status of active thread')
        self._daemonic = bool(v)

    def setDaemon(self, v):
        self.daemon = v

    def isDaemon(self):
        return self._daemonic

    @property
    def ident(self):
        return id(self._task) if self._task is not None else None


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()
