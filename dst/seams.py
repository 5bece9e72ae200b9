"""Puts the simulator behind every seam the library has, before it is imported."""
import builtins
import os
import random
import socket
import select
import sys
import threading
import time

from dst import simsched, simnet, simfs

_installed = False
_base_time = 1.7e9
_expect_interrupt = [False]
real_time = time.time


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # modules that must see the real classes are imported before patching
    import multiprocessing, logging, tempfile, shutil, subprocess, pickle, concurrent.futures  # noqa
    import numpy, scipy, scipy.linalg, scipy.optimize, scipy.stats, scipy.ndimage, scipy.signal  # noqa
    import xml.dom.minidom, xml.dom.expatbuilder  # noqa
    socket.socket = simnet.SimSocket
    socket.SocketType = simnet.SimSocket
    socket.create_connection = simnet.create_connection
    select.select = simnet.sim_select
    threading.Thread = simsched.SimThread
    threading.Timer = simsched.SimTimer
    threading.Lock = simsched.SimLock
    threading.RLock = simsched.SimRLock
    threading.Event = simsched.SimEvent
    threading.Condition = simsched.SimCondition
    threading.Semaphore = simsched.SimSemaphore
    threading.BoundedSemaphore = simsched.SimSemaphore
    time.sleep = _sleep
    time.time = _time
    time.monotonic = _time
    time.perf_counter = _time
    simfs.install()


def _sleep(secs):
    s = simsched.current
    if s is not None and s.cur is not None:
        s.sleep(secs)


def _time():
    s = simsched.current
    if s is not None:
        return _base_time + s.now
    return _base_time


def reset(sim):
    """forget everything a previous run in this process may have left behind"""
    simsched.current = None
    simnet.current = None
    simfs.current = None
    _expect_interrupt[0] = False
    random.seed(0)
    import numpy
    numpy.random.seed(0)
    numpy.seterr(all='ignore')
    numpy.set_printoptions(edgeitems=3, infstr='inf', linewidth=75, nanstr='nan', precision=8,
                           suppress=False, threshold=1000, formatter=None)


def cleanup(sim):
    s = simsched.current
    if s is not None:
        try:
            s.shutdown()
        finally:
            simsched.current = None
    simnet.current = None
    f = simfs.current
    if f is not None:
        f.destroy()
        simfs.current = None


def use_sched(sim, **kw):
    s = simsched.Sched(sim, **kw)
    simsched.current = s
    return s


def use_net(sim, sched):
    n = simnet.Net(sim, sched)
    simnet.current = n
    return n


def use_fs(sim):
    f = simfs.FS(sim)
    simfs.current = f
    return f


def expect_interrupt(flag=True):
    _expect_interrupt[0] = flag


def interrupt_expected():
    return _expect_interrupt[0]


# --- an interrupt (Ctrl-C, async exception) at an arbitrary executed line ---------

PREFIX = simsched.REPO


class Interrupter(object):
    """with Interrupter(n): ...   raises KeyboardInterrupt when the n-th source line of
    the code under test is about to execute inside the block"""

    def __init__(self, sim, n, exc=KeyboardInterrupt):
        self.sim = sim
        self.left = n
        self.exc = exc
        self.fired = False

    def _t(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return self._l

    def _l(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                sys.settrace(None)
                self.sim.fault('interrupt-at-arbitrary-line')
                raise self.exc()
        return self._l

    def __enter__(self):
        self.old = sys.gettrace()
        if self.left > 0:
            sys.settrace(self._t)
        return self

    def __exit__(self, t, v, tb):
        sys.settrace(self.old)
        return False


def no_jit():
    """PyPy's JIT now and then drops line events of traced threads; interpreted
    code does not, which makes preemption at a source line exactly repeatable"""
    try:
        import pypyjit
        pypyjit.set_param('off')
    except ImportError:
        pass
