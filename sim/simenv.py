"""Seams: replaces clock, threads, locks, signals, process ids, temp names and uuids of the running process by
simulated ones. Everything is patched on the *standard library* modules, so it does not depend on how slash's own
code is written. Outside a virtual thread the real functions are used."""
import _thread
import datetime as _dt
import inspect
import os
import random
import signal
import sys
import threading
import time
import uuid

from core import HarnessError

SIM = None            # the active Sim
WALL_OFFSET = [0.0]   # injected clock jumps (wall clock only; sleeps and timeouts are monotonic)

_real_time = time.time
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_signal = signal.signal
_real_getsignal = signal.getsignal
_real_kill = os.kill
_real_getpid = os.getpid
_real_Thread = threading.Thread
_real_datetime = _dt.datetime


def active():
    return SIM is not None and SIM.in_task()


# ------------------------------------------------------------------------------------------------ clock
def sim_time():
    return SIM.now + WALL_OFFSET[0] if SIM is not None else _real_time()


def sim_monotonic():
    return SIM.now if SIM is not None else _real_monotonic()


def sim_sleep(secs):
    if active():
        SIM.block(timeout=secs)
    elif SIM is None:
        _real_sleep(secs)


class datetime(_dt.datetime):
    """datetime whose now() reads the simulated clock"""
    __slots__ = ()

    @classmethod
    def now(cls, tz=None):
        if SIM is None:
            return super().now(tz)
        return cls.fromtimestamp(sim_time(), tz)

    @classmethod
    def utcnow(cls):
        if SIM is None:
            return super().utcnow()
        return cls.fromtimestamp(sim_time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


datetime.__module__ = 'datetime'
datetime.__qualname__ = 'datetime'


def patch_datetime():
    """must run before slash and its dependencies are imported"""
    _dt.datetime = datetime


# ------------------------------------------------------------------------------------------------ threads
class SimLock(object):
    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if active():
            SIM.yield_point()
            if self._locked:
                if not blocking:
                    return False
                SIM.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
                if self._locked:
                    return False
        elif self._locked:
            if not blocking:
                return False
            raise HarnessError('lock would block outside the simulation')
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if not active():
                raise HarnessError('rlock would block outside the simulation')
            SIM.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout)
            if self._owner is not None:
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()


class SimEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if not active():
            return self._flag
        if self._flag:
            SIM.yield_point()
            return True
        SIM.block(lambda: self._flag, timeout)
        return self._flag


class SimThread(_real_Thread):
    """threading.Thread whose execution is a virtual thread of the current node"""
    _task = None

    def start(self):
        if not active():
            raise HarnessError('thread started outside the simulation')
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        node = SIM.current.node
        self._exc = None

        def body():
            threading._active[_thread.get_ident()] = self
            self._ident = _thread.get_ident()
            try:
                self.run()
            except (SystemExit,):
                pass
            except Exception as e:
                node.thread_errors.append('{}: {!r}'.format(self.name, e))
            finally:
                threading._active.pop(_thread.get_ident(), None)
        node.threads_started += 1
        self._task = SIM.spawn('{}.T{}'.format(node.name, node.threads_started), node, body, daemon=bool(self.daemon))
        node.threads.append(self._task)
        SIM.yield_point()

    def is_alive(self):
        return self._task is not None and self._task.state != 'done'

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        if not active():
            return
        SIM.block(lambda: self._task.state == 'done', timeout)

    def __repr__(self):
        return '<SimThread>'


class SimCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self._waiters.append(w)
        depth = getattr(self._lock, '_count', 1)
        for _ in range(depth):
            self._lock.release()
        try:
            ok = SIM.block(lambda: w[0], timeout)
        finally:
            if w in self._waiters:
                self._waiters.remove(w)
            for _ in range(depth):
                self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else SIM.now + timeout
        while not predicate():
            left = None if end is None else end - SIM.now
            if left is not None and left <= 0:
                return predicate()
            self.wait(left)
        return True

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


# ------------------------------------------------------------------------------------------------ nodes & signals
class Node(object):
    """One simulated process"""

    def __init__(self, name, pid):
        self.name = name
        self.pid = pid
        self.pgid = 1
        self.alive = True
        self.exit_status = None
        self.killed_by = None
        self.main_task = None
        self.threads = []
        self.threads_started = 0
        self.thread_errors = []
        self.sig_handlers = {}
        self.sockets = []
        self.modules = None

    def handler_for(self, signum):
        if signum in self.sig_handlers:
            return self.sig_handlers[signum]
        return signal.default_int_handler if signum == signal.SIGINT else signal.SIG_DFL

    def handle_signal(self, signum):
        h = self.handler_for(signum)
        if h is signal.SIG_IGN:
            return
        if h is signal.SIG_DFL:
            self.default_action(signum)
            return
        h(signum, None)

    def default_action(self, signum):
        raise HarnessError('default action of signal {} in {}'.format(signum, self.name))

    def __repr__(self):
        return '<Node {}>'.format(self.name)


_VALID = (signal.SIG_DFL, signal.SIG_IGN)


def sim_signal(signum, handler):
    if not active():
        return _real_signal(signum, handler)
    node = SIM.current.node
    if SIM.current is not node.main_task:
        raise ValueError('signal only works in main thread of the main interpreter')
    if handler not in _VALID and not callable(handler):
        raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
    if signum in (signal.SIGKILL, signal.SIGSTOP):
        raise OSError(22, 'Invalid argument')
    prev = node.handler_for(signum)
    node.sig_handlers[signum] = handler
    return prev


def sim_getsignal(signum):
    if not active():
        return _real_getsignal(signum)
    return SIM.current.node.handler_for(signum)


def sim_getpid():
    return SIM.current.node.pid if active() else _real_getpid()


NODES_BY_PID = {}


def sim_kill(pid, signum):
    if not active():
        return _real_kill(pid, signum)
    node = NODES_BY_PID.get(pid)
    if node is None or not node.alive:
        raise ProcessLookupError(3, 'No such process')
    if signum == 0:
        return None
    deliver_signal(node, signum)
    if node is SIM.current.node and SIM.current is node.main_task:
        SIM._deliver_signals(node.main_task)
    return None


def deliver_signal(node, signum):
    if not node.alive:
        return
    if signum == signal.SIGKILL:
        node.die(signum)
        return
    if node.handler_for(signum) is signal.SIG_DFL and node.handler_for(signum) is not signal.default_int_handler:
        node.default_action(signum)
        return
    if node.main_task.state in ('done', 'dead'):
        return
    node.main_task.signals.append(signum)


def sim_raise_signal(signum):
    return sim_kill(os.getpid(), signum)


# ------------------------------------------------------------------------------------------------ randomness
_uuid_counter = [0]


def sim_uuid1(node=None, clock_seq=None):
    _uuid_counter[0] += 1
    return uuid.UUID(int=(0x5EED << 64) + _uuid_counter[0])


class _TempNames(object):
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim{}'.format(self.n)


def _fast_stack(context=1):
    """inspect.stack() without reading the source lines around each frame (slash uses the frames only)"""
    out = []
    f = sys._getframe(1)
    while f is not None:
        out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def install(sim):
    """patch the standard library for a run (the process is a throw-away fork)"""
    global SIM
    SIM = sim
    import socket
    import tempfile
    time.time = sim_time
    time.sleep = sim_sleep
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    threading.Thread = SimThread
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Event = SimEvent
    threading.Condition = SimCondition
    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
    signal.raise_signal = sim_raise_signal
    os.kill = sim_kill
    os.getpid = sim_getpid
    uuid.uuid1 = sim_uuid1
    uuid.uuid4 = sim_uuid1
    tempfile._get_candidate_names = _TempNames().__iter__
    socket.getfqdn = lambda name='': 'simhost.example'
    socket.gethostname = lambda: 'simhost'
    inspect.stack = _fast_stack
    random.seed(12345)
