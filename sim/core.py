"""Deterministic simulator core: choices, virtual clock, virtual threads, event queue, history.

Everything that is not decided by the code under test is decided here, from one integer seed
(or from an explicit list of choices when a recorded run is replayed or minimised)."""
import _thread
import heapq
import random
import sys

real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread

EPOCH = 1700000000.0  # virtual wall clock origin


class Unreadable(Exception):
    """what the program under test records cannot be read through its public interface"""


class HarnessError(Exception):
    """The simulator (not the code under test) went wrong."""


class SimExit(BaseException):
    """Unwinds a virtual thread whose node was killed, when it is scheduled for teardown."""


class Chooser(object):
    """Source of every scheduling / fault decision. Records what it decides.

    forced: list of ints replayed first (out-of-range values are reduced modulo n);
    after it is exhausted: default 0 if `zero_tail`, else the PRNG."""

    def __init__(self, seed, forced=None, zero_tail=False):
        self.rng = random.Random(seed)
        self.forced = list(forced) if forced is not None else None
        self.zero_tail = zero_tail or forced is not None
        self.trace = []

    def choose(self, n, weights=None):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.forced is not None and i < len(self.forced):
            r = self.forced[i] % n
        elif self.zero_tail:
            r = 0
        elif weights is not None:
            x = self.rng.random() * sum(weights)
            r = 0
            for r, w in enumerate(weights):
                x -= w
                if x < 0:
                    break
        else:
            r = self.rng.randrange(n)
        self.trace.append(r)
        return r

    def in_tail(self):
        """whether the last decision was not forced but the default one of a replay"""
        return self.zero_tail and (self.forced is None or len(self.trace) > len(self.forced))

    def flip(self, p):
        """True with probability p (0 = the fault-free alternative)"""
        if p <= 0:
            return False
        return self.choose(2, (1 - p, p)) == 1


class Task(object):
    def __init__(self, sim, ident, name, node, fn, daemon):
        self.sim, self.id, self.name, self.node, self.fn, self.daemon = sim, ident, name, node, fn, daemon
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.state = 'ready'           # ready | blocked | done
        self.cond = None
        self.deadline = None
        self.started = False
        self.exc = None
        self.signals = []              # pending virtual signals (only main tasks of a node)
        self.stalled_until = 0.0
        self.timed_out = False
        self.tracing = False

    def __repr__(self):
        return '<Task {} {}>'.format(self.id, self.name)


class Sim(object):
    def __init__(self, chooser, max_steps=200000, max_time=100000.0):
        self.chooser = chooser
        self.now = EPOCH
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.tasks = []
        self.events = []
        self._seq = 0
        self.current = None
        self.main_lock = real_allocate_lock()
        self.main_lock.acquire()
        self.history = []              # list of tuples
        self.sched_hash = 0
        self.fault_counts = {}
        self.probes = {}
        self.outcome = None            # None | 'deadlock' | 'steps' | 'time'
        self.switch_hook = None        # called with (old_node, new_node)
        self.resume_hook = None        # called with the task about to run; True: look for another one
        self.last_node = None
        self.tick = 1e-6
        self.sticky = 0.5              # probability of staying on the running task
        self.by_thread = {}

    # -------------------------------------------------------------- history
    def log(self, *what):
        self.history.append(what)

    def fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # -------------------------------------------------------------- time
    def at(self, delay, fn):
        self._seq += 1
        heapq.heappush(self.events, (self.now + delay, self._seq, fn))

    def time(self):
        return self.now

    # -------------------------------------------------------------- tasks
    def spawn(self, name, node, fn, daemon=False):
        t = Task(self, len(self.tasks), name, node, fn, daemon)
        self.tasks.append(t)
        return t

    def _bootstrap(self, task):
        task.baton.acquire()
        self.by_thread[_thread.get_ident()] = task
        try:
            if task.state != 'killed':
                task.fn()
        except SimExit:
            pass
        except BaseException as e:      # recorded; a dead thread is not a harness error
            task.exc = e
        finally:
            task.state = 'done'
            self.main_lock.release()

    def _resume(self, task):
        """called by the scheduler: hand the baton to `task` until it yields"""
        self.current = task
        self.switches += 1
        if self.switch_hook is not None and task.node is not self.last_node:
            self.switch_hook(self.last_node, task.node)
            self.last_node = task.node
        if not task.started:
            task.started = True
            real_start_new_thread(self._bootstrap, (task,))
        task.baton.release()
        self.main_lock.acquire()
        self.current = None

    def _suspend(self):
        """called in a task: give the baton back and wait to be resumed"""
        task = self.current
        self.main_lock.release()
        task.baton.acquire()
        if task.state == 'killed':
            raise SimExit()

    def in_task(self):
        return self.current is not None and self.by_thread.get(_thread.get_ident()) is self.current

    def yield_point(self):
        """the running task offers to be preempted"""
        task = self.current
        task.state = 'ready'
        self._suspend()
        self._deliver_signals(task)

    def block(self, cond=None, timeout=None, interruptible=True):
        """block the running task until cond() or the timeout; returns True if cond held"""
        task = self.current
        if not interruptible:
            task.no_signals = True
        task.cond = cond
        task.deadline = None if timeout is None else self.now + max(0.0, timeout)
        task.state = 'blocked'
        while True:
            self._suspend()
            if task.signals and interruptible:
                task.state = 'ready'
                saved = (task.cond, task.deadline)
                self._deliver_signals(task)     # may raise
                task.cond, task.deadline = saved
                task.state = 'blocked'
                if cond is not None and cond():
                    break
                if task.deadline is not None and self.now >= task.deadline:
                    break
                continue
            break
        task.state = 'ready'
        ok = cond() if cond is not None else False
        task.cond = None
        task.deadline = None
        return ok

    def _deliver_signals(self, task):
        while task.signals:
            signum = task.signals.pop(0)
            task.node.handle_signal(signum)

    def kill_node_tasks(self, node):
        for t in self.tasks:
            if t.node is node and t.state not in ('done', 'dead'):
                t.state = 'dead'      # never scheduled again; its thread stays parked

    def _runnable(self):
        out = []
        now = self.now
        for t in self.tasks:
            st = t.state
            if st == 'ready':
                if t.stalled_until <= now:
                    out.append(t)
            elif st == 'blocked':
                if t.stalled_until > now:
                    continue
                if t.signals or (t.deadline is not None and t.deadline <= now) or (t.cond is not None and t.cond()):
                    out.append(t)
        return out

    def run(self, until):
        """schedule until `until()` holds; sets self.outcome if it cannot"""
        last = None
        while not until():
            if self.steps >= self.max_steps:
                self.outcome = 'steps'
                return False
            if self.now - EPOCH > self.max_time:
                self.outcome = 'time'
                return False
            # deliver due events first (in time order): they are what changes conditions
            while self.events and self.events[0][0] <= self.now:
                heapq.heappop(self.events)[2]()
            run = self._runnable()
            if not run:
                nxt = self.events[0][0] if self.events else None
                for t in self.tasks:
                    if t.state in ('ready', 'blocked') and t.stalled_until > self.now:
                        if nxt is None or t.stalled_until < nxt:
                            nxt = t.stalled_until
                    if t.state == 'blocked' and t.deadline is not None and t.deadline > self.now:
                        if nxt is None or t.deadline < nxt:
                            nxt = t.deadline
                if nxt is None:
                    self.outcome = 'deadlock'
                    return False
                if nxt > self.now:
                    self.now = nxt
                continue
            self.steps += 1
            self.now += self.tick
            if last in run and len(run) > 1:
                run.remove(last)
                run.insert(0, last)
                k = self.chooser.choose(len(run), [self.sticky * (len(run) - 1) / max(1e-9, (1 - self.sticky))] + [1.0] * (len(run) - 1)
                                        if self.sticky < 1 else None)
            else:
                k = self.chooser.choose(len(run))
            t = run[k]
            if self.resume_hook is not None and self.resume_hook(t):
                continue
            self.sched_hash = (self.sched_hash * 1000003 + t.id + 1) & 0xFFFFFFFFFFFF
            last = t
            self._resume(t)
        return True
