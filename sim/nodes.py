"""Several simulated processes inside one real one: every node has its own copy of slash (and of the libraries it keeps global state in),
swapped in sys.modules and the other interpreter globals whenever the simulator switches to a task of another node."""
import _frozen_importlib as _boot
import importlib
import os
import signal
import sys
import warnings

import core
import preload
import simenv
import simnet

OWNED = ('slash', 'gossip', 'logbook', 'vintage', 'dessert', 'emport', 'vrt')
SHARED = ('logbook._speedups',)

_sets = []            # spare module sets made before the fork, each {name: module}
_entry = {}


def owned(name):
    head = name.split('.')[0]
    return (head in OWNED and name not in SHARED)


def current_set():
    return {n: m for n, m in sys.modules.items() if owned(n)}


def make_sets(n):
    """n further copies of the owned modules (imported afresh), made once before the runs are forked"""
    base = current_set()
    if 'vrt' not in base:
        importlib.import_module('vrt')
        base = current_set()
    names = list(base)
    meta = list(sys.meta_path)
    showwarning, filters = warnings.showwarning, list(warnings.filters)
    if not _sets:
        _sets.append(base)
    while len(_sets) < n + 1:
        for name in names:
            sys.modules.pop(name, None)
        for name in names:
            try:
                importlib.import_module(name)
            except ImportError:
                pass
        got = current_set()
        _sets.append(got)
        for name in got:
            sys.modules.pop(name, None)
        sys.meta_path[:] = meta
    sys.modules.update(base)
    warnings.showwarning = showwarning
    warnings.filters[:] = filters
    return _sets


class Globals(object):
    """interpreter-wide state that belongs to one node"""

    def __init__(self, modules):
        self.modules = modules
        self.extra = {}
        self.stdin, self.stdout, self.stderr = sys.stdin, sys.stdout, sys.stderr
        self.argv = list(sys.argv)
        self.path = list(sys.path)
        self.meta_path = list(sys.meta_path)
        self.showwarning = warnings.showwarning
        self.filters = list(warnings.filters)
        self.excepthook = sys.excepthook
        self.locks = {}


class NodeB(simenv.Node):
    def __init__(self, world, name, pid, modules):
        super(NodeB, self).__init__(name, pid)
        self.world = world
        self.g = Globals(modules)
        self.on_exit = []

    def handle_signal(self, signum):
        self.world.sim.log('sig', self.name, signum)
        super(NodeB, self).handle_signal(signum)

    def default_action(self, signum):
        if signum in (signal.SIGCHLD, signal.SIGURG, signal.SIGWINCH, signal.SIGCONT):
            return
        self.die(signum)

    def die(self, signum):
        """the kernel ends the process: nothing of it runs any more, its sockets are closed"""
        if not self.alive:
            return
        sim = self.world.sim
        sim.log('killed', self.name, int(signum))
        sim.last_death = sim.now
        self.alive = False
        self.exit_status = -int(signum)
        simnet.release_node(self)
        me = sim.current is not None and sim.current.node is self and sim.in_task()
        sim.kill_node_tasks(self)
        if me:
            sim._suspend()
            raise core.SimExit()

    def exited(self, status):
        if not self.alive:
            return
        self.world.sim.log('exit', self.name, status)
        self.alive = False
        self.exit_status = status
        simnet.release_node(self)
        self.world.sim.kill_node_tasks(self)


class World(object):
    """the set of nodes; installs the process-level seams"""

    def __init__(self, sim):
        self.sim = sim
        self.nodes = {}
        self.next_pid = 100
        self.base_names = frozenset(n for n in sys.modules if not owned(n))
        self.expected = len(sys.modules)
        self.cur = None
        sim.switch_hook = self.switch

    def node(self, name, set_index, cls=NodeB):
        self.next_pid += 1
        n = cls(self, name, self.next_pid, dict(_sets[set_index]))
        n.pgid = 1
        self.nodes[name] = n
        simenv.NODES_BY_PID[n.pid] = n
        return n

    def switch(self, old, new):
        mods = sys.modules
        if old is not None and hasattr(old, 'g'):
            g = old.g
            g.stdin, g.stdout, g.stderr = sys.stdin, sys.stdout, sys.stderr
            g.argv, g.path, g.meta_path = sys.argv, sys.path[:], sys.meta_path[:]
            g.showwarning, g.filters, g.excepthook = warnings.showwarning, warnings.filters, sys.excepthook
            g.locks = dict(_boot._module_locks)
            self.stash(g)
        g = new.g
        _boot._module_locks.clear()
        _boot._module_locks.update(g.locks)
        mods.update(g.modules)
        self.expected = len(mods)
        sys.stdin, sys.stdout, sys.stderr = g.stdin, g.stdout, g.stderr
        sys.argv = g.argv
        sys.path[:] = g.path
        sys.meta_path[:] = g.meta_path
        warnings.showwarning, warnings.filters, sys.excepthook = g.showwarning, g.filters, g.excepthook
        warnings._filters_mutated()

    def stash(self, g):
        """moves the modules of the node that stops running out of sys.modules"""
        mods = sys.modules
        if len(mods) != self.expected:
            names = [n for n in mods if n not in self.base_names]
        else:
            names = list(g.modules)
        g.modules = {n: mods.pop(n) for n in names}


# ------------------------------------------------------------------------------------------------ preemption at source lines
TOOL = 4


class Preempt(object):
    """offers a task switch just before a line of the chosen source files, every few lines as the simulator decides"""

    def __init__(self, sim, gap):
        self.sim = sim
        self.gap = gap
        self.left = 0
        self.files = {}
        self.hits = 0

    FILES = ('slash/parallel/', 'slash/runner.py', 'slash/core/result.py', 'slash/ctx.py')

    def start(self):
        self.rearm()
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'vsim-preempt')
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def rearm(self):
        k = self.sim.chooser.choose(8)
        self.left = 10 ** 9 if k == 0 and self.sim.chooser.in_tail() else (self.gap * (k + 1) if k else self.gap * 20)
        if k > 4:
            self.left = k - 4

    def _line(self, code, lineno):
        want = self.files.get(code.co_filename)
        if want is None:
            rel = os.path.relpath(code.co_filename, os.path.realpath(preload.REPO)) if code.co_filename.startswith('/') else ''
            want = self.files[code.co_filename] = rel.startswith(self.FILES)
        if not want:
            return sys.monitoring.DISABLE
        sim = self.sim
        if sim.current is None or not sim.in_task():
            return None
        self.left -= 1
        if self.left <= 0:
            self.rearm()
            self.hits += 1
            sim.yield_point()
        return None


# ------------------------------------------------------------------------------------------------ subprocesses
class SimPopen(object):
    world = None
    spawn = None          # callable(argv) -> node; raises OSError to fail

    def __init__(self, args, **kw):
        self.args = args
        simenv.SIM.yield_point()
        self.node = type(self).spawn(list(args))
        self.pid = self.node.pid
        self.returncode = None

    def poll(self):
        simenv.SIM.yield_point()
        if not self.node.alive:
            self.returncode = self.node.exit_status
        return self.returncode

    def wait(self, timeout=None):
        import subprocess
        if self.returncode is None:
            simenv.SIM.block(lambda: not self.node.alive, timeout)
            if self.node.alive:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self.node.exit_status
        return self.returncode

    def send_signal(self, signum):
        self.poll()
        if self.returncode is None:
            os.kill(self.pid, signum)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return (None, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def install(world):
    import subprocess
    SimPopen.world = world
    subprocess.Popen = SimPopen

    def setsid():
        n = simenv.SIM.current.node
        if n.pgid == n.pid:
            raise PermissionError(1, 'Operation not permitted')
        n.pgid = n.pid
        return n.pid

    def getpgid(pid):
        n = simenv.SIM.current.node if pid == 0 else simenv.NODES_BY_PID[pid]
        return n.pgid
    os.setsid, os.getpgid = setsid, getpgid
    os.getpgrp = lambda: simenv.SIM.current.node.pgid
