"""World B: a parallel run. The parent and every worker are simulated processes with their own copy of slash, talking real XML-RPC over a
simulated network; process start, signals, death, stalls and every interleaving are decided by the simulator."""
import io
import os
import re
import signal
import sys

import core
import nodes
import simenv
import simnet
import worlda


def place(worker_config, scn, log, tests):
    for wid, kind, index in scn.get('place', ()):
        if str(wid) == worker_config.get_worker_id():
            what = tests[index] if scn.get('place_obj') else index
            try:
                (worker_config.force_test if kind == 'force' else worker_config.exclude_test)(what)
            except RuntimeError as e:
                log('place-refused', wid, kind, index, str(e)[:60])
            else:
                log('placed', wid, kind, index)


class Out(object):
    pass


class WorldB(object):
    def __init__(self, scn, chooser, root):
        self.scn, self.root = scn, root
        sim = self.sim = core.Sim(chooser, max_steps=scn.get('max_steps', 60000), max_time=scn.get('max_time', 4000.0))
        sim.sticky = scn.get('sticky', 0.9)
        simenv.install(sim)
        self.world = nodes.World(sim)
        nodes.install(self.world)
        self.net = simnet.install(sim, scn.get('net'))
        self.net.budget = scn.get('netbudget', 0)
        if scn.get('slownet'):
            self.net.weights = [10, 6, 6, 4]
        nodes.SimPopen.spawn = self.spawn_worker
        self.started = 0
        self.resumes = {}
        self.joined = {}         # how often a worker had been scheduled when it connected
        self.plans = [dict(p) for p in scn.get('plans', ())]
        self.worker_dumps = {}
        self.times = []          # when a fault fired or a test body ended
        self.snapshot = None
        self.preempt = nodes.Preempt(sim, scn.get('gap', 60))
        sim.resume_hook = self.resumed

    # ------------------------------------------------------------ fault plans
    def resumed(self, task):
        name = task.node.name
        n = self.resumes[name] = self.resumes.get(name, 0) + 1
        for p in self.plans:
            base = self.joined.get(name, 10 ** 9) if p.get('from') == 'connected' else 0
            if p['node'] == name and not p.get('done') and n >= base + p['at'] and task.node.alive and not (name == 'p' and self.out.over):
                p['done'] = True
                if self.inject(p, task.node, task):
                    return True
        return False

    def inject(self, p, node, task):
        sim = self.sim
        sim.fault(p['do'])
        self.times.append(sim.now + (p.get('secs') or 0 if p['do'] == 'stall' else 0))
        if node.name == 'p' and p['do'].startswith('SIG'):
            self.snapshot = self.parent_results()
        sim.log(node.name, 'inject', p['do'], p.get('secs'))
        if p['do'] == 'kill':
            sim.log('killed', node.name, 9)
            node.alive = False
            node.exit_status = -9
            simnet.release_node(node)
            sim.kill_node_tasks(node)
            return True
        if p['do'] == 'freeze':
            # the process hangs: alive, and never does anything again
            for t in sim.tasks:
                if t.node is node:
                    t.stalled_until = core.EPOCH + 1e7
            return True
        if p['do'] == 'stall':
            for t in sim.tasks:
                if t.node is node:
                    t.stalled_until = max(t.stalled_until, sim.now + p['secs'])
            return True
        if p['do'] in ('SIGINT', 'SIGTERM'):
            signum = getattr(signal, p['do'])
            targets = [node]
            if p.get('group'):
                targets += [x for x in self.world.nodes.values() if x is not node and x.pgid == node.pgid]
            for x in targets:
                simenv.deliver_signal(x, signum)
            return task.state in ('dead', 'done')
        if p['do'] == 'jump':
            simenv.WALL_OFFSET[0] += p['secs']
            return False
        raise core.HarnessError('unknown plan ' + p['do'])

    def parent_results(self):
        s = self.out.box[0].session if self.out.box else None
        if s is None:
            return {}
        out = {}
        for r in s.results.iter_test_results():
            d = worlda.dump_result(r)
            m = r.test_metadata
            d.update(id=worlda.vrt.short_id(m.id), address=m.address, variation={})
            if d['finished']:
                out[d['id']] = d
        return out

    # ------------------------------------------------------------ processes
    def spawn_worker(self, argv):
        self.started += 1
        k = self.started
        if k in self.scn.get('popen_fail', ()):
            self.sim.fault('popen')
            self.sim.log('popen-failed', k)
            raise OSError(11, 'Resource temporarily unavailable')
        wid = argv[argv.index('--parallel-worker-id') + 1]
        node = self.world.node('w' + wid, k)
        node.pgid = simenv.SIM.current.node.pgid
        boot = (self.scn.get('boot') or {}).get(wid, 0.2)
        node.main_task = self.sim.spawn('w%s.main' % wid, node, lambda: self.worker_main(node, wid, argv, boot))
        self.sim.log('spawn', node.name)
        return node

    def worker_main(self, node, wid, argv, boot):
        sim = self.sim
        status = 1
        try:
            sim.block(timeout=boot)
            self.times.append(sim.now)
            if int(wid) in self.scn.get('bootfail', ()):
                sim.fault('bootfail')
                return
            vrt = sys.modules['vrt']
            rt = vrt.RT = vrt.Runtime(sim, self.scn, node.name)
            rt.on_out = lambda: self.times.append(sim.now)
            sys.argv = ['slash'] + argv[3:]
            sys.stdin = io.StringIO()
            sys.stdout = sys.stderr = io.StringIO()
            register(rt, self.scn)
            box = self.capture(node)
            try:
                sys.modules['slash.frontend.main'].main_entry_point()
            finally:
                if node.alive:
                    d = self.worker_dumps[node.name] = worlda.dump_session(box[0]) if box else None
                    if d:
                        d['warning_objects'] = [warning_key(w) for w in box[0].session.warnings]
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 1
        except core.SimExit:
            raise
        except KeyboardInterrupt:
            status = 130
        except BaseException as e:
            import traceback
            node.crash = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            sim.log(node.name, 'crash', repr(e)[:200])
        finally:
            if node.alive:
                pend = [t for t in node.threads if not t.daemon and t.state not in ('done', 'dead')]
                if pend:
                    sim.block(lambda: all(t.state in ('done', 'dead') for t in pend))
                node.exited(status)

    def capture(self, node):
        """keeps the Application object of the run (to read its session afterwards)"""
        box = []
        app_module = sys.modules['slash.app']
        orig = app_module.Application.__init__

        def init(app, *a, **k):
            orig(app, *a, **k)
            box.append(app)
        app_module.Application.__init__ = init
        return box

    # ------------------------------------------------------------ the run
    def execute(self):
        os.chdir(self.root)
        scn, sim = self.scn, self.sim
        paths = worlda.write_suite(scn, self.root)
        parent = self.parent = self.world.node('p', 0)
        out = self.out = Out()
        out.world, out.sim = self, sim
        out.exit_code = out.escaped = out.dump = None
        out.over = False
        out.box = []
        out.collected = []
        out.ordered = []
        out.stream = io.StringIO()
        vrt = nodes._sets[0]['vrt']

        def main():
            rt = vrt.RT = vrt.Runtime(sim, scn, 'p')
            out.rt = rt
            register(rt, scn, True, out, self)
            argv = ['--parallel', str(scn['workers'])]
            for k, v in sorted((scn.get('opts') or {}).items()):
                argv += ['-o', 'parallel.{}={}'.format(k, v)]
            argv += list(scn.get('argv', ())) + paths
            sys.stderr = sys.stdout = io.StringIO()
            out.box = self.capture(parent)
            esc = None
            app = None

            class Args(object):
                pass
            args = Args()
            args.argv, args.cmd = argv, 'run'
            try:
                app = sys.modules['slash.frontend.slash_run'].slash_run(args, report_stream=out.stream)
            except core.SimExit:
                raise
            except BaseException as e:
                esc = e
                import traceback
                out.traceback = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            out.over = True
            code = app.exit_code if app is not None else None
            sim.log('returned', code if isinstance(code, (int, type(None))) else repr(code), type(esc).__name__ if esc is not None else None)
            out.exit_code, out.escaped = code, esc
            app = app or (out.box[0] if out.box else None)
            if app is not None:
                out.dump = worlda.dump_session(app)
                if app.session is not None:
                    out.dump['warning_objects'] = [warning_key(w) for w in app.session.warnings]
            out.alive_at_return = sorted(n.name for n in self.world.nodes.values() if n is not parent and n.alive)
            out.threads_at_return = [t.name for t in parent.threads if t.state not in ('done', 'dead')]
            out.listening_at_return = sorted(p for p, s in self.net.listeners.items() if s.node is parent)
            out.returned_at = sim.now
        t = parent.main_task = sim.spawn('p.main', parent, main)
        self.preempt.start()
        try:
            sim.run(lambda: t.state in ('done', 'dead'))
            if t.exc is not None and not isinstance(t.exc, core.SimExit):
                raise core.HarnessError('parent died: {!r}'.format(t.exc)) from t.exc
            out.outcome = sim.outcome
            if sim.outcome is None:
                parent.exited(out.exit_code)
                end = sim.now + 120
                sim.run(lambda: sim.now >= end or not any(n.alive for n in self.world.nodes.values()))
                out.after = sim.outcome
                sim.outcome = None
        finally:
            self.preempt.stop()
        out.orphans = sorted(n.name for n in self.world.nodes.values() if n is not parent and n.alive)
        return out


def test_key(t):
    m = t.__slash__
    var = {str(k).split('.')[-1].split(':')[-1]: repr(x) for k, x in m.variation.values.items()} if m.variation is not None else {}
    return (re.sub(r'^.*?suite/', 'suite/', m.address), tuple(sorted(var.items())))


def warning_key(w):
    return (str(w.message), os.path.basename(str(w.filename)), w.lineno)


def register(rt, scn, parent=False, out=None, w=None):
    import gossip
    worlda.register_observers(rt, scn)

    def warn(warning):
        rt.log('warning', str(warning.message))
    gossip.register(warn, 'slash.warning_added', token='vsim')
    if rt.node in scn.get('reverse', ()) or scn.get('reverse_all'):
        def rev(tests):
            for i, t in enumerate(tests):
                t.__slash__.set_sort_key(-i)
        gossip.register(rev, 'slash.tests_loaded', token='vsim')
    if parent:
        def loaded(tests):
            out.collected = []
            tests = list(tests)
            if scn.get('place') and scn.get('place_at') == 'tests_loaded':
                for c in sys.modules['slash'].context.session.parallel_manager.workers.values():
                    place(c, scn, rt.log, tests)
            rt.tests = tests
            out.collected = [test_key(t) for t in tests]
        gossip.register(loaded, 'slash.tests_loaded', token='vsim')

        def bws(worker_config):
            order = sorted(rt.tests, key=lambda t: (t.__slash__.repeat_all_index, t.__slash__.get_sort_key()))
            out.ordered = [test_key(t) for t in order]
            if scn.get('place') and scn.get('place_at') != 'tests_loaded':
                place(worker_config, scn, rt.log, rt.tests)
        gossip.register(bws, 'slash.before_worker_start', token='vsim')

        def dist(test_logical_id, worker_session_id):
            rt.log('distributed', worker_session_id)
        gossip.register(dist, 'slash.test_distributed', token='vsim')

        def conn(session_id):
            n = session_id.rsplit('_', 1)[-1]
            rt.log('connected', n)
            w.joined['w' + n] = w.resumes.get('w' + n, 0)
        gossip.register(conn, 'slash.worker_connected', token='vsim')
