"""Properties decided in World A with plugins, signal handlers and warnings manipulated by the user code, over several runs of one process."""
import io
import json
import os
import random
import re
import signal
import sys

import core
import gen_a
import oracles_a
import simenv
import vrt
import worlda
from harness import Prop, digest
from oracles_a import V
from props_a import PropA, REAL_A, STUB_A, HOOKS


class PropE(PropA):
    """runs: number of slash_runs in the process; user code also runs before, between and after them (points x:0 .. x:runs)"""
    runs = (1, 1, 1, 2)
    quick = (4000, 40)
    thorough = (200000, 800)
    base = dict(cleanups=(0, 3), fixtures=(0, 2), faults=(0, 0), hooks=[], tests=(1, 3), files=[1, 1, 2], p_skipped=0, p_req=0, p_stop=0, p_repeat=0)

    def gen(self, rng, index):
        scn = gen_a.gen_suite(rng, self.base)
        scn['runs'] = rng.choice(self.runs)
        scn['phases'] = scn['runs'] + 1
        gen_a.gen_ops(rng, scn, self.base)
        for k in [k for k in scn['ops'] if k[0] == 'x']:
            del scn['ops'][k]
        o = gen_a.Ops(rng, scn)
        o.n = 200
        self.dress(rng, scn, o)
        return gen_a.fixup(scn)

    def dress(self, rng, scn, o):
        raise NotImplementedError()

    def prepare(self, rt, scn):
        pass

    def finish(self, rt, scn):
        pass

    def after_run(self, rt, scn, i, out):
        pass

    def stream(self, sim, scn):
        return io.StringIO()

    def shrink(self, scn):
        if scn['runs'] > 1:
            c = json.loads(json.dumps(scn))
            c['runs'] -= 1
            c['phases'] -= 1
            yield gen_a.fixup(c)
        for c in gen_a.shrink(scn):
            yield c

    def execute(self, scn, chooser, root):
        os.chdir(root)
        paths = worlda.write_suite(scn, root)
        sim, node = worlda.boot(chooser, scn.get('sticky', 0.9))
        rt = vrt.RT = vrt.Runtime(sim, scn)
        out = worlda.Outcome()
        out.scn = scn
        out.sim, out.rt, out.node = sim, rt, node
        out.exit_code = out.escaped = out.dump = out.app = None
        out.runs = []

        def phase(i):
            try:
                rt.at('x:%d' % i)
            except core.SimExit:
                raise
            except BaseException as e:
                sim.log('phase', i, type(e).__name__)

        def main():
            worlda.register_observers(rt, scn)
            self.prepare(rt, scn)
            for i in range(scn['runs']):
                phase(i)
                o = worlda.Outcome()
                sim.log('run', i)
                worlda.session_run(sim, rt, scn, list(scn['argv']) + paths, self.stream(sim, scn), o)
                out.runs.append(o)
                self.after_run(rt, scn, i, o)
            phase(scn['runs'])
            self.finish(rt, scn)
        t = worlda.drive(sim, node, main)
        out.main_exc = t.exc
        out.outcome = sim.outcome
        out.exit_code = [o.exit_code for o in out.runs]
        out.dump = [o.dump for o in out.runs]
        return out

    def judge(self, out):
        v = []
        for o in out.runs:
            if o.escaped is not None and type(o.escaped).__name__ not in ('KeyboardInterrupt', 'SystemExit', 'TerminatedException'):
                v.append(V('escaped', 'slash_run raised {!r}'.format(o.escaped)))
        return v + self.judge_history(out)


def swallow(rt, what, func, *args):
    try:
        func(*args)
    except core.SimExit:
        raise
    except Exception as e:
        rt.log(what, 'failed', type(e).__name__, str(e)[:80])
        return False
    rt.log(what, 'ok')
    return True


# ------------------------------------------------------------------------------------------------ S21 signal handling plugin
SIGS = ['SIGHUP', 'SIGUSR1', 'SIGUSR2', 'SIGALRM', 'SIGWINCH']
PLUGIN = 'signal handling'


def sig_active():
    from slash.plugins import manager
    return PLUGIN in manager.get_active_plugins()


def op_sreg(rt, op, oid, point, this):
    from slash.plugins.builtin import signal_handling
    rt.log('sreg', op['sig'], oid)

    def handler(*_):
        rt.log('handler', oid, op['sig'])
    swallow(rt, 'sreged', signal_handling.register_handler(op['sig']), handler)


def op_sact(rt, op, oid, point, this):
    from slash.plugins import manager
    func = manager.activate if op['on_'] else manager.deactivate
    if op.get('thread'):
        import threading
        rt.sim.fault('plugin-switched-from-a-thread')
        t = threading.Thread(target=lambda: swallow(rt, 'switched', func, PLUGIN))
        t.start()
        t.join()
    else:
        swallow(rt, 'switched', func, PLUGIN)
    rt.log('active', sig_active())


def op_sdel(rt, op, oid, point, this):
    rt.sim.fault('signal:' + op['sig'])
    rt.log('deliver', op['sig'], oid, sig_active(), point, *rt.cur())
    os.kill(os.getpid(), getattr(signal, op['sig']))
    rt.log('delivered', oid)


def op_sorig(rt, op, oid, point, this):
    """the program itself installs another handler, while slash does not handle the signal"""
    if not sig_active() and op['sig'] in rt.orig:
        def handler(*_):
            rt.log('handler', oid, op['sig'])
        signal.signal(getattr(signal, op['sig']), handler)
        rt.orig[op['sig']] = handler
        rt.log('sorig', op['sig'], oid)


vrt.EXT.update(sreg=op_sreg, sact=op_sact, sdel=op_sdel, sorig=op_sorig)


class S21(PropE):
    id = 'S21'
    rule = 'a run counts when a signal was delivered and a handler registered or the plugin switched'
    technique = 'x'
    heads = ('t', 'b', 'a', 'f', 'c', 'fs', 'y', 'h', 'x')

    def dress(self, rng, scn, o):
        scn['hooks'] = sorted(rng.sample(['session_start', 'test_start', 'test_end', 'session_end', 'before_test_cleanups', 'after_session_end', 'result_summary'], rng.randint(0, 2)))
        if rng.random() < 0.5:
            scn['argv'] += ['--with-signal-handling']
        scn['orig'] = {s: rng.choice(['handler', 'handler', 'ign', 'dfl']) for s in SIGS}
        sigs = rng.sample(SIGS, rng.randint(1, 3))
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in self.heads]
        outside = [p for p in pts if p[0] == 'x']
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.08:
                op = o.new(prefix='n', op='sorig', sig=rng.choice(sigs))
            elif r < 0.3:
                op = o.new(prefix='g', op='sreg', sig=rng.choice(sigs))
                if rng.random() < 0.06:
                    op['sig'] = rng.choice(['SIGKILL', 'SIGINT', 'SIGNOSUCH'])
            elif r < 0.55:
                op = o.new(prefix='w', op='sact', on_=rng.choice([0, 1, 1]))
                if op['on_'] and rng.random() < 0.15:
                    op['thread'] = 1      # fails: handlers can only be set by the main thread
            else:
                op = o.new(prefix='d', op='sdel', sig=rng.choice(sigs))
            if rng.random() < 0.5:
                op['visit'] = rng.choice([0, 0, 1])
            o.add(rng.choice(outside if rng.random() < 0.25 else pts), op)
        if rng.random() < 0.15:
            # the plugin is active twice, the program changes its handlers in between
            pt = rng.choice(outside or pts)
            for _ in range(2):
                o.add(pt, o.new(prefix='w', op='sact', on_=1))
                if rng.random() < 0.5:
                    o.add(pt, o.new(prefix='d', op='sdel', sig=rng.choice(sigs)))
                o.add(pt, o.new(prefix='w', op='sact', on_=0))
                for s in sigs:
                    o.add(pt, o.new(prefix='n', op='sorig', sig=s))

    def prepare(self, rt, scn):
        rt.orig = {}
        for s in SIGS + ['SIGINT', 'SIGTERM']:
            n = getattr(signal, s)
            kind = scn['orig'].get(s)
            if kind == 'handler':
                signal.signal(n, lambda *_, s=s: rt.log('handler', 'original', s))
            elif kind == 'ign':
                signal.signal(n, signal.SIG_IGN)
            elif kind == 'dfl':
                # the default action of these would end the process: stands for any other original handler
                signal.signal(n, lambda *_, s=s: rt.log('handler', 'original', s))
            rt.orig[s] = signal.getsignal(n)

    def finish(self, rt, scn):
        from slash.plugins import manager
        if sig_active():
            swallow(rt, 'switched', manager.deactivate, PLUGIN)
        for s, h in sorted(rt.orig.items()):
            rt.log('final', s, signal.getsignal(getattr(signal, s)) is h)

    def judge_history(self, out):
        v = []
        hist = out.sim.history
        latest = {'SIGUSR1': 'builtin', 'SIGUSR2': 'builtin'}
        skips = []         # (run, rid, point)
        run = -1
        orig = {s: 'ignored' if k == 'ign' else 'original' for s, k in out.scn['orig'].items()}
        for i, e in enumerate(hist):
            if e[0] == 'run':
                run = e[1]
            elif e[0] == 'sorig':
                orig[e[1]] = e[2]
            elif e[0] == 'sreg':
                latest[e[1]] = e[2]
            elif e[0] == 'deliver':
                _, sig, oid, active, point, tid, rid = e
                exp = latest.get(sig, orig[sig]) if active else orig[sig]
                got = []
                for f in hist[i + 1:]:
                    if f[0] == 'handler':
                        got.append((f[1], f[2]))
                    else:
                        break
                want = [] if exp in ('builtin', 'ignored') else [(exp, sig)]
                if got != want:
                    v.append(V('wrong-handler', '{} delivered at {} with the plugin {}: handlers called {}, expected {}'.format(
                        sig, point, 'active' if active else 'inactive', got, want or exp)))
                if exp == 'builtin' and sig == 'SIGUSR2':
                    skips.append((run if point[0] != 'x' else None, rid, point))
            elif e[0] == 'final' and not e[2]:
                v.append(V('not-restored', 'the handler of {} is not the one before the activation after the plugin is deactivated'.format(e[1])))
        if not any(e[0] == 'sreg' and e[1] == 'SIGKILL' for e in hist):
            v += self.judge_skips(out, skips)
        return v

    def judge_skips(self, out, skips):
        v = []
        for i, o in enumerate(out.runs):
            mine = [s for s in skips if s[0] == i]
            if o.dump is None:
                v.append(V('no-session', 'run {} has no session'.format(i)))
                continue
            must = {rid for _, rid, p in mine if rid not in (None, 'G') and p.split(':')[0] in ('t', 'b', 'f', 'fs')}
            may = {rid for _, rid, p in mine if rid not in (None, 'G')}
            # what belongs to a wider scope is cleaned up when the next test is about to start, on behalf of one of that scope
            ids = [r['id'] for r in o.dump['results']]
            may |= {x for _, rid, p in mine if p.split(':')[0] in ('c', 'y', 'ft') and rid in ids for x in ids[:ids.index(rid)]}
            bad = False
            for r in o.dump['results'] + [dict(o.dump['global'], id='G')]:
                if r['errors'] or r['failures']:
                    bad = True
                    v.append(V('skip-signal-error', '{} has errors {} although nothing but signals happened'.format(
                        'the session' if r['id'] == 'G' else 'a test', (r['errors'] + r['failures'])[:2])))
                if r['skips'] and r['id'] not in may:
                    v.append(V('skipped-other', '{} was not running when the skip signal came and is skipped: {}'.format(r['id'], r['skips'])))
                if r['id'] in must and not r['skip?']:
                    v.append(V('not-skipped', 'the test running when the skip signal came is not skipped'))
                if r['id'] != 'G' and not r['started']:
                    v.append(V('not-run', 'a test did not run although nothing but signals happened'))
            if len(o.dump['results']) != o.dump['collected']:
                v.append(V('not-run', '{} of {} tests have results'.format(len(o.dump['results']), o.dump['collected'])))
            if o.exit_code != 0 and not bad:
                v.append(V('skip-signal-exit', 'exit code {!r} although nothing but signals happened'.format(o.exit_code)))
        return v

    def nontrivial(self, out):
        h = out.sim.history
        return any(e[0] == 'deliver' for e in h) and any(e[0] in ('sreg', 'active') for e in h)


# ------------------------------------------------------------------------------------------------ G28 plugin life cycle
PHOOKS = ['configure', 'tests_loaded', 'before_session_start', 'session_start', 'after_session_start', 'test_start', 'test_end', 'before_test_cleanups',
          'test_success', 'test_failure', 'before_session_cleanup', 'session_end', 'after_session_end', 'result_summary', 'app_quit', 'error_added']
NAMES = ['alpha', 'beta one', 'gamma']


class Boom(Exception):
    pass


def make_plugin(rt, name, spec, inst):
    from slash.plugins import PluginInterface
    key = '{}#{}'.format(name, inst)
    calls = {'activate': 0, 'deactivate': 0}

    def callback(what):
        def f(self):
            n = calls[what]
            calls[what] += 1
            if n in spec.get('fail_' + what, ()):
                rt.sim.fault('plugin-{}-fails'.format(what))
                rt.log('callback', key, what, 'raise')
                raise Boom('{} {}'.format(key, what))
            rt.log('callback', key, what, 'ok')
        return f

    def method(hook):
        n = [0]

        def f(self, **_):
            rt.log('got', key, hook)
            n[0] += 1
            if spec.get('raise_in') == hook and n[0] == 1:
                rt.sim.fault('plugin-hook-raises')
                raise Boom('{} {}'.format(key, hook))
        f.__name__ = hook
        return f
    d = {'get_name': lambda self: name, 'activate': callback('activate'), 'deactivate': callback('deactivate'), '__module__': __name__}
    for h in spec['hooks']:
        d[h] = method(h)
    if spec.get('cyclic'):
        # needs what only it itself provides: registering it fails after other methods have been registered
        import slash
        d[spec['cyclic']] = slash.plugins.needs('loop')(slash.plugins.provides('loop')(d[spec['cyclic']]))
    if spec.get('custom'):
        # a method of another name registered on hooks by the decorator
        import slash
        hooks = spec['custom']
        f = lambda self, **_: rt.log('got', key, 'custom')
        f.__name__ = 'my_callback'
        for h in hooks:
            f = slash.plugins.registers_on('slash.' + h)(f)
        d['my_callback'] = f
    if spec.get('unknown'):
        d['no_such_hook'] = lambda self: None
    cls = type('P_' + name.replace(' ', '_'), (PluginInterface,), d)
    if spec.get('provides'):
        import slash
        cls = slash.plugins.provides(spec['provides'])(cls)
    p = cls()
    p._vkey = key
    return p


def pl_state(rt):
    from slash.plugins import manager
    inst = {n: getattr(p, '_vkey', '') for n, p in manager.get_installed_plugins().items()}
    act = {n: getattr(p, '_vkey', '') for n, p in manager.get_active_plugins().items()}
    return sorted(x for n, x in inst.items() if n in NAMES), sorted(x for n, x in act.items() if n in NAMES)


def op_plug(rt, op, oid, point, this):
    from slash.plugins import manager
    name, what = op['name'], op['what']
    spec = rt.scn['plugins'][name]
    made = rt.saved.setdefault('made', {})
    if what in ('install', 'install_act', 'install_later'):
        lst = made.setdefault(name, [])
        if lst and op.get('same'):
            p = lst[-1]
        else:
            p = make_plugin(rt, name, spec, len(lst))
            lst.append(p)
        kw = {'install_act': {'activate': True}, 'install_later': {'activate_later': True}}.get(what, {})
        f = lambda: manager.install(p, **kw)
    else:
        lst = made.get(name)
        arg = lst[-1] if lst and op.get('obj') else name
        if what == 'pending':
            f = manager.activate_pending_plugins
        elif what == 'uninstall':
            # by name, the public interface needs an instance or an installed name
            f = lambda: manager.uninstall(arg)
        else:
            f = lambda: getattr(manager, what)(arg)
        p = lst[-1] if lst else None
    before = pl_state(rt)
    rt.log('plug', oid, what, name, p._vkey if p is not None and (what.startswith('install') or op.get('obj')) else None, before)
    res = 'ok'
    try:
        f()
    except core.SimExit:
        raise
    except Exception as e:
        res = type(e).__name__
    rt.log('plugged', oid, what, name, res, pl_state(rt), before)


vrt.EXT.update(plug=op_plug)


class G28(PropE):
    id = 'G28'
    rule = 'a run counts when plugin operations were performed and a notification was delivered to a plugin'
    runs = (1, 1, 2)
    base = dict(PropE.base, tests=(1, 3), faults=(0, 1), fault_kinds=['raise'], fault_heads=('t',))

    def dress(self, rng, scn, o):
        scn['hooks'] = sorted(rng.sample(['session_start', 'test_start', 'before_test_cleanups', 'before_session_start'], rng.randint(0, 2)))
        scn['plugins'] = {}
        names = NAMES[:rng.randint(1, 3)]
        raiser = rng.choice(names) if rng.random() < 0.2 else None
        for n in names:
            hooks = rng.sample(PHOOKS, rng.randint(1, 5))
            r = rng.random()
            if r < 0.25:
                hooks += ['session_start', 'session_end']
            elif r < 0.5:
                hooks.append('session_end')
            spec = {'hooks': sorted(set(hooks))}
            if rng.random() < 0.2:
                spec['fail_activate'] = sorted(rng.sample(range(3), rng.randint(1, 2)))
            if rng.random() < 0.15:
                spec['fail_deactivate'] = [rng.randint(0, 1)]
            if rng.random() < 0.1:
                spec['unknown'] = 1
            if rng.random() < 0.15:
                spec['provides'] = 'thing'
            if rng.random() < 0.12:
                spec['cyclic'] = spec['hooks'][-1] if rng.random() < 0.6 else rng.choice(spec['hooks'])
            if rng.random() < 0.2:
                spec['custom'] = sorted(rng.sample([h for h in PHOOKS if h not in ('session_start', 'session_end')], rng.randint(1, 2)))
            if n == raiser:
                spec['raise_in'] = rng.choice(spec['hooks'])
            scn['plugins'][n] = spec
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'fs', 'h')]
        outside = ['x:%d' % i for i in range(scn['phases'])]
        for n in names:
            op = o.new(prefix='p', op='plug', what=rng.choice(['install', 'install', 'install_act', 'install_act', 'install_later']), name=n)
            scn['ops'].setdefault('x:0', []).append(op)
        for _ in range(rng.randint(1, 8)):
            what = rng.choice(['activate'] * 4 + ['deactivate'] * 3 + ['uninstall', 'install', 'install_act', 'install_later', 'deactivate_later', 'activate_later', 'pending'])
            op = o.new(prefix='p', op='plug', what=what, name=rng.choice(names))
            if rng.random() < 0.4:
                op['same'] = op['obj'] = 1
            pt = rng.choice(outside if rng.random() < 0.45 else pts)
            if pt[0] != 'x' and rng.random() < 0.5:
                op['visit'] = rng.choice([0, 0, 1])
            if pt == 'x:0':
                scn['ops'].setdefault(pt, []).append(op)
            else:
                o.add(pt, op)

    def prepare(self, rt, scn):
        import gossip.hooks
        orig = gossip.hooks.Hook.trigger

        def trigger(self, kwargs, tags=None):
            if not self.full_name.startswith('slash.'):
                return orig(self, kwargs, tags)
            name = self.full_name[6:]
            rt.log('trig', name, pl_state(rt)[1])
            try:
                return orig(self, kwargs, tags)
            finally:
                rt.log('trigend', name, pl_state(rt)[1])
        gossip.hooks.Hook.trigger = trigger

    def judge_history(self, out):
        v = []
        hist = out.sim.history
        specs = out.scn['plugins']
        self.judge_ops(v, hist, specs)
        self.judge_callbacks(v, hist)
        stack = []
        started = {}      # plugin -> got session_start (or was active at it) in the running session
        run = -1
        for e in hist:
            if e[0] == 'run':
                run = e[1]
                started = {}
            elif e[0] == 'trig':
                stack.append({'hook': e[1], 'a': set(e[2]), 'ever': set(e[2]), 'always': set(e[2]), 'got': []})
            elif e[0] in ('plugged',):
                for s in stack:
                    s['ever'] |= set(e[5][1])
                    s['always'] &= set(e[5][1]) & set(e[6][1])
            elif e[0] == 'got':
                hook = e[2]
                for s in reversed(stack):
                    if hook == 'custom' or s['hook'] == hook:
                        s['got'].append((e[1], hook))
                        break
                else:
                    v.append(V('stray', '{} received {} which was not triggered'.format(e[1], hook)))
            elif e[0] == 'trigend':
                s = stack.pop()
                assert s['hook'] == e[1]
                s['ever'] |= set(e[2])
                s['always'] &= set(e[2])
                self.judge_trigger(v, s, specs, started)
        return v

    def judge_trigger(self, v, s, specs, started):
        hook = s['hook']
        keys = {k for k, _ in s['got']} | s['ever']
        for k in sorted(keys):
            spec = specs[k.split('#')[0]]
            if hook in spec['hooks']:
                n = s['got'].count((k, hook))
                if k not in s['ever']:
                    lo = hi = 0
                elif k in s['always']:
                    lo = hi = 1
                else:
                    lo, hi = 0, 1
                if hook == 'session_end' and hi:
                    st = started.get(k)
                    if st is None:
                        lo, hi = 0, (0 if k in s['always'] else 1)      # activated after the session had started
                    elif st != 'sure':
                        lo = 0
                if not lo <= n <= hi:
                    what = 'inactive' if k not in s['ever'] else 'active'
                    v.append(V('notified-{}-{}'.format('more' if n > hi else 'less', what) + ('-session' if hook in ('session_start', 'session_end') else ''),
                               'the {} plugin {} received {} {} times, expected {}'.format(what, k, hook, n, hi if hi == lo else '0 or 1')))
            if hook in spec.get('custom', ()):
                n = s['got'].count((k, 'custom'))
                lo, hi = (0, 0) if k not in s['ever'] else (1, 1) if k in s['always'] else (0, 1)
                if not lo <= n <= hi:
                    v.append(V('notified-custom', 'the method of plugin {} registered on {} was called {} times, expected {}'.format(k, hook, n, hi)))
            if hook == 'session_start' and k in s['ever']:
                started[k] = 'sure' if k in s['always'] else 'maybe'

    def judge_ops(self, v, hist, specs):
        for i, e in enumerate(hist):
            if e[0] != 'plugged':
                continue
            _, oid, what, name, res, (inst, act), (inst0, act0) = e
            spec = specs[name]
            j = max(k for k in range(i) if hist[k][0] == 'plug' and hist[k][1] == oid)
            cbs = [c for c in hist[j:i] if c[0] == 'callback']
            failed = any(c[3] == 'raise' for c in cbs)
            mine = [k for k in act if k.split('#')[0] == name]
            mine0 = [k for k in act0 if k.split('#')[0] == name]
            installed0 = [k for k in inst0 if k.split('#')[0] == name]
            key = hist[j][4]
            known = installed0 and (key is None or key in installed0)
            if what == 'activate':
                if not known:
                    if res != 'UnknownPlugin':
                        v.append(V('activate-unknown', 'activating {} which is not installed: {}'.format(name, res)))
                elif res == 'ok' and not mine:
                    v.append(V('activate-lost', 'activating {} succeeded but it is not active'.format(name)))
                elif res != 'ok' and not failed and not spec.get('unknown') and not spec.get('cyclic'):
                    v.append(V('activate-fails', 'activating {} failed with {}'.format(name, res)))
                elif res != 'ok' and mine and not mine0:
                    v.append(V('failed-active', 'activating {} failed with {} but it is active'.format(name, res)))
            elif what == 'deactivate':
                if known:
                    if mine:
                        v.append(V('deactivate-lost', 'deactivating {}: {}, and it is still active'.format(name, res)))
                    elif res != 'ok' and not failed:
                        v.append(V('deactivate-fails', 'deactivating {} failed with {}'.format(name, res)))
            elif what == 'uninstall':
                if known:
                    if res == 'ok' and (mine or name in [k.split('#')[0] for k in inst]):
                        v.append(V('uninstall-lost', 'uninstalling {} succeeded but it is installed'.format(name)))
                    elif mine:
                        v.append(V('uninstall-active', 'uninstalling {} failed with {} and left it active'.format(name, res)))
                    elif res != 'ok' and not failed:
                        v.append(V('uninstall-fails', 'uninstalling {} failed with {}'.format(name, res)))
            elif what == 'install_act':
                if res == 'ok' and not mine:
                    v.append(V('activate-lost', 'installing and activating {} succeeded but it is not active'.format(name)))
                elif res != 'ok' and not failed and not spec.get('unknown') and not spec.get('cyclic'):
                    v.append(V('install-fails', 'installing {} failed with {}'.format(name, res)))
            elif what == 'install' and res != 'ok' and not failed:
                v.append(V('install-fails', 'installing {} failed with {}'.format(name, res)))
            others = {k for k in act if k.split('#')[0] != name}
            others0 = {k for k in act0 if k.split('#')[0] != name}
            if what != 'pending' and others != others0:
                v.append(V('other-plugin', '{} {} changed which other plugins are active: {} to {}'.format(what, name, sorted(others0), sorted(others))))

    def judge_callbacks(self, v, hist):
        """activate and deactivate callbacks of an instance alternate (those of activations that failed later on do not count)"""
        state = {}
        pend = {}
        for e in hist:
            if e[0] == 'callback' and e[3] == 'ok':
                k, what = e[1], e[2]
                if what == 'activate':
                    if state.get(k) == 'on':
                        v.append(V('activated-twice', 'the activation callback of {} is called while it is active'.format(k)))
                    pend[k] = True
                    state[k] = 'on'
                else:
                    if state.get(k) != 'on' and not pend.get(k):
                        v.append(V('deactivated-twice', 'the deactivation callback of {} is called while it is inactive'.format(k)))
                    state[k] = 'off'
            elif e[0] == 'callback' and e[2] == 'deactivate':
                state[e[1]] = 'off'
            elif e[0] in ('plugged', 'trig'):
                active = e[5][1] if e[0] == 'plugged' else e[2]
                for k in list(state):
                    if state[k] == 'on' and k not in active and pend.get(k):
                        state[k] = 'failed'
                    pend[k] = False

    def nontrivial(self, out):
        h = out.sim.history
        return any(e[0] == 'plugged' for e in h) and any(e[0] == 'got' for e in h)


# ------------------------------------------------------------------------------------------------ W29 warnings
class OwnWarning(UserWarning):
    pass


WCATS = {'UserWarning': UserWarning, 'DeprecationWarning': DeprecationWarning, 'RuntimeWarning': RuntimeWarning, 'OwnWarning': OwnWarning,
         'ResourceWarning': ResourceWarning, 'PendingDeprecationWarning': PendingDeprecationWarning}
TEXTS = ['alpha one', 'alpha two', 'beta one', 'beta {} two', '50% {x}']


def wcat(name):
    if name == 'LogbookWarning':
        from slash.warnings import LogbookWarning
        return LogbookWarning
    return WCATS[name]


def rule_args(rule):
    kw = dict(rule)
    if 'category' in kw:
        kw['category'] = wcat(kw['category'])
    for k in ('message', 'filename'):
        if isinstance(kw.get(k), list):
            kw[k] = re.compile(kw[k][0])
    return kw


def rule_matches(rule, w):
    """documented: every given attribute has to match; w: dict(cat, text, filename, lineno)"""
    for k, x in rule.items():
        if k == 'category':
            if not issubclass(wcat(w['cat']), wcat(x)):
                return False
        elif k == 'lineno':
            if x != w['lineno']:
                return False
        else:
            y = w['text'] if k == 'message' else w['filename']
            if isinstance(x, list):
                if re.match(x[0], y) is None:
                    return False
            elif x != y:
                return False
    return True


def op_within(rt, op, oid, point, this):
    import slash
    try:
        with slash.ignored_warnings(**rule_args(op['rule'])):
            rt.log('rule', '+', oid, op['rule'])
            rt.at('w:' + op['id'])
    except Exception:
        if not op.get('catch'):
            raise
        rt.sim.fault('exception-leaves-ignore-context')
    finally:
        rt.log('rule', '-', oid)


def op_ign(rt, op, oid, point, this):
    import slash
    if op.get('clear'):
        slash.clear_ignored_warnings()
        rt.log('rule', '0', oid)
    else:
        slash.ignore_warnings(**rule_args(op['rule']))
        rt.log('rule', '+', oid, op['rule'])


def op_emit(rt, op, oid, point, this):
    import warnings
    from slash.ctx import context
    how, text = op['how'], op['text']
    here = __file__
    sess = context.session is not None and context.session._active if hasattr(context.session, '_active') else context.session is not None
    rec = {'how': how, 'cat': op.get('cat', 'UserWarning'), 'text': text, 'filename': here, 'lineno': None, 'test': context.test_id if context.test_id else None,
           'point': point, 'session': context.session is not None}

    def note(line):
        rec['lineno'] = line
        rt.log('emit', oid, rec)
    f = sys._getframe
    if how == 'explicit':
        rec.update(filename=op['file'], lineno=op['line'])
        rt.log('emit', oid, rec)
        warnings.warn_explicit(text, wcat(rec['cat']), op['file'], op['line'])
    elif how == 'native':
        note(f().f_lineno); warnings.warn(text, wcat(rec['cat']))
    elif how == 'object':
        note(f().f_lineno); warnings.warn(wcat(rec['cat'])(text))
    elif how == 'noargs':
        rec['text'] = ''
        note(f().f_lineno); warnings.warn(wcat(rec['cat'])())
    elif how == 'nonstr':
        rec['text'] = '17'
        note(f().f_lineno); warnings.warn(wcat(rec['cat'])(17))
    elif how == 'level':
        # anything but a warning
        import logbook
        rec['cat'] = 'LogbookWarning'
        if '{' in text:
            rec['text'] = text = 'plain'
        log = logbook.Logger('user')
        emit = [log.error, log.notice, log.info, log.critical][op['level']]
        note(f().f_lineno); emit(text)
    elif how in ('log', 'logfmt'):
        import logbook
        rec['cat'] = 'LogbookWarning'
        if how == 'log':
            if '{' in text:
                rec['text'] = text = 'plain'
            note(f().f_lineno); logbook.Logger('user').warning(text)
        else:
            rec['text'] = 'fmt ' + text
            note(f().f_lineno); logbook.Logger('user').warning('fmt {0}', text)
    elif how == 'thread':
        import threading

        def run():
            note(f().f_lineno); warnings.warn(text, wcat(rec['cat']))
        t = threading.Thread(target=run)
        t.start()
        t.join()
    rt.log('emitted', oid)


vrt.EXT.update(within=op_within, ign=op_ign, emit=op_emit)


class W29(PropE):
    id = 'W29'
    rule = 'a run counts when at least two warnings were emitted and an ignore rule was used or a fault fired'
    runs = (1, 1, 2)
    base = dict(PropE.base, tests=(1, 3), faults=(0, 1), fault_kinds=['raise', 'skip', 'raise'], interrupts=(0, 1), p_stop=0.1)
    heads = ('t', 'b', 'a', 'f', 'c', 'fs', 'fe', 'y', 'ft', 'w', 'h', 'x', 'm')

    def gen_rule(self, rng):
        rule = {}
        for k in rng.sample(['category', 'message', 'filename', 'lineno'], rng.choice([0, 1, 1, 1, 2, 2, 3])):
            if k == 'category':
                rule[k] = rng.choice(sorted(WCATS) + ['LogbookWarning', 'UserWarning'])
            elif k == 'message':
                rule[k] = rng.choice([rng.choice(TEXTS), 'alpha', ['alpha'], ['.*two'], ['(fmt )?beta'], ['$']])
            elif k == 'filename':
                rule[k] = rng.choice(['one.py', 'two.py', ['.*props_e.py$'], ['one'], 'one', '.*'])
            else:
                rule[k] = rng.choice([3, 7])
        return rule

    def dress(self, rng, scn, o):
        scn['hooks'] = sorted(rng.sample(['session_start', 'test_start', 'test_end', 'session_end', 'before_test_cleanups', 'warning_added', 'warning_added',
                                          'before_session_cleanup', 'configure', 'configure', 'after_session_start'], rng.randint(0, 3)))
        scn['hooks'] = sorted(set(scn['hooks']))
        if 'warning_added' in scn['hooks']:
            if rng.random() < 0.6:
                o.add('h:warning_added', o.new(prefix='r', op='raise', exc=rng.choice(['RuntimeError', 'AssertionError']), visit=rng.choice([0, 0, 1, 2])))
        for k in range(rng.randint(0, 3)):
            pts = [p for p in worlda.points(scn) if p.split(':')[0] in self.heads and p != 'h:warning_added']
            r = rng.random()
            if r < 0.6:
                op = o.new(prefix='n', op='within', rule=self.gen_rule(rng))
                if rng.random() < 0.5:
                    op['catch'] = 1
                o.add(rng.choice(pts), op)
                if rng.random() < 0.4:
                    scn['ops'].setdefault('w:' + op['id'], []).append(o.new(prefix='r', op='raise', exc=rng.choice(['RuntimeError', 'AssertionError', 'SkipTest', 'KeyboardInterrupt'])))
            elif r < 0.9:
                o.add(rng.choice(pts), o.new(prefix='n', op='ign', rule=self.gen_rule(rng)))
            else:
                o.add(rng.choice(pts), o.new(prefix='n', op='ign', clear=1))
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in self.heads and p != 'h:warning_added'] + ['m:' + f['name'] for f in scn['files']]
        ws = [p for p in pts if p[0] == 'w']
        for _ in range(rng.randint(2, 9)):
            how = rng.choice(['native', 'native', 'explicit', 'explicit', 'object', 'noargs', 'nonstr', 'log', 'log', 'logfmt', 'thread', 'level'])
            op = o.new(prefix='m', op='emit', how=how, text=rng.choice(TEXTS), cat=rng.choice(sorted(WCATS)))
            if how == 'level':
                op['level'] = rng.randrange(4)
            if how == 'explicit':
                op.update(file=rng.choice(['one.py', 'two.py']), line=rng.choice([3, 7]))
            if rng.random() < 0.3:
                op['visit'] = rng.choice([0, 0, 1])
            o.add(rng.choice(ws if ws and rng.random() < 0.4 else pts), op)
        if 'configure' in scn['hooks'] and rng.random() < 0.6:
            # before there is a session
            if rng.random() < 0.6:
                scn['ops'].setdefault('h:configure', []).insert(0, o.new(prefix='n', op='ign', rule=rng.choice([self.gen_rule(rng), {'message': ['']}, {'category': 'UserWarning'}, {'message': rng.choice(TEXTS)}, {'filename': 'one.py'}])))
            for _ in range(rng.randint(1, 3)):
                o.add('h:configure', o.new(prefix='m', op='emit', how=rng.choice(['native', 'explicit', 'object']), text=rng.choice(TEXTS), cat=rng.choice(sorted(WCATS)),
                                           file=rng.choice(['one.py', 'two.py']), line=rng.choice([3, 7])))

    def prepare(self, rt, scn):
        import gossip
        import warnings

        def recorder(warning):
            rt.log('added', self.desc(warning))
        gossip.register(recorder, 'slash.warning_added', token='vsim-w')
        rt.showwarning = warnings.showwarning

    def desc(self, w):
        return (str(w.message), w.details.get('type'), w.filename, w.lineno, w.details.get('test_id'))

    def finish(self, rt, scn):
        import warnings
        import slash.warnings
        rt.log('machinery', warnings.showwarning is rt.showwarning, len(slash.warnings._ignored_warnings) if hasattr(slash.warnings, '_ignored_warnings') else None)

    def judge_history(self, out):
        v = []
        hist = out.sim.history
        rules = {}
        runs = []          # per run: [[entry, must, added-count]]
        run = None
        lasting = {}       # rules without an end
        raising = any(o['op'] == 'raise' for o in out.scn['ops'].get('h:warning_added', ()))
        for e in hist:
            if e[0] == 'run':
                run = {'exp': [], 'added': [], 'rules': [], 'begun': False}
                runs.append(run)
            elif e[0] == 'returned':
                run = None
            elif e[0] == 'hook' and e[1] != 'configure':
                if run is not None:
                    run['begun'] = True
            elif e[0] == 'rule':
                if run is not None and not run['begun']:
                    run['rules'].append(e)
                if e[1] == '+':
                    rules[e[2]] = e[3]
                    if e[2].startswith('n') and not any(o['id'] == e[2].split('.')[0] and o['op'] == 'within' for ops in out.scn['ops'].values() for o in ops):
                        lasting[e[2]] = e[3]
                elif e[1] == '-':
                    rules.pop(e[2], None)
                else:
                    rules.clear()
                    lasting.clear()
            elif e[0] == 'added':
                if run is None:
                    v.append(V('added-outside', 'a warning was announced although no session runs: {}'.format(e[1])))
                else:
                    run['added'].append(e[1])
            elif e[0] == 'emit' and run is not None:
                rec = e[2]
                ign = any(rule_matches(r, rec) for r in rules.values())
                early = not rec['session'] or rec['point'].startswith('h:configure')
                must = not ign
                if rec['how'] == 'level':
                    must = False
                elif early:
                    # announced when the session begins
                    must = 'maybe'
                    if rec['point'].startswith('h:configure') and rec['cat'] != 'LogbookWarning':
                        must = ('early', any(rule_matches(r, rec) for r in lasting.values()), ign)
                run['exp'].append(((rec['text'], rec['cat'], rec['filename'], rec['lineno'], rec['test']), must, rec))
        last = next((e for e in hist if e[0] == 'machinery'), None)
        if last is not None:
            if not last[1]:
                v.append(V('showwarning-left', 'warnings are still captured after the session'))
            if last[2] is not None and last[2] != len(rules):
                v.append(V('rules-left', '{} ignore rules are active at the end, expected {}'.format(last[2], len(rules))))
        for i, r in enumerate(runs):
            o = out.runs[i]
            app = o.app
            if app is None or app.session is None:
                continue
            for k, (desc, must, info) in enumerate(r['exp']):
                if isinstance(must, tuple):
                    _, ruled, ign = must
                    cleared = any(e[1] == '0' for e in r['rules'])
                    must = False if ruled and not cleared else True if not ign and not r['rules'] and not raising else 'maybe'
                    r['exp'][k] = (desc, must, info)
            rec = [self.desc(w) for w in app.session.warnings]
            for what, got in (('recorded', rec), ('announced', r['added'])):
                rest = list(got)
                for desc, must, info in sorted(r['exp'], key=lambda x: {True: 0, False: 1, 'maybe': 2}[x[1]]):
                    k = next((j for j, g in enumerate(rest) if g[:4] == desc[:4] and (g[4] == desc[4] or must == 'maybe')), None)
                    if k is None:
                        if must is True:
                            near = [g for g in rest if g[0] == desc[0]]
                            v.append(V('{}-not-{}'.format(info['how'] if what == 'recorded' else 'warning', what),
                                       'the warning {} ({}) emitted at {} is not {}{}'.format(desc, info['how'], info['point'], what, '; similar: {}'.format(near) if near else '')))
                    elif must is False:
                        same = sum(1 for d, m, _ in r['exp'] if d[:4] == desc[:4] and m is not False)
                        if sum(1 for g in got if g[:4] == desc[:4]) > same:
                            v.append(V('ignored-' + what, 'the warning {} matching an active ignore rule is {}'.format(desc, what)))
                        if sum(1 for g in got if g[:4] == desc[:4]) > same or same == 0:
                            del rest[k]
                    else:
                        del rest[k]
                rest = [g for g in rest if self.ours(g)]
                if rest and not v:
                    v.append(V('extra-' + what, 'warnings {} which were not emitted (that often): {}'.format(what, rest[:3])))
        return v

    def ours(self, g):
        return any(t in g[0] for t in ('alpha', 'beta', '50%', 'plain')) or g[0] in ('', '17')

    def nontrivial(self, out):
        h = out.sim.history
        return sum(1 for e in h if e[0] == 'emit') >= 2 and (any(e[0] == 'rule' for e in h) or bool(out.sim.fault_counts))


PROPS = {c.id: c for c in (S21, G28, W29)}
