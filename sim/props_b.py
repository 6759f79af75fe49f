"""World A properties about the surroundings of a run: process state (S20), interruption at any instant (S19), log files (L25),
console failures (L26), warnings (W29), xUnit report (L27), notifications and slow notices (N30)."""
import gc
import io
import json
import os
import pickle
import re
import shutil
import signal
import sys
import traceback

import core
import disk
import gen_a
import harness
import instants
import oracles_a
import simenv
import vrt
import worlda
from harness import digest
from instants import Lines
from oracles_a import V
from props_a import PropA, REAL_A, STUB_A, HOOKS

HEX = re.compile(r'0x[0-9a-f]{6,}')


def norm(x):
    return HEX.sub('0xX', x if isinstance(x, str) else repr(x))


def finish(prop, out, sim, violations, extra=(), nontrivial=None):
    if sim.outcome in ('deadlock', 'steps', 'time'):
        violations.append({'cls': 'no-progress', 'msg': 'the run cannot end: ' + sim.outcome})
    hist = sim.history
    return {'violations': violations, 'digest': digest((hist, getattr(out, 'dump', None), getattr(out, 'exit_code', None), extra)),
            'history_tail': [repr(x)[:300] for x in hist[-300:]],
            'stats': {'faults': dict(sim.fault_counts), 'probes': dict(sim.probes), 'simtime': sim.now - core.EPOCH,
                      'steps': sim.steps, 'sched': sim.sched_hash, 'hist': len(hist),
                      'nontrivial': prop.nontrivial(out) if nontrivial is None else nontrivial}}


def forked(fn, root):
    """the value of fn() computed in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn()))
            except BaseException:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    for n in os.listdir(root):
        if n.startswith('r'):
            shutil.rmtree(os.path.join(root, n), ignore_errors=True)
    if not data:
        raise core.HarnessError('a sub-run died')
    ok, value = pickle.loads(data)
    if not ok:
        raise core.HarnessError(value)
    return value


def merge(reps):
    out = {'violations': [], 'digest': digest([r['digest'] for r in reps]), 'history_tail': [],
           'stats': {'faults': {}, 'probes': {}, 'simtime': 0, 'steps': 0, 'sched': digest([r['stats']['sched'] for r in reps]), 'hist': 0,
                     'nontrivial': any(r['stats']['nontrivial'] for r in reps)}}
    for r in reps:
        for v in r['violations']:
            if (v['cls'], v.get('sig')) not in [(x['cls'], x.get('sig')) for x in out['violations']]:
                if not out['violations']:
                    out['history_tail'] = r['history_tail']
                out['violations'].append(v)
        for k in ('simtime', 'steps', 'hist'):
            out['stats'][k] += r['stats'][k]
        for k in ('faults', 'probes'):
            for x, n in r['stats'][k].items():
                out['stats'][k][x] = out['stats'][k].get(x, 0) + n
    return out


# ------------------------------------------------------------------------------------------------ S20
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP, signal.SIGALRM]
S20_HOOKS = HOOKS + ['configure', 'app_quit', 'log_file_closed', 'warning_added', 'error_added', 'exception_caught_before_debugger',
                     'exception_caught_after_debugger']
LOGFNS = ['open', 'open', 'write', 'write', 'close', 'mkdir', 'symlink', 'unlink', 'rmdir', 'listdir']
ERRNOS = ['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EMFILE', 'EDQUOT']

CONFS = [['-x'], ['-v'], ['-q'], ['--no-color'], ['--force-color'], ['--repeat-each', '2'], ['--repeat-all', '2'], ['-k', 'test_1'], ['--tb', '0'],
         ['--pdb-filter', 'zzz'], ['--truncate-console-lines', 'no'], ['-o', 'log.unified_session_log=true'], ['-o', 'log.cleanup.enabled=true'],
         ['-o', 'log.compression.enabled=true', '-o', 'log.compression.algorithm=gzip'],
         ['-o', 'log.last_test_symlink=last-test'], ['-o', 'log.last_failed_symlink=last-failed'], ['-o', 'log.last_session_symlink=last-session'],
         ['-o', 'log.last_session_dir_symlink=last-dir'], ['-o', 'log.highlights_subpath=highlights.log'],
         ['-o', 'log.subpath={context.session.id}/{context.test_id}/t.log'],
         ['-o', 'run.capture.error_logs_as_errors=true'], ['-o', 'log.console_level=3'], ['-o', 'log.traceback_variables=true'],
         ['-o', 'run.repeat_each=1', '-o', 'run.repeat_each=2', '-o', 'run.repeat_each=1'], ['-o', 'log.localtime=true'],
         ['-o', 'run.dump_variation=true'], ['-o', 'log.cleanup.enabled=true', '-o', 'log.cleanup.keep_failed=false']]
BADARGS = [['-o', 'nosuch=1'], ['-o', 'run.repeat_each'], ['-o', 'run.repeat_each=zzz'], ['--repeat-each', 'abc'], ['-k', 'bad ( filter'], ['-f', 'nosuchsuite'],
           ['-o', 'log.compression.enabled=true', '-o', 'log.compression.algorithm=bogus'], ['-o', 'log.subpath={nosuchkey}/x'],
           ['-o', 'log.session_subpath={nosuchkey}/x'], ['-o', 'log.core_log_level=zz']]


def open_files(root):
    fds = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t.startswith(root + '/wd/'):
            fds.append(t[len(root):])
    return fds


def snapshot(node, root):
    import logbook
    import warnings
    import slash
    from slash.conf import config
    c = slash.ctx.context
    cfg = {}
    for path, leaf in config.traverse_leaves():
        if path == 'run.project_name':      # remembered from the first local customization file: not a command-line setting
            continue
        cfg[path] = repr(leaf.get_value())
    fds = open_files(root)
    if fds:
        gc.collect()
        fds = open_files(root)
    return {
        'context': [repr(x) for x in (c.session, c.test, c.test_id, c.result, c.fixture)],
        'configuration': cfg,
        'signal handlers': {int(s): _hname(node.handler_for(s)) for s in SIGNALS},
        'warnings.showwarning': _hname(warnings.showwarning),
        'log handler stack': [_hname(x) for x in logbook.Handler.stack_manager.iter_context_objects()],
        'log processor stack': [_hname(x) for x in logbook.Processor.stack_manager.iter_context_objects()],
        'open files': sorted(fds),
        'sys.meta_path': [_hname(x) for x in sys.meta_path],
        'standard streams and hooks': [_hname(x) for x in (sys.stdout, sys.stderr, sys.excepthook, sys.breakpointhook, sys.displayhook)],
        'environment': {k: v for k, v in os.environ.items() if k not in ('HOME', 'PWD')},
    }


_hids = {}


def _hname(x):
    """identity that survives only as long as we keep the object alive"""
    _hids.setdefault(id(x), x)
    return '{}@{}'.format(getattr(x, '__qualname__', None) or type(x).__name__, sorted(_hids).index(id(x)) if False else hex(id(x)))


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = '-> ' + os.readlink(p)
            else:
                with open(p, 'rb') as fh:
                    data = fh.read()
                if p.endswith('.gz'):
                    import zlib
                    try:
                        data = zlib.decompressobj(31).decompress(data)
                    except zlib.error:
                        pass
                out[rel] = data.decode('utf-8', 'replace')
        for f in dirs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = '-> ' + os.readlink(p)
    return out


def prepare(scn, root):
    """write the suite of one run below root; returns (paths, cwd)"""
    os.makedirs(root)
    os.makedirs(os.path.join(root, 'home'))
    wd = os.path.join(root, 'wd')
    os.makedirs(wd)
    paths = worlda.write_suite(scn, wd)
    if scn.get('rc'):
        with open(os.path.join(wd, '.slashrc'), 'w') as f:
            f.write('import vrt\nvrt.at("rc")\n')
    if scn.get('badpath'):
        paths = paths + ['suite/nosuchfile.py']
    if scn.get('broken'):
        with open(os.path.join(wd, 'suite', 'broken.py'), 'w') as f:
            f.write({'syntax': 'def test_x(:\n', 'import': 'import nosuchmodule_xyz\n', 'fixture': 'def test_x(nosuchfixture):\n    pass\n'}[scn['broken']])
        paths = paths + ['suite/broken.py']
    return paths, wd


def one(sim, node, scn, root, snaps, t0, token, lines=None):
    """a run of one scenario in this process, starting at simulated time t0"""
    paths, wd = prepare(scn, root)
    os.chdir(wd)
    os.environ['HOME'] = os.path.join(root, 'home')
    sim.now = core.EPOCH + t0
    simenv._uuid_counter[0] = 1000 * int(t0)
    rt = vrt.RT = vrt.Runtime(sim, scn)
    worlda.register_observers(rt, scn, token)
    out = worlda.Outcome()
    out.sim = sim
    stream = disk.Console(sim, scn.get('console'))
    dk = None
    if scn.get('disk'):
        dk = disk.Disk(sim, os.path.join(wd, 'logs'), scn['disk'])
    argv = list(scn.get('argv', ())) + paths
    snaps.append(snapshot(node, root))
    h0 = len(sim.history)
    if dk is not None:
        dk.install()
    try:
        worlda.session_run(sim, rt, scn, argv, stream, out, lines=lines)
    finally:
        if dk is not None:
            dk.uninstall()
            dk.enabled = False
    esc = out.escaped
    out.escaped = None if esc is None else '{}: {}'.format(type(esc).__name__, esc)
    app, out.app, out.box = out.app, None, None
    del esc, app
    sys.last_value = sys.last_traceback = None
    snaps.append(snapshot(node, root))
    import gossip
    gossip.get_global_group().unregister_token(token)
    out.history = [norm(e) for e in sim.history[h0:]]
    out.text = norm(stream.getvalue())
    out.tree = {k: norm(v) for k, v in tree(os.path.join(wd, 'logs')).items()} if os.path.isdir(os.path.join(wd, 'logs')) else {}
    out.fired = dk.fired if dk is not None else []
    return out


def compare_snap(before, after, what):
    out = []
    for k in before:
        if before[k] != after[k]:
            b, a = before[k], after[k]
            if isinstance(b, dict):
                diff = {x: (b.get(x), a.get(x)) for x in sorted(set(b) | set(a), key=str) if b.get(x) != a.get(x)}
            else:
                diff = (b, a)
            sig = None
            if k == 'environment' and isinstance(diff, dict):
                sig = 'env:' + ','.join(sorted(diff))
            out.append(V('left-behind:' + k.replace(' ', '-'), 'after {} the {} differ(s): {}'.format(what, k, norm(diff)[:600]), sig=sig))
    return out


class S20(PropA):
    id = 'S20'
    rule = 'a run counts when at least one fault, interruption, bad argument or disk or console error hit the first session'
    quick = (3000, 40)
    stub = STUB_A + ['disk errors: file-system calls below the log directory fail as scripted; report stream fails as scripted']
    profA = dict(cleanups=(0, 3), faults=(0, 3), interrupts=(0, 1), hooks=S20_HOOKS, max_hooks=3, sysexits=(0, 1), p_stop=0, tests=(1, 4), files=[1, 1, 2])
    profB = dict(cleanups=(0, 3), faults=(0, 2), hooks=HOOKS, max_hooks=2, p_stop=0.2, tests=(1, 4), files=[1, 1, 2])

    def gen(self, rng, index):
        a = gen_a.gen_suite(rng, self.profA)
        gen_a.gen_ops(rng, a, self.profA)
        b = gen_a.gen_suite(rng, self.profB)
        gen_a.gen_ops(rng, b, self.profB)
        self.dress(rng, a, True)
        self.dress(rng, b, False)
        return {'a': a, 'b': b}

    def dress(self, rng, s, faulty):
        if rng.random() < 0.75:
            s['argv'] += ['-l', 'logs']
            if faulty and rng.random() < 0.5:
                s['disk'] = []
                for _ in range(rng.randint(1, 2)):
                    d = {'fn': gen_a.pick(rng, LOGFNS), 'n': rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), 'count': rng.choice([1, 1, 2, None]),
                         'errno': gen_a.pick(rng, ERRNOS)}
                    if d['fn'] == 'write' and rng.random() < 0.3:
                        d['short'] = 1
                    s['disk'].append(d)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            conf = gen_a.pick(rng, CONFS)
            if faulty or 'traceback_variables' not in conf[-1]:     # would print attributes of the simulator itself
                s['argv'] += conf
        if rng.random() < 0.4:
            o = gen_a.Ops(rng, s)
            o.n = 500
            for _ in range(rng.randint(1, 4)):
                op = o.new(prefix='l', op='log', level=gen_a.pick(rng, ['debug', 'info', 'notice', 'warning', 'error']))
                o.add(gen_a.pick(rng, worlda.points(s)), op)
        if not faulty:
            return
        r = rng.random()
        if r < 0.08:
            s['argv'] += gen_a.pick(rng, BADARGS)
        elif r < 0.11:
            s['badpath'] = 1
        elif r < 0.15:
            s['broken'] = gen_a.pick(rng, ['syntax', 'import', 'fixture'])
        elif r < 0.20:
            s['rc'] = 1
            s['ops']['rc'] = [{'op': 'raise', 'id': 'z1', 'exc': gen_a.pick(rng, ['RuntimeError', 'KeyboardInterrupt', 'SystemExit3', 'SkipTest'])}]
        elif r < 0.26:
            f = gen_a.pick(rng, s['files'])
            s['ops']['m:' + f['name']] = [{'op': 'raise', 'id': 'z2', 'exc': gen_a.pick(rng, ['RuntimeError', 'KeyboardInterrupt', 'SystemExit0', 'SkipTest', 'AssertionError'])}]
        if rng.random() < 0.2:
            s['console'] = {'n': rng.randint(0, 30), 'count': rng.choice([None, None, 1, 5]), 'errno': gen_a.pick(rng, ['EPIPE', 'EIO', 'ENOSPC', 'CLOSED']), 'flush': rng.choice([0, 1])}

    def shrink(self, scn):
        for which in ('b', 'a'):
            for key in ('disk', 'console', 'rc', 'badpath', 'broken'):
                if scn[which].get(key):
                    c = json.loads(json.dumps(scn))
                    del c[which][key]
                    if key == 'rc':
                        c[which]['ops'].pop('rc', None)
                    yield c
            for i in range(len(scn[which].get('disk') or ())):
                if len(scn[which]['disk']) > 1:
                    c = json.loads(json.dumps(scn))
                    del c[which]['disk'][i]
                    yield c
            rc = scn[which]['ops'].get('rc')
            for s in gen_a.shrink(scn[which]):
                if rc:
                    s['ops']['rc'] = rc
                c = dict(scn)
                c[which] = s
                yield c

    def run(self, scn, chooser, root):
        control = self.control(scn, root)
        sim, node = worlda.boot(chooser)
        snaps = []
        outs = []

        self.runs(sim, node, [(scn['a'], os.path.join(root, 'r0'), 100, 'ta'), (scn['b'], os.path.join(root, 'r1'), 5000, 'tb')], outs, snaps)
        v = []
        if len(outs) == 2:
            v += compare_snap(snaps[0], snaps[1], 'the run')
            v += compare_snap(snaps[2], snaps[3], 'the second run')
            v += self.compare(control, outs[1])
        return finish(self, outs[-1] if outs else None, sim, v, nontrivial=bool(sim.fault_counts) or bool(
            scn['a'].get('badpath') or scn['a'].get('broken')))

    def runs(self, sim, node, todo, outs, snaps):
        sim.tick = 0

        def main():
            for scn, root, t0, token in todo:
                outs.append(one(sim, node, scn, root, snaps, t0, token))
                sim.log('end of run', token)
        worlda.drive(sim, node, main)

    def compare(self, c, o):
        out = []
        if c is None:
            return out
        for what, x, y in (('history', c['history'], o.history), ('exit status', c['exit'], o.exit_code), ('results', c['dump'], o.dump),
                           ('console output', c['text'], o.text), ('log files', c['tree'], o.tree), ('escaped exception', c['esc'], o.escaped)):
            if x != y:
                out.append(V('second-run-differs:' + what.replace(' ', '-'), 'the {} of a run differs when another run preceded it in the process: {}'.format(
                    what, self.diff(x, y))))
        return out

    def diff(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            x, y = x.splitlines(), y.splitlines()
        if isinstance(x, list) and isinstance(y, list):
            for i in range(max(len(x), len(y))):
                a, b = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                if a != b:
                    return 'at {}: alone {!r}, after another run {!r}'.format(i, a, b)[:700]
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y)):
                if x.get(k) != y.get(k):
                    return '{}: {}'.format(k, self.diff(x.get(k), y.get(k)))[:700]
        return 'alone {!r}, after another run {!r}'.format(x, y)[:700]

    def control(self, scn, root):
        """the second run alone, in a process of its own"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sim, node = worlda.boot(core.Chooser(0, []))
                outs = []
                self.runs(sim, node, [(scn['b'], os.path.join(root, 'r1'), 5000, 'tb')], outs, [])
                o = outs[0]
                data = pickle.dumps({'history': o.history, 'exit': o.exit_code, 'dump': o.dump, 'text': o.text, 'tree': o.tree, 'esc': o.escaped})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        shutil.rmtree(os.path.join(root, 'r1'), ignore_errors=True)
        if not data:
            raise core.HarnessError('control run died')
        return pickle.loads(data)


# ------------------------------------------------------------------------------------------------ S19
class S19(S20):
    id = 'S19'
    rule = 'a run counts when the interruption was delivered while a session was current'
    quick = (4000, 50)
    stub = STUB_A + ['signal delivery: the installed handler is called just before a chosen source line of slash is executed']
    prof = dict(cleanups=(0, 4), faults=(0, 2), hooks=HOOKS, max_hooks=2, p_stop=0.1, tests=(1, 4), files=[1, 1, 2], p_critical=0.5,
                nofault=('h:before_session_start', 'h:session_start', 'h:after_session_start', 'h:tests_loaded', 'h:session_end', 'h:after_session_end',
                         'h:before_session_cleanup'))

    def gen(self, rng, index):
        s = gen_a.gen_suite(rng, self.prof)
        gen_a.gen_ops(rng, s, self.prof)
        if rng.random() < 0.5:
            s['argv'] += ['-l', 'logs']
        if rng.random() < 0.3:
            s['argv'] += gen_a.pick(rng, [['-v'], ['--force-color'], ['-o', 'log.unified_session_log=true'], ['-o', 'log.last_failed_symlink=lf']])
        # each entry is one execution of the same suite with one interruption. 'line': the instant is drawn over the distinct source
        # lines reached ('try': those inside try statements with handlers), then over the times each was reached
        return {'a': s, 'ks': [{'frac': rng.random(), 'frac2': rng.random(), 'by': rng.choice(['line', 'try', 'try', 'time']), 'sig': rng.choice([2, 2, 15])}
                               for _ in range(6)]}

    def shrink(self, scn):
        if len(scn['ks']) > 1:
            for k in scn['ks']:
                yield dict(scn, ks=[k])
        else:
            for s in gen_a.shrink(scn['a']):
                yield dict(scn, a=s)

    def count(self, scn, root):
        """the same run without the interruption: the indices of the lines at which to interrupt"""
        sim, node = worlda.boot(core.Chooser(0, []))
        lines = Lines(sim, node)
        lines.record = []
        self.single(sim, node, scn, root, [], [], lines)
        # an instant is named by its line and the number of times it had been reached before (object addresses vary between executions
        # and with them the order in which slash walks a few sets)
        at, inside, n = {}, [], {}
        for x in lines.record:
            k = n[x[:3]] = n.get(x[:3], -1) + 1
            if x[3]:
                at.setdefault(x[:3], []).append(k)
                inside.append((x[:3], k))
        out = []
        for k in scn['ks']:
            if not inside:
                out.append(None)
            elif k['by'] in ('line', 'try'):
                locs = sorted(at)
                if k['by'] == 'try':
                    locs = [x for x in locs if x[2] in instants.guarded_lines(x[0])] or locs
                loc = locs[int(k['frac'] * len(locs))]
                out.append((loc, at[loc][int(k['frac2'] * len(at[loc]))]))
            else:
                out.append(inside[int(k['frac'] * len(inside))])
        return out

    def single(self, sim, node, scn, root, outs, snaps, lines):
        sim.tick = 0

        def main():
            outs.append(one(sim, node, scn['a'], os.path.join(root, 'r0'), snaps, 100, 'ta', lines))
        worlda.drive(sim, node, main)

    def run(self, scn, chooser, root):
        ns = forked(lambda: self.count(scn, root), root)
        if len(ns) == 1 and ns[0] is not None:
            return self.interrupted(scn, scn['ks'][0], ns[0], chooser, root)
        reps = []
        for k, n in zip(scn['ks'], ns):
            if n is not None:
                reps.append(forked(lambda: self.interrupted(scn, k, n, core.Chooser(0, []), root), root))
        return merge(reps)

    def interrupted(self, scn, k, n, chooser, root):
        sim, node = worlda.boot(chooser)
        lines = Lines(sim, node, (n[0], n[1], k['sig']))
        outs, snaps = [], []
        self.single(sim, node, scn, root, outs, snaps, lines)
        v = []
        if outs and lines.landed:
            v = self.check(outs[0], sim, lines, snaps)
        ev = [e for e in sim.history if e[0] == 'instant']
        sim.probes['interrupted executions'] = len(lines.landed)
        return finish(self, outs[0] if outs else None, sim, v, nontrivial=bool(ev and ev[0][3]))

    def check(self, out, sim, lines, snaps):
        where, i0, names, before, complete = lines.landed[0]
        inside = 'run_tests' in names
        hist = sim.history
        e0 = hist[i0]
        in_session = e0[3]
        tail = hist[i0 + 1:]
        v = []
        at = 'interruption before {}'.format(where)

        def bad(cls, msg):
            v.append(V(cls, '{}: {}'.format(at, msg), sig='{}@{}'.format(cls, where.rsplit(':', 1)[0])))
        started = [e[2] for e in hist[:i0] if e[0] == 'hook' and e[1] == 'test_start']
        # a test has ended for good once a later one has started or the session is at its end: until then errors in the end of its
        # scopes are still charged to it
        over = any(e[0] == 'hook' and e[1] == 'session_end' for e in hist[:i0])
        ended = [e[2] for e in hist[:i0] if e[0] == 'hook' and e[1] == 'test_end' and (over or e[2] != started[-1])]
        for e in tail:
            if (e[0] == 'hook' and e[1] == 'test_start' and e[2] not in started) or \
                    (e[0] == 'in' and e[1].split(':')[0] == 't' and e[3] not in started):
                bad('starts-after-interruption', 'test {} started after it'.format(e[2] if e[0] == 'hook' else e[3]))
                break
        if in_session and out.exit_code == 0:
            bad('exit-zero', 'the exit status is zero')
        sess_started = any(e[0] == 'hook' and e[1] == 'after_session_start' for e in hist[:i0])
        ends = len([e for e in hist if e[0] == 'hook' and e[1] == 'session_end'])
        if sess_started and (ends > 1 or (inside and ends != 1)):
            bad('session-end-count', 'session_end was notified {} times'.format(ends))
        if out.dump:
            if inside and out.dump['complete'] and not complete:
                bad('swallowed', 'the session went on and was completed')
            got = {r['id']: r for r in out.dump['results']}
            for tid in ended if in_session else ():
                ref, now = before.get(tid), got.get(tid)
                if any(e[0] == 'fault' and tid in e[-3:] for e in tail):
                    continue        # what a later (critical) cleanup raises is charged to the test which added it
                if ref is None or now is None or any(now[k] != ref[k] for k in ref):
                    bad('ended-result-changed', 'the result of test {}, which had already ended, is {} instead of {}'.format(
                        tid, {k: now[k] for k in ref or () if now and now[k] != ref[k]}, {k: ref[k] for k in ref or () if now and now[k] != ref[k]}))
            if started and not any(e[0] == 'hook' and e[1] == 'test_end' and e[2] == started[-1] for e in hist[:i0]):
                r = got.get(started[-1])
                if r is not None and r['success?']:
                    bad('interrupted-success', 'test {}, during which it happened, is reported successful'.format(started[-1]))
        # (entering and leaving a context cannot be made atomic in Python, so the restored state is checked for the session's body)
        if len(snaps) == 2 and inside and '<entering or leaving a context>' not in names:
            for x in compare_snap(snaps[0], snaps[1], at):
                bad(x['cls'], x['msg'])
        return v


PROPS = {c.id: c for c in (S20, S19)}
