"""Properties decided in World A about what a run leaves for its users: log files, console, xUnit report, notifications."""
import collections
import io
import json
import os
import pickle
import re
import shutil
import traceback
import zlib

import core
import disk
import gen_a
import oracles_a
import simenv
import vrt
import worlda
from harness import Prop, digest
from oracles_a import V
from props_a import PropA, REAL_A, STUB_A, HOOKS
from props_e import PropE


# ------------------------------------------------------------------------------------------------ L25 log files
CHANNELS = ['user', 'user', 'user', 'noisy']
TOKEN = re.compile(r'\b(?:user|noisy): Q([\w.]+)\|')


def op_rec(rt, op, oid, point, this):
    """the user's code logs one record"""
    import logbook
    import slash
    c = slash.ctx.context
    tid, rid = rt.cur()
    rt.log('rec', oid, op['channel'], c.session is not None, tid, rid, op.get('kind'))
    logger = logbook.Logger(op['channel'])
    extra = {'highlight': True} if op.get('kind') == 'highlight' else None
    emit = getattr(slash.logger if op.get('kind') == 'slash' else logger, op['level'])

    def go():
        if op.get('kind') == 'slash':
            with_channel = logbook.Processor(lambda r: setattr(r, 'channel', op['channel']))
            with with_channel.applicationbound():
                emit('Q{}|', oid)
        elif extra:
            emit('Q{}|', oid, extra=extra)
        else:
            emit('Q{}|', oid)
    if op.get('kind') == 'thread':
        import threading
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()


vrt.EXT.update(rec=op_rec)
LINKS = ['last_session_symlink', 'last_session_dir_symlink', 'last_test_symlink', 'last_failed_symlink']


def read_log(path):
    with disk.real_open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        try:
            d = zlib.decompressobj(31)
            data = d.decompress(data)
        except zlib.error:
            pass
    return data.decode('utf-8', 'replace')


class PropF(PropE):
    """compares the run with a control run, in a process of its own, of a variant of the scenario"""
    expected = None

    def before(self, scn, root):
        """(scenario made concrete, scenario of the control run or None)"""
        return scn, None

    def run(self, scn, chooser, root):
        os.environ['HOME'] = os.path.join(root, 'home')
        scn, other = self.before(json.loads(json.dumps(scn)), root)
        self.expected = self.control(other, root) if other is not None else None
        return super().run(scn, chooser, root)

    def control(self, scn, root):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = self.execute(scn, core.Chooser(0, []), root)
                data = pickle.dumps(self.outcomes(out))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc(file=open('/tmp/ctl.txt', 'a')) if os.environ.get('VSIM_DEBUG') else None
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        for n in os.listdir(root):
            shutil.rmtree(os.path.join(root, n), ignore_errors=True)
        if not data:
            raise core.HarnessError('control run died')
        return pickle.loads(data)

    def outcomes(self, out):
        res = []
        for o in out.runs:
            d = json.loads(json.dumps(o.dump))
            if d:
                d.pop('warnings', None)
            res.append((d, o.exit_code, repr(o.escaped)))
        hist = [e for e in out.sim.history if e[0] in ('in', 'cbegin', 'run') or (e[0] == 'hook' and e[1] != 'log_file_closed')]
        return res, hist



class L25(PropF):
    id = 'L25'
    rule = 'a run counts when at least two records were logged by user code and a log file was opened'
    stub = STUB_A + ['file-system calls on log files and links fail as scripted']
    runs = (1, 1, 2)
    quick = (4000, 35)
    base = dict(cleanups=(0, 3), fixtures=(0, 2), faults=(0, 2), interrupts=(0, 1), hooks=['session_start', 'test_start', 'test_end', 'session_end', 'before_test_cleanups', 'after_session_end',
                'before_session_cleanup', 'test_success', 'test_failure', 'tests_loaded', 'configure', 'result_summary', 'test_avoided'],
                max_hooks=5, tests=(1, 4), files=[1, 1, 2], p_skipped=0.1, p_req=0, p_stop=0.1, p_repeat=0.1,
                nofault=('h:configure',), nointr=('h:configure',))

    def dress(self, rng, scn, o):
        scn['argv'] += ['-l', rng.choice(['logs', 'logs', '~/logs', 'ABS/logs'])]

        def conf(k, v):
            scn['argv'] += ['-o', 'log.{}={}'.format(k, v)]
        scn['links'] = {}
        kind = rng.choice(['default', 'default', 'own', 'shared', 'one'])
        scn['layout'] = kind
        if kind == 'own':
            conf('subpath', '{context.session.id}/{context.test.__slash__.test_index1}-{context.test_id}.log')
            conf('session_subpath', 'session-{context.session.id}.log')
        elif kind == 'shared':
            conf('subpath', '{context.session.id}/all-tests.log')
        elif kind == 'one':
            conf('subpath', '{context.session.id}/one.log')
            conf('session_subpath', '{context.session.id}/one.log')
        if kind != 'one' and rng.random() < 0.3:
            conf('unified_session_log', 'true')
            scn['unified'] = 1
        if kind in ('default', 'own'):
            if rng.random() < 0.25:
                conf('compression.enabled', 'true')
                conf('compression.algorithm', 'gzip')
                scn['gzip'] = 1
                if rng.random() < 0.4:
                    conf('compression.use_rotating_raw_file', 'true')
                    scn['rotating'] = 1
            if rng.random() < 0.25:
                conf('cleanup.enabled', 'true')
                scn['clean'] = 1
                if rng.random() < 0.3:
                    conf('cleanup.keep_failed', 'false')
                    scn['clean'] = 2
        if rng.random() < 0.2:
            conf('highlights_subpath', rng.choice(['{context.session.id}/highlights.log', '{context.session.id}/{context.test_id}-hl.log']))
            scn['highlights'] = 1
        if rng.random() < 0.15:
            conf('silence_loggers', "['noisy']")
            scn['silenced'] = 1
        if rng.random() < 0.2:
            conf('colorize', 'true')
        if rng.random() < 0.2:
            conf('core_log_level', rng.choice(['0', '1', '9']))
        if rng.random() < 0.2:
            scn['argv'] += rng.choice([['-v'], ['-vv'], ['-q']])
        for l in LINKS:
            if rng.random() < 0.4:
                name = rng.choice(['{}', 'links/{}', 'ABS/abs-{}', '~/home-{}']).format(l)
                scn['links'][l] = name
                conf(l, name)
                if rng.random() < 0.1:
                    scn.setdefault('present', {})[l] = rng.choice(['dir', 'file', 'dangling'])
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'y', 'c', 'fs', 'fe', 'h', 'ft', 'm', 'x')]
        pts += ['m:' + f['name'] for f in scn['files']]
        for _ in range(rng.randint(2, 12)):
            op = o.new(prefix='q', op='rec', channel=rng.choice(CHANNELS), level=rng.choice(['debug', 'info', 'notice', 'warning', 'error', 'trace']))
            if rng.random() < 0.3:
                op['kind'] = rng.choice(['thread', 'highlight', 'slash'])
            o.add(rng.choice(pts), op)
        if rng.random() < 0.4:
            scn['disk'] = []
            for _ in range(rng.randint(1, 2)):
                scn['disk'].append({'fn': rng.choice(['symlink', 'symlink', 'unlink', 'unlink', 'listdir', 'rmdir']), 'n': rng.choice([0, 0, 0, 1, 1, 2, 3]),
                                    'count': rng.choice([1, 1, 2, None]), 'errno': rng.choice(['EACCES', 'ENOSPC', 'EROFS', 'EIO', 'ENOENT', 'EPERM', 'EEXIST'])})
        if rng.random() < 0.08:
            scn.setdefault('disk', []).append({'fn': 'close', 'n': rng.choice([0, 0, 1, 2, 3]), 'count': rng.choice([1, 1, None]), 'errno': rng.choice(['ENOSPC', 'EIO', 'EDQUOT'])})

    def shrink(self, scn):
        for key in ('disk', 'present'):
            if scn.get(key):
                c = json.loads(json.dumps(scn))
                del c[key]
                yield c
        a = scn['argv']
        for i in range(len(a) - 1):
            if a[i] == '-o' and not any(x in a[i + 1] for x in ('compression', 'subpath', 'unified', 'cleanup', 'silence')):
                c = json.loads(json.dumps(scn))
                del c['argv'][i:i + 2]
                for l in LINKS:
                    if 'log.{}='.format(l) in a[i + 1]:
                        c['links'].pop(l, None)
                        c.get('present', {}).pop(l, None)
                yield c
        for c in super().shrink(scn):
            yield c

    # ------------------------------------------------------------------ execution
    def before(self, scn, root):
        scn['argv'] = [a.replace('ABS', os.path.join(root, 'abs')) for a in scn['argv']]
        scn['links'] = {k: v.replace('ABS', os.path.join(root, 'abs')) for k, v in scn['links'].items()}
        d = scn.get('disk')
        return scn, (dict(scn, disk=None) if d and not any(x['fn'] == 'close' for x in d) else None)

    def prepare(self, rt, scn):
        import gossip
        root = os.getcwd()
        os.makedirs(os.path.join(root, 'home'), exist_ok=True)
        rt.announced = []
        rt.run_info = []
        rt.verdicts = []             # what was known of the test (or session) of a log file when it was closed
        rt.bad_at_close = set()      # tests which had failed by the time their log file was closed
        self.logroot = os.path.realpath(os.path.join(root, os.path.expanduser(scn['argv'][1 + scn['argv'].index('-l')])))
        for l, what in sorted((scn.get('present') or {}).items()):
            p = self.link_path(scn, l)
            if p is None:
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if what == 'dir':
                os.makedirs(os.path.join(p, 'sub'), exist_ok=True)
            elif what == 'dangling':
                os.symlink('/nonexistent/x', p)
            else:
                with open(p, 'w') as f:
                    f.write('x')
        rt.dk = dk = disk.Disk(rt.sim, root, scn.get('disk') or [], only=lambda p: '/suite/' not in p and not p.endswith('.py'))
        dk.install()

        def closed(path, result):
            real = os.path.realpath(path)
            still = [r.name for r in dk.opened if not r.closed and os.path.realpath(r.name) == real]
            try:
                text = read_log(real)
            except OSError:
                text = None
            rt.announced.append((real, text, bool(still), vrt.short_id(result.test_metadata.id) if not result.is_global_result() else 'G'))
            if not result.is_global_result() and (result.is_error() or result.is_failure()):
                rt.bad_at_close.add((len(rt.run_info), vrt.short_id(result.test_metadata.id)))
            from slash.ctx import context
            rs = [result]
            if result.is_global_result() and context.session is not None:
                rs = list(context.session.results.iter_all_results())
            if any(r.is_error() or r.is_failure() for r in rs):
                rt.verdicts.append((real, 'failed'))
            elif not any(r.is_interrupted() for r in rs):
                rt.verdicts.append((real, 'good'))
            rt.log('announced', os.path.basename(path), bool(still))
        gossip.register(closed, 'slash.log_file_closed', token='l25')

    def link_path(self, scn, l):
        if l not in scn['links']:
            return None
        p = os.path.expanduser(scn['links'][l])
        return p if os.path.isabs(p) else os.path.join(self.logroot, p)

    def after_run(self, rt, scn, i, o):
        info = {'links': {}, 'paths': {}, 'session_path': None, 'order': [], 'active': []}
        app = o.app
        if app is not None and app.session is not None:
            for r in app.session.results.iter_test_results():
                info['paths'][vrt.short_id(r.test_metadata.id)] = None if r.get_log_path() is None else os.path.realpath(r.get_log_path())
                info['order'].append((vrt.short_id(r.test_metadata.id), bool(r.is_error() or r.is_failure())))
            gp = app.session.results.global_result.get_log_path()
            info['session_path'] = None if gp is None else os.path.realpath(gp)
            info['active'] = list(app.session.logging.get_active_log_paths())
        for l in scn['links']:
            p = self.link_path(scn, l)
            info['links'][l] = os.path.realpath(p) if os.path.islink(p) else None
        rt.run_info.append(info)

    def finish(self, rt, scn):
        rt.dk.uninstall()
        rt.dk.enabled = False
        rt.final = {}
        for d, _, files in os.walk(os.getcwd()):
            for f in files:
                p = os.path.join(d, f)
                if '/suite/' not in p and not os.path.islink(p) and not p.endswith('.py'):
                    rt.final[os.path.realpath(p)] = read_log(p)

    # ------------------------------------------------------------------ oracle
    def judge_history(self, out):
        v = []
        rt, scn = out.rt, out.scn
        if not hasattr(rt, 'final'):
            return [V('no-end', 'the process did not get to its end')]
        dk = rt.dk
        # every log file closed, and announced once per opening
        opened = collections.Counter(os.path.realpath(r.name) for r in dk.opened)
        announced = collections.Counter(a[0] for a in rt.announced)
        for p in sorted(set(opened) | set(announced)):
            if opened[p] != announced[p]:
                v.append(V('announced', 'log file {} was opened {} time(s) and announced closed {} time(s)'.format(self.rel(p), opened[p], announced[p])))
        for a in rt.announced:
            if a[2]:
                v.append(V('announced-open', 'log file {} was announced closed while open'.format(self.rel(a[0]))))
        still = sorted({self.rel(r.name) for r in dk.opened if not r.closed})
        if still:
            v.append(V('left-open', 'log files left open: {}'.format(still)))
        for i, info in enumerate(rt.run_info):
            if info['active']:
                v.append(V('left-active', 'run {}: the session still lists active log files {}'.format(i, [self.rel(x) for x in info['active']])))
        if any(d['fn'] == 'close' for d in scn.get('disk') or ()):
            return v
        v += self.judge_records(out)
        v += self.judge_links(out)
        if self.expected is not None:
            res, hist = self.outcomes(out)
            eres, ehist = self.expected
            if res != eres:
                for i, (a, b) in enumerate(zip(eres, res)):
                    if a != b:
                        v.append(V('outcome-changed', 'run {}: results differ when links or removals of old logs fail ({}): {}'.format(i, sorted(set(dk.fired)), diff(a, b))))
                        break
            elif hist != ehist:
                v.append(V('outcome-changed', 'the course of the run differs when links or removals of old logs fail ({}): {}'.format(sorted(set(dk.fired)), diff(ehist, hist))))
        return v

    def rel(self, p):
        return os.path.relpath(p, self.logroot)

    def judge_records(self, out):
        v = []
        rt, scn = out.rt, out.scn
        hist = out.sim.history
        # where each record has to be: list of (oid, files that must have it, files that may have it instead)
        content = {}
        for p, text, _, _ in rt.announced:
            if text is not None:
                content[p] = text
        content.update(rt.final)
        run = -1
        ended = set()
        expect = {}
        order = []
        for e in hist:
            if e[0] == 'run':
                run = e[1]
                ended = set()
                insession = 'before'
            elif e[0] == 'returned':
                insession = None
            elif e[0] == 'hook' and e[1] == 'test_end':
                ended.add(e[2])
            elif e[0] == 'rec':
                _, oid, channel, sess, tid, rid, kind = e
                if run < 0 or insession is None or run >= len(rt.run_info):
                    continue
                info = rt.run_info[run]
                key = (run, oid)
                order.append(oid)
                sp = info['session_path']
                if not sess:
                    if sp is not None and not any(x[0] == 'hook' and x[1] in ('session_end',) for x in ()):
                        expect[oid] = ('outside', {sp})
                    continue
                if scn.get('silenced') and channel == 'noisy' and kind == 'slash':
                    continue          # the channel is changed too late to be silenced
                if scn.get('silenced') and channel == 'noisy':
                    expect[oid] = ('in', set())
                elif tid is None:
                    expect[oid] = ('in', {sp})
                elif tid in ended:
                    expect[oid] = ('one', {sp, info['paths'].get(tid)})
                else:
                    expect[oid] = ('in', {info['paths'].get(tid)} | ({sp} if scn.get('unified') else set()))
        pos = {oid: i for i, oid in enumerate(order)}
        where = collections.defaultdict(collections.Counter)
        for p, text in sorted(content.items()):
            toks = TOKEN.findall(text)
            for t in toks:
                where[t][p] += 1
            main = [t for t in toks if t in pos]
            if main != sorted(main, key=lambda t: pos[t]):
                v.append(V('order', 'records in {} are not in the order they were logged: {}'.format(self.rel(p), main)))
        raws = {}
        for info in rt.run_info:
            for p in list(info['paths'].values()) + [info['session_path']]:
                if p and scn.get('rotating'):
                    raws[p] = p[:-3]
        for oid, (how, files) in sorted(expect.items()):
            got = dict(where.get(oid, {}))
            for p in list(got):
                if scn.get('highlights') and ('highlights' in p or p.endswith('-hl.log')):
                    del got[p]
            if scn.get('rotating'):
                for p in list(got):
                    if p.endswith('.gz'):
                        raw = got.pop(p[:-3], None)
                        if raw != got[p] and not scn.get('unified') and how != 'outside':
                            v.append(V('raw-log', 'record {} is {} time(s) in {} and {} time(s) in the uncompressed copy'.format(oid, got[p], self.rel(p), raw)))
            if any(n > 1 for n in got.values()):
                v.append(V('duplicate', 'record {} appears more than once: {}'.format(oid, {self.rel(p): n for p, n in got.items()})))
            if how == 'outside':
                if not set(got) <= files:
                    v.append(V('wrong-file', 'record {} logged outside the session is in {}'.format(oid, sorted(map(self.rel, got)))))
                continue
            if None in files:
                v.append(V('no-file', 'record {}: no log file is known for its {}'.format(oid, how)))
                continue
            if how == 'in' and set(got) != files:
                v.append(V('lost' if not files <= set(got) else 'wrong-file', 'record {} has to be in {} but is in {}'.format(
                    oid, sorted(map(self.rel, files)), sorted(map(self.rel, got)))))
            if how == 'one' and not (got and set(got) <= files):
                v.append(V('lost' if not got else 'wrong-file', 'record {} has to be in one of {} but is in {}'.format(
                    oid, sorted(map(self.rel, files)), sorted(map(self.rel, got)))))
        bad = {rt.run_info[i]['paths'].get(t) for i, t in rt.bad_at_close if i < len(rt.run_info)}
        for p, _, _, _ in rt.announced:
            if p not in rt.final and (not scn.get('clean') or (scn['clean'] == 1 and p in bad)):
                v.append(V('removed', 'log file {} was removed although {}'.format(self.rel(p), 'its test failed' if scn.get('clean') else 'logs are not to be removed')))
        once = collections.Counter(a[0] for a in rt.announced)
        if scn.get('clean'):
            disturbed = any(k.startswith('disk:') for k in out.sim.fault_counts)
            for p, what in rt.verdicts:
                if once[p] != 1:
                    continue
                if what == 'failed' and scn['clean'] == 1 and p not in rt.final and p not in bad:
                    v.append(V('removed', 'log file {} was removed although what it is about failed'.format(self.rel(p))))
                if p in rt.final and not disturbed and (what == 'good' or scn['clean'] == 2):
                    v.append(V('not-removed', 'log file {} is to be removed and is still there'.format(self.rel(p))))
        if scn['layout'] in ('default', 'own'):
            for i, info in enumerate(rt.run_info):
                ps = [p for p in info['paths'].values() if p]
                if len(set(ps)) != len(ps):
                    v.append(V('shared-file', 'run {}: two tests share a log file'.format(i)))
        return v

    def judge_links(self, out):
        v = []
        rt, scn = out.rt, out.scn
        if out.sim.fault_counts and any(k.startswith('disk:') for k in out.sim.fault_counts):
            return v
        cur = {}
        for i, info in enumerate(rt.run_info):
            sp = info['session_path']
            if sp:
                cur['last_session_symlink'] = sp
                cur['last_session_dir_symlink'] = os.path.dirname(sp)
            for tid, bad in info['order']:
                p = info['paths'][tid]
                if p:
                    if scn['layout'] != 'one':
                        cur['last_test_symlink'] = p
                    if bad and (i, tid) in rt.bad_at_close:
                        cur['last_failed_symlink'] = p
            for l, got in sorted(info['links'].items()):
                pres = (scn.get('present') or {}).get(l)
                if pres in ('dir', 'dangling') or (pres == 'file' and l not in cur) or (l in ('last_test_symlink', 'last_failed_symlink') and scn['layout'] == 'one'):
                    continue
                exp = cur.get(l)
                if got != exp and not (exp and scn.get('rotating') and got == exp[:-3]):
                    v.append(V('link', 'run {}: {} points to {}, expected {}'.format(i, l, got and self.rel(got), exp and self.rel(exp))))
        return v

    def nontrivial(self, out):
        return sum(1 for e in out.sim.history if e[0] == 'rec') >= 2 and bool(getattr(out.rt, 'announced', None))


def diff(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        for i in range(max(len(x), len(y))):
            a, b = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
            if a != b:
                return diff(a, b) if isinstance(a, (dict, list, tuple)) and type(a) is type(b) else 'expected {!r}, got {!r}'.format(a, b)[:500]
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                return '{}: {}'.format(k, diff(x.get(k), y.get(k)))[:500]
    return 'expected {!r}, got {!r}'.format(x, y)[:500]


# ------------------------------------------------------------------------------------------------ L26 console
class Odd(object):
    """an object the console cannot show"""
    def __init__(self, how):
        self.how = how

    def __repr__(self):
        if self.how == 'raise':
            raise ValueError('no repr')
        return self.how
    __str__ = __repr__


ODD = ['raise', '\x1b[31m red', '\udc80', '{} {0} %s %d', 'a\nb\r\n\tc', '', ' ', 'x' * 300, '\u4e2d\u6587 \U0001f600', '\x00\x07']


def odd_value(v):
    if isinstance(v, list):
        return {'obj': lambda: Odd(v[1]), 'int': lambda: v[1], 'none': lambda: None, 'list': lambda: [Odd(v[1])], 'dict': lambda: {v[1]: Odd('q')},
                'bytes': lambda: b'\xff\x00', 'exc': lambda: ValueError(v[1]), 'tuple': lambda: ('a', v[1]), 'tree': lambda: v[1]}[v[0]]()
    return v


def op_odd(rt, op, oid, point, this):
    """user code handing over unusual objects"""
    import slash
    v = odd_value(op['value'])
    how = op['how']
    rt.sim.fault('odd-' + how)
    rt.log('odd', oid, how)
    if how == 'error':
        slash.add_error(v)
    elif how == 'failure':
        slash.add_failure(v)
    elif how == 'addskip':
        slash.context.result.add_skip(v)
    elif how == 'skip':
        slash.skip_test(v)
    elif how == 'skipnoargs':
        slash.skip_test()
    elif how == 'raise':
        raise vrt.Custom(v)
    elif how == 'assert':
        raise AssertionError(v)
    elif how == 'detail':
        slash.set_test_detail(op.get('key', 'D' + op['id']), v)
    elif how == 'append':
        slash.context.result.details.append(op.get('key', 'D' + op['id']), v)
    elif how == 'message':
        slash.context.session.reporter.report_message(v if isinstance(v, str) else 'm')
    elif how == 'fancy':
        slash.context.session.reporter.report_fancy_message('headline', v if isinstance(v, str) else 'm')
    elif how == 'log':
        slash.logger.warning('odd {}', v)
    elif how == 'errtb':
        try:
            raise vrt.Custom(v)
        except vrt.Custom:
            slash.add_error(exc_info=__import__('sys').exc_info())


vrt.EXT.update(odd=op_odd)


def gen_odd(rng, o, hows):
    op = o.new(prefix='o', op='odd', how=rng.choice(hows))
    t = rng.choice(ODD[1:] if 'skip' in op['how'] else ODD)
    op['value'] = rng.choice([t, t, t, ['obj', t], ['int', rng.choice([0, 7, 2.5, True])], ['none'], ['list', t], ['dict', t], ['bytes'], ['exc', t], ['tuple', t]])
    if rng.random() < 0.5:
        op['visit'] = rng.choice([0, 0, 1])
    return op


CONSOLE = [['-v'], ['-vv'], ['-vvv'], ['-q'], ['-qq'], ['-qqq'], ['--tb', '0'], ['--tb', '1'], ['--tb', '3'], ['--tb', '4'], ['--force-color'], ['--no-color'],
           ['--truncate-console-lines', 'no'], ['-o', 'log.truncate_console_errors=true'], ['-o', 'log.console_theme.dark_background=false'],
           ['-o', 'log.show_manual_errors_tb=false'], ['-o', 'log.console_format={record.message}'], ['-o', 'log.core_log_level=0'], ['-o', 'log.console_level=0'],
           ['-o', 'log.show_raw_param_values=true']]


class L26(PropF):
    id = 'L26'
    rule = 'a run counts when the console failed at least once or user code handed over an unusual object'
    stub = STUB_A + ['report stream and stderr: fail on scripted writes']
    runs = (1,)
    quick = (4000, 35)
    base = dict(cleanups=(0, 3), fixtures=(0, 2), faults=(0, 3), interrupts=(0, 1), hooks=HOOKS, max_hooks=3, tests=(1, 4), files=[1, 1, 2], p_skipped=0.1, p_req=0.05,
                p_stop=0.15, p_repeat=0.1, p_param=0.2, fault_kinds=['raise'] * 6 + ['skip'] * 2 + ['add'] * 3 + ['handled', 'swallowed', 'caught'])

    def dress(self, rng, scn, o):
        scn['look'] = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            scn['look'] += rng.choice(CONSOLE)
        if rng.random() < 0.75:
            scn['console'] = {'n': int(rng.choice([0, 0, 1, 2, rng.expovariate(0.1), rng.expovariate(0.04)])), 'count': rng.choice([None, None, 1, 2, 5, 20]),
                              'errno': rng.choice(['EPIPE', 'EIO', 'ENOSPC', 'EAGAIN', 'EBADF', 'EINTR']), 'flush': rng.choice([0, 1])}
        if rng.random() < 0.3:
            scn.setdefault('console', {})['tty'] = 1
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'y', 'fs')]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            o.add(rng.choice(pts), gen_odd(rng, o, ['error', 'failure', 'addskip', 'skip', 'skipnoargs', 'raise', 'assert', 'detail', 'append', 'message', 'fancy', 'log', 'errtb']))
        for _ in range(rng.choice([0, 0, 1, 2])):
            o.add(rng.choice(pts), o.new(prefix='l', op='log', level=rng.choice(['debug', 'info', 'warning', 'error'])))
        if rng.random() < 0.2:
            o.add(rng.choice(pts), o.new(prefix='w', op='warn'))

    def before(self, scn, root):
        plain = dict(scn, console=None)
        scn['argv'] = scn['argv'] + scn['look']
        return scn, plain

    def shrink(self, scn):
        for key in ('console',):
            if scn.get(key):
                c = json.loads(json.dumps(scn))
                del c[key]
                yield c
        if scn['look']:
            for i in range(len(scn['look'])):
                if scn['look'][i].startswith('-'):
                    c = json.loads(json.dumps(scn))
                    del c['look'][i:i + (2 if scn['look'][i] in ('-o', '--tb', '--truncate-console-lines') else 1)]
                    yield c
        for c in super().shrink(scn):
            yield c

    def stream(self, sim, scn):
        import sys
        st = disk.Console(sim, scn.get('console'))
        sys.stderr = st
        return st

    def finish(self, rt, scn):
        import sys
        sys.stderr = sys.__stderr__

    def judge_history(self, out):
        v = []
        res, hist = self.outcomes(out)
        eres, ehist = self.expected
        if hist != ehist:
            v.append(V('course-changed', 'the course of the run differs from that with a working console at normal verbosity: {}'.format(diff(ehist, hist))))
        if res != eres:
            v.append(V('outcome-changed', 'results or exit status differ from those with a working console at normal verbosity: {}'.format(diff(eres, res))))
        return v

    def nontrivial(self, out):
        return any(k.startswith(('console', 'odd')) for k in out.sim.fault_counts)


PROPS = {c.id: c for c in (L25, L26)}
