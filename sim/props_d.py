"""Properties decided in World C (resume records over a history of processes)."""
import json
import os
import random

import core
import gen_a
import oracles_a
import worldc
from harness import Prop, digest
from oracles_a import V

DAY = 86400.0
HOOKS = ['session_start', 'after_session_start', 'test_start', 'test_end', 'before_test_cleanups', 'session_end', 'before_session_cleanup']
OPTS = [[], [], [], [], ['--failed-first'], ['--unstarted-first'], ['--failed-only'], ['--unstarted-only'], ['--no-skipped'], ['--unstarted-only', '--no-skipped']]


def status(t):
    """the recorded category of a test, from what its session's results say; None: two categories are defensible"""
    if t['errors'] or t['failures'] or t['interrupted']:
        return 'failed' if t['started'] else ('failed', 'planned')
    if t['skip']:
        return 'skipped'
    if not t['started']:
        return 'planned'
    return 'success' if t['finished'] else 'failed'


def is_(st, what):
    """True / False / None (either)"""
    if isinstance(st, tuple):
        return None if what in st else False
    return st == what


def select(tests, opts, rerun):
    """[(key, status, must)] that the options select, in order (before the -first options)"""
    out = []
    for t in tests:
        st = status(t)
        sts = st if isinstance(st, tuple) else (st,)
        verdicts = set()
        for s in sts:
            if s == 'success':
                ok = rerun
            elif '--failed-only' in opts:
                ok = s == 'failed'
            elif '--unstarted-only' in opts:
                ok = s == 'planned' or (s == 'skipped' and '--no-skipped' not in opts)
            else:
                ok = s != 'skipped' or '--no-skipped' not in opts
            verdicts.add(ok)
        if verdicts == {True}:
            out.append((t['key'], st, True))
        elif True in verdicts:
            out.append((t['key'], st, False))
    return out


DIRS = [['f0', 'f1', 'f2'], ['proj', 'proj2', 'proj/sub'], ['proj/sub', 'proj', 'projsub'], ['p_1', 'pa1', 'p%1'], ['proj', 'PROJ', 'Proj'],
        ['a/proj', 'b/proj', 'proj'], ["it's", 'it', 's']]


class PropC(Prop):
    real = ['slash.frontend.slash_run (run, resume, rerun) / slash.resuming / loader / runner / session (real code), SQLAlchemy and sqlite (real, real files)',
            'suite files written to and imported from a real scratch directory']
    stub = ['clock, signals, process ids, uuid: simulated', 'processes: forks of one pristine process, one per command',
            'DB-API connect/execute/commit: each step can fail, end the process, interrupt it or let another process run', 'user code: generated']
    assumptions = ['sqlite itself is atomic and durable (its own crash safety is not under test)', 'the clock does not run backwards between commands']
    quick = (1600, 40)
    thorough = (60000, 800)
    prof = dict(cleanups=(0, 2), fixtures=(0, 2), faults=(0, 4), interrupts=(0, 1), hooks=HOOKS, max_hooks=2, p_stop=0.25, tests=(2, 5), files=[1, 1, 2],
                p_skipped=0.12, p_req=0.08, p_repeat=0.12, p_param=0.3, p_fxparam=0.4,
                fault_kinds=['raise'] * 6 + ['skip'] * 4 + ['add'] * 3 + ['fatal'])
    nfolders = (1, 2)
    ncmds = (2, 4)

    def gen(self, rng, index):
        scn = {'suites': [], 'cmds': []}
        for _ in range(rng.randint(*self.nfolders)):
            s = gen_a.gen_suite(rng, self.prof)
            s['argv'] = []
            s['hooks'] = []
            scn['suites'].append(s)
        if len(scn['suites']) > 1:
            for s, d in zip(scn['suites'], gen_a.pick(rng, DIRS)):
                s['dir'] = d
        for i in range(rng.randint(*self.ncmds)):
            scn['cmds'].append(self.gen_cmd(rng, scn, i))
        return scn

    def gen_cmd(self, rng, scn, i, k=None, kind=None):
        k = rng.randrange(len(scn['suites'])) if k is None else k
        cmd = {'kind': kind or self.kind(rng, i), 'folder': k, 'dt': self.dt(rng), 'argv': []}
        s = json.loads(json.dumps(scn['suites'][k]))
        s['hooks'] = sorted(rng.sample(HOOKS, rng.randint(0, 2)))
        gen_a.gen_ops(rng, s, self.prof)
        cmd['ops'], cmd['hooks'] = s['ops'], s['hooks']
        if rng.random() < 0.3:
            cmd['argv'].append('-x')
        if cmd['kind'] == 'run' and rng.random() < 0.1:
            cmd['argv'] += ['--repeat-all', '2'] if rng.random() < 0.6 else ['--repeat-each', '2']
        if cmd['kind'] != 'run':
            cmd['argv'] += gen_a.pick(rng, OPTS)
            if i and rng.random() < 0.6:
                cmd['targets'] = [rng.randrange(i) for _ in range(rng.choice([1, 1, 1, 2]))]
        self.dress(rng, scn, cmd, i)
        return cmd

    def kind(self, rng, i):
        return 'run' if i == 0 else gen_a.pick(rng, ['run', 'resume', 'resume', 'resume', 'rerun'])

    def dt(self, rng):
        return rng.choice([5.0, 60.0, 3600.0])

    def dress(self, rng, scn, cmd, i):
        pass

    def shrink(self, scn):
        for i in range(len(scn['cmds']) - 1, -1, -1):
            if len(scn['cmds']) > 1:
                c = json.loads(json.dumps(scn))
                del c['cmds'][i]
                for x in c['cmds']:
                    if x.get('targets'):
                        x['targets'] = [t - (t > i) for t in x['targets'] if t != i]
                yield c
        for i, cmd in enumerate(scn['cmds']):
            for key in ('db', 'during', 'argv', 'hooks'):
                if cmd.get(key):
                    c = json.loads(json.dumps(scn))
                    c['cmds'][i][key] = [] if key != 'during' else None
                    if key == 'during':
                        del c['cmds'][i]['during']
                        c['cmds'][i]['db'] = [p for p in c['cmds'][i].get('db', ()) if p['what'] != 'during']
                    yield c
            for p in sorted(cmd['ops']):
                c = json.loads(json.dumps(scn))
                del c['cmds'][i]['ops'][p]
                yield c
        for k in range(len(scn['suites'])):
            for s in gen_a.shrink(dict(scn['suites'][k], ops={})):
                c = json.loads(json.dumps(scn))
                c['suites'][k] = json.loads(json.dumps(s))
                yield c

    def run(self, scn, chooser, root):
        w = worldc.WorldC(scn, root)
        w.setup()
        v = []
        model = Model(scn)
        now = 1000.0
        for i, cmd in enumerate(scn['cmds']):
            now += cmd['dt']
            n0 = len(w.records)
            before = model.copy()
            rec = w.command(i, cmd, now)
            for r in w.records[n0:]:
                v += self.judge(w, model, r, before, scn)
                if r is not rec:
                    before = model.copy()
            v += self.judge_store(w, model, w.look(now + 1), w.records[n0:])
        hist = w.history
        uniq = []
        for x in v:
            if (x['cls'], x.get('sig')) not in [(y['cls'], y.get('sig')) for y in uniq]:
                uniq.append(x)
        return {'violations': uniq, 'digest': digest(hist), 'history_tail': [repr(h)[:600] for h in hist],
                'stats': {'faults': w.faults, 'probes': {'commands': len(w.records)}, 'simtime': w.simtime + now, 'steps': w.steps, 'sched': digest(w.scheds), 'hist': len(hist),
                          'nontrivial': self.nontrivial(w, model)}}

    def nontrivial(self, w, model):
        return len(w.records) >= 2

    # ---------------------------------------------------------------------------------------------- oracle
    def judge(self, w, model, r, before, scn):
        """one command against the model; updates the model with what it recorded"""
        cmd, end = r['cmd'], r['end']
        v = []
        d = end['dump']
        if end['escaped'] is not None:
            v.append(V('escaped', 'command {} raised {}'.format(r['idx'], end['escaped'])))
        errs = [f for f in end['fired'] if f[0].startswith('error')]
        if cmd['kind'] != 'run' and d is not None and end['kind'] == 'end' and not end['fired']:
            v += self.judge_selection(r, before)
        if end['kind'] == 'end' and d is not None and d['session'] and end['exit'] == 0 and not d['success']:
            v.append(V('exit-zero', 'command {}: exit status zero although the session failed'.format(r['idx'])))
        if end['ended'] is not None and d is not None and end['ended']['tests'] != d['tests']:
            v.append(V('results-changed', 'command {}: the results of the tests changed after the end of the session: {} to {}'.format(r['idx'], end['ended']['tests'], d['tests'])))
        if end['kind'] == 'end' and 'interrupt' in [f[0] for f in end['fired']] and end['exit'] == 0:
            v.append(V('exit-zero', 'command {}: exit status zero although it was interrupted'.format(r['idx'])))
        model.took_place(r, errs)
        return v

    def judge_selection(self, r, before):
        cmd, d = r['cmd'], r['end']['dump']
        got = [t['key'] for t in d['tests']]
        opts = cmd['argv']
        v = []
        if r['targets']:
            src = [before.get(s) for s in r['targets']]
        else:
            last = before.last(r['folder'])
            if len(last) > 1:
                return v
            src = [before.get(last[0])]
        missing = [s for s in src if s is None or not s['tests']]
        if missing:
            return v        # nothing to resume from: refused (or looked for elsewhere)
        if any(s['folder'] != r['folder'] for s in src):
            return v        # recorded elsewhere: paths may not resolve the same way
        want = []
        for s in src:
            want += ordered(select(s['tests'], opts, cmd['kind'] == 'rerun'), opts)
        wanted = [k for k, _, must in want]
        if any(not must for _, _, must in want):
            musts = [k for k, _, must in want if must]
            if any(musts.count(k) > got.count(k) for k in musts) or any(got.count(k) > wanted.count(k) for k in got):
                v.append(V('wrong-selection', self.msg(r, wanted, got)))
            return v
        if sorted(got) != sorted(wanted):
            if not got and r['end']['exit'] != 0:
                errors = r['end']['text']
                v.append(V('nothing-selected', self.msg(r, wanted, got) + ': ' + (errors or '')[-300:]))
            else:
                v.append(V('wrong-selection', self.msg(r, wanted, got)))
        elif got != wanted:
            v.append(V('wrong-order', self.msg(r, wanted, got)))
        return v

    def msg(self, r, want, got):
        f = lambda ks: ['{}:{}{}'.format(a, b, dict(c) or '') for a, b, c in ks]     # noqa: E731
        return '{} of {} (options {}) selects {} instead of {}'.format(r['cmd']['kind'], r['targets'] or 'the last session', r['cmd']['argv'], f(got), f(want))

    def judge_store(self, w, model, seen, recs):
        v = []
        for sid, s in model.sessions.items():
            rows = seen['sessions'].get(sid, [])
            want = [(t['key'], status(t)) for t in s['tests']]
            got = [((a, b, c), st) for a, b, c, st in rows]
            if s['state'] == 'absent':
                if rows:
                    v.append(V('record-of-nothing', 'session {} is recorded although it should not be'.format(sid)))
                continue
            if not rows and want:
                if s['state'] == 'present':
                    v.append(V('record-lost', 'the record of session {} (command {}) is not there'.format(sid, s['idx'])))
                elif s['state'] == 'either':
                    s['state'] = 'absent'
                continue
            bad = sorted(k for k, _ in got) != sorted(k for k, _ in want)
            if bad:
                v.append(V('record-incomplete', 'the record of session {} (command {}) holds {} test(s) instead of {}'.format(sid, s['idx'], len(got), len(want))))
            else:
                pool = list(want)
                for k, st in got:
                    m = [x for x in pool if x[0] == k and (st == x[1] or (isinstance(x[1], tuple) and st in x[1]))]
                    if not m:
                        v.append(V('wrong-status', 'session {} records test {} as {}; its results: {}'.format(sid, k, st, [t for t in s['tests'] if t['key'] == k])))
                        break
                    pool.remove(m[0])
            if want:
                s['state'] = 'present'
        # raw rows: nothing of sessions without a record, nothing half-deleted
        tables = seen['raw']
        if len(tables) == 2:
            ids = [set(i for i, _ in rows) for rows in tables.values()]
            known = {sid for sid, s in model.sessions.items()}
            for t, rows in tables.items():
                for i, n in rows:
                    if i not in known:
                        v.append(V('unknown-rows', 'table {} holds rows of {}, which is no recorded session'.format(t, i)))
            meta = [t for t in tables if 'meta' in t]
            if meta:
                have = {i for i, _ in tables[meta[0]]}
                other = [t for t in tables if t != meta[0]][0]
                for i, n in tables[other]:
                    if i not in have:
                        v.append(V('orphaned-rows', 'the tests of session {} are stored without the session'.format(i)))
                for sid, s in model.sessions.items():
                    if s['tests']:
                        continue
                    if s['state'] == 'present' and sid not in have:
                        v.append(V('record-lost', 'the record of session {} (command {}, no tests) is not there'.format(sid, s['idx'])))
                    elif s['state'] == 'absent' and sid in have:
                        v.append(V('record-of-nothing', 'session {} is recorded although it should not be'.format(sid)))
                    elif s['state'] == 'either':
                        s['state'] = 'present' if sid in have else 'absent'
        if not any(s['state'] == 'either' for s in model.sessions.values()):
            for k, last in seen['last'].items():
                want = model.last(k)
                if last not in want:
                    v.append(V('wrong-last', 'the last session of folder {} is {} instead of {}'.format(k, last, ' or '.join(map(str, want)))))
        return v


def ordered(sel, opts):
    if '--failed-first' in opts or '--unstarted-first' in opts:
        st = 'failed' if '--failed-first' in opts else 'planned'
        return [x for x in sel if x[1] == st] + [x for x in sel if x[1] != st]
    return sel


class Model(object):
    """what the store should hold"""

    def __init__(self, scn):
        self.scn = scn
        self.sessions = {}

    def copy(self):
        m = Model(self.scn)
        m.sessions = {k: dict(v) for k, v in self.sessions.items()}
        return m

    def get(self, sid):
        s = self.sessions.get(sid)
        return s if s is not None and s['state'] == 'present' else None

    def last(self, folder):
        """the acceptable answers: more than one only for processes which ran at the same time"""
        got = [(s['at'], sid) for sid, s in self.sessions.items() if s['state'] == 'present' and s['folder'] == folder]
        if not got:
            return [None]
        best = max(got)[1]
        d = self.sessions[best]['during']
        return [sid for _, sid in got if sid == best or (d is not None and self.sessions[sid]['during'] == d)]

    def took_place(self, r, errs):
        end, cmd = r['end'], r['cmd']
        d = end['dump']
        fired = [f[0] for f in end['fired']]
        trouble = end['kind'] == 'crash' or 'interrupt' in fired or errs or end['natural']
        if d is None or not d['session']:
            return
        at = r['now'] + end['time']
        if end['kind'] == 'crash' or 'interrupt' in fired or (end['natural'] and r['inside'] is not None):
            state = 'either'
        elif errs and not self.transient(cmd, errs):
            state = 'either'
        else:
            state = 'present'
        self.sessions[d['session']] = {'tests': d['tests'], 'state': state, 'folder': r['folder'], 'at': at, 'idx': r['idx'],
                                       'during': r['inside'] if r['inside'] is not None else (r['idx'] if r['during'] is not None else None)}
        # retention, at the end of every session
        days = 10
        conf = [a for a in cmd['argv'] if a.startswith('resume.state_retention_days=')]
        if conf:
            days = int(conf[-1].split('=')[1])
        for sid, s in self.sessions.items():
            if s['state'] == 'absent':
                continue
            if s['at'] < at - days * DAY - 100:
                s['state'] = 'either' if trouble else 'absent'
            elif s['at'] < at - days * DAY + 100:
                s['state'] = 'either'

    def transient(self, cmd, errs):
        return len(errs) == 1


class R22(PropC):
    id = 'R22'
    rule = 'a run counts when at least one resume or rerun selected tests of an earlier session'

    def nontrivial(self, w, model):
        return any(r['cmd']['kind'] != 'run' and r['end']['dump'] and r['end']['dump']['tests'] for r in w.records)


ERRORS = ['locked', 'locked', 'full', 'ioerr', 'readonly', 'open']


class R23(PropC):
    id = 'R23'
    rule = 'a run counts when at least one database step failed, was interrupted or ended the process'
    prof = dict(PropC.prof, fixtures=(0, 1), tests=(1, 3), files=[1], max_tests=3, faults=(0, 2))
    ncmds = (1, 3)

    def kind(self, rng, i):
        return 'run' if i == 0 else gen_a.pick(rng, ['run', 'run', 'resume', 'rerun'])

    def dt(self, rng):
        return rng.choice([5.0, 60.0, 3600.0, 4 * DAY, 11 * DAY])

    def dress(self, rng, scn, cmd, i):
        if rng.random() > 0.75:
            return
        write = rng.random() < 0.65
        p = {'n': rng.randint(0, 9) if write else rng.randint(0, 24)}
        if write:
            p['unit'] = 'write'
        r = rng.random()
        if r < 0.5:
            p.update(what='error', error=gen_a.pick(rng, ERRORS), count=rng.choice([1, 1, 1, 1, 2, 3, None]))
        elif r < 0.85:
            p.update(what='crash', when=rng.choice(['before', 'after']))
        else:
            p.update(what='interrupt')
        cmd['db'] = [p]
        if p['what'] == 'error' and rng.random() < 0.2:
            cmd['db'].append({'what': 'crash', 'when': 'before', 'n': p['n'] + rng.randint(1, 6), 'unit': 'write'})

    def nontrivial(self, w, model):
        return any(r['end']['fired'] for r in w.records)


class R24(PropC):
    id = 'R24'
    rule = 'a run counts when sessions of at least two folders were recorded, or one process ran in the middle of another, or a record expired'
    prof = dict(PropC.prof, fixtures=(0, 1), tests=(1, 2), files=[1], max_tests=2, faults=(0, 2), cleanups=(0, 0), p_class=0.1, p_param=0.1)
    nfolders = (2, 3)
    ncmds = (3, 6)

    def gen(self, rng, index):
        scn = super(R24, self).gen(rng, index)
        if rng.random() < 0.3:
            # another folder is used before the last session of this one is taken up again
            a, b = rng.sample(range(len(scn['suites'])), 2)
            scn['cmds'] = []
            for i, (k, kind) in enumerate([(a, 'run'), (b, 'run'), (a, rng.choice(['resume', 'rerun']))]):
                cmd = self.gen_cmd(rng, scn, i, k, kind)
                cmd.pop('targets', None)
                cmd['dt'] = rng.choice([5.0, 60.0])
                scn['cmds'].append(cmd)
        return scn

    def kind(self, rng, i):
        return gen_a.pick(rng, ['run', 'run', 'run', 'resume', 'rerun'])

    def dt(self, rng):
        return rng.choice([5.0, 60.0, 0.9 * DAY, 3.7 * DAY, 9.3 * DAY, 10.6 * DAY, 25 * DAY])

    def dress(self, rng, scn, cmd, i):
        if rng.random() < 0.3:
            cmd['argv'] += ['-o', 'resume.state_retention_days={}'.format(rng.choice([1, 3, 5, 20, 400]))]
        if rng.random() < 0.3:
            other = {'kind': 'run', 'folder': rng.randrange(len(scn['suites'])), 'argv': [], 'ops': {}, 'hooks': []}
            if rng.random() < 0.3:
                other['argv'] = ['-o', 'resume.state_retention_days={}'.format(rng.choice([1, 3, 400]))]
            cmd['during'] = other
            cmd['db'] = [{'what': 'during', 'n': rng.randint(0, 20)} if rng.random() < 0.5 else {'what': 'during', 'n': rng.randint(0, 6), 'unit': 'write'}]

    def nontrivial(self, w, model):
        return len({r['folder'] for r in w.records}) > 1 or any(s['state'] == 'absent' for s in model.sessions.values()) or any(r['inside'] is not None for r in w.records)


PROPS = {c.id: c for c in (R22, R23, R24)}
