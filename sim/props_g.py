"""Properties decided in World A about reports and messages sent out of a run: the xUnit file, notifications."""
import json
import os
import re
from xml.etree import ElementTree

import core
import disk
import gen_a
import oracles_a
import vrt
import worlda
from oracles_a import V
from props_a import STUB_A, HOOKS
from props_f import PropF, gen_odd, diff


def plain(s):
    """what is compared of a text: its ASCII letters and digits, in order"""
    return ''.join(re.findall('[A-Za-z0-9]+', s))


REPORT = 'report/out.xml'


class L27(PropF):
    id = 'L27'
    rule = 'a run counts when a report was due and at least one test had an error, failure, skip or detail, or the disk failed'
    stub = STUB_A + ['file-system calls on the report path fail as scripted']
    runs = (1, 1, 1, 2)
    quick = (4000, 35)
    base = dict(cleanups=(0, 3), fixtures=(0, 2), faults=(0, 4), interrupts=(0, 1), hooks=HOOKS, max_hooks=3, tests=(1, 4), files=[1, 1, 2], p_skipped=0.15, p_req=0.08,
                p_stop=0.1, p_repeat=0.15, p_param=0.3, nointr=('h:session_end', 'h:session_start', 'h:after_session_start', 'h:before_session_start'),
                fault_kinds=['raise'] * 6 + ['skip'] * 2 + ['add'] * 3 + ['handled', 'swallowed', 'caught'])

    def dress(self, rng, scn, o):
        scn['argv'] += ['--with-xunit', '--xunit-filename', REPORT]
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'y', 'fs')]
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            o.add(rng.choice(pts), self.gen_odd(rng, o))
        if rng.random() < 0.2:
            scn['disk'] = [{'fn': rng.choice(['open', 'write', 'write', 'close']), 'n': rng.choice([0, 0, 0, 1]), 'count': rng.choice([1, 1, None]),
                            'errno': rng.choice(['EACCES', 'ENOSPC', 'EIO', 'EROFS', 'EISDIR', 'EDQUOT']), 'short': rng.choice([0, 0, 1])}]
            scn['disk'][0]['count'] = None if scn['disk'][0]['short'] else scn['disk'][0]['count']
        scn['place'] = rng.choice(['ok'] * 8 + ['old', 'old', 'nodir', 'dir'])

    def gen_odd(self, rng, o):
        op = gen_odd(rng, o, ['error', 'failure', 'addskip', 'skip', 'skipnoargs', 'raise', 'assert', 'detail', 'detail', 'append', 'append', 'errtb'])
        if op['how'] in ('detail', 'append'):
            op['key'] = rng.choice(['D' + op['id'], 'D' + op['id'], 'shared', 'a b', '1', 'K\x00', '\udc80', '\u4e2d', '<&">', 'ns:x', ''])
            if rng.random() < 0.3:
                op['value'] = ['tree', rng.choice([{'k': 1, 'l': [1, 2, {'z': None}]}, {'a b': 'x'}, {'1': {'': '\x00'}}, [[], {}, [1]], {'<': ['\udc80']}])]
        return op

    def shrink(self, scn):
        if scn.get('disk'):
            c = json.loads(json.dumps(scn))
            del c['disk']
            yield c
        if scn['place'] != 'ok':
            c = json.loads(json.dumps(scn))
            c['place'] = 'ok'
            yield c
        for c in super().shrink(scn):
            yield c

    def before(self, scn, root):
        c = dict(scn, disk=None, place='ok')
        c['argv'] = [a for a in scn['argv'] if a not in ('--with-xunit', '--xunit-filename', REPORT)]
        return scn, c

    def prepare(self, rt, scn):
        import gossip
        root = os.getcwd()
        os.makedirs(os.path.join(root, 'home'), exist_ok=True)
        p = os.path.join(root, REPORT)
        if scn['place'] != 'nodir':
            os.makedirs(p if scn['place'] == 'dir' else os.path.dirname(p))
        if scn['place'] == 'old':
            with open(p, 'w') as f:
                f.write('<testsuite name="OLD">' + 'x' * 5000 + '</testsuite>')
        rt.dk = dk = disk.Disk(rt.sim, root, scn.get('disk') or [], only=lambda q: q.startswith(os.path.join(os.path.realpath(root), 'report')))
        dk.install()
        rt.snaps = []
        rt.failed = set()
        rt.nfired = 0
        rt.reports = []

        def snap():
            import slash
            from slash.ctx import context
            g = context.session.results.global_result
            rt.snaps.append(([self.details(r) for r in context.session.results.iter_test_results()], len(g.get_errors()) + len(g.get_failures())))
        gossip.register(snap, 'slash.session_end', token='l27')

    @staticmethod
    def details(r):
        """(name, scalar value or None) for each detail element due"""
        out = []
        for k, val in r.details.all().items():
            for x in (val if isinstance(val, list) else [val]):
                out.append((k if isinstance(k, str) else None, x if isinstance(x, (str, int, float)) else None))
        return out

    def after_run(self, rt, scn, i, o):
        p = os.path.join(os.getcwd(), REPORT)
        data = None
        if os.path.isfile(p):
            with disk.real_open(p, 'rb') as f:
                data = f.read()
            os.unlink(p)
        rt.reports.append(data)
        if len(rt.dk.fired) > rt.nfired:
            rt.failed.add(i)
        rt.nfired = len(rt.dk.fired)

    def finish(self, rt, scn):
        rt.dk.uninstall()
        rt.dk.enabled = False

    def judge_history(self, out):
        v = []
        scn, rt = out.scn, out.rt
        runs = []
        for e in out.sim.history:
            if e[0] == 'run':
                runs.append([])
            if runs:
                runs[-1].append(e)
        res, hist = self.outcomes(out)
        eres, ehist = self.expected
        anyfault = bool(rt.dk.fired) or scn['place'] in ('nodir', 'dir')
        if hist != ehist and not anyfault:
            v.append(V('course-changed', 'the course of the run differs from that without the xunit plugin: {}'.format(diff(ehist, hist))))
        snaps = list(rt.snaps)
        for i, (o, evs) in enumerate(zip(out.runs, runs)):
            due = any(e[0] == 'hook' and e[1] == 'session_end' for e in evs)
            if not due:
                continue
            snap = snaps.pop(0)
            if i in rt.failed or scn['place'] in ('nodir', 'dir'):
                if o.escaped is None and o.exit_code == 0:
                    v.append(V('silent', 'run {}: the report could not be written ({}) but the run ended with exit status 0'.format(i, sorted(set(rt.dk.fired)) or scn['place'])))
                if o.dump and o.dump['results'] != eres[i][0]['results']:
                    v.append(V('outcome-changed', 'run {}: test results differ because the report could not be written: {}'.format(i, diff(eres[i][0]['results'], o.dump['results']))))
                continue
            if res[i] != eres[i]:
                v.append(V('outcome-changed', 'run {}: results or exit status differ from those without the xunit plugin: {}'.format(i, diff(eres[i], res[i]))))
                continue
            v += self.judge_report(i, rt.reports[i], o.dump, snap)
        return v

    def judge_report(self, i, data, dump, snap):
        v = []
        snap, known = snap
        if data is None:
            return [V('no-report', 'run {}: no report was written'.format(i))]
        try:
            root = ElementTree.fromstring(data)
        except ElementTree.ParseError as e:
            return [V('malformed', 'run {}: the report is not well-formed XML: {} in {!r}'.format(i, e, data[:60]))]
        if root.tag != 'testsuite':
            return [V('malformed', 'run {}: unexpected root element {}'.format(i, root.tag))]
        started = [(r, d) for r, d in zip(dump['results'], snap) if r['started']]
        cases = root.findall('testcase')
        if [plain(c.get('name', '')) for c in cases] != [plain(r['address']) for r, _ in started]:
            return [V('cases', 'run {}: test cases in the report {} but tests started {}'.format(i, [c.get('name') for c in cases], [r['address'] for r, _ in started]))]
        for c, (r, d) in zip(cases, started):
            for tag, exp in (('error', r['errors']), ('failure', r['failures'])):
                got = [x.get('message') for x in c.findall(tag)]
                if [plain(x or '') for x in got] != [plain(x) for x in exp]:
                    v.append(V('messages', 'run {}: {} elements of {}: {!r}, expected {!r}'.format(i, tag, r['address'], got, exp)[:600]))
            got = c.findall('skipped')
            if len(got) != len(r['skips']):
                v.append(V('skips', 'run {}: {} has {} skip elements, expected {}'.format(i, r['address'], len(got), len(r['skips']))))
            got = [plain(x.get('name', '')) for x in c.findall('detail')]
            if len(got) != len(d) or [a for a, (k, _) in zip(got, d) if k is not None] != [plain(k) for k, _ in d if k is not None]:
                v.append(V('details', 'run {}: {} has details {!r}, expected {!r}'.format(i, r['address'], got, d)[:600]))
            else:
                for x, (k, val) in zip(c.findall('detail'), d):
                    if val is not None and plain(x.get('value', '')) != plain(str(val)):
                        v.append(V('details', 'run {}: {} has detail {!r} with value {!r}, expected {!r}'.format(i, r['address'], k, x.get('value'), val)[:600]))
        got = [plain(x.get('message') or '') for tag in ('error', 'failure') for x in root.findall(tag)]
        exp = [plain(x) for x in dump['global']['errors'] + dump['global']['failures']]
        if not dump['global']['failures'] and got != exp[:len(got)]:
            v.append(V('messages', 'run {}: session errors in the report {!r}, expected {!r}'.format(i, got, exp)[:600]))
        if len(got) < known:
            v.append(V('messages', 'run {}: {} of the {} errors of the session recorded before its end are in the report'.format(i, len(got), known)))
        t = dump['totals']
        for attr, exp in (('tests', t['results']), ('skipped', t['skipped_run'])):
            if root.get(attr) != str(exp):
                v.append(V('totals', 'run {}: the report says {}={}, expected {}'.format(i, attr, root.get(attr), exp)))
        late = len(exp_list(dump)) - len(got)
        for attr, exp in (('errors', t['errors']), ('failures', t['failures'])):
            if not late and root.get(attr) != str(exp):
                v.append(V('totals', 'run {}: the report says {}={}, expected {}'.format(i, attr, root.get(attr), exp)))
        return v

    def nontrivial(self, out):
        return bool(out.sim.fault_counts) and any(getattr(out.rt, 'reports', ()))


def exp_list(dump):
    return dump['global']['errors'] + dump['global']['failures']


PROPS = {c.id: c for c in (L27,)}
