"""Properties decided in World A: notifications about sessions, messages about slow phases, debugging."""
import email
import json
import os
import re
import sys

import core
import gen_a
import oracles_a
import simenv
import vrt
import worlda
from oracles_a import V
from props_a import STUB_A, HOOKS
from props_e import PropE
from props_f import PropF, diff, Odd


# ------------------------------------------------------------------------------------------------ simulated services
HOSTS = {'prowl.weks.net': 'prowl', 'www.notifymyandroid.com': 'nma', 'api.pushbullet.com': 'pushbullet', 'slack.test': 'slack'}


class Services(object):
    """HTTP endpoints and an SMTP server as scripted; `calls` lists (channel, attempt number, accepted, payload)"""

    def __init__(self, rt, plan):
        self.rt, self.plan = rt, plan
        self.calls = []
        self.counts = {}

    def begin(self, channel):
        n = self.counts[channel] = self.counts.get(channel, 0) + 1
        p = self.plan.get(channel)
        if not p or (p.get('only') is not None and p['only'] != n - 1):
            return None
        self.rt.sim.fault('net:{}:{}'.format(channel, p['how']))
        return p['how']

    def http(self, adapter, request, **kw):
        import requests
        from urllib.parse import urlsplit
        channel = HOSTS[urlsplit(request.url).hostname]
        how = self.begin(channel)
        body = request.body
        body = body.decode() if isinstance(body, bytes) else body
        ok = how in (None, 'slow', 'lostreply')
        self.calls.append((channel, ok, body, dict(request.headers)))
        self.rt.log('sent', channel, ok)
        if how == 'slow':
            self.rt.sim.block(timeout=3000.0)
        elif how == 'refused':
            raise requests.exceptions.ConnectionError('refused')
        elif how in ('timeout', 'lostreply'):
            raise requests.exceptions.ReadTimeout('timed out')
        elif how == 'ssl':
            raise requests.exceptions.SSLError('bad certificate')
        elif how == 'oserror':
            raise OSError(101, 'Network is unreachable')
        elif how == 'weird':
            raise vrt.Weird('x')
        r = requests.Response()
        r.status_code = int(how) if how and how.isdigit() else 200
        r.url, r.request, r._content, r._content_consumed = request.url, request, b'{}', True
        return r

    def connect(self, address, *a, **k):
        how = self.begin('email')
        self.rt.log('sent', 'email', how is None)
        if how == 'refused':
            self.calls.append(('email', False, None, None))
            raise ConnectionRefusedError(111, 'Connection refused')
        if how == 'timeout':
            self.calls.append(('email', False, None, None))
            raise __import__('socket').timeout('timed out')
        return Smtp(self, how)

    def install(self):
        import requests.adapters
        import socket
        svc = self
        requests.adapters.HTTPAdapter.send = lambda adapter, request, **kw: svc.http(adapter, request, **kw)
        socket.create_connection = self.connect


class Smtp(object):
    """server side of one SMTP connection"""
    def __init__(self, svc, how):
        self.svc, self.how = svc, how
        self.out = b'220 sim ready\r\n' if how != 'badgreeting' else b'554 go away\r\n'
        self.data = None
        self.rcpt = []
        self.done = False

    def makefile(self, *a, **k):
        return self

    def readline(self, limit=-1):
        line, sep, self.out = self.out.partition(b'\n')
        return line + sep

    def close(self):
        if not self.done:
            self.done = True
            if not self.accepted:
                self.svc.calls.append(('email', False, self.data, self.rcpt))
    accepted = False

    def sendall(self, data):
        if self.data is not None and not self.accepted:
            self.data += data
            if self.data.endswith(b'\r\n.\r\n'):
                if self.how == 'dropdata':
                    return
                if self.how == 'rejectdata':
                    self.out += b'552 too large\r\n'
                    return
                self.accepted = True
                self.svc.calls.append(('email', True, self.data[:-5], list(self.rcpt)))
                self.out += b'250 ok\r\n'
            return
        cmd = data.decode('utf-8', 'replace').strip()
        verb = cmd.split(':')[0].split(' ')[0].upper()
        if self.how == 'drop' + verb.lower():
            raise ConnectionResetError(104, 'Connection reset by peer')
        if self.how == 'eof' + verb.lower():
            return
        if verb in ('EHLO', 'HELO'):
            self.out += b'250 sim\r\n'
        elif verb == 'MAIL':
            self.out += b'550 no\r\n' if self.how == 'badsender' else b'250 ok\r\n'
        elif verb == 'RCPT':
            if self.how == 'badrcpt' or (self.how == 'onebadrcpt' and not self.rcpt):
                if self.how == 'onebadrcpt':
                    self.rcpt.append(None)
                self.out += b'550 unknown user\r\n'
            else:
                self.rcpt.append(re.search('<(.*)>', cmd).group(1))
                self.out += b'250 ok\r\n'
        elif verb == 'DATA':
            self.data = b''
            self.out += b'354 go\r\n'
        elif verb == 'QUIT':
            self.out += b'221 bye\r\n'
        else:
            self.out += b'250 ok\r\n'


HTTP_FAULTS = ['refused', 'timeout', 'lostreply', 'ssl', 'oserror', '500', '503', '404', '429', '401', 'slow', 'weird']
SMTP_FAULTS = ['refused', 'timeout', 'badgreeting', 'badsender', 'badrcpt', 'onebadrcpt', 'rejectdata', 'dropdata', 'dropmail', 'eofmail', 'eofrcpt', 'droprcpt', 'dropehlo',
               'eofehlo', 'dropquit', 'eofquit']
SOFT = ('slow', 'onebadrcpt')        # the attempt is a success all the same


def op_prep(rt, op, oid, point, this):
    """a subscriber of prepare_notification changes the message"""
    rt.saved.setdefault('prep', []).append(op)


vrt.EXT.update(prep=op_prep)


class N30(PropF):
    id = 'N30'
    rule = 'a run counts when at least one channel was due to be notified'
    stub = STUB_A + ['HTTP transport (requests adapter) and SMTP connections: scripted services; requests and smtplib above them are real']
    runs = (1, 1, 1, 2)
    quick = (4000, 35)
    base = dict(cleanups=(0, 2), fixtures=(0, 1), faults=(0, 2), interrupts=(0, 1), hooks=HOOKS, max_hooks=2, tests=(1, 3), files=[1], p_skipped=0.1, p_req=0,
                p_stop=0.1, p_repeat=0.1, nointr=('h:session_end', 'h:session_start', 'h:after_session_start', 'h:before_session_start'),
                fault_kinds=['raise'] * 6 + ['skip'] * 2 + ['add'] * 3 + ['handled', 'swallowed', 'caught'])

    def dress(self, rng, scn, o):
        N = 'plugin_config.notifications.'

        def conf(k, v):
            scn['note'] += ['-o', N + '{}={}'.format(k, v)]
        scn['note'] = ['--with-notifications']
        scn['channels'] = []
        scn['threshold'] = 5
        if rng.random() < 0.7:
            scn['threshold'] = rng.choice([0, 0, 1, 7, 60])
            conf('notification_threshold', scn['threshold'])
        if rng.random() < 0.3:
            scn['onlyfail'] = 1
            scn['note'] += rng.choice([['--notify-only-on-failures'], ['-o', N + 'notify_only_on_failures=true']])
        for c in ('prowl', 'nma', 'pushbullet'):
            key = rng.choice([None, 'new', 'new', 'legacy', 'both'])
            enabled = rng.random() < 0.8
            if key in ('new', 'both'):
                conf(c + '.api_key', 'K' + c)
            if key in ('legacy', 'both'):
                conf(c + '_api_key', 'L' + c)
            if not enabled:
                conf(c + '.enabled', 'false')
            elif rng.random() < 0.2:
                scn['note'] += ['--notify-' + c]
            if key and enabled:
                scn['channels'].append(c)
        if rng.random() < 0.6:
            scn['email'] = {'to': rng.choice([['a@x'], ['a@x', 'b@x']]), 'cc': rng.choice([[], ['c@x']])}
            server = rng.random() < 0.85
            if server:
                conf('email.smtp_server', 'smtp.test')
            for a in scn['email']['to']:
                scn['note'] += ['--email-to', a]
            for a in scn['email']['cc']:
                conf('email.cc_list', '[{!r}]'.format(a))
            enabled = rng.random() < 0.85
            if enabled:
                scn['note'] += rng.choice([['--notify-email'], ['-o', N + 'email.enabled=true']])
            if server and enabled:
                scn['channels'].append('email')
        if rng.random() < 0.6:
            url, chan = rng.random() < 0.85, rng.random() < 0.85
            if url:
                conf('slack.url', 'http://slack.test/hook')
            if chan:
                conf('slack.channel', '@me')
            enabled = rng.random() < 0.85
            if enabled:
                scn['note'] += ['--notify-slack']
            if url and chan and enabled:
                scn['channels'].append('slack')
        scn['net'] = {}
        for c in scn['channels']:
            if rng.random() < 0.4:
                scn['net'][c] = {'how': rng.choice(SMTP_FAULTS if c == 'email' else HTTP_FAULTS), 'only': rng.choice([None, None, 0, 1])}
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'y')]
        for _ in range(rng.choice([0, 1, 1, 2])):
            o.add(rng.choice(pts), o.new(prefix='z', op='sleep', secs=rng.choice([0.5, 1, 4.9, 5, 5.1, 7, 30, 100])))
        if rng.random() < 0.3:
            scn['pdb'] = rng.choice(['on', 'on', 'off'])
            scn['note'] += ['--pdb'] + (['-o', N + 'notify_on_pdb=false'] if scn['pdb'] == 'off' else [])
            if rng.random() < 0.3:
                scn['note'] += ['-o', 'debug.debug_skips=true']
            if rng.random() < 0.3:
                o.add(rng.choice(pts), o.new(prefix='F', op='raise', exc=rng.choice(['Weird', 'Control', 'KeyError'])))
        if rng.random() < 0.3:
            scn['prep'] = rng.choice(['details', 'title', 'braces', 'body'])

    def shrink(self, scn):
        for k in list(scn['net']):
            c = json.loads(json.dumps(scn))
            del c['net'][k]
            yield c
        if scn.get('prep'):
            c = json.loads(json.dumps(scn))
            del c['prep']
            yield c
        for c in super().shrink(scn):
            yield c

    def before(self, scn, root):
        c = json.loads(json.dumps(scn))
        c['argv'] = scn['argv'] + (['--pdb'] + (['-o', 'debug.debug_skips=true'] if 'debug.debug_skips=true' in scn['note'] else []) if scn.get('pdb') else [])
        c['net'] = {}
        c['channels'] = []
        scn['argv'] = scn['argv'] + scn['note']
        return scn, c

    def prepare(self, rt, scn):
        import gossip
        import pdb
        import slash
        rt.svc = Services(rt, scn.get('net') or {})
        rt.svc.install()
        rt.ends = []
        rt.debugged = 0

        def post_mortem(tb=None):
            rt.debugged += 1
            rt.log('debugger')
            if rt.debugged > 300:
                raise core.HarnessError('endless debugging')
        pdb.post_mortem = post_mortem
        for name in ('pudb', 'ipdb'):
            sys.modules[name] = None

        def ending():
            s = slash.ctx.context.session
            rt.ends.append((s.duration, s.results.is_success(allow_skips=True), repr(s.results).replace('<', '').replace('>', ''), s.id, len(rt.svc.calls)))
            rt.log('ending')
        gossip.register(ending, 'slash.session_end', token='n30')

        def entering(exc_info):
            tb, own = exc_info[2], False
            while tb is not None:
                name = tb.tb_frame.f_code.co_filename
                own = own or name.endswith('smtplib.py') or '/requests/' in name
                tb = tb.tb_next
            rt.log('entering', own)
        gossip.register(entering, 'slash.entering_debugger', token='n30')
        if scn.get('prep'):
            def prep(message):
                rt.log('prepared')
                if scn['prep'] == 'details':
                    message.details_dict['additional'] = 'ADDED<&>{x}'
                elif scn['prep'] == 'title':
                    message.title = 'TITLE {session_id}'
                elif scn['prep'] == 'body':
                    message.body += '\nBODY {total_num_tests}'
                elif scn['prep'] == 'braces':
                    message.details_dict['a{b}'] = '{0} {nosuch} %s'
            gossip.register(prep, 'slash.prepare_notification', token='n30')

    def after_run(self, rt, scn, i, o):
        rt.marks = getattr(rt, 'marks', []) + [len(rt.svc.calls)]

    def judge_history(self, out):
        v = []
        scn, rt = out.scn, out.rt
        res, hist = self.outcomes(out)
        eres, ehist = self.expected
        hist, ehist = ([e for e in h if e[:2] != ('hook', 'warning_added')] for h in (hist, ehist))       # deprecated configuration
        hard = any(p['how'] not in SOFT or p['how'] == 'onebadrcpt' for p in scn['net'].values())
        if not hard:
            if hist != ehist:
                v.append(V('course-changed', 'the course of the run differs from that without notifications: {}'.format(diff(ehist, hist))))
            elif res != eres:
                v.append(V('outcome-changed', 'results or exit status differ from those without notifications: {}'.format(diff(eres, res))))
        else:
            for i, (a, b) in enumerate(zip(eres, res)):
                if a[0] and b[0] and a[0]['results'] != b[0]['results'] and not scn.get('pdb'):
                    v.append(V('outcome-changed', 'run {}: test results differ from those without notifications: {}'.format(i, diff(a[0]['results'], b[0]['results']))))
        # one attempt per channel that is due
        evs = [e for e in out.sim.history if e[0] in ('run', 'entering', 'ending', 'sent', 'debugger') or (e[0] == 'hook' and e[1] == 'session_end')]
        got = {c: 0 for c in HOSTS.values()}
        got['email'] = 0
        for c, ok, body, extra in rt.svc.calls:
            got[c] += 1
        ends = []
        for dur, success, summary, sid, first in rt.ends:
            due = dur >= scn['threshold'] and not (success and scn.get('onlyfail'))
            ends.append(due)
        npdb = sum(1 for e in evs if e[0] == 'entering' and not e[1]) if scn.get('pdb') == 'on' else 0
        for c in sorted(got):
            exp = (sum(ends) + npdb) if c in scn['channels'] else 0
            if got[c] != exp:
                v.append(V('attempts', '{} was notified {} time(s), expected {} ({} session end(s) out of {} qualify, {} debugger entries; failing: {})'.format(
                    c, got[c], exp, sum(ends), len(ends), npdb, scn['net'])))
        if v or scn.get('pdb'):
            return v
        k = 0
        for due, (dur, success, summary, sid, first) in zip(ends, rt.ends):
            if not due:
                continue
            for c, ok, body, extra in rt.svc.calls[first:first + len(scn['channels'])]:
                v += self.judge_message(scn, c, ok, body, extra, success, summary, sid)
        # failing channels are reported
        if not scn.get('pdb'):
            for i, (a, b) in enumerate(zip(eres, res)):
                lo = rt.marks[i - 1] if i else 0
                fails = self.failures(scn, rt.svc.calls[lo:rt.marks[i]], lo, rt)
                if a[0] and b[0]:
                    n = len(b[0]['global']['errors']) - len(a[0]['global']['errors'])
                    if n != fails:
                        v.append(V('unreported', 'run {}: {} channel(s) failed but {} session error(s) are about it: {}'.format(i, fails, n, b[0]['global']['errors'])))
                    if fails and b[1] == 0:
                        v.append(V('unreported', 'run {}: a channel failed but the exit status is 0'.format(i)))
        return v

    def failures(self, scn, calls, lo, rt):
        n = 0
        seen = {}
        for c, ok, body, extra in rt.svc.calls[:lo]:
            seen[c] = seen.get(c, 0) + 1
        for c, ok, body, extra in calls:
            k = seen.get(c, 0)
            seen[c] = k + 1
            p = scn['net'].get(c)
            soft = p and p['how'] in SOFT and not (p['how'] == 'onebadrcpt' and len(scn['email']['to'] + scn['email']['cc']) == 1)
            if p and not soft and (p.get('only') is None or p['only'] == k) and p['how'] not in ('eofquit', 'dropquit'):
                n += 1
        return n

    def judge_message(self, scn, c, ok, body, extra, success, summary, sid):
        v = []
        word, other = ('Succeeded', 'Failed') if success else ('Failed', 'Succeeded')
        if c == 'email':
            if body is None or not body.strip():
                return v
            msg = email.message_from_bytes(body)
            title = str(email.header.make_header(email.header.decode_header(msg['Subject'])))
            part = [p for p in msg.walk() if p.get_content_type() == 'text/html'][0]
            text = part.get_payload(decode=True).decode()
            to = [x for x in extra if x]
            exp = scn['email']['to'] + scn['email']['cc']
            if ok and to != exp and scn['net'].get('email', {}).get('how') != 'onebadrcpt':
                v.append(V('recipients', 'the message was sent to {}, expected {}'.format(to, exp)))
            if scn.get('prep') == 'details' and 'ADDED' not in text:
                v.append(V('content', 'details added by a subscriber are missing from the mail'))
        else:
            if body is None:
                return v
            if c == 'slack' or c == 'pushbullet' and body.startswith('{'):
                d = json.loads(body)
                a = d['attachments'][0]
                title, text = a['title'], a['text']
                if a['color'] != ('good' if success else 'danger'):
                    v.append(V('content', 'slack: colour {} but success={}'.format(a['color'], success)))
            else:
                from urllib.parse import parse_qs
                d = parse_qs(body)
                title = d.get('event', d.get('title', ['']))[0]
                text = d.get('description', d.get('body', ['']))[0]
            if summary not in text:
                v.append(V('content', '{}: {!r} does not contain {!r}'.format(c, text, summary)))
            if scn.get('prep') == 'body' and 'BODY' not in text:
                v.append(V('content', '{}: text added by a subscriber is missing'.format(c)))
        if scn.get('prep') == 'title':
            if title != 'TITLE ' + sid:
                v.append(V('content', '{}: title {!r} is not the one set by the subscriber'.format(c, title)))
        elif word not in title or other in title:
            v.append(V('content', '{}: title {!r} but success={}'.format(c, title, success)))
        return v

    def nontrivial(self, out):
        return bool(out.rt.svc.calls)


PROPS = {c.id: c for c in (N30,)}


# ------------------------------------------------------------------------------------------------ D31 debugging
FID = re.compile(r'F([a-z]\d+\.\d+)')
OUTSIDE = ('h:configure', 'h:result_summary', 'h:app_quit')


class D31(PropF):
    id = 'D31'
    rule = 'a run counts when the debugger was entered or at least two exceptions were raised'
    stub = STUB_A + ['pdb.post_mortem: records what it is given, may be interrupted']
    runs = (1,)
    quick = (4000, 35)
    base = dict(cleanups=(0, 4), fixtures=(0, 2), faults=(1, 5), interrupts=(0, 1), sysexits=(0, 1), hooks=HOOKS, max_hooks=3, tests=(1, 4), files=[1, 1, 2], p_skipped=0.05,
                p_req=0, p_stop=0.2, p_repeat=0.1, errs=gen_a.ERR + ['NoRepr'],
                fault_kinds=['raise'] * 6 + ['skip'] * 3 + ['add'] * 2 + ['handled', 'nested_handled', 'swallowed', 'caught', 'fatal', 'reraise'])

    def dress(self, rng, scn, o):
        scn['look'] = ['--pdb']
        if rng.random() < 0.35:
            scn['skips'] = 1
            scn['look'] += ['-o', 'debug.debug_skips=true']
        if rng.random() < 0.25:
            scn['look'] += ['-o', 'debug.debug_hook_handlers=true']
            scn['handlers'] = 1
        if rng.random() < 0.3:
            scn['filter'] = rng.sample(['RuntimeError', 'Custom', 'not RuntimeError', 'RuntimeError or Custom', 'Failed'], rng.choice([1, 1, 2, 3]))
            for f in scn['filter']:
                scn['look'] += ['--pdb-filter', f]
        if rng.random() < 0.3:
            scn['look'] += ['-o', 'debug.debugger={}'.format(rng.choice(['pdb', 'pudb', 'ipdb', 'nosuch']))]
        if rng.random() < 0.2:
            scn['pm'] = {'n': rng.choice([0, 0, 1, 2]), 'how': rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'OSError', 'sleep'])}
        if rng.random() < 0.15:
            scn['hook'] = {'n': rng.choice([0, 0, 1]), 'hook': rng.choice(['entering_debugger', 'exception_caught_before_debugger', 'exception_caught_after_debugger'])}

    def shrink(self, scn):
        for k in ('pm', 'hook', 'filter', 'skips', 'handlers'):
            if scn.get(k):
                c = json.loads(json.dumps(scn))
                v = c.pop(k)
                if k in ('filter', 'skips', 'handlers'):
                    tok = {'filter': '--pdb-filter', 'skips': 'debug.debug_skips=true', 'handlers': 'debug.debug_hook_handlers=true'}[k]
                    i = c['look'].index(tok) - (0 if k == 'filter' else 1)
                    del c['look'][i:i + 2 * (len(v) if k == 'filter' else 1)]
                yield c
        for c in super().shrink(scn):
            yield c

    def before(self, scn, root):
        c = dict(scn, pm=None, hook=None)
        if scn.get('handlers'):
            c['argv'] = scn['argv'] + ['-o', 'debug.debug_hook_handlers=true']
        scn['argv'] = scn['argv'] + scn['look']
        return scn, c

    def prepare(self, rt, scn):
        import gossip
        import pdb
        for name in ('pudb', 'ipdb'):
            sys.modules[name] = None
        rt.entered = 0

        def fid(tb):
            """the scripted exception a traceback belongs to"""
            e = rt.debugged
            if e is None or e.__traceback__ is None:
                return None
            try:
                m = FID.search(str(e))
            except Exception:
                m = None
            return m.group(1) if m else type(e).__name__

        def entering(exc_info):
            rt.debugged = exc_info[1]
            rt.log('entering', fid(None), *rt.cur())
            trip('entering_debugger')

        def post_mortem(tb=None):
            n = rt.entered
            rt.entered += 1
            rt.log('debugger', fid(tb), tb is not None)
            p = scn.get('pm')
            if p and p['n'] == n:
                rt.sim.fault('debugger:' + p['how'])
                rt.log('debugger-fails', p['how'])
                if p['how'] == 'sleep':
                    rt.sim.block(timeout=1000.0)
                else:
                    raise vrt.mkexc(p['how'], 'in debugger')
            if n > 300:
                raise core.HarnessError('endless debugging')
        pdb.post_mortem = post_mortem
        seen = {}

        def trip(hook):
            n = seen[hook] = seen.get(hook, -1) + 1
            p = scn.get('hook')
            if p and p['hook'] == hook and p['n'] == n:
                rt.sim.fault('hook:' + hook)
                rt.log('hook-fails', hook)
                raise RuntimeError('failing ' + hook)
        gossip.register(entering, 'slash.entering_debugger', token='d31')
        gossip.register(lambda: trip('exception_caught_before_debugger'), 'slash.exception_caught_before_debugger', token='d31')
        gossip.register(lambda: trip('exception_caught_after_debugger'), 'slash.exception_caught_after_debugger', token='d31')

    def qualifies(self, scn, e):
        """whether the debugger is due for a fault: True, False or None (either)"""
        _, oid, op, what, kind, point, tid, rid, owner = e
        if op not in ('raise', 'handled', 'nested_handled', 'reraise') or kind not in ('error', 'failure', 'skip'):
            return False
        if kind == 'skip' and not scn.get('skips'):
            return False
        if point in OUTSIDE:
            return None
        f = scn.get('filter')
        if f:
            name = {'TestFailed': 'TestFailed', 'fatal': 'RuntimeError', 'fatalfail': 'AssertionError', 'NoRepr': None}.get(what, what)
            if name is None:
                return None
            words = {'RuntimeError': name == 'RuntimeError', 'Custom': 'Custom' in name, 'not RuntimeError': name != 'RuntimeError',
                     'RuntimeError or Custom': 'RuntimeError' in name or 'Custom' in name, 'Failed': 'Failed' in name}
            return all(words[x] for x in f)
        return True

    def judge_history(self, out):
        v = []
        scn, rt = out.scn, out.rt
        h = out.sim.history
        res, hist = self.outcomes(out)
        eres, ehist = self.expected
        hist, ehist = ([e for e in x if e[:2] != ('hook', 'warning_added')] for x in (hist, ehist))       # unknown debuggers are warned about
        bad = [e for e in h if e[0] in ('debugger-fails', 'hook-fails') and e[1] != 'sleep']
        if not bad:
            if hist != ehist:
                v.append(V('course-changed', 'the course of the run differs from that without debugging: {}'.format(diff(ehist, hist))))
            elif res != eres:
                v.append(V('outcome-changed', 'results or exit status differ from those without debugging: {}'.format(diff(eres, res))))
        count = {}
        for i, e in enumerate(h):
            if e[0] == 'entering':
                count[e[1]] = count.get(e[1], 0) + 1
        dbg = {}
        for e in h:
            if e[0] == 'debugger':
                dbg[e[1]] = dbg.get(e[1], 0) + 1
                if not e[2]:
                    v.append(V('no-traceback', 'the debugger was given no traceback for F{}'.format(e[1])))
        if not bad:
            for k in sorted(set(count) | set(dbg), key=str):
                if count.get(k, 0) != dbg.get(k, 0):
                    v.append(V('hook-count', 'entering_debugger was called {} time(s) for F{} but the debugger entered {} time(s)'.format(count.get(k, 0), k, dbg.get(k, 0))))
        faults = {e[1]: e for e in h if e[0] == 'fault'}
        for oid, e in faults.items():
            q = self.qualifies(scn, e)
            n = count.pop(oid, 0)
            if q is None:
                continue
            if q and n != 1 and not bad or not q and n or n > 1:
                v.append(V('entered', 'F{} ({} {} at {}): the debugger was entered {} time(s), expected {}'.format(oid, e[2], e[3], e[5], n, 1 if q else 0)))
        for k, n in sorted(count.items(), key=str):
            if not bad:
                v.append(V('phantom', 'the debugger was entered {} time(s) for {} which no user code raised'.format(n, k)))
        if bad:
            # what was debugged is recorded all the same
            hh = oracles_a.Hist(_Single(out))
            for x in oracles_a.oracle_s16(hh, allow=('in debugger', 'failing ')):
                if x['cls'] in ('lost-error', 'lost-failure') and not any(' at {})'.format(p) in x['msg'] for p in OUTSIDE):
                    v.append(x)
            if out.runs[0].escaped is None and out.runs[0].exit_code == 0:
                v.append(V('silent', 'the debugger failed but the exit status is 0'))
        return v

    def nontrivial(self, out):
        return bool(out.rt.entered) or len(out.sim.fault_counts) >= 2


class _Single(object):
    def __init__(self, out):
        self.__dict__.update(out.__dict__)
        o = out.runs[0]
        self.dump, self.exit_code, self.escaped = o.dump, o.exit_code, o.escaped


PROPS['D31'] = D31


# ------------------------------------------------------------------------------------------------ T35 slow phases
def op_slow(rt, op, oid, point, this):
    """user code in a context which tells the user if it takes long"""
    from slash.utils.interactive import notify_if_slow_context
    import slash
    sim = rt.sim
    kw = {}
    if op.get('end'):
        kw['end_message'] = 'E{}|'.format(oid)
    if op.get('nodur'):
        kw['show_duration'] = False
    if op.get('thr') is not None:
        kw['slow_seconds'] = op['thr']
    t0 = t1 = None
    before = live(sim)
    sess = slash.ctx.context.session is not None
    try:
        with notify_if_slow_context('B{}|'.format(oid), **kw):
            t0 = sim.now
            try:
                for d in op['secs']:
                    sim.block(timeout=d)
                    if op.get('inner'):
                        rt.at('w:' + op['id'])
            finally:
                t1 = sim.now
    finally:
        rt.log('slow', oid, t0, t1, op.get('thr', 1), bool(op.get('end')), sess, live(sim) - before)


def live(sim):
    return sum(1 for t in sim.tasks if t.state != 'done')


vrt.EXT.update(slow=op_slow)
EPS = 4e-4          # phases as long as the threshold may go either way
PHASES = {'init': 'Initializing session...', 'intr': 'Cleaning up test due to interrupt. Please wait...'}


class T35(PropF):
    id = 'T35'
    rule = 'a run counts when at least one phase took simulated time'
    runs = (1, 1, 2)
    quick = (4000, 35)
    base = dict(cleanups=(0, 2), fixtures=(0, 1), faults=(0, 2), interrupts=(0, 2), hooks=HOOKS, max_hooks=4, tests=(1, 3), files=[1], p_skipped=0.05, p_req=0, p_stop=0.05, p_repeat=0.1,
                nointr=('h:configure',))
    SECS = [0.0, 0.3, 0.999, 1, 1.001, 1.5, 3, 10, 61, 4000]

    def dress(self, rng, scn, o):
        for h in ('before_session_start', 'session_start', 'after_session_start', 'test_interrupt'):
            if rng.random() < 0.35:
                if h not in scn['hooks']:
                    scn['hooks'].append(h)
                for _ in range(rng.choice([1, 1, 2])):
                    o.add('h:' + h, o.new(prefix='z', op='sleep', secs=rng.choice(self.SECS)))
        pts = [p for p in worlda.points(scn) if p.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'y', 'h', 'x')]
        for _ in range(rng.choice([1, 2, 3, 5])):
            op = o.new(prefix='p', op='slow', secs=[rng.choice(self.SECS) for _ in range(rng.choice([1, 1, 2, 3]))])
            if rng.random() < 0.5:
                op['thr'] = rng.choice([0.5, 1, 2, 30])
            if rng.random() < 0.5:
                op['end'] = 1
            if rng.random() < 0.2:
                op['nodur'] = 1
            if rng.random() < 0.3:
                op['inner'] = 1
            o.add(rng.choice(pts), op)
            if op.get('inner') and rng.random() < 0.7:
                w = rng.choice([o.new(prefix='r', op='raise', exc='RuntimeError'), o.new(prefix='s', op='raise', exc='SkipTest'), o.new(prefix='i', op='raise', exc='KeyboardInterrupt'),
                                o.new(prefix='i', op='sig', sig='SIGTERM'), o.new(prefix='i', op='sig', sig='SIGINT')])
                scn['ops'].setdefault('w:' + op['id'], []).append(w)
        scn['sticky'] = rng.choice([0.9, 0.5, 0.1])

    def judge_history(self, out):
        v = []
        texts = [o.stream.getvalue() for o in out.runs]
        text = '\n'.join(texts)
        run = -1
        marks = {}
        for e in out.sim.history:
            if e[0] == 'slow':
                _, oid, t0, t1, thr, end, sess, left = e
                nb, ne = text.count('B{}|'.format(oid)), text.count('E{}|'.format(oid))
                what = 'the phase at {} lasted {:.3f} s (threshold {} s)'.format(oid, (t1 or 0) - (t0 or 0), thr)
                if left > 0:
                    v.append(V('thread-left', '{}: {} helper thread(s) outlived it'.format(what, left)))
                if t0 is None:
                    continue
                if nb > 1 or ne > 1:
                    v.append(V('repeated', '{}: its message was printed {} times and its end message {} times'.format(what, nb, ne)))
                if sess and t1 - t0 > thr + EPS and not nb:
                    v.append(V('missing', '{}: its message was not printed'.format(what)))
                if nb and (not sess or t1 - t0 < thr - EPS):
                    v.append(V('unexpected', '{}: its message was printed'.format(what)))
                if ne != (nb if end else 0):
                    v.append(V('end-message', '{}: message printed {} time(s), end message {} time(s)'.format(what, nb, ne)))
        for i, o in enumerate(out.runs):
            v += self.judge_phases(out.rt.timings[i], o.stream.getvalue(), i)
        return v

    def judge_phases(self, timing, text, i):
        v = []
        init, intr = timing
        n = text.count(PHASES['init'])
        if n > 1 or n != (init > 1.0) and abs(init - 1.0) > EPS:
            v.append(V('init-notice', 'run {}: starting the session took {:.3f} s, but the notice was printed {} time(s)'.format(i, init, n)))
        n = text.count(PHASES['intr'])
        if not sum(x > 1.0 + EPS for x in intr) <= n <= sum(x >= 1.0 - EPS for x in intr):
            v.append(V('interrupt-notice', 'run {}: handling interruptions took {} s, but the notice was printed {} time(s)'.format(i, intr, n)))
        return v

    def prepare(self, rt, scn):
        rt.timings = []

    def after_run(self, rt, scn, i, o):
        """time spent by user code in each phase of this run"""
        init, intr = 0.0, []
        for point, n, t0, t1 in rt.times:
            if point in ('h:before_session_start', 'h:session_start', 'h:after_session_start'):
                init += t1 - t0
            elif point == 'h:test_interrupt':
                intr.append(t1 - t0)
        rt.times = []
        rt.timings.append((init, intr))

    def nontrivial(self, out):
        return out.sim.now > core.EPOCH + 0.5


PROPS['T35'] = T35
