"""Oracles over the recorded history of a World A run. Each returns a list of violations {cls, msg[, sig]}."""
import re

FID = re.compile(r'F([a-z]\d+\.\d+)')
BODY = ('t', 'b', 'a', 'fs', 'fe', 'f')


def V(cls, msg, **kw):
    d = {'cls': cls, 'msg': msg}
    d.update(kw)
    return d


class Hist(object):
    def __init__(self, out):
        self.ev = out.sim.history
        self.out = out
        self.dump = out.dump
        self.results = {r['id']: r for r in (out.dump or {}).get('results', ())}
        self.file_of = {k: r['address'].split(':')[0] for k, r in self.results.items()}
        self.faults = [(i, e) for i, e in enumerate(self.ev) if e[0] == 'fault']
        self.started_order = []
        for e in self.ev:
            if e[0] == 'hook' and e[1] == 'test_start' and e[2] is not None and e[2] not in self.started_order:
                self.started_order.append(e[2])
        self.exec_order = []
        for e in self.ev:
            tid = None
            if e[0] == 'in' and e[1].split(':')[0] in BODY:
                tid = e[3]
            elif e[0] == 'hook' and e[1] == 'test_start':
                tid = e[2]
            if tid is not None and tid not in self.exec_order:
                self.exec_order.append(tid)
        # module instances: runs of consecutive executed tests of one file
        self.module_of = {}
        last, k = None, -1
        for tid in sorted(self.exec_order, key=lambda t: self.results.get(t, {}).get('index') if self.results.get(t, {}).get('index') is not None else 10 ** 6):
            f = self.file_of.get(tid)
            if f != last:
                k += 1
                last = f
            self.module_of[tid] = k

    def interrupts(self):
        return [i for i, e in self.faults if e[4] == 'interrupt']

    def exits(self):
        return [i for i, e in self.faults if e[4] == 'exit']


# ------------------------------------------------------------------------------------------------ S11 / S12 cleanups
def cleanup_instances(h):
    """[(reg index, oid, kind, instance, point)] where instance identifies the activation of the scope"""
    regs = []
    inst_of = {}
    running = []
    for i, e in enumerate(h.ev):
        if e[0] == 'cbegin':
            running.append(e[1])
        elif e[0] == 'cend':
            if e[1] in running:
                running.remove(e[1])
        elif e[0] == 'reg':
            _, oid, scope, kind, tid, rid, point = e
            inst = None
            if point.startswith('c:') and running:
                parent = running[-1]
                if inst_of.get(parent) and inst_of[parent][0] == scope:
                    inst = inst_of[parent]
            if inst is None:
                if scope == 'test':
                    inst = ('test', tid)
                elif scope == 'module':
                    if point.startswith('c:') and running and inst_of.get(running[-1], (None,))[0] == 'test':
                        inst = ('module', h.module_of.get(inst_of[running[-1]][1]))
                    else:
                        inst = ('module', h.module_of.get(tid))
                else:
                    inst = (scope, None)
            inst_of[oid] = inst
            regs.append((i, oid, kind, inst, point))
    return regs, inst_of


def oracle_s11(h):
    out = []
    if h.interrupts():
        return out
    regs, inst_of = cleanup_instances(h)
    begins = {}
    for i, e in enumerate(h.ev):
        if e[0] == 'cbegin':
            begins.setdefault(e[1], []).append(i)
    for e in h.ev:
        if e[0] == 'regfail':
            out.append(V('cleanup-refused', 'adding a cleanup to the current scope {} or one around it failed with {}'.format(e[2], e[4])))
    for i, oid, kind, inst, point in regs:
        n = len(begins.get(oid, ()))
        if n > 1:
            out.append(V('cleanup-twice', 'cleanup {} ({} scope, registered at {}) was called {} times'.format(oid, inst[0], point, n)))
        elif n == 0 and kind != 'success':
            out.append(V('cleanup-lost', '{} cleanup {} ({} scope {}, registered at {}) was never called'.format(
                kind or 'plain', oid, inst[0], inst[1], point)))
    # LIFO per instance
    stacks = {}
    kinds = {oid: kind for _, oid, kind, _, _ in regs}
    ends = {}
    for i, e in enumerate(h.ev):
        if e[0] == 'reg':
            stacks.setdefault(inst_of[e[1]], []).append(e[1])
        elif e[0] == 'cbegin':
            st = stacks.get(inst_of.get(e[1]), [])
            if e[1] in st:
                above = st[st.index(e[1]) + 1:]
                bad = [o for o in above if kinds[o] != 'success']
                if bad:
                    out.append(V('cleanup-order', 'cleanup {} called before {} which was registered later in the same scope {}'.format(
                        e[1], bad[-1], inst_of[e[1]])))
                del st[st.index(e[1]):]
        elif e[0] == 'cend':
            ends[e[1]] = i
    # timing
    for i, oid, kind, inst, point in regs:
        for b in begins.get(oid, ()):
            scope, which = inst
            for j, e in enumerate(h.ev):
                if e[0] == 'in' and e[1].split(':')[0] in BODY and e[3] is not None:
                    tid = e[3]
                    mine = (tid == which if scope == 'test' else h.module_of.get(tid) == which if scope == 'module' else True)
                    if mine and j > b:
                        out.append(V('cleanup-early', '{}-scope cleanup {} ran before {} of the scope it belongs to'.format(scope, oid, e[1])))
                        break
                    if not mine and j < b and j > i:
                        out.append(V('cleanup-late', '{}-scope cleanup {} ran only after {} (test {}) of a later scope had started'.format(
                            scope, oid, e[1], tid)))
                        break
                if e[0] == 'hook' and e[1] == 'session_end' and j < b:
                    out.append(V('cleanup-late', '{}-scope cleanup {} ran after session_end'.format(scope, oid)))
                    break
                if e[0] == 'cbegin' and j > b and inst_of.get(e[1]):
                    o = inst_of[e[1]]
                    order = {'test': 0, 'module': 1, 'session': 2, 'session-global': 3}
                    inner = order[o[0]] < order[scope] and (
                        scope in ('session', 'session-global') or (o[0] == 'test' and h.module_of.get(o[1]) == which))
                    if inner:
                        out.append(V('cleanup-nesting', '{}-scope cleanup {} ran before {}-scope cleanup {} nested in it'.format(
                            scope, oid, o[0], e[1])))
                        break
    return dedup(out)


def oracle_s12(h):
    out = []
    regs, inst_of = cleanup_instances(h)
    begins = {}
    for i, e in enumerate(h.ev):
        if e[0] == 'cbegin':
            begins.setdefault(e[1], []).append(i)
    intr = h.interrupts()
    if intr:
        i0 = intr[0]
        where = h.ev[i0][5]
        for i, oid, kind, inst, point in regs:
            n = begins.get(oid, [])
            if kind == 'critical':
                if len(n) == 0:
                    out.append(V('critical-lost', 'critical cleanup {} ({} scope, registered at {}) never ran in a run interrupted at {}'.format(
                        oid, inst[0], point, where)))
                elif len(n) > 1:
                    out.append(V('critical-twice', 'critical cleanup {} ran {} times'.format(oid, len(n))))
            elif any(b > i0 for b in n):
                out.append(V('noncritical-after-interrupt', '{} cleanup {} ({} scope) started after the interruption at {}'.format(
                    kind or 'plain', oid, inst[0], where)))
    # success-only, test scope
    for i, oid, kind, inst, point in regs:
        if kind != 'success' or inst[0] != 'test':
            continue
        tid = inst[1]
        first_cleanup = min([b for o, bs in begins.items() if inst_of.get(o) == inst for b in bs] +
                            [j for j, e in enumerate(h.ev) if e[0] == 'hook' and e[1] == 'before_test_cleanups' and e[2] == tid] or [10 ** 9])
        bad_before = [e for j, e in h.faults if e[6] == tid and e[4] in ('error', 'failure', 'interrupt', 'exit') and j < first_cleanup]
        bad_any = [e for j, e in h.faults if (e[6] == tid or e[8] == tid) and e[4] in ('error', 'failure', 'interrupt', 'exit')]
        ran = bool(begins.get(oid))
        if bad_before and ran and bad_before[0][4] != 'exit':
            out.append(V('success-only-after-failure', 'success-only cleanup {} ran although {} had been raised in its test'.format(oid, bad_before[0][1])))
        if not bad_any and not ran and not intr and not h.exits():
            out.append(V('success-only-lost', 'success-only cleanup {} did not run although its test had no error, failure or interruption'.format(oid)))
    return dedup(out)


# ------------------------------------------------------------------------------------------------ S16
def expected_records(h):
    exp = []
    for i, e in h.faults:
        _, oid, op, what, kind, point, tid, rid, owner = e
        if kind not in ('error', 'failure', 'skip'):
            continue
        if point.startswith('c:') and op == 'raise':
            owners = {owner}
        elif point.startswith('c:'):
            owners = {owner, tid or 'G', rid}
        elif op == 'add':
            owners = {tid or 'G', rid}
        else:
            owners = {tid or 'G', rid or 'G'}
        exp.append((oid, kind, owners, point, op))
    return exp


def actual_records(dump):
    act = []
    for r in dump['results'] + [dict(dump['global'], id='G')]:
        for kind, key in (('error', 'errors'), ('failure', 'failures'), ('skip', 'skips')):
            for m in r[key]:
                act.append((m, kind, r['id']))
    return act


def oracle_s16(h, allow=()):
    out = []
    if h.dump is None:
        return out
    act = actual_records(h.dump)
    by_fid = {}
    for m, kind, rid in act:
        f = FID.search(m)
        if f is None:
            if kind == 'skip' and m.startswith('decl-skip') or any(a in m for a in allow):
                continue
            if kind == 'skip' and ('Unmet requirement' in m or m == 'Skipped'):
                continue
            out.append(V('phantom-record', '{} recorded on {} that no user code raised: {!r}'.format(kind, rid, m[:200])))
            continue
        by_fid.setdefault(f.group(1), []).append((kind, rid))
    for oid, kind, owners, point, op in expected_records(h):
        got = by_fid.pop(oid, [])
        if not got:
            out.append(V('lost-' + kind, '{} F{} ({} at {}) is recorded nowhere'.format(kind, oid, op, point)))
        elif len(got) > 1:
            out.append(V('duplicate-record', 'F{} ({} at {}) is recorded {} times: {}'.format(oid, op, point, len(got), got)))
        else:
            k, rid = got[0]
            if k != kind:
                out.append(V('wrong-kind', 'F{} ({} at {}) is a {} but was recorded as {}'.format(oid, op, point, kind, k)))
            if rid not in owners:
                out.append(V('wrong-owner', 'F{} ({} at {}) belongs to {} but was charged to {}'.format(oid, op, point, sorted(map(str, owners)), rid)))
    for oid, got in by_fid.items():
        out.append(V('phantom-record', 'F{} was recorded {} although it had been handled by user code'.format(oid, got)))
    passed = {e[1] for e in h.ev if e[0] == 'passed'}
    for _, e in h.faults:
        if e[2] in ('handled', 'nested_handled', 'swallowed') and e[1] not in passed:
            out.append(V('not-swallowed', 'F{} ({} at {}) was raised within a context swallowing exceptions, but left it'.format(e[1], e[2], e[5])))
    out.extend(derived(h.dump))
    return dedup(out)


def derived(dump):
    out = []
    for r in dump['results']:
        e, f, s, i = bool(r['errors']), bool(r['failures']), bool(r['skips']), r['interrupted']
        want = {'error?': e, 'failure?': f, 'skip?': s, 'just_failure?': f and not e,
                'success?': r['started'] and not (e or f or s or i), 'success_s?': not (e or f or i) and (s or r['started'])}
        for k, v in want.items():
            if bool(r[k]) != bool(v):
                out.append(V('outcome-mismatch', 'test {}: {} is {} but errors={} failures={} skips={} interrupted={} started={}'.format(
                    r['id'], k, r[k], r['errors'], r['failures'], r['skips'], i, r['started'])))
    return out


# ------------------------------------------------------------------------------------------------ S17
def oracle_s17(h):
    out = []
    code, esc = h.out.exit_code, h.out.escaped
    zero = esc is None and code == 0
    if esc is None and not isinstance(code, int):
        # (killed: by a signal whose original handler had been restored; the status is the system's then)
        if not (h.exits()) and not any(e[0] == 'killed' for e in h.ev):
            out.append(V('exit-not-int', 'exit status is {!r}'.format(code)))
    bad = [e for _, e in h.faults if e[4] in ('error', 'failure')]
    if zero and bad:
        out.append(V('zero-despite-error', 'exit status 0 although {} F{} was raised at {}'.format(bad[0][4], bad[0][1], bad[0][5])))
    if zero and h.interrupts():
        e = h.ev[h.interrupts()[0]]
        out.append(V('zero-despite-interrupt', 'exit status 0 although the run was interrupted at {}'.format(e[5])))
    if h.dump is not None and zero:
        r = h.dump['results']
        if not r:
            out.append(V('zero-nothing-run', 'exit status 0 but no test has a result'))
        for x in r:
            if not x['success_s?'] or (not x['started'] and not x['skips']):
                out.append(V('zero-despite-unrun', 'exit status 0 although test {} did not run and succeed'.format(x['id'])))
                break
    if h.dump is not None and (esc is None and code in (0, None)) and h.exits() and not zero:
        if len(h.dump['results']) == 0 or any(not x['success_s?'] for x in h.dump['results']):
            out.append(V('zero-despite-exit', 'exit status {!r} (success) after an exit request in mid-run left tests unrun or failing'.format(code)))
    harmless = not bad and not h.interrupts() and not h.exits() and not [
        e for _, e in h.faults if e[4] == 'skip' and e[6] is None]
    if harmless and not zero and not (h.out.outcome):
        # nothing went wrong
        if not h.out.rt.scn.get('expect_nonzero'):
            out.append(V('nonzero-without-cause', 'exit status {!r} / {!r} although nothing went wrong'.format(code, esc)))
    return dedup(out)


# ------------------------------------------------------------------------------------------------ S18
def oracle_s18(h, ids=None):
    out = []
    d = h.dump
    if d is None or not [e for e in h.ev if e[0] == 'hook' and e[1] == 'session_start']:
        return out
    res = d['results']
    seen = [r['id'] for r in res]
    if len(set(seen)) != len(seen):
        out.append(V('duplicate-id', 'two results share an id: {}'.format(seen)))
    started_session = any(e[0] == 'hook' and e[1] == 'after_session_start' for e in h.ev) and not [
        e for _, e in h.faults if e[5].split('/')[0] in ('h:before_session_start', 'h:session_start', 'h:after_session_start', 'h:tests_loaded')
        and e[4] is not None]
    if started_session and d['collected'] != len(res) and not h.interrupts() and not h.exits():
        out.append(V('unaccounted', '{} tests collected but {} results'.format(d['collected'], len(res))))
    idx = [r['index'] for r in res]
    ran = [r['started'] for r in res]
    # avoided tests (declared skips / unmet requirements) are accounted in place without starting
    acc = [bool(r['started'] or r['skips']) for r in res]
    if False in acc and True in acc[acc.index(False):]:
        out.append(V('not-prefix', 'a test that did not run precedes one that ran: {}'.format(list(zip(seen, acc)))))
    order = [r['id'] for r in res if r['started']]
    exec_order = [t for t in h.exec_order if t in set(order)]
    if exec_order != [t for t in order if t in set(exec_order)]:
        out.append(V('wrong-order', 'tests executed in order {} but collected in order {}'.format(exec_order, order)))
    for r in res:
        body = [e for e in h.ev if e[0] == 'in' and e[1].split(':')[0] == 't' and e[3] == r['id']]
        if len(body) > 1:
            out.append(V('executed-twice', 'test {} was executed {} times'.format(r['id'], len(body))))
        if body and r['not_run?']:
            out.append(V('ran-but-not-run', 'test {} ran but is reported as not run'.format(r['id'])))
    # sequential ids in collection order
    nums = [int(x) for x in seen if x.isdigit()]
    if nums != sorted(nums):
        out.append(V('wrong-order', 'results are not in collection order: {}'.format(seen)))
    t = d['totals']
    want = {
        'results': len(res), 'started': sum(r['started'] for r in res),
        'successful': sum(1 for r in res if r['started'] and r['finished'] and not (r['errors'] or r['failures'] or r['skips'] or r['interrupted'])),
        'errors': sum(1 for r in res + [d['global']] if r['errors']),
        'failures': sum(1 for r in res + [d['global']] if r['failures'] and not r['errors']),
        'skipped': sum(1 for r in res + [d['global']] if r['skips']),
        'not_run': sum(1 for r in res if not r['started'] and not r['errors'] and not r['failures']),
    }
    for k, v in want.items():
        if t[k] != v:
            out.append(V('totals', 'total {} is {} but individual results give {}'.format(k, t[k], v)))
    # stopping
    unrun = [r for r in res if not r['started'] and not r['skips']]
    stop_x = '-x' in h.out.rt.scn['argv']
    fatal = [(i, e) for i, e in h.faults if e[3] in ('fatal', 'fatalfail') and e[2] in ('raise', 'handled') and e[6] is not None]
    cause = bool(h.interrupts() or h.exits() or fatal)
    for i, e in fatal:
        owner = e[8] if e[5].startswith('c:') and e[8] else e[6]
        if owner != e[6]:
            continue
        later = [x for x in h.ev[i:] if x[0] == 'hook' and x[1] == 'test_start' and x[2] != e[6]]
        if later and e[5].split(':')[0] not in ('y', 'ft', 'c', 'h'):
            out.append(V('ran-after-fatal', 'test {} started after the fatal error F{} in test {}'.format(later[0][2], e[1], e[6])))
    if stop_x:
        bad_idx = [k for k, r in enumerate(res) if r['errors'] or r['failures']]
        if bad_idx:
            cause = True
            k = bad_idx[0]
            # charged while the test was running (body, before/after, fixture set-up) => certainly known when it ended
            known = [(i, e) for i, e in h.faults if e[6] == res[k]['id'] and e[4] in ('error', 'failure') and e[5].split(':')[0] in ('t', 'b', 'a', 'f')
                     and not any(x[0] == 'hook' and x[1] == 'test_end' and x[2] == e[6] for x in h.ev[:i])]
            later = [r for r in res[k + 1:] if r['started']]
            if known and later:
                out.append(V('ran-after-stop', 'test {} ran after test {} had failed under stop-on-error'.format(later[0]['id'], res[k]['id'])))
        # any error recorded anywhere before the end of a test stops the run after that test
        recorded = [i for i, e in enumerate(h.ev) if e[0] == 'hook' and e[1] == 'error_added']
        if recorded:
            end = [i for i, e in enumerate(h.ev) if i > recorded[0] and e[0] == 'hook' and e[1] == 'test_end']
            later = [e for e in h.ev[end[0]:] if e[0] == 'hook' and e[1] == 'test_start'] if end else []
            if later:
                out.append(V('ran-after-stop', 'test {} started although {} had been recorded before test {} ended under stop-on-error'.format(
                    later[0][2], h.ev[recorded[0]][4][0], h.ev[end[0]][2])))
    sess_err = [e for _, e in h.faults if e[6] is None and e[4] in ('error', 'failure', 'skip')]
    if started_session and unrun and not cause and not sess_err:
        out.append(V('left-out', 'tests {} were never run although nothing stopped the run'.format([r['id'] for r in unrun])))
    for i in h.interrupts()[:1]:
        tid = h.ev[i][6]
        later = [x for x in h.ev[i:] if x[0] == 'hook' and x[1] == 'test_start' and x[2] != tid]
        body = [x for x in h.ev[i:] if x[0] == 'in' and x[1].split(':')[0] in ('t', 'b') and x[3] != tid]
        if later or body:
            out.append(V('ran-after-interrupt', 'test {} started after the interruption at {}'.format((later or body)[0][2], h.ev[i][5])))
    return dedup(out)


# ------------------------------------------------------------------------------------------------ S15
OUTCOME = ('test_success', 'test_failure', 'test_error', 'test_skip')


def oracle_s15(h):
    out = []
    hooks = [(i, e) for i, e in enumerate(h.ev) if e[0] == 'hook']
    names = [e[1] for _, e in hooks]
    pos = lambda n: [i for i, e in hooks if e[1] == n]
    ss, se = pos('session_start'), pos('session_end')
    start_ok = bool(ss) and not [e for _, e in h.faults if e[5].split('/')[0] == 'h:session_start' and e[4] is not None]
    if len(ss) > 1:
        out.append(V('session-start-twice', 'session_start was notified {} times'.format(len(ss))))
    if start_ok and len(se) != 1:
        out.append(V('session-end-count', 'session_start succeeded but session_end was notified {} times'.format(len(se))))
    if not ss and se:
        out.append(V('session-end-unpaired', 'session_end without session_start'))
    intr = h.interrupts() + h.exits()
    only = h.interrupts()
    if len(intr) == 1 and only and h.ev[only[0]][5].split(':')[0] in ('t', 'b', 'a', 'f') and h.ev[only[0]][6] is not None:
        # the code of a test is interrupted, once in the run
        i0, tid = only[0], h.ev[only[0]][6]
        n = [e[2] for i, e in hooks if e[1] == 'test_interrupt']
        if n != [tid]:
            out.append(V('test-interrupt', '{} was interrupted in {}, test_interrupt was notified for {}'.format(tid, h.ev[i0][5], n)))
        n = pos('session_interrupt')
        if len(n) != 1 or se and n[0] > se[0]:
            out.append(V('session-interrupt', 'the session was interrupted in {}, session_interrupt was notified {} times{}'.format(
                h.ev[i0][5], len(n), ' (after session_end)' if n and se and n[0] > se[0] else '')))
    if not intr and (pos('test_interrupt') or pos('session_interrupt')):
        out.append(V('interrupt-announced', 'an interruption was announced and there was none'))
    cur = None
    outcome = {}
    for i, e in hooks:
        n, tid = e[1], e[2]
        if n == 'test_start':
            if cur is not None:
                out.append(V('test-overlap', 'test_start of {} before test_end of {}'.format(tid, cur)))
            cur = tid
            if not ss or (se and i > se[0]):
                out.append(V('test-outside-session', 'test_start of {} outside the session'.format(tid)))
            if not e[5] or tid is None:
                out.append(V('context-missing', 'test_start without accessible test/session'))
        elif n == 'test_end':
            if cur is None or cur != tid:
                out.append(V('test-end-unpaired', 'test_end of {} while {} was running'.format(tid, cur)))
            else:
                if len(outcome.get(tid, ())) != 1 and not [x for x in intr if x < i]:
                    out.append(V('outcome-count', 'test {} got outcome notifications {} between start and end'.format(tid, outcome.get(tid, []))))
            cur = None
        elif n in OUTCOME:
            outcome.setdefault(tid, []).append(n)
            if cur != tid:
                out.append(V('outcome-outside', '{} of {} outside its start and end'.format(n, tid)))
            ne, nf, ns = e[4][0][:3] if isinstance(e[4][0], tuple) else e[4][:3]
            want = 'test_error' if ne else 'test_failure' if nf else 'test_skip' if ns else 'test_success'
            if len(e[4]) > 3 and e[4][3] is True and not (ne or nf or ns):
                want = 'test_error'
            if n != want:
                out.append(V('outcome-wrong', 'test {} announced as {} although it had {} errors, {} failures, {} skips'.format(tid, n, ne, nf, ns)))
    if cur is not None:
        out.append(V('test-end-missing', 'test_end of {} was never notified'.format(cur)))
    for n in ('test_start', 'test_end'):
        seen = [e[2] for _, e in hooks if e[1] == n]
        if len(set(seen)) != len(seen):
            out.append(V('notified-twice', '{} notified twice for one test: {}'.format(n, seen)))
    for e in h.ev:
        if e[0] == 'in' and e[1].split(':')[0] in ('t', 'b') and e[3] is not None:
            if not any(x[1] == 'test_start' and x[2] == e[3] for _, x in hooks):
                out.append(V('unannounced', 'code of test {} ran without test_start'.format(e[3])))
                break
    avoided = [e[2] for _, e in hooks if e[1] == 'test_avoided']
    for t in avoided:
        if any(e[2] == t and e[1] in ('test_start', 'test_end') + OUTCOME for _, e in hooks):
            out.append(V('avoided-announced', 'test {} was avoided and also announced'.format(t)))
        if any(e[0] == 'in' and e[1].split(':')[0] in ('t', 'b') and e[3] == t for e in h.ev):
            out.append(V('avoided-ran', 'test {} was avoided but its code ran'.format(t)))
    if h.dump:
        for r in h.dump['results']:
            decl = [s for s in r['skips'] if s.startswith('decl-skip') or s.startswith('Unmet')]
            if decl and r['id'] not in avoided and not intr:
                out.append(V('avoid-missing', 'test {} skipped beforehand without test_avoided'.format(r['id'])))
            if avoided.count(r['id']) > 1:
                out.append(V('avoided-twice', 'test_avoided notified twice for {}'.format(r['id'])))
    return dedup(out)


def dedup(vs):
    seen, out = set(), []
    for v in vs:
        if (v['cls'], v.get('sig')) not in seen:
            seen.add((v['cls'], v.get('sig')))
            out.append(v)
    return out


# ------------------------------------------------------------------------------------------------ S13 / S14 fixtures
VAL = re.compile(r'^Val\((\w+)#(\d+)\)$')


class Inst(object):
    """one set-up of a fixture"""

    def __init__(self, name, n, scope, begin, tid):
        self.name, self.n, self.scope, self.begin, self.tid = name, n, scope, begin, tid
        self.set = self.down = None
        self.downs = 0
        self.deps = []
        self.own = {}
        self.regs = []

    @property
    def key(self):
        return (self.name, self.n)

    def __repr__(self):
        return '{}#{}'.format(self.name, self.n)


def fixture_instances(h):
    """{(name, n): Inst} in set-up order"""
    inst = {}
    cur = []
    for i, e in enumerate(h.ev):
        if e[0] == 'fxbegin':
            x = Inst(e[1], e[2], e[3], i, e[4])
            inst[x.key] = x
            cur.append(x)
        elif e[0] == 'in' and e[1].startswith('f:') and cur and cur[-1].name == e[1][2:] and e[5] is not None:
            for a, v in e[5].items():
                m = VAL.match(v)
                if m:
                    cur[-1].deps.append((a, (m.group(1), int(m.group(2)))))
                else:
                    cur[-1].own[a] = v
        elif e[0] == 'fxset':
            inst[(e[1], e[2])].set = i
        elif e[0] == 'fxdown':
            x = inst[(e[1], e[2])]
            x.downs += 1
            if x.down is None:
                x.down = i
        elif e[0] == 'fxreg':
            inst[(e[2], e[3])].regs.append((i, e[1]))
    return inst


def params_of(x, inst):
    out = dict(x.own)
    for _, k in x.deps:
        if k in inst:
            out.update(params_of(inst[k], inst))
    return out


def deps_closure(keys, inst):
    out, stack = [], list(keys)
    while stack:
        k = stack.pop()
        if k in out:
            continue
        out.append(k)
        if k in inst:
            stack.extend(d for _, d in inst[k].deps)
    return out


FX_STALE = 'FX-DEPENDENT-OUTLIVES-RECOMPUTED'


def outlived(h, inst):
    """set-ups torn down because their parameters changed, for a test that does not itself use a fixture still depending on them, which
    is left alive (known finding FX-DEPENDENT-OUTLIVES-RECOMPUTED)"""
    stale = {}
    for x in inst.values():
        if x.down is None or x.scope == 'test':
            continue
        ev = [e for i, e in enumerate(h.ev) if i > x.down and e[0] == 'in' and e[1].split(':')[0] in ('y', 'ft')]
        tid = ev[0][3] if ev else None
        var = h.results.get(tid, {}).get('variation', {})
        mine = params_of(x, inst)
        if not any(p in var and var[p] != v for p, v in mine.items()):
            continue
        marks = [e for i, e in enumerate(h.ev) if i < x.down and e[0] == 'hook' and e[1] in ('test_start', 'before_test_cleanups', 'test_end')]
        if not marks or marks[-1][1] != 'test_start' or marks[-1][2] != tid:
            continue                # at the end of a scope, not because a running test needs it anew
        for y in inst.values():
            if x.key in [k for _, k in y.deps] and y.scope != 'test' and y.begin < x.down and (y.down is None or y.down > x.down):
                stale.setdefault(x.key, []).append(y.key)
    return stale


def oracle_s13(h):
    out = []
    inst = fixture_instances(h)
    stale = outlived(h, inst)
    intr = bool(h.interrupts() or h.exits())
    i0 = min(h.interrupts() + h.exits() + [10 ** 9])
    decl = {f['name']: f for f in _fixtures(h.out.rt.scn)}
    # body events with the module they belong to
    body = [(i, e) for i, e in enumerate(h.ev) if e[0] == 'in' and e[1].split(':')[0] in ('t', 'b', 'a', 'f') and e[3] is not None]
    tests_of = {}
    for i, e in body:
        tests_of.setdefault(e[3], []).append(i)

    def same_activation(x, tid):
        if x.scope == 'test':
            return tid == x.tid
        if x.scope == 'module':
            return h.module_of.get(tid) == h.module_of.get(x.tid)
        return True

    def is_live(x, i):
        return x.begin < i and (x.down is None or x.down > i)
    begins = {}
    for x in inst.values():
        begins.setdefault(x.name, []).append(x)
    # one live instance at a time
    for name, xs in begins.items():
        for a, b in zip(xs, xs[1:]):
            if a.set is not None and a.down is None and same_activation(a, b.tid) and b.begin < i0 and (
                    not decl[name].get('yield') or a.set is not None):
                out.append(V('set-up-twice', 'fixture {} was set up again as {} while {} was not torn down'.format(name, b, a)))
    if not intr:
        for x in inst.values():
            y = decl[x.name].get('yield')
            expect_down = (x.set is not None) if y else True
            if expect_down and x.downs != 1:
                out.append(V('teardown-lost' if x.downs == 0 else 'teardown-twice', 'teardown of {} ({} scope{}) was called {} times'.format(
                    x, x.scope, '' if x.set is not None else ', failed set-up', x.downs)))
            calls = {}
            for i, e in enumerate(h.ev):
                if e[0] == 'fxcbegin' and (e[2], e[3]) == x.key:
                    calls.setdefault(e[1], []).append(i)
            for i, oid in x.regs:
                n = len(calls.get(oid, ()))
                if n != 1:
                    out.append(V('teardown-lost' if n == 0 else 'teardown-twice', 'cleanup {} registered by fixture {} ({} scope{}) was called {} times'.format(
                        oid, x, x.scope, '' if x.set is not None else ', failed set-up', n)))
            order = [calls[oid][0] for _, oid in x.regs if calls.get(oid)]
            if order != sorted(order, reverse=True):
                out.append(V('teardown-order', 'cleanups registered by fixture {} were not called in reverse order of registration'.format(x)))
            # the fixture's own teardown is registered before its body (plain) or after it (yield)
    for x in inst.values():
        ends = ([x.down] if x.down is not None else []) + [i for i, e in enumerate(h.ev) if e[0] == 'fxcbegin' and (e[2], e[3]) == x.key]
        for d in ends:
            if d > i0:
                continue
            # dependents first
            for y in inst.values():
                if x.key in [k for _, k in y.deps] and y.begin < d:
                    unfinished = (y.down is None and y.set is not None and not intr) or (y.down is not None and y.down > d)
                    if y.set is None and y.down is None:
                        # a failed set-up of a yield fixture registers nothing by itself
                        unfinished = False
                    unfinished = unfinished or any(
                        e[0] == 'fxcbegin' and (e[2], e[3]) == y.key and i > d for i, e in enumerate(h.ev))
                    if unfinished:
                        out.append(V('torn-down-in-use', 'fixture {} was torn down while {} which depends on it was still alive'.format(x, y),
                                     sig=FX_STALE if y.key in stale.get(x.key, ()) else None))
            # used afterwards by a test
            for i, e in body:
                if e[5] and 'Val({}#{})'.format(*x.key) in e[5].values():
                    if i > d:
                        out.append(V('torn-down-in-use', 'fixture {} was torn down before {} received it'.format(x, e[1]),
                                     sig=FX_STALE if x.key in stale else None))
                    elif e[1].startswith('t:'):
                        end = [j for j, f in enumerate(h.ev) if f[0] == 'out' and f[1] == e[1] and f[2] == e[2]]
                        if end and i < d < end[0]:
                            out.append(V('torn-down-in-use', 'fixture {} was torn down while {} was running with it'.format(x, e[1])))
            # early / late
            nxt = None
            for i, e in body:
                if i > d and e[0] == 'in' and same_activation(x, e[3]) and x.scope != 'test' and e[1].startswith('t:'):
                    nxt = e[3]
                    break
            if x.scope == 'test':
                for i, e in body:
                    if i > d and e[3] == x.tid and e[1].split(':')[0] in ('t', 'b', 'a') and x.set is not None:
                        out.append(V('teardown-early', 'test-scope fixture {} was torn down before {} of its test'.format(x, e[1])))
                        break
            elif nxt is not None and x.set is not None:
                # only a change of parameters explains it: of the test during which it happened or of a later one of the activation
                ev = [e for i, e in enumerate(h.ev) if i > d and e[0] == 'in' and e[1].split(':')[0] in ('y', 'ft')]
                at = ev[0][3] if ev else nxt
                mine = params_of(x, inst)
                var = h.results.get(at, {}).get('variation', {})
                if not any(p in var and var[p] != v for p, v in mine.items()):
                    out.append(V('teardown-early', '{}-scope fixture {} was torn down before the end of its scope although its parameters {} did not change'.format(
                        x.scope, x, mine)))
            for i, e in body:
                if x.begin < i < d and not same_activation(x, e[3]):
                    out.append(V('teardown-late', '{}-scope fixture {} was torn down only after {} (test {}) of a later scope had started'.format(
                        x.scope, x, e[1], e[3])))
                    break
            for i, e in enumerate(h.ev):
                if e[0] == 'hook' and e[1] == 'session_end' and i < d:
                    out.append(V('teardown-late', '{}-scope fixture {} was torn down after session_end'.format(x.scope, x)))
                    break
    # set up again with the same parameters
    for name, xs in begins.items():
        for a, b in zip(xs, xs[1:]):
            if a.scope != 'test' and a.set is not None and a.down is not None and a.down < i0 and same_activation(a, b.tid):
                pa, pb = params_of(a, inst), params_of(b, inst)
                if pa == pb and a.down < b.begin:
                    # legitimate only if a different variation came in between or a dependency had to be set up again
                    between = [h.results.get(e[3], {}).get('variation', {}) for i, e in enumerate(h.ev)
                               if e[0] in ('in', 'hook') and len(e) > 3 and a.begin < i < b.begin for e in [e if e[0] == 'in' else ('', '', '', e[2])]]
                    if not any(p in var and var[p] != v for var in between for p, v in pa.items()) and [k for _, k in a.deps] == [k for _, k in b.deps]:
                        out.append(V('set-up-twice', '{}-scope fixture {} was set up twice ({} and {}) with the same parameters {}'.format(a.scope, name, a, b, pa)))
    return dedup(out)


def _fixtures(scn):
    from worlda import all_fixtures
    return all_fixtures(scn)


def oracle_s14(h):
    out = []
    inst = fixture_instances(h)
    stale = outlived(h, inst)
    i0 = min(h.interrupts() + h.exits() + [10 ** 9])
    decl = {f['name']: f for f in _fixtures(h.out.rt.scn)}
    alias = {}
    from worlda import iter_tests
    for _, _, t in iter_tests(h.out.rt.scn):
        alias.update(t.get('alias') or {})
    setup = []
    per_test = {}
    for m, kind, rid in actual_records(h.dump) if h.dump is not None else ():
        if kind == 'error' and FID.search(m) is None and not h.interrupts() and not h.exits():
            out.append(V('value-not-provided', 'test {} could not be given its values: {!r}'.format(rid, m[:200])))
    for i, e in enumerate(h.ev):
        if e[0] != 'in' or e[5] is None or e[1].split(':')[0] not in ('t', 'b', 'f'):
            continue
        point, tid, args = e[1], e[3], e[5]
        if tid is None or tid not in h.results:
            if point.startswith('f:') and tid is None:
                continue
            continue
        var = h.results[tid]['variation']
        keys = []
        for a, v in args.items():
            m = VAL.match(v)
            real = alias.get(a, a)
            if real in decl:
                if not m or m.group(1) != real:
                    out.append(V('wrong-value', '{} of test {} received {} as {}'.format(point, tid, v, a)))
                    continue
                keys.append((m.group(1), int(m.group(2))))
            elif a in var:
                if var[a] != v:
                    out.append(V('wrong-value', '{} of test {} received {}={} but its variation declares {}'.format(point, tid, a, v, var[a])))
            else:
                out.append(V('undeclared-value', '{} of test {} received {}={} which its variation {} does not name'.format(point, tid, a, v, var)))
        for k in deps_closure(keys, inst):
            x = inst.get(k)
            if x is None or x.set is None or x.set > i:
                out.append(V('value-not-set-up', '{} of test {} received fixture {} whose set-up did not complete'.format(point, tid, k)))
                continue
            if x.down is not None and x.down < i and x.down < i0:
                out.append(V('torn-down-value', '{} of test {} got a value from fixture {} which had been torn down'.format(point, tid, x),
                             sig=FX_STALE if x.key in stale else None))
            for p, v in x.own.items():
                if p in var and var[p] != v:
                    out.append(V('wrong-value', '{} of test {} uses fixture {} made with {}={} but its variation declares {}'.format(point, tid, x, p, v, var[p])))
        if point[0] != 'f' or True:
            reach = per_test.setdefault(tid, {})
            if point[0] == 'f':
                continue
            for k in deps_closure(keys, inst):
                if reach.setdefault(k[0], k) != k:
                    out.append(V('different-instances', 'test {} sees two instances {} and {} of fixture {}'.format(tid, reach[k[0]], k, k[0]),
                                 sig=FX_STALE if (reach[k[0]] in stale or k in stale) else None))
    return dedup(out)
