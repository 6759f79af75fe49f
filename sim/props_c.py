"""Properties of parallel runs (World B)."""
import re
from collections import Counter

import core
import gen_a
import gen_b
import harness
import nodes
import worldb
import worlda
from gen_a import pick
from harness import Prop, digest
def V(cls, msg, sig=None):
    v = {"cls": cls, "msg": msg}
    if sig is not None:
        v["sig"] = sig
    return v


REAL_B = ['slash.parallel.* , slash.frontend.main / slash_run in the parent and in every worker, slash.core, runner, loader, gossip, logbook, dessert: '
          'real code, one copy of every module per simulated process',
          'xmlrpc.client / xmlrpc.server / http / socketserver: real code over the simulated sockets', 'pickle: real']
STUB_B = ['process start/death/signals (subprocess.Popen, os.kill, os.setsid), threads, locks, clock: simulated',
          'TCP sockets: in-memory, with simulated delays, refusals and resets', 'user code: generated, interprets a scripted fault plan']


# ------------------------------------------------------------------------------------------------ views of a run
def key_of(r):
    return (re.sub(r'^.*?suite/', 'suite/', r['address'] or ''), tuple(sorted(r['variation'].items())))


class View(object):
    def __init__(self, w):
        self.w, self.out, self.scn = w, w.out, w.scn
        self.hist = w.sim.history
        self.dump = w.out.dump
        self.parent = self.dump['results'] if self.dump else []
        self.workers = {n: (d['results'] if d else []) for n, d in w.worker_dumps.items()}
        self.by_key = {}
        for r in self.parent:
            self.by_key.setdefault(key_of(r), []).append(r)

    def collected(self):
        """multiset of keys collected by the parent"""
        return Counter(self.out.collected)

    def ev(self, name, *kinds):
        for i, e in enumerate(self.hist):
            if e[0] == name and e[1] in kinds:
                yield i, e

    def wnames(self):
        return [n for n in self.w.world.nodes if n != 'p']

    def starts(self):
        """Counter of the test bodies entered anywhere"""
        c = Counter()
        for n in self.wnames():
            for _, e in self.ev(n, 'in'):
                if e[2].startswith('t:'):
                    c[e[2]] += 1
        return c

    def dead(self):
        return {e[1] for e in self.hist if e[0] == 'killed'}


def brief(r):
    return {k: r[k] for k in ('errors', 'failures', 'skips', 'interrupted')}


ID_ADDR = re.compile(r' at 0x[0-9a-f]+')


def outcome(r):
    return {'errors': [ID_ADDR.sub('', x) for x in r['errors']], 'failures': [ID_ADDR.sub('', x) for x in r['failures']],
            'skips': [ID_ADDR.sub('', x) for x in r['skips']], 'interrupted': r['interrupted'], 'started': r['started'], 'fatal': r['fatal']}


def ended(v):
    out = []
    w = v.w
    if v.out.outcome is not None:
        return [V('never-ends', 'the parallel run does not end: {} at {:.0f} s'.format(v.out.outcome, w.sim.now - core.EPOCH), v.out.outcome)]
    if v.out.escaped is not None:
        out.append(V('escaped', 'an exception left slash_run: {!r}'.format(v.out.escaped)[:300], type(v.out.escaped).__name__))
    return out


def left_and_hung(v):
    """a worker hung after it had said goodbye: nobody watches it any more, and the parent waits for its end"""
    frozen = {e[0] for n in v.wnames() for _, e in v.ev(n, 'inject') if e[2] == 'freeze'}
    return any(True for n in frozen for _ in v.ev(n, 'goodbye'))


def one_each(v, but=(), may_give_up=False):
    """the parent's results hold exactly one entry per collected test"""
    out = []
    got = Counter(key_of(r) for r in v.parent)
    want = v.collected()
    gave_up = timed_out(v)
    if gave_up and v.out.exit_code == 0:
        out.append(V('timeout-success', 'the parent timed out and the run reports success'))
    if gave_up and not may_give_up:
        out.append(V('gave-up', 'the parent gave up although no worker was disturbed: {}'.format(
            [line for line in v.out.stream.getvalue().splitlines() if 'terminating' in line][:2])))
    for k in sorted(set(want) | set(got)):
        if got[k] != want[k] and not ((k in but or gave_up) and got[k] < want[k]):
            out.append(V('result-count', 'the parent has {} results for {}, collected {}'.format(got[k], k, want[k]), 'missing' if got[k] < want[k] else 'extra'))
    if len({r['id'] for r in v.parent}) != len(v.parent):
        out.append(V('result-ids', 'result ids are not distinct'))
    return out


def timed_out(v):
    """the parent gave up: a test without a result stays without one, and the run is a failed one"""
    return 'terminating' in v.out.stream.getvalue()


def not_twice(v):
    out = []
    total = Counter()
    for k, n in v.collected().items():
        total[k] = n
    for n, rs in v.workers.items():
        for r in rs:
            total[key_of(r)] -= 1
    for k, n in total.items():
        if n < 0:
            out.append(V('executed-twice', '{} was given to workers {} times too often'.format(k, -n)))
    bound = Counter()
    for (address, _), n in v.collected().items():
        bound['t:' + re.findall(r'test_\w+', address)[-1]] += n
    for k, n in v.starts().items():
        if n > bound[k]:
            out.append(V('executed-twice', 'the body of {} was executed {} times, collected {}'.format(k, n, bound[k])))
    return out


def agree(v, names=None, keys=('errors', 'failures', 'skips', 'interrupted', 'started', 'fatal')):
    """every result a live worker holds is the one the parent holds for that test"""
    out = []
    pool = {k: [outcome(r) for r in rs] for k, rs in v.by_key.items()}
    for n, rs in sorted(v.workers.items()):
        if names is not None and n not in names:
            continue
        for r in rs:
            o = outcome(r)
            cands = pool.get(key_of(r), [])
            hit = [c for c in cands if all(c[k] == o[k] for k in keys)]
            if hit:
                cands.remove(hit[0])
            else:
                what = sorted(k for k in keys if not any(c[k] == o[k] for c in cands)) if cands else ['missing']
                out.append(V('result-differs', 'the parent holds {} for {} which ended as {} on {}'.format(
                    [{k: c[k] for k in what} for c in cands] if cands else 'nothing', key_of(r), {k: o[k] for k in what if k in o}, n), tuple(what)))
    return out


def all_run(v, but=()):
    out = []
    for r in v.parent:
        if r['not_run?'] and not r['skips'] and key_of(r) not in but:
            out.append(V('not-run', '{} was not run'.format(key_of(r))))
    return out


class PropB(Prop):
    real, stub = REAL_B, STUB_B
    run_timeout = 40
    quick = (1200, 50)
    thorough = (100000, 800)
    minimise_budget = 40

    def warmup(self, scratch):
        nodes.make_sets(3)

    def shrink(self, scn):
        return gen_b.shrink(scn)

    def nontrivial(self, v):
        return len(v.wnames()) >= 2

    def run(self, scn, chooser, root):
        w = worldb.WorldB(scn, chooser, root)
        out = w.execute()
        v = View(w)
        violations = self.judge(v)
        return self.report(v, violations)

    def report(self, v, violations, extra=None):
        sim, out = v.w.sim, v.out
        hist = sim.history
        crashes = [n.crash for n in v.w.world.nodes.values() if getattr(n, 'crash', None)]
        tail = [repr(x)[:300] for x in hist[-400:]] + ['crash: ' + c for c in crashes] + ([out.traceback] if getattr(out, 'traceback', None) else [])
        for n in v.w.world.nodes.values():
            tail += ['{} thread error: {}'.format(n.name, x) for x in n.thread_errors]
        return {'violations': violations, 'digest': digest((hist, out.dump, out.exit_code, extra)), 'history_tail': tail,
                'stats': {'faults': dict(sim.fault_counts), 'probes': dict(sim.probes, rpc=v.w.net.next_port and len(v.w.parent.sockets)),
                          'simtime': sim.now - core.EPOCH, 'steps': sim.steps, 'sched': sim.sched_hash, 'hist': len(hist),
                          'nontrivial': self.nontrivial(v)}}


class P01(PropB):
    id = 'P01'
    rule = 'a run counts when at least two workers took part; distinct = distinct digest of the complete event history and final results'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, sleep_secs=[0.02, 0.3, 1.1, 7.0, 30.0], suite=dict(p_stop=0.15))
        gen_b.add_faults(rng, scn, o, rng.randint(0, 3), kinds=('raise',) * 4 + ('skip',) * 2 + ('fatal',))
        return scn

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        out += one_each(v) + not_twice(v)
        for n, rs in v.workers.items():
            for r in rs:
                if r['started'] and not any(c['started'] for c in v.by_key.get(key_of(r), ())):
                    out.append(V('ran-but-not-run', '{} ran on {} but is reported as not run'.format(key_of(r), n)))
        if not stop_reason(v):
            out += all_run(v)
        return out


def stop_reason(v):
    """was some result received that stops the hand-out of tests?"""
    fatal = {e[2] for n in v.wnames() for _, e in v.ev(n, 'fault') if e[4] in ('fatal', 'fatalfail')}
    if fatal:
        return True
    if '-x' in v.scn['argv']:
        return any(r['errors'] or r['failures'] for rs in list(v.workers.values()) + [v.parent] for r in rs)
    return False


class P02(PropB):
    id = 'P02'
    rule = 'a run counts when at least one error, failure, skip or detail was recorded in a worker'
    EXC = gen_a.ERR + ['LocalClass', 'Unpicklable', 'LocalClass', 'Unpicklable', 'Weird', 'Slotted', 'Control', 'fatal']

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, sleeps=(0, 2))
        gen_b.add_faults(rng, scn, o, rng.randint(1, 5), kinds=('raise',) * 6 + ('skip',) * 2 + ('add',) * 4 + ('handled', 'reraise'), errs=self.EXC)
        for _ in range(rng.randint(0, 3)):
            o.add(pick(rng, bodies), o.new(prefix='d', op=pick(rng, ['detail', 'detail', 'extra']), value=pick(rng, [1, 'text', [1, 2], 'lambda', 'Val', None])))
        if rng.random() < 0.2:
            o.add(pick(rng, bodies), o.new(prefix='s', op='add', what='skipobj'))
        if rng.random() < 0.2:
            o.add(pick(rng, bodies), o.new(prefix='l', op='locals', value=pick(rng, ['lock', 'weird', 'lambda'])))
        return scn

    def nontrivial(self, v):
        return any(r['errors'] or r['failures'] or r['skips'] or r['details'] for rs in v.workers.values() for r in rs)

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        out += agree(v)
        odd = {op['id'] for ops in v.scn['ops'].values() for op in ops if op['op'] == 'detail' and op.get('value') == 'lambda'}
        pool = {k: list(rs) for k, rs in v.by_key.items()}
        for n, rs in v.workers.items():
            for r in rs:
                if any(k[1:] in odd for k in r['details']):
                    continue
                want = {k: HEX.sub('', x) for k, x in r['details'].items()}
                if not any({k: HEX.sub('', x) for k, x in c['details'].items()} == want for c in pool.get(key_of(r), ())):
                    out.append(V('details-differ', 'details of {} are {} in the parent, {} on {}'.format(
                        key_of(r), [c['details'] for c in pool.get(key_of(r), ())], want, n)))
                bad = r['errors'] or r['failures']
                if bad and any(c['success_s?'] for c in pool.get(key_of(r), ())):
                    out.append(V('failure-lost', '{} failed on {} and is successful in the parent'.format(key_of(r), n)))
        kinds = {}
        for n in v.wnames():
            for _, e in v.ev(n, 'fault'):
                kinds['F' + e[2]] = e[5]
        for r in v.parent:
            for what, bad in (('errors', 'failure'), ('failures', 'error')):
                for m in r[what]:
                    for f in re.findall(r'F[a-z]+\d+\.\d+', m):
                        if kinds.get(f) == bad:
                            out.append(V('kind-differs', '{} of {} became one of its {}'.format(f, key_of(r), what)))
        return out


HEX = re.compile(r'0x[0-9a-f]{6,}')


class P03(PropB):
    id = 'P03'
    rule = 'a run counts when at least two workers connected'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[2, 2, 3], boots=[0.1, 0.4, 1.5, 4.0, 9.0], suite=dict(p_repeat=0), sleeps=(0, 1))
        gen_b.add_faults(rng, scn, o, rng.randint(0, 2))
        w = 'w%d' % rng.randint(1, scn['workers'])
        if rng.random() < 0.25:
            scn['reverse'] = ['w%d' % (i + 1) for i in range(scn['workers']) if rng.random() < 0.6]
        r = rng.random()
        f = pick(rng, scn['files'])
        names = [t['name'] for t in f['tests']]
        if r < 0.2:
            f['tail'] = ['if vrt.node() == {!r}:'.format(w), '    del ' + pick(rng, names)]
            scn['differs'] = [w]
        elif r < 0.35:
            f['tail'] = ['if vrt.node() == {!r}:'.format(w), '    def test_more():', "        vrt.at('t:test_more')"]
            scn['differs'] = [w]
        elif r < 0.5:
            f['tail'] = ["@slash.parametrize('zz', [1, 2] if vrt.node() != {!r} else [1, 2, 3])".format(w), 'def test_99(zz):', "    vrt.at('t:test_99', zz=zz)"]
            scn['differs'] = [w]
        elif r < 0.58:
            # as many tests, but others
            f['tail'] = rng.choice([
                ['if vrt.node() == {!r}:'.format(w), '    def test_more():', "        vrt.at('t:test_more')", 'else:', '    def test_less():', "        vrt.at('t:test_less')"],
                ["@slash.parametrize('zz' if vrt.node() != {!r} else 'yy', [1, 2])".format(w), 'def test_99(**kw):', "    vrt.at('t:test_99')"],
                ['if vrt.node() == {!r}:'.format(w), '    del ' + names[0], '    def test_more():', "        vrt.at('t:test_more')"]])
            scn['differs'] = [w]
        elif r < 0.63:
            f['tail'] = ["@slash.parametrize('zz', [1, 2] if vrt.node() == 'p' else [1])", 'def test_99(zz):', "    vrt.at('t:test_99', zz=zz)"]
            scn['differs'] = ['w%d' % (i + 1) for i in range(scn['workers'])]
        return scn

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        n = v.scn['workers']
        joined = loaded = 0
        differs = set(v.scn.get('differs', ()))
        for i, e in enumerate(v.hist):
            if e[0] == 'p' and e[1] == 'connected':
                joined += 1
            elif e[0] in v.wnames() and e[1] == 'hook' and e[2] == 'tests_loaded':
                loaded += 1
            elif e[0] in v.wnames() and e[1] in ('in', 'hook') and (e[2].startswith('t:') or e[2] in ('test_start', 'test_avoided')):
                if joined < n or loaded < n:
                    out.append(V('early-start', '{} started a test when {} of {} workers had joined and {} had collected'.format(e[0], joined, n, loaded)))
                    break
                if e[0] in differs:
                    out.append(V('stranger-runs', '{} collected something else and runs a test'.format(e[0])))
                    break
        out += not_twice(v)
        out += agree(v)
        if differs:
            if v.out.exit_code == 0:
                out.append(V('mismatch-success', 'the collections differ and the run reports success'))
        else:
            out += one_each(v)
            if not stop_reason(v):
                out += all_run(v)
        return out


class P04(PropB):
    id = 'P04'
    rule = 'a run counts when at least one placement was in force'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[2, 2, 3], suite=dict(p_repeat=0.03, tests=(3, 8)), sleeps=(0, 4))
        gen_b.add_faults(rng, scn, o, rng.randint(0, 1))
        pl = []
        for _ in range(rng.randint(1, 6)):
            pl.append([rng.randint(1, scn['workers']), pick(rng, ['force', 'exclude', 'exclude']), rng.randint(0, len(bodies) - 1)])
        if rng.random() < 0.15:
            t = rng.randint(0, len(bodies) - 1)
            pl += [[i + 1, 'exclude', t] for i in range(scn['workers'])]
        if rng.random() < 0.3:
            # a worker with (next to) nothing to do
            w = rng.randint(1, scn['workers'])
            pl += [[w, 'exclude', i] for i in range(len(bodies)) if rng.random() < 0.9]
        scn['place'] = pl
        scn['place_at'] = pick(rng, ['tests_loaded', 'tests_loaded', 'before_worker_start'])
        scn['place_obj'] = int(rng.random() < 0.5)
        if rng.random() < 0.3:
            scn['reverse_all'] = 1
        return scn

    def placed(self, v):
        forced, excluded = {}, set()
        for _, e in v.ev('p', 'placed'):
            (forced.setdefault(e[4], set()).add(str(e[2])) if e[3] == 'force' else excluded.add((str(e[2]), e[4])))
        return forced, excluded

    def nontrivial(self, v):
        return any(True for _ in v.ev('p', 'placed'))

    def misplaced(self, v, order):
        forced, excluded = self.placed(v)
        out = []
        multi = {k for k, n in v.collected().items() if n > 1}
        homeless = set()
        for i, k in enumerate(order):
            ws = [str(x + 1) for x in range(v.scn['workers'])]
            f = forced.get(i)
            may = set(f) if f else {x for x in ws if (x, i) not in excluded}       # forced to several workers: any of them
            if not may:
                homeless.add(k)
                continue
            if k in multi:
                continue
            for n, rs in v.workers.items():
                if n[1:] not in may and any(key_of(r) == k for r in rs):
                    out.append(V('misplaced', '{} (number {}) ran on {}, allowed on {}'.format(k, i, n, sorted(may)), 'forced' if f else 'excluded'))
        return out, homeless, multi

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        # a number, or a test object, means the position in the order of the run (pinned by the repository's own tests)
        moved, homeless, multi = self.misplaced(v, v.out.ordered)
        out += moved + not_twice(v)
        if v.scn.get('place_obj') and v.out.collected != v.out.ordered and not moved:
            for x in self.misplaced(v, v.out.collected)[0]:
                out.append(V('misplaced-object', x['msg'], 'object-order'))
                break
        if homeless and v.out.exit_code == 0:
            out.append(V('unplaced-success', '{} can run nowhere and the run reports success'.format(sorted(homeless))))
        out += one_each(v, homeless, bool(homeless))
        if not stop_reason(v):
            out += all_run(v, homeless)
        for r in v.parent:
            if key_of(r) in homeless and key_of(r) not in multi and not r['not_run?']:
                out.append(V('homeless-run', '{} may run nowhere and is not reported as not run'.format(key_of(r))))
        return out


class P05(PropB):
    id = 'P05'
    rule = 'a run counts when some test failed'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(1, 5), suite=dict(tests=(4, 9), max_tests=10, p_stop=0.5))
        gen_b.add_faults(rng, scn, o, rng.randint(1, 3), kinds=('raise', 'raise', 'raise', 'add', 'skip', 'fatal', 'fatal'))
        if rng.random() < 0.3:
            # several records in one test
            body = pick(rng, bodies)
            for _ in range(2):
                o.add(body, o.new(prefix='d', op='add', what=pick(rng, ['skip', 'skip', 'error', 'failure'])))
        return scn

    def nontrivial(self, v):
        return any(r['errors'] or r['failures'] for r in v.parent)

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        # a worker reports the result of a test before it asks for another one, and leaves when it is told that there are no more
        stop, gone, broken = {}, None, set()
        for i, e in enumerate(v.hist):
            if e[0] == 'p' and e[1] == 'distributed':
                if gone is not None:
                    out.append(V('handed-out', 'a test was handed out after {}'.format(gone)))
                    break
            elif e[0] not in v.wnames() or e[1] not in ('hook', 'fault'):
                continue
            elif e[1] == 'fault':
                if e[5] in ('error', 'failure') and e[4] in ('fatal', 'fatalfail') and e[7] is not None:
                    broken.add((e[0], e[7]))
            elif e[2] == 'test_start' and e[0] in stop:
                out.append(V('handed-out', '{} was given a test after {}'.format(e[0], stop[e[0]])))
                break
            elif e[2] == 'test_end' and ((e[0], e[3]) in broken or '-x' in v.scn['argv'] and (e[5][0] or e[5][1])):
                stop[e[0]] = 'test {} of it ended with {} errors and {} failures{}'.format(e[3], e[5][0], e[5][1], ' (fatal)' if (e[0], e[3]) in broken else '')
            elif e[2] in ('before_session_cleanup', 'session_end') and e[0] in stop:
                gone = '{} had left: {}'.format(e[0], stop[e[0]])
        out += one_each(v) + agree(v)
        ran = Counter(key_of(r) for rs in v.workers.values() for r in rs)
        got = Counter(key_of(r) for r in v.parent if not r['not_run?'] or r['skips'])
        if ran != got:
            out.append(V('ran-differs', 'workers worked on {}, the parent reports as run {}'.format(sorted((ran - got)), sorted(got - ran))))
        if not stop_reason(v):
            out += all_run(v)
        if any(r['errors'] or r['failures'] for r in v.parent) and v.out.exit_code == 0:
            out.append(V('exit-code', 'tests failed and the exit code is 0'))
        return out


class P06(PropB):
    id = 'P06'
    rule = 'a run counts when a worker was killed while the run went on'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(1, 5), opts=dict(communication_timeout_secs=6), boots=[0.1, 0.1, 0.4, 1.5])
        gen_b.add_faults(rng, scn, o, rng.randint(0, 2))
        scn['plans'] = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            w = rng.randint(1, scn['workers'])
            if rng.random() < 0.35:
                o.add(pick(rng, bodies), o.new(prefix='q', op='die'))
            elif rng.random() < 0.6:
                scn['plans'].append({'node': 'w%d' % w, 'at': rng.randint(1, 60), 'do': 'kill'})
            else:
                scn['plans'].append({'node': 'w%d' % w, 'from': 'connected', 'at': rng.choice([1, 2, 3, 4, 6, 9]), 'do': 'kill'})
        return scn

    def nontrivial(self, v):
        return bool(v.dead())

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        dead = v.dead()
        out += not_twice(v) + one_each(v, may_give_up=bool(dead))
        out += agree(v, [n for n in v.workers if n not in dead])
        if dead:
            early = []
            for n in sorted(dead):
                if not any(True for _, e in v.ev(n, 'hook') if e[2] in ('before_session_cleanup', 'session_end')):
                    early.append(n)
            if early and v.out.exit_code == 0:
                out.append(V('death-unnoticed', '{} died and the run reports success'.format(early)))
            if len({e[2] for _, e in v.ev('p', 'connected')}) == v.scn['workers']:
                late = v.out.returned_at - max([getattr(v.w.sim, 'last_death', core.EPOCH)] + list(v.w.times)) - v.scn['opts']['communication_timeout_secs']
                if late > 9:
                    out.append(V('noticed-late', 'the run returned {:.0f} s later than the communication timeout after the last death and the last test body'.format(late)))
        elif not stop_reason(v):
            out += all_run(v)
        # what the dead workers were doing
        for n in sorted(dead):
            cur = None
            for _, e in v.ev(n, 'in', 'hook', 'fault'):
                if e[1] == 'in' and e[2].startswith('t:'):
                    cur = e[2][2:]
                elif e[1] == 'hook' and e[2] == 'test_end':
                    cur = None
            if cur is not None:
                rs = [r for r in v.parent if re.findall(r'test_\d+', r['address'])[-1] == cur]
                if not any(r['interrupted'] for r in rs):
                    out.append(V('lost-test', '{} died in {} which is reported as {}'.format(n, cur, [(brief(r), 'not run' if r['not_run?'] else 'run') for r in rs])))
        # tests never handed out
        given = {}
        ran = Counter()
        for n in v.wnames():
            for _, e in v.ev(n, 'in'):
                if e[2].startswith('t:'):
                    ran[e[2][2:]] += 1
        ok = Counter()
        for r in v.parent:
            name = re.findall(r'test_\d+', r['address'])[-1]
            if r['started'] or r['interrupted']:
                ok[name] += 1
        for name, k in ran.items():
            if ok[name] < k:
                out.append(V('ran-but-not-run', '{} ran {} times and is reported as run {} times'.format(name, k, ok[name])))
        return out


class P07(PropB):
    id = 'P07'
    rule = 'a run counts when at least one fault of the environment fired or a test took longer than a configured timeout'

    def gen(self, rng, index):
        opts = dict(communication_timeout_secs=rng.choice([3, 6, 15]), no_request_timeout=rng.choice([10, 20]), worker_connect_timeout=rng.choice([4, 10]))
        quiet = rng.random() < 0.4
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(0, 4), opts=opts, sleep_secs=[0.3, 2.5, 7.0, 45.0],
                                   boots=[0.1, 0.1, 0.4, 1.5] if quiet else [0.1, 0.4, 3.0, 15.0])
        gen_b.add_faults(rng, scn, o, rng.randint(0, 2))
        names = ['w%d' % (i + 1) for i in range(scn['workers'])]
        scn['plans'] = []
        scn['quiet'] = quiet
        if quiet:
            limit = min(opts['communication_timeout_secs'], opts['no_request_timeout'], opts['worker_connect_timeout'])
            left = limit - 2.6      # one stall may follow another: together they must be shorter than any timeout
            for _ in range(rng.randint(0, 2)):
                secs = min(rng.choice([0.5, 1.5, limit - 2.6]), left)
                left -= secs
                if secs > 0.05:
                    scn['plans'].append({'node': pick(rng, names + ['p']), 'at': rng.randint(1, 80), 'do': 'stall', 'secs': secs})
            if rng.random() < 0.3:
                scn['plans'] = scn['plans'][:1]
                scn['net'] = {'keepalive': 0.1}
                scn['netbudget'] = 1
            return scn
        if rng.random() < 0.2:
            # a worker hangs for ever, the others do not (a worker of two that hang is only asked to end)
            opts['communication_timeout_secs'] = rng.choice([3, 6])
            opts['no_request_timeout'] = 20
            scn['boot'] = {k: min(x, 0.4) for k, x in scn['boot'].items()}
            scn['opts'] = opts
            scn['plans'].append({'node': pick(rng, names), 'from': 'connected', 'at': rng.choice([1, 2, 3, 5, 8, 20]), 'do': 'freeze'})
            return scn
        for _ in range(rng.randint(0, 2)):
            scn['plans'].append({'node': pick(rng, names), 'at': rng.randint(1, 80), 'do': 'kill'})
        for _ in range(rng.randint(0, 2)):
            scn['plans'].append({'node': pick(rng, names + ['p']), 'at': rng.randint(1, 80), 'do': 'stall', 'secs': rng.choice([1.0, 5.0, 12.0, 30.0])})
        if rng.random() < 0.2:
            scn['popen_fail'] = [rng.randint(1, scn['workers'])]
        if rng.random() < 0.2:
            scn['bootfail'] = [rng.randint(1, scn['workers'])]
        if rng.random() < 0.4:
            scn['net'] = {pick(rng, ['refused', 'reset-request', 'reset-reply', 'accept']): rng.choice([0.05, 0.2]) for _ in range(rng.randint(1, 2))}
            scn['netbudget'] = rng.randint(1, 4)
        if rng.random() < 0.15:
            scn['plans'].append({'node': 'p', 'at': rng.randint(1, 80), 'do': 'jump', 'secs': rng.choice([-3600, -5, 5, 3600])})
        return scn

    def nontrivial(self, v):
        return bool(v.w.sim.fault_counts) or any(op.get('secs', 0) > 20 for ops in v.scn['ops'].values() for op in ops)

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return [] if left_and_hung(v) else out
        if not isinstance(v.out.exit_code, int):
            out.append(V('exit-code', 'the exit code is {!r}'.format(v.out.exit_code)))
        if v.out.threads_at_return:
            out.append(V('threads-left', 'the run returned and its threads {} still run'.format(v.out.threads_at_return)))
        if v.out.listening_at_return:
            out.append(V('servers-left', 'the run returned and still listens on {}'.format(v.out.listening_at_return)))
        if v.out.alive_at_return:
            out.append(V('workers-left', 'the run returned and {} still run'.format(v.out.alive_at_return)))
        o = v.scn['opts']
        last = core.EPOCH
        for t in v.w.times:
            last = max(last, t)
        bound = o['worker_connect_timeout'] * v.scn['workers'] + o['communication_timeout_secs'] + o['no_request_timeout'] + 60
        if v.out.returned_at - last > bound:
            out.append(V('late', 'the run returned {:.0f} s after the last fault and the last test body ({} s allowed)'.format(v.out.returned_at - last, bound)))
        if v.scn.get('quiet'):
            for r in v.parent:
                if r['interrupted']:
                    out.append(V('declared-dead', '{} is reported as interrupted and nothing was disturbed'.format(key_of(r))))
            if v.dump and v.dump['global']['errors']:
                out.append(V('timeout-raised', 'session errors without a disturbance: {}'.format(v.dump['global']['errors'])[:300]))
            ok = all(r['success_s?'] for r in v.parent) and v.parent
            if ok and v.out.exit_code != 0:
                out.append(V('not-successful', 'every test succeeded, nothing was disturbed, exit code {}'.format(v.out.exit_code)))
            out += one_each(v) + agree(v)
            if not stop_reason(v):
                out += all_run(v)
        else:
            out += not_twice(v)
        return out


class P08(PropB):
    id = 'P08'
    rule = 'a run counts when the parent was interrupted after it had started a worker'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(1, 5))
        gen_b.add_faults(rng, scn, o, rng.randint(0, 2))
        at = rng.choice([rng.randint(1, 40), rng.randint(1, 160)])
        do = pick(rng, ['SIGINT', 'SIGINT', 'SIGTERM'])
        scn['plans'] = [{'node': 'p', 'at': at, 'do': do}]
        if do == 'SIGINT' and rng.random() < 0.5:
            scn['plans'][0]['group'] = 1
        return scn

    def landed(self, v):
        for i, e in v.ev('p', 'inject'):
            return i
        return None

    def nontrivial(self, v):
        i = self.landed(v)
        return i is not None and bool({e[1] for e in v.hist[:i] if e[0] == 'spawn'} - {e[1] for e in v.hist[:i] if e[0] in ('exit', 'killed')})

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        i = self.landed(v)
        if i is None or 'p' in v.dead():
            return []
        # judged when the interruption finds at least one live worker
        live = {e[1] for e in v.hist[:i] if e[0] == 'spawn'} - {e[1] for e in v.hist[:i] if e[0] in ('exit', 'killed')}
        spawned = bool(live)
        if not spawned:
            return []
        if v.out.exit_code == 0:
            out.append(V('exit-code', 'the parent was interrupted and the exit code is 0'))
        if v.out.alive_at_return:
            out.append(V('workers-left', '{} still run after the interrupted parent returned'.format(v.out.alive_at_return)))
        if spawned and (v.out.threads_at_return or v.out.listening_at_return):
            out.append(V('servers-left', 'after the interrupted parent returned: threads {}, ports {}'.format(v.out.threads_at_return, v.out.listening_at_return)))
        if v.dump and spawned:
            if not v.dump['global']['interrupted']:
                out.append(V('not-reported', 'the session is not reported as interrupted'))
            for rid, was in (v.w.snapshot or {}).items():
                now = [r for r in v.parent if r['id'] == rid]
                if not now or outcome(now[0]) != outcome(was):
                    out.append(V('result-changed', 'the result of {} received before the interruption was {} and is {}'.format(
                        key_of(was), outcome(was), outcome(now[0]) if now else None)))
        return out


class P09(PropB):
    id = 'P09'
    rule = 'a run counts when at least two workers took part'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(0, 3), suite=dict(fixtures=(0, 3), p_fxparam=0.4))
        gen_b.add_faults(rng, scn, o, rng.randint(0, 4), kinds=('raise',) * 6 + ('skip',) * 2 + ('add',) * 4 + ('handled', 'reraise'), errs=gen_a.ERR + ['LocalClass', 'Unpicklable'])
        return scn

    def run(self, scn, chooser, root):
        import os
        import copy
        from props_b import forked
        sub = os.path.join(root, 'seq')
        os.makedirs(sub)

        def sequential():
            os.environ['HOME'] = sub          # the two runs have the same session id
            out = worlda.execute(copy.deepcopy(scn), core.Chooser(1, []), sub)
            return out.dump, out.exit_code
        dump, code = forked(sequential, root)
        w = worldb.WorldB(scn, chooser, root)
        w.execute()
        v = View(w)
        out = ended(v)
        if v.out.outcome is None:
            out += self.compare(v, dump, code)
        return self.report(v, out, (dump, code))

    def compare(self, v, dump, code):
        out = []
        pool = {}
        for r in dump['results']:
            pool.setdefault(key_of(r), []).append(self.norm(r))
        for r in v.parent:
            k, o = key_of(r), self.norm(r)
            c = pool.get(k, [])
            if o in c:
                c.remove(o)
            elif not c:
                out.append(V('only-parallel', '{} has a result only in the parallel run'.format(k)))
            else:
                what = sorted(x for x in o if not any(y[x] == o[x] for y in c))
                out.append(V('differs', '{} is {} in parallel and {} in sequence'.format(k, {x: o[x] for x in what}, [{x: y[x] for x in what} for y in c]), tuple(what)))
                c.pop()
        for k, c in pool.items():
            if c:
                out.append(V('only-sequential', '{} has no result in the parallel run'.format(k)))
        if code != v.out.exit_code:
            out.append(V('exit-code', 'exit code {} in parallel, {} in sequence'.format(v.out.exit_code, code)))
        return out

    def norm(self, r):
        o = outcome(r)
        for k in ('errors', 'failures', 'skips'):
            o[k] = [re.sub(r'(F[a-z]+\d+)\.\d+', r'\1', x) for x in o[k]]
        return o


class P10(PropB):
    id = 'P10'
    rule = 'a run counts when a warning was emitted or a late error was raised in a worker'

    def gen(self, rng, index):
        scn, o, bodies = gen_b.gen(rng, workers=[1, 2, 2, 3], sleeps=(0, 3), suite=dict(fixtures=(0, 3), scopes=['test', 'module', 'session'], p_usefx=0.6))
        hooks = ['session_start', 'after_session_start', 'session_end', 'before_session_cleanup', 'test_end', 'test_start', 'after_session_end']
        scn['hooks'] = sorted(rng.sample(hooks, rng.randint(0, 2)))
        for h in scn['hooks']:
            if rng.random() < 0.7:
                o.add('h:' + h, o.new(prefix='r', op='raise', exc=pick(rng, gen_a.ERR), on='worker'))
        for _ in range(rng.randint(0, 2)):
            k = o.new(prefix='k', op='cleanup', scope=pick(rng, ['module', 'session']))
            o.add(pick(rng, bodies), k)
            if rng.random() < 0.6:
                o.add('c:' + k['id'], o.new(prefix='r', op='raise', exc=pick(rng, gen_a.ERR)))
        fx = [f for f in worlda.all_fixtures(scn) if f['scope'] != 'test' and f.get('yield')]
        if fx and rng.random() < 0.4:
            o.add('y:' + pick(rng, fx)['name'], o.new(prefix='r', op='raise', exc=pick(rng, gen_a.ERR)))
        pts = bodies + ['f:' + f['name'] for f in worlda.all_fixtures(scn)] + ['h:' + h for h in scn['hooks'] if h not in ('session_end', 'after_session_end')]
        for _ in range(rng.randint(0, 4)):
            o.add(pick(rng, pts), o.new(prefix='w', op='warn', on='worker', cat=pick(rng, ['UserWarning', 'DeprecationWarning', 'log', 'local', 'object', 'logextra', 'UserWarning'])))
        return scn

    def nontrivial(self, v):
        return any(e[1] in ('warned', 'fault') for n in v.wnames() for _, e in v.ev(n, 'warned', 'fault'))

    def judge(self, v):
        out = ended(v)
        if v.out.outcome is not None:
            return out
        for n in v.wnames():
            for i, e in v.ev(n, 'fault'):
                if e[5] in ('error', 'failure') and v.out.exit_code == 0:
                    where = e[6].split(':')[0]
                    out.append(V('worker-error-lost', '{} raised in {} of {} and the run reports success'.format(e[4], e[6], n), where))
                    break
        cats = {op['id']: op['cat'] for ops in v.scn['ops'].values() for op in ops if op['op'] == 'warn'}
        want = Counter()
        for n in v.wnames():
            for _, e in v.ev(n, 'warned'):
                want[e[2]] += 1
        got = Counter(m for x in (v.dump or {}).get('warnings', ()) for m in re.findall(r'W(w\d+\.\d+)\|', x))
        for oid in sorted(set(want) | set(got)):
            cat = cats[oid.split('.')[0]]
            if cat in ('local', 'logextra'):
                if got[oid] > want[oid]:
                    out.append(V('warning-count', 'warning {} ({}) was emitted {} times and recorded {} times'.format(oid, cat, want[oid], got[oid]), cat))
            elif got[oid] != want[oid]:
                out.append(V('warning-count', 'warning {} ({}) was emitted {} times and recorded {} times'.format(oid, cat, want[oid], got[oid]), cat))
        out += one_each(v, may_give_up=True)
        if not any(e[6].startswith(('h:', 'c:')) or e[6].startswith('y:') for n in v.wnames() for _, e in v.ev(n, 'fault')):
            out += all_run(v)
            if all(r['success_s?'] for r in v.parent) and v.out.exit_code != 0:
                out.append(V('warning-harms', 'every test succeeded, the exit code is {}'.format(v.out.exit_code)))
        return out


PROPS = {c.id: c for c in (P01, P02, P03, P04, P05, P06, P07, P08, P09, P10)}
