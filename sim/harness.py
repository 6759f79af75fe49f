"""Seeded search over simulated runs: worker pool, fork per run, minimisation, replay files, evidence."""
import errno
import gc
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = dict(time=time.time, monotonic=time.monotonic, sleep=time.sleep, kill=os.kill, getpid=os.getpid)


def run_seed(seed, prop, index):
    return int(hashlib.sha256('{}:{}:{}'.format(seed, prop, index).encode()).hexdigest()[:15], 16)


ADDRESS = re.compile(r' at 0x[0-9a-f]+')


def digest(obj):
    return hashlib.sha256(ADDRESS.sub('', repr(obj)).encode('utf-8', 'backslashreplace')).hexdigest()[:20]


# ------------------------------------------------------------------------------------------------ one run in a child
def child_run(prop, scn, seed, forced, root, timeout):
    """fork; run the scenario; returns dict report. Keys: status ok|harness|hang|crash, violations, digest, stats"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get('VSIM_DEBUG'):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            os.environ['HOME'] = os.path.join(root, 'home')
            os.environ['TMPDIR'] = os.path.join(root, 'tmp')
            os.mkdir(os.environ['HOME'])
            os.mkdir(os.environ['TMPDIR'])
            chooser = core.Chooser(seed, forced)
            try:
                rep = prop.run(scn, chooser, root)
                rep['status'] = 'ok'
            except BaseException as e:
                unreadable = next((x for x in (e, e.__cause__) if isinstance(x, core.Unreadable)), None)
                rep = {'status': 'ok', 'violations': [{'cls': 'unreadable', 'msg': 'the records of the session cannot be read: ' + str(unreadable)}],
                       'digest': digest(repr(unreadable.__cause__)), 'history_tail': [],
                       'stats': {'faults': {}, 'probes': {}, 'simtime': 0, 'steps': 0, 'sched': 0, 'hist': 0, 'nontrivial': True}
                       } if unreadable is not None else {'status': 'harness', 'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:],
                       'violations': [], 'digest': None, 'stats': {}}
            rep['trace'] = chooser.trace[:20000]
            data = pickle.dumps(rep)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = REAL['monotonic']() + timeout
    status = None
    while True:
        left = deadline - REAL['monotonic']()
        if left <= 0:
            status = 'hang'
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        REAL['kill'](-pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        REAL['kill'](pid, signal.SIGKILL)
    except OSError:
        pass
    while True:
        try:
            os.waitpid(pid, 0)
            break
        except InterruptedError:
            continue
        except ChildProcessError:
            break
    if status is None:
        try:
            return pickle.loads(b''.join(chunks))
        except Exception:
            status = 'crash'
    return {'status': status, 'violations': [], 'digest': None, 'stats': {}, 'trace': []}


def run_scenario(prop, scn, seed, forced, root):
    rep = child_run(prop, scn, seed, forced, root, prop.run_timeout)
    if rep['status'] == 'hang':
        # confirm: real time spent without the run ending, twice, with a longer limit the second time
        rep2 = child_run(prop, scn, seed, forced, root, prop.run_timeout * 2)
        if rep2['status'] == 'hang':
            rep2['violations'] = [{'cls': 'hang', 'msg': 'the run does not end (busy loop or real wait): no progress within {} s'.format(
                prop.run_timeout * 2)}]
            rep2['status'] = 'ok'
            rep2['digest'] = 'hang'
        return rep2
    return rep


# ------------------------------------------------------------------------------------------------ worker processes
def _worker(prop, seed, indices, root, out_fd, deadline, recheck):
    def send(obj):
        data = pickle.dumps(obj)
        data = struct.pack('>I', len(data)) + data
        view = memoryview(data)
        while view:
            n = os.write(out_fd, view)
            view = view[n:]
    for i in indices:
        if REAL['monotonic']() > deadline:
            break
        s = run_seed(seed, prop.id, i)
        try:
            scn = prop.gen(random.Random(s), i)
        except Exception:
            send({'index': i, 'status': 'harness', 'error': traceback.format_exc(), 'violations': [], 'digest': None, 'stats': {}})
            continue
        rep = run_scenario(prop, scn, s, None, root)
        rep['index'] = i
        rep['scn_digest'] = digest(json.dumps(scn, sort_keys=True))
        if recheck and i % recheck == 0 and rep['status'] == 'ok':
            rep2 = run_scenario(prop, scn, s, None, root)
            rep['rechecked'] = (rep2['digest'] == rep['digest'] and rep2.get('trace') == rep.get('trace'))
        if not rep['violations']:
            rep.pop('trace', None)
        send(rep)
    os._exit(0)


def search(prop, seed, runs, workers, wall, scratch, recheck=50, on_report=None, start=0):
    """runs the batch; yields nothing, returns list of reports (without traces unless violating)"""
    deadline = REAL['monotonic']() + wall
    procs = {}
    gc.collect()
    gc.freeze()
    gc.disable()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                _worker(prop, seed, range(start + k, start + runs, workers), os.path.join(scratch, 'w%d' % k), w, deadline, recheck)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(w)
        procs[r] = [pid, b'']
    reports = []
    stop = False
    grace = deadline + prop.run_timeout * 3 + 10
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        if REAL['monotonic']() > grace:
            stop = True
        for fd in ready:
            b = os.read(fd, 1 << 18)
            if not b:
                os.close(fd)
                os.waitpid(procs[fd][0], 0)
                del procs[fd]
                continue
            buf = procs[fd][1] + b
            while len(buf) >= 4:
                n = struct.unpack('>I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                rep = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                reports.append(rep)
                if on_report is not None and on_report(rep):
                    stop = True
            procs[fd][1] = buf
        if stop:
            for fd, (pid, _) in list(procs.items()):
                try:
                    REAL['kill'](pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                os.close(fd)
            procs.clear()
            break
    return reports


# ------------------------------------------------------------------------------------------------ minimisation
def same(rep, key):
    return rep['status'] == 'ok' and any(vkey(v) == key for v in rep['violations'])


def vkey(v):
    return (v['cls'], v.get('sig'))


def minimise(prop, scn, seed, trace, key, root, budget):
    """structural shrink of the scenario, then of the decision trace; returns (scn, forced trace, report)"""
    end = REAL['monotonic']() + budget
    forced = list(trace)
    best = run_scenario(prop, scn, seed, forced, root)
    if not same(best, key):
        return scn, None, None
    tried = 0
    progress = True
    while progress and REAL['monotonic']() < end:
        progress = False
        for cand in prop.shrink(scn):
            if REAL['monotonic']() > end:
                break
            tried += 1
            for f in ([], forced):
                rep = run_scenario(prop, cand, seed, f, root)
                if same(rep, key):
                    scn, best, forced = cand, rep, list(rep['trace'])
                    progress = True
                    break
                if not forced:
                    break
            if progress:
                break
    # shorten / simplify the schedule: every decision 0 means "keep going, no fault"
    cut = list(forced)
    while cut and cut[-1] == 0:
        cut.pop()
    if cut != forced:
        rep = run_scenario(prop, scn, seed, cut, root)
        if same(rep, key):
            forced, best = cut, rep
    step = max(1, len(forced) // 2)
    while step >= 1 and REAL['monotonic']() < end:
        i = 0
        while i < len(forced) and REAL['monotonic']() < end:
            if any(forced[i:i + step]):
                cand = forced[:i] + [0] * len(forced[i:i + step]) + forced[i + step:]
                while cand and cand[-1] == 0:
                    cand.pop()
                rep = run_scenario(prop, scn, seed, cand, root)
                if same(rep, key):
                    forced, best = cand, rep
                    continue_at = i
                    i = continue_at
            i += step
        if step == 1:
            break
        step = max(1, step // 2) if step > 1 else 0
    return scn, forced, best


# ------------------------------------------------------------------------------------------------ known findings
def load_known(prop_id):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop_id:
                    out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if v.get('sig') and v['sig'] == k['sig']:
            return k
    return None


# ------------------------------------------------------------------------------------------------ the check
def run_check(prop, tier, seed, scratch, workers=None):
    t0 = REAL['monotonic']()
    workers = workers or int(os.environ.get('VSIM_WORKERS', '8'))
    runs, wall = prop.budget(tier)
    if os.environ.get('VSIM_RUNS'):
        runs = int(os.environ['VSIM_RUNS'])
    if os.environ.get('VSIM_WALL'):
        wall = float(os.environ['VSIM_WALL'])
    known = load_known(prop.id)
    viol = []
    seen_known = {}

    def on_report(rep):
        for v in rep['violations']:
            k = is_known(v, known)
            if k is not None:
                seen_known[k['sig']] = k
            else:
                viol.append((rep['index'], v, rep))
        return bool(viol) and not os.environ.get('VSIM_ALL')
    print('check {} tier={} seed={} runs={} wall={}s workers={}'.format(prop.id, tier, seed, runs, wall, workers), flush=True)
    reports = search(prop, seed, runs, workers, wall, scratch, on_report=on_report)
    if viol and not os.environ.get('VSIM_ALL'):
        # the first violation ends the search; when it cannot be reproduced the search is taken up again
        i, v, rep = viol[0]
        again = run_scenario(prop, prop.gen(random.Random(run_seed(seed, prop.id, i)), i), run_seed(seed, prop.id, i), rep['trace'], os.path.join(scratch, 'm'))
        if not same(again, vkey(v)):
            print('run {} ({}) does not reproduce from its trace: the search goes on'.format(i, v['cls']), flush=True)
            reports = search(prop, seed, runs, workers, wall, scratch, on_report=lambda r: on_report(r) and len(viol) >= 12)
    for k in known:
        if k.get('scenario') is not None:
            rep = run_scenario(prop, k['scenario'], 1, k.get('choices', []), os.path.join(scratch, 'k'))
            for v in rep['violations']:
                if v['cls'] in k['cls']:
                    seen_known[k['sig']] = k
                else:
                    print('replaying known finding {}: {}: {}'.format(k['sig'], v['cls'], v['msg']))
                    viol.append((-1 - known.index(k), v, rep))
    for k in seen_known.values():
        print('KNOWN-FINDING: property={} {}'.format(prop.id, k['what']), flush=True)
    rc = 0
    failing = None
    unreproduced = 0
    done_cls = set()
    for index, v, rep in sorted(viol, key=lambda x: x[0])[:40]:
        if v['cls'] in done_cls:
            continue
        done_cls.add(v['cls'])
        s = run_seed(seed, prop.id, index)
        scn = prop.gen(random.Random(s), index) if index >= 0 else known[-1 - index]['scenario']
        print('seed {} (run {}): {}: {}'.format(s, index, v['cls'], v['msg']), flush=True)
        root = os.path.join(scratch, 'm')
        rep2 = run_scenario(prop, scn, s, rep['trace'], root)
        if not same(rep2, vkey(v)):
            rep2 = run_scenario(prop, scn, s, None, root)
        if not same(rep2, vkey(v)):
            done_cls.discard(v['cls'])
            unreproduced += 1
            print('NOT REPRODUCED (not counted): run {} {}'.format(index, v['cls']), flush=True)
            continue
        mscn, forced, best = minimise(prop, scn, s, rep2['trace'], vkey(v), root, prop.minimise_budget)
        if best is None:
            mscn, forced, best = scn, rep2['trace'], rep2
        vv = [x for x in best['violations'] if vkey(x) == vkey(v)][0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        print('minimised: {}'.format(vv['msg']))
        for what, scn_, choices, rep_ in (('minimised', mscn, forced, best), ('original', scn, rep2['trace'], rep2)):
            path = os.path.join(VERIF, 'replays', '{}-{}.json'.format(prop.id, digest((v['cls'], json.dumps(scn_, sort_keys=True), choices))[:10]))
            msg = [x for x in rep_['violations'] if vkey(x) == vkey(v)][0]
            with open(path, 'w') as f:
                json.dump({'property': prop.id, 'seed': s, 'run_index': index, 'verif_seed': seed, 'cls': v['cls'], 'msg': msg['msg'], 'sig': msg.get('sig'),
                           'scenario': scn_, 'choices': choices, 'history': rep_.get('history_tail'),
                           'fault_trace': rep_['stats'].get('faults')}, f, indent=1)
            env = dict(os.environ)
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'check.py'), prop.id, '--replay', path], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            repro = p.returncode == 1
            print('replay of the {} trace in a fresh process: {}'.format(what, 'reproduced' if repro else 'NOT reproduced'))
            if repro:
                break
            print(p.stdout.decode(errors='replace')[-2000:])
            os.unlink(path)
        if not repro:
            done_cls.discard(v['cls'])
            unreproduced += 1
            continue
        print('VIOLATION property={} replay={}'.format(prop.id, path), flush=True)
        failing = path
        rc = 1
        if not os.environ.get('VSIM_ALL'):
            break
    harness = [r for r in reports if r['status'] != 'ok']
    if harness:
        print('harness problems in {} of {} runs; first: run {} {}\n{}'.format(
            len(harness), len(reports), harness[0].get('index'), harness[0]['status'], harness[0].get('error', '')), flush=True)
    wall_s = REAL['monotonic']() - t0
    write_evidence(prop, tier, seed, reports, wall_s, rc, seen_known, unreproduced)
    ok = len(reports) - len(harness)
    if rc == 0 and (ok == 0 or len(harness) > max(2, 0.02 * len(reports))):
        print('ERROR: too many runs could not be decided')
        return 2
    print('{} runs ({} decided) in {:.1f} s, {} violation(s)'.format(len(reports), ok, wall_s, 1 if rc else 0))
    return rc


def write_evidence(prop, tier, seed, reports, wall_s, rc, known, unreproduced):
    ok = [r for r in reports if r['status'] == 'ok']
    faults, probes = {}, {}
    simtime = steps = switches = 0
    scheds, hists, nontriv = set(), set(), set()
    for r in ok:
        st = r['stats']
        for k, n in st.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + n
        for k, n in st.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + n
        simtime += st.get('simtime', 0)
        steps += st.get('steps', 0)
        scheds.add(st.get('sched'))
        hists.add(r['digest'])
        if st.get('nontrivial'):
            nontriv.add(r['digest'])
    re = [r['rechecked'] for r in ok if 'rechecked' in r]
    samples = []
    for r in ok[:400]:
        if r['stats'].get('nontrivial') and len(samples) < 3:
            s = run_seed(seed, prop.id, r['index'])
            samples.append({'run': r['index'], 'seed': s, 'scenario': prop.gen(random.Random(s), r['index']),
                            'faults_fired': r['stats'].get('faults'), 'steps': r['stats'].get('steps'),
                            'history_length': r['stats'].get('hist'), 'history_digest': r['digest']})
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall_s, 2),
        'violations': 1 if rc == 1 else 0,
        'coverage': {
            'evaluations': len(ok), 'distinct_nontrivial': len(nontriv), 'rule': prop.rule,
            'samples': samples,
            'runs_per_hour': int(len(ok) / max(wall_s, 1e-9) * 3600),
            'seeds_per_hour': int(len({r['index'] for r in ok}) / max(wall_s, 1e-9) * 3600),
            'simulated_seconds': round(simtime, 3), 'scheduler_steps': steps,
            'faults_fired': dict(sorted(faults.items())), 'probes': dict(sorted(probes.items())),
            'distinct_schedules': len(scheds), 'distinct_histories': len(hists),
            'distinct_measure': 'schedules: hash of the sequence of scheduled virtual threads; histories: hash of the recorded event log and final results',
            'undecided_runs': len(reports) - len(ok),
            'determinism_rechecks': len(re), 'determinism_mismatches': len([x for x in re if not x]),
            'unreproduced_reports': unreproduced,
            'real_components': prop.real, 'stub_components': prop.stub,
            'known_findings_seen': sorted(known),
        },
        'assumptions': prop.assumptions,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop.id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def selftest(props, scratch):
    """a few runs of every property, twice each: same digest, same decisions"""
    bad = 0
    for pid in props.ids():
        prop = props.get(pid)
        prop.warmup(scratch)
        n = 0
        for i in range(4):
            s = run_seed(7, pid, i)
            scn = prop.gen(random.Random(s), i)
            a = run_scenario(prop, scn, s, None, os.path.join(scratch, 's'))
            b = run_scenario(prop, scn, s, None, os.path.join(scratch, 's'))
            c = run_scenario(prop, scn, s, a.get('trace'), os.path.join(scratch, 's'))
            if a['status'] != 'ok' or (a['digest'], a['trace']) != (b['digest'], b['trace']) or (a['digest'], a['trace']) != (c['digest'], c['trace']):
                bad += 1
                print('{} run {}: {} {}'.format(pid, i, a['status'], a.get('error', '')))
            n += 1
        print('{}: {} runs'.format(pid, n), flush=True)
    return 1 if bad else 0


def run_replay(prop, path, scratch):
    with open(path) as f:
        d = json.load(f)
    rep = run_scenario(prop, d['scenario'], d.get('seed', 0), d['choices'], os.path.join(scratch, 'r'))
    if rep['status'] != 'ok':
        print('replay could not be run: {} {}'.format(rep['status'], rep.get('error')))
        return 2
    hit = [v for v in rep['violations'] if v['cls'] == d['cls']]
    for h in rep.get('history_tail') or ():
        print('  ', h)
    for v in rep['violations']:
        print('{}: {}'.format(v['cls'], v['msg']))
    if hit:
        print('VIOLATION property={} replay={}'.format(prop.id, path))
        return 1
    print('not reproduced')
    return 0


class Prop(object):
    id = None
    run_timeout = 20
    minimise_budget = 25
    quick = (4000, 40)
    thorough = (200000, 700)
    rule = ''
    real = []
    stub = []
    assumptions = []

    def budget(self, tier):
        return self.thorough if tier == 'thorough' else self.quick

    def gen(self, rng, index):
        raise NotImplementedError

    def run(self, scn, chooser, root):
        raise NotImplementedError

    def shrink(self, scn):
        return ()

    def warmup(self, scratch):
        pass
