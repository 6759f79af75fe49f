"""Scenario generator for parallel runs."""
import copy

import gen_a
from gen_a import pick
from worlda import iter_tests, all_fixtures

PROFILE = dict(fixtures=(0, 2), tests=(2, 7), max_tests=8, files=[1, 1, 2], p_class=0.15, p_dep=0.4, p_usefx=0.35, p_param=0.25, p_skipped=0.08,
               p_req=0.03, p_repeat=0.04, p_stop=0.0, p_autouse=0.05, scopes=['test'])


def gen(rng, **p):
    prof = dict(PROFILE)
    prof.update(p.get('suite', {}))
    scn = gen_a.gen_suite(rng, prof)
    scn['workers'] = rng.choice(p.get('workers', [1, 2, 2, 2, 3, 3]))
    scn['gap'] = rng.choice([15, 60, 60, 250])
    scn['sticky'] = rng.choice([0.6, 0.9, 0.95])
    scn['boot'] = {str(i + 1): rng.choice(p.get('boots', [0.1, 0.1, 0.4, 1.5, 4.0])) for i in range(scn['workers'])}
    if rng.random() < 0.3:
        scn['slownet'] = 1
    scn['opts'] = dict(p.get('opts', {}))
    o = gen_a.Ops(rng, scn)
    bodies = ['t:' + t['name'] for _, _, t in iter_tests(scn)]
    for _ in range(rng.randint(*p.get('sleeps', (0, 4)))):
        o.add(pick(rng, bodies), o.new(prefix='z', op='sleep', secs=rng.choice(p.get('sleep_secs', [0.02, 0.3, 1.1, 2.5, 7.0]))))
    return scn, o, bodies


def add_faults(rng, scn, o, n, kinds=('raise',) * 6 + ('skip',) * 2 + ('add',) * 2, errs=None, heads=('t', 'b', 'a', 'f', 'y', 'fs', 'fe', 'c')):
    from worlda import points
    for _ in range(n):
        pts = [x for x in points(scn) if x.split(':')[0] in heads]
        body = [x for x in pts if x.startswith('t:')]
        pt = pick(rng, body if rng.random() < 0.6 else pts)
        op = gen_a.gen_fault(rng, o, dict(errs=errs or gen_a.ERR, fault_kinds=list(kinds)), pt)
        if op is not None:
            op.pop('visit', None)          # a worker may be the first or the fifth to come by: the same every time
            o.add(pt, op)


def shrink(scn):
    for key in ('plans', 'place', 'tails', 'popen_fail', 'bootfail', 'reverse'):
        v = scn.get(key)
        if v:
            for i in range(len(v)):
                c = copy.deepcopy(scn)
                del c[key][i]
                yield c
    for key in ('net', 'slownet'):
        if scn.get(key):
            c = copy.deepcopy(scn)
            del c[key]
            yield c
    if scn['workers'] > 1:
        c = copy.deepcopy(scn)
        c['workers'] -= 1
        c['boot'].pop(str(scn['workers']), None)
        names = {'w%d' % (i + 1) for i in range(c['workers'])} | {'p'}
        if all(p['node'] in names for p in c.get('plans', ())) and all(x[0] <= c['workers'] for x in c.get('place', ())):
            yield c
    for c in gen_a.shrink(scn):
        ntests = sum(1 for _ in iter_tests(c))
        if ntests and not c.get('place') and not any(f.get('tail') for f in c['files']):
            yield c
        elif ntests == sum(1 for _ in iter_tests(scn)):
            yield c
    for k, v in list((scn.get('boot') or {}).items()):
        if v != 0.1:
            c = copy.deepcopy(scn)
            c['boot'][k] = 0.1
            yield c
    for i, p in enumerate(scn.get('plans', ())):
        if p['at'] > 1:
            for at in (p['at'] // 2, p['at'] - 1):
                c = copy.deepcopy(scn)
                c['plans'][i]['at'] = at
                yield c
