"""Scenario generator and structural shrinker for World A."""
import copy

ERR = ['RuntimeError', 'Custom', 'OSError', 'KeyError', 'AssertionError', 'TestFailed', 'AssertionError', 'RuntimeError']
SKIP = ['SkipTest', 'CustomSkip']
LEVEL = {'test': 0, 'module': 1, 'session': 2}


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def gen_suite(rng, p):
    """p: profile dict"""
    scn = {'files': [], 'conf_fixtures': [], 'hooks': [], 'ops': {}, 'argv': [], 'reqs': {}}
    nfx = rng.randint(*p.get('fixtures', (0, 3)))
    nfiles = rng.choice(p.get('files', [1, 1, 2, 2, 3]))
    fx_by_file = {i: [] for i in range(-1, nfiles)}
    allfx = []
    for i in range(nfx):
        home = rng.choice([-1, -1] + list(range(nfiles)))
        f = {'name': 'fx%d' % i, 'scope': rng.choice(p.get('scopes', ['test', 'module', 'session'])), 'home': home}
        if rng.random() < 0.5:
            f['yield'] = 1
        visible = [g for g in allfx if (g['home'] == -1 or g['home'] == home) and LEVEL[g['scope']] >= LEVEL[f['scope']]]
        if visible and rng.random() < p.get('p_dep', 0.6):
            f['deps'] = [g['name'] for g in rng.sample(visible, rng.randint(1, min(2, len(visible))))]
        if rng.random() < p.get('p_fxparam', 0.35):
            f['params'] = {'p%d' % i: list(range(10 * i, 10 * i + rng.randint(1, 2)))}
        if rng.random() < p.get('p_autouse', 0.1):
            f['autouse'] = 1
        allfx.append(f)
        fx_by_file[home].append(f)
    scn['conf_fixtures'] = fx_by_file[-1]
    n = 0
    budget = rng.randint(*p.get('tests', (1, 5)))
    for i in range(nfiles):
        tests = []
        visible = [g['name'] for g in fx_by_file[-1] + fx_by_file[i]]
        for _ in range(rng.randint(1, 2) if i < nfiles - 1 else max(1, budget - n)):
            if rng.random() < p.get('p_class', 0.3):
                c = {'kind': 'class', 'name': 'Cls%d' % n, 'methods': []}
                if rng.random() < 0.7:
                    c['before'] = 1
                    if visible and rng.random() < 0.3:
                        c['before_args'] = [pick(rng, visible)]
                if rng.random() < 0.7:
                    c['after'] = 1
                if rng.random() < p.get('p_bases', 0):
                    gen_bases(rng, c, n)
                for _ in range(rng.randint(1, 2)):
                    c['methods'].append(gen_test(rng, p, n, visible))
                    n += 1
                tests.append(c)
            else:
                tests.append(gen_test(rng, p, n, visible))
                n += 1
            if n >= p.get('max_tests', 6):
                break
        scn['files'].append({'name': 'test_%s.py' % 'abcdef'[i], 'fixtures': fx_by_file[i], 'tests': tests})
        if n >= p.get('max_tests', 6):
            break
    for f in allfx:
        f.pop('home')
    names = {f['name'] for x in scn['files'] for f in x['fixtures']} | {f['name'] for f in scn['conf_fixtures']}
    # a file dropped by the budget may own fixtures nobody defines any more: nothing refers to them
    assert all(d in names for x in scn['files'] for f in x['fixtures'] for d in f.get('deps', ()))
    hooks = p.get('hooks', ())
    if hooks:
        k = rng.randint(0, min(p.get('max_hooks', 3), len(hooks)))
        scn['hooks'] = sorted(rng.sample(list(hooks), k))
    if rng.random() < p.get('p_stop', 0.2):
        scn['argv'].append('-x')
    scn['custom_skip'] = 1
    for opt in p.get('argv', ()):
        if rng.random() < opt[0]:
            scn['argv'].extend(opt[1])
    return scn


def gen_bases(rng, c, n):
    """a class hierarchy whose before()/after() are parametrized"""
    c['bases'] = [{'name': 'C%dB%d' % (n, k)} for k in range(rng.randint(1, 3))]
    total = 1
    for k, b in enumerate(c['bases'] + [c]):
        for key, params, letter in (('before', 'bparams', 'b'), ('after', 'aparams', 'a')):
            if b is not c and rng.random() < 0.8:
                b[key] = 1
            if b.get(key) and rng.random() < (0.6 if key == 'before' else 0.25):
                base = 10000 * (n + 1) + 1000 * k + (500 if letter == 'a' else 0)
                size = 2 if total < 4 and rng.random() < 0.6 else 1
                total *= size
                b[params] = {'%s%d_%d' % (letter, n, k): list(range(base, base + size))}


def gen_test(rng, p, n, visible):
    t = {'name': 'test_%d' % n}
    if visible and rng.random() < p.get('p_usefx', 0.6):
        t['args'] = rng.sample(visible, rng.randint(1, min(2, len(visible))))
    if rng.random() < p.get('p_param', 0.15):
        t['params'] = {'q%d' % n: [100 * n, 100 * n + 1]}
    rest = [v for v in visible if v not in t.get('args', ())]
    if rest and rng.random() < 0.12:
        t['uses'] = [pick(rng, rest)]
    if rest and rng.random() < p.get('p_alias', 0):
        t['alias'] = {'al%d' % n: pick(rng, rest)}
    if rng.random() < p.get('p_tparam', 0):
        t['tparams'] = [[['ta%d' % n, 'tb%d' % n], [[1000 * n + 1, 1000 * n + 2], [1000 * n + 3, 1000 * n + 4]][:rng.randint(1, 2)]]]
    if rng.random() < p.get('p_skipped', 0.06):
        t['skipped'] = 'decl-skip-%d' % n
    elif rng.random() < p.get('p_req', 0.04):
        t['req'] = 1
    if rng.random() < p.get('p_repeat', 0.05):
        t['repeat'] = 2
    return t


class Ops(object):
    def __init__(self, rng, scn):
        self.rng, self.scn, self.n = rng, scn, 0

    def new(self, **kw):
        self.n += 1
        kw['id'] = '%s%d' % (kw.pop('prefix'), self.n)
        return kw

    def add(self, point, op):
        ops = self.scn['ops'].setdefault(point, [])
        ops.insert(self.rng.randint(0, len(ops)), op)
        return op


def scope_of_fixture(scn, name):
    from worlda import all_fixtures
    for f in all_fixtures(scn):
        if f['name'] == name:
            return f['scope']
    return 'test'


def gen_ops(rng, scn, p):
    from worlda import points
    o = Ops(rng, scn)
    cl_scope = {}

    def base_scope(pt):
        head, _, rest = pt.partition(':')
        if head in ('t', 'b', 'a', 'fs', 'fe'):
            return 'test'
        if head == 'f':
            return scope_of_fixture(scn, rest)
        if head == 'c':
            return cl_scope[rest]
        if head == 'h':
            return {'test_start': 'test', 'before_test_cleanups': 'test'}.get(rest.split('/')[0], 'session-global')
    for _ in range(rng.randint(*p.get('cleanups', (0, 5)))):
        pts = [x for x in points(scn) if x.split(':')[0] in ('t', 'b', 'a', 'f', 'c', 'fs', 'fe')
               or x.split('/')[0] in ('h:session_start', 'h:after_session_start', 'h:test_start', 'h:before_test_cleanups')]
        pt = pick(rng, pts)
        bs = base_scope(pt)
        op = o.new(prefix='k', op='cleanup')
        if bs in LEVEL and rng.random() < 0.35:
            wider = [s for s in LEVEL if LEVEL[s] >= LEVEL[bs]]
            op['scope'] = pick(rng, wider)
        if rng.random() < p.get('p_critical', 0.3):
            op['kind'] = 'critical'
        elif rng.random() < p.get('p_success', 0.15):
            op['kind'] = 'success'
        if rng.random() < 0.6:
            op['visit'] = rng.choice([0, 0, 0, 1, 2])
        cl_scope[op['id']] = op.get('scope') or bs
        o.add(pt, op)
    for _ in range(rng.randint(*p.get('fxops', (0, 2)))):
        pts = [x for x in points(scn) if x.startswith('f:')]
        if not pts:
            break
        o.add(pick(rng, pts), o.new(prefix='x', op=pick(rng, ['fxcleanup', 'fxcleanup', 'fstart', 'fend'])))
    heads = p.get('fault_heads', ('t', 'b', 'a', 'f', 'c', 'ft', 'y', 'fs', 'fe', 'h'))
    for _ in range(rng.randint(*p.get('faults', (0, 4)))):
        pts = [x for x in points(scn) if x.split(':')[0] in heads and x.split('/')[0] not in p.get('nofault', ())]
        if not pts:
            break
        heavy = [x for x in pts if x.split(':')[0] in ('c', 'ft', 'y', 'f', 'a')]
        pt = pick(rng, heavy if heavy and rng.random() < 0.5 else pts)
        op = gen_fault(rng, o, p, pt)
        if op is not None:
            o.add(pt, op)
    for _ in range(p.get('interrupts', 0) and rng.randint(*p['interrupts'])):
        pts = [x for x in points(scn) if x.split('/')[0] not in p.get('nointr', ())]
        heavy = [x for x in pts if x.split(':')[0] in ('c', 'ft', 'y', 'f', 'h')]
        pt = pick(rng, heavy if heavy and rng.random() < 0.6 else pts)
        r = rng.random()
        if r < 0.5:
            op = o.new(prefix='i', op='raise', exc='KeyboardInterrupt')
        else:
            op = o.new(prefix='i', op='sig', sig=pick(rng, ['SIGTERM', 'SIGINT']))
        op['visit'] = rng.choice([0, 0, 0, 1, 2])
        o.add(pt, op)
    for _ in range(p.get('sysexits', 0) and rng.randint(*p['sysexits'])):
        pt = pick(rng, points(scn))
        op = o.new(prefix='e', op='raise', exc=pick(rng, ['SystemExit0', 'SystemExit', 'SystemExit3']))
        op['visit'] = rng.choice([0, 0, 1])
        o.add(pt, op)
    for _ in range(p.get('extra', 0) and rng.randint(*p['extra'])):
        pts = [x for x in points(scn) if x.split(':')[0] in p.get('extra_heads', ('t', 'b', 'a', 'f', 'c', 'ft', 'y', 'fs', 'fe', 'h')) and x != 'h:app_quit']
        op = pick(rng, p['extra_ops'])(rng, o)
        if pts:
            o.add(pick(rng, pts), op)
    fixup(scn)


def gen_fault(rng, o, p, pt):
    head = pt.split(':')[0]
    kinds = p.get('fault_kinds', ['raise'] * 6 + ['skip'] * 2 + ['add'] * 2 + ['handled', 'caught'])
    k = pick(rng, kinds)
    visit = rng.choice([None, 0, 0, 0, 1, 1, 2])
    if k == 'raise':
        op = o.new(prefix='r', op='raise', exc=pick(rng, p.get('errs', ERR)))
    elif k == 'fatal':
        op = o.new(prefix='r', op='raise', exc=pick(rng, ['fatal', 'fatalfail']))
    elif k == 'skip':
        if head not in p.get('skip_heads', ('t', 'b', 'a', 'f', 'c', 'ft', 'y', 'fs')):
            return None
        op = o.new(prefix='s', op='raise', exc=pick(rng, SKIP))
    elif k == 'add':
        if pt == 'h:app_quit':
            return None         # nothing to add it to
        what = pick(rng, p.get('adds', ['error', 'failure', 'errobj', 'exc', 'skip', 'error', 'failure']))
        if what == 'skip' and head == 'h' and not p.get('hook_skips'):
            what = 'error'
        op = o.new(prefix='d', op='add', what=what)
    elif k in ('handled', 'nested_handled', 'swallowed', 'caught', 'reraise'):
        op = o.new(prefix='g', op=k, exc=pick(rng, p.get('errs', ERR)))
    elif k == 'stopiter':
        if head in ('y', 'f'):
            return None
        op = o.new(prefix='r', op='raise', exc='StopIteration')
    else:
        raise AssertionError(k)
    if visit is not None:
        op['visit'] = visit
    return op


# ------------------------------------------------------------------------------------------------ shrinking
def shrink(scn):
    """simpler scenarios, most aggressive first"""
    for i in range(len(scn['files'])):
        if len(scn['files']) > 1:
            c = copy.deepcopy(scn)
            del c['files'][i]
            yield fixup(c)
    for pt in sorted(scn['ops']):
        c = copy.deepcopy(scn)
        del c['ops'][pt]
        yield fixup(c)
    for i, f in enumerate(scn['files']):
        for j, t in enumerate(f['tests']):
            if sum(len(x['tests']) for x in scn['files']) > 1:
                c = copy.deepcopy(scn)
                del c['files'][i]['tests'][j]
                if not c['files'][i]['tests']:
                    del c['files'][i]
                if c['files']:
                    yield fixup(c)
            if t.get('kind') == 'class':
                for k in range(len(t['methods'])):
                    if len(t['methods']) > 1:
                        c = copy.deepcopy(scn)
                        del c['files'][i]['tests'][j]['methods'][k]
                        yield fixup(c)
                for key in ('before', 'after', 'before_args', 'bases', 'bparams', 'aparams'):
                    if t.get(key):
                        c = copy.deepcopy(scn)
                        del c['files'][i]['tests'][j][key]
                        yield fixup(c)
                for k, b in enumerate(t.get('bases') or ()):
                    for key in ('before', 'after', 'bparams', 'aparams', None):
                        c = copy.deepcopy(scn)
                        if key is None:
                            del c['files'][i]['tests'][j]['bases'][k]
                        elif not b.get(key):
                            continue
                        else:
                            del c['files'][i]['tests'][j]['bases'][k][key]
                        yield fixup(c)
                if len(t['methods']) == 1:
                    c = copy.deepcopy(scn)
                    c['files'][i]['tests'][j] = t['methods'][0]
                    yield fixup(c)
    for pt in sorted(scn['ops']):
        for k in range(len(scn['ops'][pt])):
            c = copy.deepcopy(scn)
            del c['ops'][pt][k]
            if not c['ops'][pt]:
                del c['ops'][pt]
            yield fixup(c)
    for h in scn.get('hooks', ()):
        c = copy.deepcopy(scn)
        c['hooks'].remove(h)
        yield fixup(c)
    names = [f['name'] for f in scn.get('conf_fixtures', ())] + [f['name'] for x in scn['files'] for f in x['fixtures']]
    for n in names:
        c = copy.deepcopy(scn)
        c['conf_fixtures'] = [f for f in c['conf_fixtures'] if f['name'] != n]
        for x in c['files']:
            x['fixtures'] = [f for f in x['fixtures'] if f['name'] != n]
        yield fixup(c)
    for path in iter_dicts(scn):
        for key in ('params', 'deps', 'args', 'uses', 'autouse', 'skipped', 'req', 'repeat', 'yield', 'alias', 'tparams'):
            if get(scn, path).get(key):
                c = copy.deepcopy(scn)
                del get(c, path)[key]
                yield fixup(c)
        for key in ('deps', 'args'):
            v = get(scn, path).get(key)
            if v and len(v) > 1:
                for k in range(len(v)):
                    c = copy.deepcopy(scn)
                    del get(c, path)[key][k]
                    yield fixup(c)
        par = get(scn, path).get('params')
        if par:
            for k, v in par.items():
                if len(v) > 1:
                    c = copy.deepcopy(scn)
                    get(c, path)['params'][k] = v[:-1]
                    yield fixup(c)
    if scn['argv']:
        c = copy.deepcopy(scn)
        c['argv'] = []
        yield c
        for i in range(len(scn['argv'])):
            c = copy.deepcopy(scn)
            del c['argv'][i]
            yield c
    for pt in sorted(scn['ops']):
        for k, op in enumerate(scn['ops'][pt]):
            for key in ('scope', 'kind', 'visit'):
                if op.get(key) is not None:
                    c = copy.deepcopy(scn)
                    del c['ops'][pt][k][key]
                    yield fixup(c)


def iter_dicts(scn):
    for i, f in enumerate(scn.get('conf_fixtures', ())):
        yield ('conf_fixtures', i)
    for i, x in enumerate(scn['files']):
        for j, f in enumerate(x['fixtures']):
            yield ('files', i, 'fixtures', j)
        for j, t in enumerate(x['tests']):
            yield ('files', i, 'tests', j)
            if t.get('kind') == 'class':
                for k, m in enumerate(t['methods']):
                    yield ('files', i, 'tests', j, 'methods', k)


def get(scn, path):
    x = scn
    for k in path:
        x = x[k]
    return x


RAISING = ('raise', 'reraise', 'sig')


def normalise(scn):
    """removes the triggers of known findings that cannot be repaired (see known_findings.jsonl): they are replayed on their own.
    FX-TEARDOWN-REPLACES: a fixture whose set-up raised and whose own teardown raises as well
    FX-TEARDOWN-DROPS: a teardown callback of a fixture raising while other callbacks of the same fixture are pending
    FX-TEST-END-REPLACES: a skip, interruption or exit request leaving a test_end callback of a fixture after the code of the test raised"""
    if scn.get('raw'):
        return scn
    from worlda import all_fixtures
    ops = scn['ops']

    def quiet(pt):
        if pt in ops:
            ops[pt] = [o for o in ops[pt] if o['op'] not in RAISING]
            if not ops[pt]:
                del ops[pt]
    for f in all_fixtures(scn):
        setup = ops.get('f:' + f['name'], ())
        fts = ['ft:' + o['id'] for o in setup if o['op'] == 'fxcleanup']
        down = 'y:' + f['name']
        if any(o['op'] in RAISING for o in setup):
            for pt in fts + [down]:
                quiet(pt)
            continue
        order = fts + [down] if f.get('yield') else [down] + fts     # registration order; the first one is called last
        for pt in order[1:]:
            quiet(pt)
    from vrt import KIND
    if any(o['op'] in RAISING + ('skip', 'fatal') for pt in ops for o in ops[pt] if pt.split(':')[0] in ('t', 'a', 'fs')):
        for pt in [pt for pt in ops if pt.startswith('fe:')]:
            ops[pt] = [o for o in ops[pt] if o['op'] != 'sig' and KIND.get(o.get('exc')) not in ('skip', 'interrupt', 'exit')]
            if not ops[pt]:
                del ops[pt]
    return scn


def fixup(c):
    return normalise(_fixup(c))


def _fixup(c):
    """drop references to things that no longer exist"""
    from worlda import points
    conf = {f['name'] for f in c.get('conf_fixtures', ())}
    for f in c.get('conf_fixtures', ()):
        f['deps'] = [d for d in f.get('deps', ()) if d in conf]
    for x in c['files']:
        vis = conf | {f['name'] for f in x['fixtures']}
        for f in x['fixtures']:
            f['deps'] = [d for d in f.get('deps', ()) if d in vis]
        for t in x['tests']:
            for m in (t['methods'] + [t] if t.get('kind') == 'class' else [t]):
                if m.get('alias'):
                    m['alias'] = {k: v for k, v in m['alias'].items() if v in vis}
                for key in ('args', 'uses', 'before_args'):
                    if key in m:
                        m[key] = [d for d in m[key] if d in vis]
    while True:
        pts = set(points(c))
        bad = [p for p in c['ops'] if p not in pts and p.split(':')[0] != 'm']
        if not bad:
            return c
        for p in bad:
            del c['ops'][p]
