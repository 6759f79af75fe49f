"""World A: one process, one slash_run (or several in a row) inside a virtual thread, scripted user code and faults."""
import io
import os
import signal
import sys

import core
import simenv
import vrt

CLEAN_HOOKS = ['before_session_start', 'session_start', 'after_session_start', 'tests_loaded', 'test_start', 'test_end',
               'before_test_cleanups', 'test_success', 'test_error', 'test_failure', 'test_skip', 'test_interrupt',
               'session_interrupt', 'error_added', 'session_end', 'after_session_end', 'before_session_cleanup',
               'result_summary', 'app_quit', 'configure', 'log_file_closed', 'warning_added', 'interruption_added', 'test_avoided',
               'exception_caught_before_debugger', 'exception_caught_after_debugger']


# ------------------------------------------------------------------------------------------------ suite source
def _argstr(args):
    return ', '.join(args)


def fixture_src(f):
    out = []
    deps = list(f.get('deps', ()))
    params = f.get('params') or {}
    kw = []
    if f['scope'] != 'test':
        kw.append('scope={!r}'.format(f['scope']))
    if f.get('autouse'):
        kw.append('autouse=True')
    out.append('@slash.{}{}'.format('yield_fixture' if f.get('yield') else 'fixture', '({})'.format(', '.join(kw)) if kw else ''))
    if f.get('uses'):
        out.append('@slash.use_fixtures({!r})'.format(f['uses']))
    for p, values in params.items():
        out.append('@slash.parametrize({!r}, {!r})'.format(p, values))
    if f.get('req'):
        out.append('@slash.requires(lambda: vrt.req({!r}))'.format(f['name']))
    names = ['this'] + deps + list(params)
    out.append('def {}({}):'.format(f['name'], _argstr(names)))
    kws = ''.join(', {0}={0}'.format(n) for n in deps + list(params))
    if f.get('yield'):
        out.append('    v = vrt.yfx({!r}, this, {!r}{})'.format(f['name'], f['scope'], kws))
        out.append('    yield v')
        out.append('    vrt.fxdown(v, this)')
    else:
        out.append('    return vrt.fx({!r}, this, {!r}{})'.format(f['name'], f['scope'], kws))
    return '\n'.join(out) + '\n\n'


def test_src(t, indent='', method=False):
    out = []
    params = t.get('params') or {}
    for p, values in params.items():
        out.append('@slash.parametrize({!r}, {!r})'.format(p, values))
    tnames = []
    for ns, values in t.get('tparams') or ():
        out.append('@slash.parametrize({!r}, {!r})'.format(tuple(ns), [tuple(v) for v in values]))
        tnames.extend(ns)
    if t.get('uses'):
        out.append('@slash.use_fixtures({!r})'.format(t['uses']))
    if t.get('skipped'):
        out.append('@slash.skipped({!r})'.format(t['skipped']))
    if t.get('req'):
        out.append('@slash.requires(lambda: vrt.req({!r}))'.format(t['name']))
    if t.get('repeat', 1) > 1:
        out.append('@slash.repeat({})'.format(t['repeat']))
    if t.get('tag'):
        out.append('@slash.tag({!r})'.format(t['tag']))
    names = list(t.get('args', ())) + list(params) + tnames + sorted(t.get('alias') or ())
    sig = list(t.get('args', ())) + list(params) + tnames + ['{}: slash.use({!r})'.format(k, v) for k, v in sorted((t.get('alias') or {}).items())]
    out.append('def {}({}):'.format(t['name'], _argstr((['self'] if method else []) + sig)))
    out.append('    vrt.at({!r}{})'.format('t:' + t['name'], ''.join(', {0}={0}'.format(n) for n in names)))
    if t.get('assertstmt'):
        out.append('    assert 1 == 2')
    return ''.join(indent + line + '\n' for line in out) + '\n'


def file_src(f):
    out = ['import slash\nimport vrt\n\nvrt.at({!r})\n\n'.format('m:' + f['name'])]
    for fx in f.get('fixtures', ()):
        out.append(fixture_src(fx))
    for t in f.get('tests', ()):
        if t.get('kind') == 'class':
            base = 'slash.Test'
            chain = list(t.get('bases') or ()) + [t]
            for c in chain:
                out.append('class {}({}):\n'.format(c['name'], base))
                for key, params in (('before', 'bparams'), ('after', 'aparams')):
                    if not c.get(key):
                        continue
                    names = list(c.get('before_args', ())) if key == 'before' else []
                    for p, values in (c.get(params) or {}).items():
                        out.append('    @slash.parametrize({!r}, {!r})\n'.format(p, values))
                        names.append(p)
                    out.append('    def {}({}):\n'.format(key, _argstr(['self'] + names)))
                    if len(chain) > 1:
                        out.append('        super({}, self).{}()\n'.format(c['name'], key))
                    out.append('        vrt.at({!r}{})\n\n'.format(key[0] + ':' + c['name'], ''.join(', {0}={0}'.format(n) for n in names)))
                if c is not t:
                    out.append('    pass\n\n')
                base = c['name']
            for m in t['methods']:
                out.append(test_src(m, '    ', True))
        else:
            out.append(test_src(t))
    for line in f.get('tail', ()):
        out.append(line + '\n')
    return ''.join(out)


def write_suite(scn, root):
    os.makedirs(os.path.join(root, 'suite'), exist_ok=True)
    conf = scn.get('conf_fixtures') or ()
    if conf:
        with open(os.path.join(root, 'suite', 'slashconf.py'), 'w') as f:
            f.write('import slash\nimport vrt\n\nvrt.at("m:slashconf")\n\n' + ''.join(fixture_src(x) for x in conf))
    paths = []
    for x in scn['files']:
        p = os.path.join('suite', x['name'])
        with open(os.path.join(root, p), 'w') as f:
            f.write(file_src(x))
        paths.append(p)
    return paths


def iter_tests(scn):
    for f in scn['files']:
        for t in f['tests']:
            if t.get('kind') == 'class':
                for m in t['methods']:
                    yield f, t, m
            else:
                yield f, None, t


def points(scn):
    """static user-code points of a scenario"""
    out = []
    for f in scn['files']:
        for t in f['tests']:
            if t.get('kind') == 'class':
                for c in list(t.get('bases') or ()) + [t]:
                    if c.get('before'):
                        out.append('b:' + c['name'])
                    if c.get('after'):
                        out.append('a:' + c['name'])
                out.extend('t:' + m['name'] for m in t['methods'])
            else:
                out.append('t:' + t['name'])
    for fx in all_fixtures(scn):
        out.append('f:' + fx['name'])
        out.append('y:' + fx['name'])
    for h in scn.get('hooks', ()):
        out.append('h:' + h)
    for n in range(scn.get('phases', 0)):
        out.append('x:%d' % n)
    for ops in list(scn.get('ops', {}).values()):
        for op in ops:
            if op['op'] == 'cleanup':
                out.append('c:' + op['id'])
            elif op['op'] == 'fxcleanup':
                out.append('ft:' + op['id'])
            elif op['op'] == 'fstart':
                out.append('fs:' + op['id'])
            elif op['op'] == 'fend':
                out.append('fe:' + op['id'])
            elif op['op'] == 'within':
                out.append('w:' + op['id'])
    return out


def all_fixtures(scn):
    out = list(scn.get('conf_fixtures') or ())
    for f in scn['files']:
        out.extend(f.get('fixtures') or ())
    return out


# ------------------------------------------------------------------------------------------------ execution
class NodeA(simenv.Node):
    def default_action(self, signum):
        SIM = simenv.SIM
        SIM.log('killed', signum)
        self.alive = False
        self.killed_by = signum
        raise core.SimExit()

    def die(self, signum):
        self.default_action(signum)


def register_observers(rt, scn, token='vsim'):
    import gossip
    import slash

    def obs(name):
        def handler(**kw):
            tid, rid = rt.cur()
            r = slash.ctx.context.result
            extra = None
            if r is not None:
                extra = (len(r.get_errors()), len(r.get_failures()), len(r.get_skips()), r.is_interrupted(), r.is_started(), r.is_finished())
            if 'reason' in kw:
                extra = (extra, safe(str, kw['reason']))
            if 'error' in kw:
                res = kw['result']
                extra = (kw['error'].message if isinstance(kw['error'].message, (str, type(None))) else safe(str, kw['error'].message), 'G' if res.is_global_result() else vrt.short_id(res.test_metadata.id))
            sess = slash.ctx.context.session is not None
            rt.log('hook', name, tid, rid, extra, sess)
        handler.__name__ = 'obs_' + name
        return handler
    for name in CLEAN_HOOKS:
        gossip.register(obs(name), 'slash.' + name, token=token)

    def user(full):
        name = full.split('/')[0]

        def handler(**_):
            rt.at('h:' + full)
        handler.__name__ = 'user_' + full.replace('/', '_')
        gossip.register(handler, 'slash.' + name, token=token)
    for full in scn.get('hooks', ()):
        user(full)
    if scn.get('custom_skip'):
        def reg():
            slash.register_skip_exception(sys.modules['vrt'].CustomSkip)
        gossip.register(reg, 'slash.before_session_start', token=token)


def safe(f, x):
    try:
        return f(x)
    except Exception as e:      # objects that cannot be shown
        return '<{} {}>'.format(type(x).__name__, type(e).__name__)


def dump_result(r):
    return {
        'errors': [safe(lambda e: str(e.message), e) for e in r.get_errors()],
        'failures': [safe(lambda e: str(e.message), e) for e in r.get_failures()],
        'skips': [safe(str, x) for x in r.get_skips()],
        'fatal': r.has_fatal_errors(),
        'started': r.is_started(), 'finished': r.is_finished(), 'interrupted': r.is_interrupted(),
        'error?': r.is_error(), 'failure?': r.is_failure(), 'just_failure?': r.is_just_failure(), 'skip?': r.is_skip(),
        'success?': r.is_success(), 'success_s?': r.is_success(allow_skips=True), 'not_run?': r.is_not_run(),
        'success_finished?': r.is_success_finished(), 'run_and_skip?': r.is_run_and_skip(),
        'details': {str(k): safe(repr, v) for k, v in r.details.all().items()},
    }


def dump_session(app):
    try:
        return _dump_session(app)
    except Exception as e:
        import traceback
        raise core.Unreadable(''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]) from e


def _dump_session(app):
    s = app.session
    if s is None:
        return None
    out = {'results': []}
    for r in s.results.iter_test_results():
        d = dump_result(r)
        m = r.test_metadata
        d['id'] = vrt.short_id(m.id)
        d['address'] = m.address
        d['index'] = m.test_index0
        d['variation'] = {str(k).split('.')[-1].split(':')[-1]: repr(v) for k, v in sorted(m.variation.values.items())} if getattr(m, 'variation', None) is not None else {}
        d['function'] = m.function_name if hasattr(m, 'function_name') else None
        out['results'].append(d)
    out['global'] = dump_result(s.results.global_result)
    R = s.results
    out['totals'] = {'results': R.get_num_results(), 'started': R.get_num_started(), 'successful': R.get_num_successful(),
                     'errors': R.get_num_errors(), 'failures': R.get_num_failures(), 'skipped': R.get_num_skipped(),
                     'skipped_run': R.get_num_skipped(include_not_run=False), 'not_run': R.get_num_not_run(),
                     'success': R.is_success(), 'success_s': R.is_success(allow_skips=True), 'interrupted': R.is_interrupted(),
                     'fatal': R.has_fatal_errors()}
    out['complete'] = s.is_complete()
    out['internal_errors'] = s.has_internal_errors()
    out['warnings'] = [str(w) for w in s.warnings]
    out['collected'] = s.get_total_num_tests()
    return out


def run_once(rt, scn, argv, stream, resume=False, rerun=False, app_box=None, lines=None):
    """one slash_run; returns (app or None, exit code or None, escaped exception)"""
    from slash.frontend.slash_run import slash_run

    class Args(object):
        pass
    args = Args()
    args.argv = argv

    def cb(app):
        if app_box is not None:
            app_box.append(app)
    from slash import app as app_module
    orig = app_module.Application.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        if app_box is not None:
            app_box.append(self)
    app_module.Application.__init__ = init
    esc = None
    app = None
    if lines is not None:
        lines.start()
    try:
        app = slash_run(args, report_stream=stream, resume=resume, rerun=rerun)
    except core.SimExit:
        raise
    except BaseException as e:
        esc = e
    finally:
        if lines is not None:
            lines.stop()
        app_module.Application.__init__ = orig
    return app, (app.exit_code if app is not None else None), esc


class Outcome(object):
    pass


def boot(chooser, sticky=0.9, max_steps=200000):
    sim = core.Sim(chooser, max_steps=max_steps)
    sim.sticky = sticky
    simenv.install(sim)
    sys.modules['vrt'] = vrt
    node = NodeA('main', 4242)
    simenv.NODES_BY_PID[4242] = node
    return sim, node


def drive(sim, node, main):
    t = node.main_task = sim.spawn('main', node, main)
    sim.run(lambda: t.state == 'done')
    if t.exc is not None and not isinstance(t.exc, core.SimExit):
        raise core.HarnessError('main task died: {!r}'.format(t.exc)) from t.exc
    return t


def session_run(sim, rt, scn, argv, stream, out, **kw):
    """one slash_run inside a virtual thread; fills `out`"""
    box = []
    out.sim, out.rt = sim, rt
    out.exit_code = out.escaped = out.dump = out.app = None
    out.box = box
    out.stream = stream
    app, code, esc = run_once(rt, scn, argv, stream, app_box=box, **kw)
    sim.log('returned', code if isinstance(code, (int, type(None))) else repr(code), type(esc).__name__ if esc is not None else None)
    out.app = app or (box[0] if box else None)
    out.exit_code, out.escaped = code, esc
    if out.app is not None:
        out.dump = dump_session(out.app)
    return out


def execute(scn, chooser, root, around=None, stream=None, after=None, max_steps=200000):
    """run the scenario in this (throw-away) process; returns an Outcome"""
    os.chdir(root)
    paths = write_suite(scn, root)
    sim, node = boot(chooser, scn.get('sticky', 0.9), max_steps)
    rt = vrt.RT = vrt.Runtime(sim, scn)
    out = Outcome()
    out.sim, out.rt, out.node = sim, rt, node
    out.stream = stream if stream is not None else io.StringIO()

    def main():
        register_observers(rt, scn)
        argv = list(scn.get('argv', ())) + (paths if not scn.get('nopaths') else [])
        if around is not None:
            around('before', out)
        session_run(sim, rt, scn, argv, out.stream, out)
        if around is not None:
            around('after', out)
    out.exit_code = out.escaped = out.dump = out.app = None
    out.box = []
    t = drive(sim, node, main)
    out.main_exc = t.exc
    out.outcome = sim.outcome
    return out
