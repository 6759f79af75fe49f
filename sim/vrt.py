"""Runtime used by generated suites ("user code"): every user-code point calls `at(point)`, which interprets the operations
the scenario attaches to that point and records what happened. Loaded under the module name `vrt`."""
import signal
import sys
import os

RT = None
EXT = {}                 # further operations, by the properties that use them


class Custom(Exception):
    pass


class CustomSkip(Exception):
    """registered as an additional skip exception type"""


class Weird(Exception):
    """an exception whose str()/repr() raise"""
    def __str__(self):
        raise ValueError('no str')
    __repr__ = __str__


class NoRepr(Exception):
    """an exception with a message whose repr() raises"""
    def __repr__(self):
        raise ValueError('no repr')


class Slotted(Exception):
    __slots__ = ()

    def __setattr__(self, name, value):
        raise AttributeError('read only')


def mkexc(what, msg):
    import slash
    if what == 'RuntimeError':
        return RuntimeError(msg)
    if what == 'AssertionError':
        return AssertionError(msg)
    if what == 'TestFailed':
        return slash.exceptions.TestFailed(msg)
    if what == 'Custom':
        return Custom(msg)
    if what == 'OSError':
        return OSError(5, msg)
    if what == 'KeyError':
        return KeyError(msg)
    if what == 'StopIteration':
        return StopIteration(msg)
    if what == 'LocalClass':
        class Local(Exception):
            pass
        return Local(msg)
    if what == 'Unpicklable':
        e = Custom(msg)
        e.payload = lambda: None
        return e
    if what == 'Weird':
        return Weird(msg)
    if what == 'NoRepr':
        return NoRepr(msg)
    if what == 'Slotted':
        return Slotted(msg)
    if what == 'Control':
        return Custom(msg + ' \x00\x07\x1b[31m \ud800 <&>]]> \u2028')
    if what == 'fatal':
        return slash.exception_handling.mark_exception_fatal(RuntimeError(msg))
    if what == 'fatalfail':
        return slash.exception_handling.mark_exception_fatal(AssertionError(msg))
    if what == 'SkipTest':
        return slash.exceptions.SkipTest(msg)
    if what == 'CustomSkip':
        return CustomSkip(msg)
    if what == 'KeyboardInterrupt':
        return KeyboardInterrupt()
    if what == 'SystemExit0':
        return SystemExit(0)
    if what == 'SystemExit':
        return SystemExit()
    if what == 'SystemExit3':
        return SystemExit(3)
    raise ValueError(what)


KIND = {'RuntimeError': 'error', 'Weird': 'error', 'NoRepr': 'error', 'Slotted': 'error', 'Control': 'error', 'Custom': 'error', 'OSError': 'error', 'KeyError': 'error', 'fatal': 'error', 'LocalClass': 'error',
        'Unpicklable': 'error', 'StopIteration': 'error', 'AssertionError': 'failure', 'TestFailed': 'failure', 'fatalfail': 'failure',
        'SkipTest': 'skip', 'CustomSkip': 'skip', 'KeyboardInterrupt': 'interrupt', 'SystemExit0': 'exit', 'SystemExit': 'exit',
        'SystemExit3': 'exit'}


def short_id(tid):
    return None if tid is None else tid.rsplit('_', 1)[-1]


class Val(object):
    """value of a fixture instance"""
    def __init__(self, name, inst):
        self.name, self.inst = name, inst

    def __repr__(self):
        return 'Val({}#{})'.format(self.name, self.inst)


class Runtime(object):
    def __init__(self, sim, scenario, node=None):
        self.sim = sim
        self.scn = scenario
        self.node = node         # name of the simulated process (only with several of them)
        self.on_out = None
        self.role = None if node is None else ('parent' if node == 'p' else 'worker')
        self.ops = scenario.get('ops', {})
        self.visits = {}
        self.fx_inst = {}
        self.stack = []          # user-code points being executed
        self.saved = {}
        self.quiet = False
        self.record_logs = False
        self.times = []          # (point, visit, entered, left)

    # ------------------------------------------------------------ helpers
    def log(self, *what):
        if self.node is None:
            self.sim.log(*what)
        else:
            self.sim.log(self.node, *what)

    def cur(self):
        """(id of context.test, owner of context.result: id / 'G' / None)"""
        from slash.ctx import context
        t = context.test
        tid = short_id(t.__slash__.id) if t is not None and t.__slash__ is not None else None
        r = context.result
        if r is None:
            rid = None
        elif r.is_global_result():
            rid = 'G'
        else:
            rid = short_id(r.test_metadata.id)
        return tid, rid

    # ------------------------------------------------------------ points
    def at(self, point, this=None, args=None, scope=None):
        n = self.visits.get(point, 0)
        self.visits[point] = n + 1
        tid, rid = self.cur()
        self.log('in', point, n, tid, rid, args)
        self.stack.append((point, n, scope))
        began = self.sim.now
        try:
            for op in self.ops.get(point, ()):
                if (op.get('visit') is None or op['visit'] == n) and (op.get('on') is None or op['on'] == self.role) \
                        and (op.get('arg') is None or op['arg'] == args):
                    self.do(op, point, n, this)
        except BaseException as e:
            self.log('out', point, n, type(e).__name__)
            raise
        else:
            self.log('out', point, n, None)
        finally:
            self.stack.pop()
            self.times.append((point, n, began, self.sim.now))
            if self.on_out is not None:
                self.on_out()

    def fx(self, name, this, scope, kwargs, hold=False):
        inst = self.fx_inst.get(name, 0)
        self.fx_inst[name] = inst + 1
        self.log('fxbegin', name, inst, scope, *self.cur())
        if hold:
            this.add_cleanup(lambda: self.fxdown(name, inst, this))
        args = {k: (repr(v)) for k, v in sorted(kwargs.items())}
        self.at('f:' + name, this=this, args=args, scope=scope)
        self.log('fxset', name, inst)
        return Val(name, inst)

    def fxdown(self, name, inst, this):
        self.log('fxdown', name, inst)
        self.at('y:' + name, this=this)

    # ------------------------------------------------------------ operations
    def do(self, op, point, n, this):
        import slash
        kind = op['op']
        oid = '{}.{}'.format(op['id'], n)
        if kind == 'cleanup':
            self.add_cleanup(op, oid, point, this)
        elif kind == 'fxcleanup':
            inst = self.fx_inst.get(point[2:], 1) - 1
            self.log('fxreg', oid, point[2:], inst)

            def cb(op=op, oid=oid, name=point[2:], inst=inst):
                self.log('fxcbegin', oid, name, inst)
                try:
                    self.at('ft:' + op['id'])
                finally:
                    self.log('fxcend', oid, name, inst)
            this.add_cleanup(cb)
        elif kind in ('fstart', 'fend'):
            cbpoint = '{}:{}'.format('fs' if kind == 'fstart' else 'fe', op['id'])

            def cb2(cbpoint=cbpoint):
                self.at(cbpoint)
            (this.test_start if kind == 'fstart' else this.test_end)(cb2)
        elif kind == 'raise':
            self.fault('raise:' + op['exc'], op, oid, point, KIND[op['exc']])
            raise mkexc(op['exc'], 'F' + oid)
        elif kind == 'reraise':
            # the same exception object raised twice within the code of one test (seen by the framework both times)
            self.fault('reraise:' + op['exc'], op, oid, point, KIND[op['exc']])
            e = mkexc(op['exc'], 'F' + oid)
            try:
                with slash.exception_handling.handling_exceptions():
                    raise e
            except Exception:
                pass
            raise e
        elif kind == 'handled':
            self.fault('handled:' + op['exc'], op, oid, point, KIND[op['exc']])
            with slash.exception_handling.handling_exceptions(swallow=True):
                raise mkexc(op['exc'], 'F' + oid)
            self.log('passed', oid)
        elif kind == 'nested_handled':
            self.fault('nested_handled:' + op['exc'], op, oid, point, KIND[op['exc']])
            with slash.exception_handling.handling_exceptions(swallow=True):
                with slash.exception_handling.handling_exceptions():
                    with slash.exception_handling.handling_exceptions(context='x'):
                        raise mkexc(op['exc'], 'F' + oid)
            self.log('passed', oid)
        elif kind == 'swallowed':
            self.fault('swallowed:' + op['exc'], op, oid, point, None)
            with slash.exception_handling.get_exception_swallowing_context():
                raise mkexc(op['exc'], 'F' + oid)
            self.log('passed', oid)
        elif kind == 'caught':
            self.fault('caught:' + op['exc'], op, oid, point, None)
            try:
                raise mkexc(op['exc'], 'F' + oid)
            except Exception:
                pass
        elif kind == 'add':
            what = op['what']
            self.fault('add:' + what, op, oid, point, {'error': 'error', 'failure': 'failure', 'skip': 'skip', 'errobj': 'error',
                                                       'exc': 'error', 'logerror': 'error', 'skipobj': 'skip'}[what])
            if what == 'error':
                slash.add_error('F' + oid)
            elif what == 'failure':
                slash.add_failure('F' + oid)
            elif what == 'errobj':
                slash.add_error({'k': 'F' + oid})
            elif what == 'exc':
                try:
                    raise Custom('F' + oid)
                except Custom:
                    slash.add_error(exc_info=sys.exc_info())
            elif what == 'skip':
                slash.context.result.add_skip('F' + oid)
            elif what == 'skipobj':
                slash.context.result.add_skip(Val('F' + oid, 0))
        elif kind == 'should':
            self.fault('should', op, oid, point, 'failure')
            slash.should.be(1, 2, 'F' + oid)
        elif kind == 'sig':
            signum = getattr(signal, op['sig'])
            self.fault('signal:' + op['sig'], op, oid, point, 'interrupt' if op['sig'] in ('SIGINT', 'SIGTERM') else op['sig'])
            os.kill(os.getpid(), signum)
        elif kind == 'log':
            import logbook
            logbook.Logger('user.' + point).log(op['level'], 'L{}', oid) if False else getattr(logbook.Logger('user'), op['level'])('L' + oid + '|')
            self.log('logged', oid, op['level'], *self.cur())
        elif kind == 'warn':
            import warnings
            self.log('warned', oid, *self.cur())
            cat = op.get('cat', 'UserWarning')
            if cat == 'local':
                class LocalWarning(UserWarning):
                    pass
                warnings.warn('W{}|'.format(oid), LocalWarning)
            elif cat == 'object':
                w = UserWarning('W{}|'.format(oid))
                w.payload = lambda: None
                warnings.warn(w)
            elif cat == 'log':
                import logbook
                logbook.Logger('user').warning('W{}|', oid)
            elif cat == 'logextra':
                import logbook
                logbook.Logger('user').warning('W{}|', oid, extra={'payload': lambda: None})
            else:
                warnings.warn('W{}|'.format(oid), getattr(__import__('builtins'), cat))
        elif kind == 'sleep':
            self.sim.block(timeout=op['secs'])
        elif kind == 'detail':
            value = op.get('value', 1)
            slash.set_test_detail('D' + op['id'], (lambda: None) if value == 'lambda' else Val('d', 1) if value == 'Val' else value)
        elif kind == 'extra':
            slash.context.result.data['X' + op['id']] = (lambda: None) if op.get('value') == 'lambda' else op.get('value')
        elif kind == 'locals':
            import threading
            local = {'lock': threading.Lock(), 'weird': Weird('w'), 'lambda': lambda: None}[op['value']]
            self.fault('locals:' + op['value'], op, oid, point, 'error')
            raise Custom('F' + oid, local)
        elif kind == 'die':
            self.fault('die', op, oid, point, 'die')
            os.kill(os.getpid(), signal.SIGKILL)
        elif kind in EXT:
            EXT[kind](self, op, oid, point, this)
        else:
            raise AssertionError('unknown op ' + kind)

    def fault(self, name, op, oid, point, kind):
        self.sim.fault(name)
        tid, rid = self.cur()
        owner = None
        for p, n, _ in reversed(self.stack):
            if p.startswith('c:'):
                owner = self.saved.get(('owner', p, n))
                break
        self.log('fault', oid, op['op'], op.get('exc') or op.get('what') or op.get('sig'), kind, point, tid, rid, owner)

    def add_cleanup(self, op, oid, point, this):
        import slash
        kind = op.get('kind') or ''
        scope = op.get('scope')
        cpoint = 'c:' + op['id']
        tid, rid = self.cur()
        exp = scope or self.default_scope(point)

        def func(oid=oid):
            m = self.visits.get(cpoint, 0)
            self.saved[('owner', cpoint, m)] = rid
            self.log('cbegin', oid, kind, slash.get_current_cleanup_phase())
            try:
                self.at(cpoint, scope=exp)
            except BaseException as e:
                self.log('cend', oid, type(e).__name__)
                raise
            else:
                self.log('cend', oid, None)
        kw = {}
        if kind == 'critical':
            kw['critical'] = True
        elif kind == 'success':
            kw['success_only'] = True
        if scope:
            kw['scope'] = scope
        try:
            slash.add_cleanup(func, **kw)
        except Exception as e:
            self.log('regfail', oid, exp, kind, type(e).__name__, tid, rid)
        else:
            self.log('reg', oid, exp, kind, tid, rid, point)

    def default_scope(self, point):
        head, _, rest = point.partition(':')
        if head in ('t', 'b', 'a', 'fs', 'fe'):
            return 'test'
        if head in ('f', 'c'):
            return self.stack[-1][2]
        if head == 'h':
            name = rest.split('/')[0]
            if name in ('session_start', 'after_session_start', 'before_session_start', 'tests_loaded'):
                return 'session-global'
            if name in ('test_start', 'before_test_cleanups'):
                return 'test'
        return '?'


def at(point, **kw):
    this = kw.pop('this', None)
    RT.at(point, this=this, args={k: repr(v) for k, v in sorted(kw.items())} or None)


def fx(name, this, scope, **kw):
    return RT.fx(name, this, scope, kw, hold=True)


def yfx(name, this, scope, **kw):
    return RT.fx(name, this, scope, kw)


def fxdown(val, this):
    RT.fxdown(val.name, val.inst, this)


def node():
    return RT.node


def req(name):
    RT.at('q:' + name)
    return RT.scn.get('reqs', {}).get(name, True)
