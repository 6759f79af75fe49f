"""Interruption at any instant: counts the source lines of slash executed by the main virtual thread of a run and delivers a signal
(through whatever handler is installed at that moment) just before the n-th of them."""
import ast
import linecache
import os
import sys

import preload
import simenv

TOOL = 3
PREFIX = os.path.join(os.path.realpath(preload.REPO), 'slash') + os.sep


class Lines(object):
    def __init__(self, sim, node, target=None):
        """target: (location, times reached before, signum)"""
        self.sim, self.node = sim, node
        self.target = target
        self.n = 0
        self.landed = []
        self.on = False
        self.record = None

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'vsim')
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            self.on = False
            mon = sys.monitoring
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)

    def _line(self, code, lineno):
        if not code.co_filename.startswith(PREFIX):
            return sys.monitoring.DISABLE
        if self.target is not None and (self.target[0][2] != lineno or self.target[0][0] != code.co_filename):
            return sys.monitoring.DISABLE
        if not self.on or self.sim.current is not self.node.main_task:
            return None
        loc = (code.co_filename, code.co_firstlineno, lineno)
        if linecache.getline(code.co_filename, lineno).strip() == 'try:':
            return sys.monitoring.DISABLE       # a NOP outside the exception table: the interpreter never delivers a signal there
        if self.record is not None:
            self.record.append(loc + (self.in_session(),))
        elif self.target is not None and self.target[0] == loc:
            self.n += 1
            if self.n <= self.target[1]:
                return None
            signum = self.target[2]
            where = '{}:{}:{}'.format(code.co_filename[len(PREFIX):], code.co_qualname, lineno - code.co_firstlineno)
            names = set()
            if linecache.getline(code.co_filename, lineno).strip().startswith(('with ', 'return', 'break', 'continue')):
                names.add('<entering or leaving a context>')
            f = sys._getframe(1)
            while f is not None:
                if f.f_code.co_filename.startswith(PREFIX):
                    names.add(f.f_code.co_name)
                    if f.f_code.co_flags & 0x20 or f.f_code.co_name in ('__enter__', '__exit__'):
                        names.add('<entering or leaving a context>')
                f = f.f_back
            self.on = False
            try:
                results = self.results()
                complete = self.complete()
            finally:
                self.on = True
            self.landed.append((where, len(self.sim.history), names, results, complete))
            self.sim.fault('instant:' + ('SIGINT' if signum == 2 else 'SIGTERM'))
            self.sim.log('instant', signum, where, *self.state())
            self.target = None
            sys.monitoring.set_events(TOOL, 0)
            self.node.handle_signal(signum)
        return None

    def in_session(self):
        return sys.modules['slash.ctx'].context.session is not None

    def state(self):
        import slash
        c = slash.ctx.context
        return (c.session is not None, c.test is not None)

    def complete(self):
        s = sys.modules['slash.ctx'].context.session
        return s is not None and s.is_complete()

    def results(self):
        import slash
        import vrt
        import worlda
        s = slash.ctx.context.session
        if s is None:
            return {}
        return {vrt.short_id(r.test_metadata.id): worlda.dump_result(r) for r in s.results.iter_test_results()}


_guarded = {}


def guarded_lines(filename):
    """lines of a source file inside the body of a try statement having handlers (where an interruption might be mistaken for an error)"""
    if filename not in _guarded:
        lines = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try) and node.handlers:
                lines.update(range(node.body[0].lineno, node.body[-1].end_lineno + 1))
        _guarded[filename] = lines
    return _guarded[filename]
