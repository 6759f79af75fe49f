"""World C: a history of slash processes (run / resume / rerun) in several folders sharing one resume database. Every command is a
simulated process of its own (a fork of the pristine process); the database is a real sqlite file; the DB-API seam below can fail any
database step, end the process at any step, interrupt it, or let another process run to its end in the middle."""
import io
import os
import pickle
import select
import signal
import sqlite3
import sqlite3.dbapi2
import sys
import time
import traceback

import core
import simenv
import vrt
import worlda

real_connect = sqlite3.connect
READ, WRITE = 'read', 'write'


# ------------------------------------------------------------------------------------------------ DB-API seam
class Steps(object):
    """numbers the database steps of a process (connect, execute, commit) and applies the plan to them"""

    def __init__(self, sim, plan, hooks):
        self.sim = sim
        self.plan = plan            # list of {'what': error|crash|interrupt|during, 'n': step, ...}
        self.hooks = hooks
        self.n = 0
        self.writes = 0
        self.fired = []
        self.natural = 0          # errors sqlite itself reported (locks held by another process)
        self.log = []

    def step(self, kind, text, conn=None):
        """called before a step; may raise. Returns a function to call after it"""
        n = self.n
        self.n += 1
        wr = kind == 'commit' or (kind == 'execute' and text.split(None, 1)[0].upper() not in ('SELECT', 'PRAGMA', 'BEGIN'))
        w = None
        if wr:
            w = self.writes
            self.writes += 1
        self.log.append((kind, text.split('(')[0][:40]))
        self.sim.log('db', n, kind, text.split('(')[0].split('\n')[0][:30])
        after = None
        for p in self.plan:
            at = w if p.get('unit') == WRITE else n
            if at is None or at < p['n'] or at >= p['n'] + (p.get('count') or 10 ** 6):
                continue
            if p['what'] == 'error':
                self.fire('error:' + p['error'], n, kind)
                if p['error'] == 'ioerr' and conn is not None and conn.in_transaction:
                    sqlite3.Connection.rollback(conn)
                raise sqlite3.OperationalError({'locked': 'database is locked', 'full': 'database or disk is full', 'ioerr': 'disk I/O error',
                                                'readonly': 'attempt to write a readonly database', 'open': 'unable to open database file'}[p['error']])
            if p.get('done'):
                continue
            p['done'] = 1
            if p['what'] == 'crash':
                self.fire('crash:' + p['when'], n, kind)
                if p['when'] == 'before':
                    self.hooks['crash'](self)
                after = lambda: self.hooks['crash'](self)     # noqa: E731
            elif p['what'] == 'interrupt':
                self.fire('interrupt', n, kind)
                simenv.sim_kill(simenv.sim_getpid(), signal.SIGINT)
            elif p['what'] == 'during':
                self.fire('other-process', n, kind)
                self.hooks['pause'](self)
        return after

    def fire(self, what, n, kind):
        self.fired.append((what, n, kind))
        self.sim.fault('db-' + what)
        self.sim.log('fault', 'db', what, n, kind)


STEPS = None


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        s = STEPS
        after = s.step('execute', sql, self.connection) if s is not None else None
        try:
            r = super().execute(sql, *a)
        except sqlite3.OperationalError:
            if s is not None:
                s.natural += 1
            raise
        if after is not None:
            after()
        return r

    def executemany(self, sql, seq):
        s = STEPS
        if s is None:
            return super().executemany(sql, seq)
        # one statement per row, as a driver does
        for row in list(seq):
            after = s.step('execute', sql, self.connection)
            try:
                super().execute(sql, row)
            except sqlite3.OperationalError:
                s.natural += 1
                raise
            if after is not None:
                after()
        return self


class Connection(sqlite3.Connection):
    def cursor(self, *a, **k):
        k.pop('factory', None)
        return super().cursor(Cursor)

    def commit(self):
        s = STEPS
        after = s.step('commit', '', self) if s is not None else None
        try:
            super().commit()
        except sqlite3.OperationalError:
            if s is not None:
                s.natural += 1
            raise
        if after is not None:
            after()


def sim_connect(*a, **k):
    s = STEPS
    after = s.step('connect', '') if s is not None else None
    k['factory'] = Connection
    k['timeout'] = 0            # a lock held by another process is reported at once (no real waiting)
    c = real_connect(*a, **k)
    if after is not None:
        after()
    return c


# ------------------------------------------------------------------------------------------------ processes
class Proc(object):
    """runs fn(self) in a fork; messages go back through a pipe; 'pause' waits for the orchestrator"""

    def __init__(self, fn):
        self.r, w = os.pipe()
        cr, self.go = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.go)
                self.w, self.cr = w, cr
                try:
                    fn(self)
                except BaseException:
                    self.send(('harness', traceback.format_exc()))
            finally:
                os._exit(0)
        os.close(w)
        os.close(cr)
        self.buf = b''

    # child side
    def send(self, msg):
        data = pickle.dumps(msg)
        data = len(data).to_bytes(4, 'big') + data
        while data:
            data = data[os.write(self.w, data):]

    def pause(self):
        self.send(('pause',))
        os.read(self.cr, 1)

    # parent side
    def recv(self):
        """next message, None at the end of the process"""
        while True:
            if len(self.buf) >= 4:
                n = int.from_bytes(self.buf[:4], 'big')
                if len(self.buf) >= 4 + n:
                    msg = pickle.loads(self.buf[4:4 + n])
                    self.buf = self.buf[4 + n:]
                    if msg[0] == 'harness':
                        raise core.HarnessError(msg[1])
                    return msg
            b = os.read(self.r, 1 << 16)
            if not b:
                os.close(self.r)
                os.close(self.go)
                os.waitpid(self.pid, 0)
                return None
            self.buf += b

    def cont(self):
        os.write(self.go, b'g')


def call(fn):
    """value of fn() computed in a process of its own"""
    p = Proc(lambda me: me.send(('value', fn())))
    value = None
    while True:
        m = p.recv()
        if m is None:
            break
        value = m[1]
    return value


def dump(app, collected):
    """what the process holds about its session (taken at the end of the run, or at the moment the process is ended)"""
    out = {'session': None, 'tests': []}
    s = app.session
    if s is None:
        return out
    out['session'] = s.id
    results = {r.test_metadata.id: r for r in s.results.iter_test_results()}
    tests = [t.__slash__ for t in collected if t.__slash__.id is not None]
    tests.sort(key=lambda m: int(str(m.id).rsplit('_', 1)[1]))      # identifiers are given in the order of the run
    for m in tests:
        r = results.get(m.id)
        if r is None:
            out['tests'].append({'key': key(m), 'errors': False, 'failures': False, 'skip': False, 'interrupted': False, 'started': False, 'finished': False,
                                 'messages': None})
            continue
        out['tests'].append({'key': key(m), 'errors': r.is_error(), 'failures': r.is_failure(), 'skip': r.is_skip(), 'interrupted': r.is_interrupted(),
                             'started': r.is_started(), 'finished': r.is_finished(), 'messages': sorted(str(e.message) for e in r.get_errors() + r.get_failures())})
    out['success'] = s.results.is_success(allow_skips=True)
    return out


def key(m):
    return (os.path.basename(m.file_path), m.address_in_file, tuple(sorted(m.variation.id.items())))


class WorldC(object):
    def __init__(self, scn, root):
        self.scn = scn
        self.root = root
        self.history = []
        self.steps = 0
        self.faults = {}
        self.simtime = 0
        self.scheds = []
        self.records = []         # what each command did, in the order in which they ended
        self.probes = {}

    def folder(self, k):
        return os.path.join(self.root, self.scn['suites'][k].get('dir', 'f%d' % k))

    def setup(self):
        for k, suite in enumerate(self.scn['suites']):
            d = self.folder(k)
            os.makedirs(d, exist_ok=True)
            suite['paths'] = worlda.write_suite(suite, d)
        os.environ['HOME'] = os.path.join(self.root, 'home')
        # every process derives the suite files' byte code from the sources
        sys.dont_write_bytecode = True

    # -------------------------------------------------------------------------------------------- one command
    def child(self, me, idx, cmd, now, targets):
        global STEPS
        suite = dict(self.scn['suites'][cmd['folder']])
        scn = dict(suite, ops=cmd.get('ops', {}), hooks=cmd.get('hooks', ()), argv=list(cmd.get('argv', ())))
        sim, node = worlda.boot(core.Chooser(idx))
        sim.now = core.EPOCH + now
        sim.max_time = now + 100000.0
        simenv._uuid_counter[0] = 1000 * (idx + 1)
        os.chdir(self.folder(cmd['folder']))
        rt = vrt.RT = vrt.Runtime(sim, scn)
        box = []
        started, collected, ended = [], [], []

        def done(kind, steps):
            app = box[0] if box else None
            me.send(('end', {'kind': kind, 'dump': dump(app, collected) if app is not None else None, 'order': started, 'fired': list(steps.fired),
                             'exit': out.exit_code, 'escaped': None if out.escaped is None else repr(out.escaped), 'faults': dict(sim.fault_counts),
                             'history': [repr(x)[:200] for x in sim.history[-120:]], 'steps': sim.steps, 'time': sim.now - core.EPOCH - now,
                             'sched': sim.sched_hash, 'dbsteps': steps.n, 'natural': steps.natural, 'ended': ended[0] if ended else None, 'dblog': steps.log, 'text': out.text}))
        out = worlda.Outcome()
        out.exit_code = out.escaped = out.text = None
        steps = Steps(sim, [dict(p) for p in cmd.get('db', ())], None)

        def crash(_):
            done('crash', steps)
            os._exit(0)
        steps.hooks = {'crash': crash, 'pause': lambda _: me.pause()}
        sqlite3.connect = sqlite3.dbapi2.connect = sim_connect
        STEPS = steps
        stream = io.StringIO()

        def main():
            import gossip
            import slash
            worlda.register_observers(rt, scn)
            gossip.register(lambda: started.append(key(slash.ctx.context.test.__slash__)), 'slash.test_start', token='worldc')
            gossip.register(lambda: ended.append(dump(box[0], collected)) if box else None, 'slash.after_session_end', token='worldc')
            gossip.register(lambda tests: collected.extend(tests), 'slash.tests_loaded', token='worldc')
            argv = list(scn['argv']) + (targets if cmd['kind'] != 'run' else suite['paths'])
            app, code, esc = worlda.run_once(rt, scn, argv, stream, resume=cmd['kind'] == 'resume', rerun=cmd['kind'] == 'rerun', app_box=box)
            out.exit_code, out.escaped = code, esc
            out.text = stream.getvalue()[-1500:]
        worlda.drive(sim, node, main)
        STEPS = None
        done('end', steps)

    def command(self, idx, cmd, now, inside=None):
        """runs a command (and what happens during it); appends to self.records"""
        targets = []
        for t in cmd.get('targets', ()):
            ids = [r['session'] for r in self.records if r['idx'] == t and r['session']]
            targets.append(ids[0] if ids else 'nosuchsession_0')
        rec = {'idx': idx, 'cmd': cmd, 'now': now, 'targets': targets, 'folder': cmd['folder'], 'during': None, 'inside': inside}
        proc = Proc(lambda me: self.child(me, idx, cmd, now, targets))
        end = None
        while True:
            m = proc.recv()
            if m is None:
                break
            if m[0] == 'pause':
                other = cmd['during']
                self.command(100 + idx, other, now + 0.5, idx)
                rec['during'] = 100 + idx
                proc.cont()
            elif m[0] == 'end':
                end = m[1]
        if end is None:
            raise core.HarnessError('a process ended without a word')
        rec['end'] = end
        rec['session'] = (end['dump'] or {}).get('session')
        self.records.append(rec)
        self.history.append((idx, cmd['kind'], cmd['folder'], end['kind'], end['exit'], end['fired'], (end['dump'] or {}).get('tests'), end['order']))
        for k, n in end['faults'].items():
            self.faults[k] = self.faults.get(k, 0) + n
        self.steps += end['steps']
        self.simtime += end['time']
        self.scheds.append(end['sched'])
        return rec

    # -------------------------------------------------------------------------------------------- what later commands see
    def look(self, now):
        """a fresh process reads the stored state: by the functions resume uses, and the raw tables"""
        ids = [r['session'] for r in self.records if r['session']]

        def read():
            import slash
            from slash import resuming
            sim, node = worlda.boot(core.Chooser(0))
            sim.now = core.EPOCH + now
            sim.max_time = now + 100000.0
            got = {'sessions': {}, 'last': {}}

            def main():
                for s in ids:
                    try:
                        tests = resuming.get_tests_from_previous_session(s, get_successful_tests=True)
                    except resuming.CannotResume:
                        tests = []
                    got['sessions'][s] = [(os.path.basename(t.file_name), t.address_in_file, tuple(sorted((t.variation or {}).items())), t.status) for t in tests]
                for k in range(len(self.scn['suites'])):
                    os.chdir(self.folder(k))
                    try:
                        got['last'][k] = resuming.get_last_resumeable_session_id()
                    except resuming.CannotResume:
                        got['last'][k] = None
            worlda.drive(sim, node, main)
            raw = {}
            for d, _, files in os.walk(os.path.join(self.root, 'home')):
                for f in files:
                    if f.endswith('.db'):
                        c = real_connect(os.path.join(d, f), timeout=0)
                        try:
                            for (t,) in list(c.execute("select name from sqlite_master where type='table'")):
                                cols = [x[1] for x in c.execute('pragma table_info({})'.format(t))]
                                if 'session_id' in cols:
                                    raw[t] = sorted(c.execute('select session_id, count(*) from {} group by session_id'.format(t)))
                        finally:
                            c.close()
            got['raw'] = raw
            return got
        return call(read)
