"""Disk seam: file-system calls on paths below a prefix (the logs, reports and session databases of a simulated run) can fail
as scripted. Everything else goes to the real file system untouched; the files themselves are real files in the run's scratch
directory, so that what reached the disk is what a later reader (or the oracle) finds there."""
import builtins
import errno
import io
import os

real_open = builtins.open
REAL = {n: getattr(os, n) for n in ('mkdir', 'makedirs', 'symlink', 'unlink', 'remove', 'rmdir', 'listdir', 'rename', 'replace')}
WRITE_MODES = ('w', 'a', 'x', '+')


class Raw(io.FileIO):
    """unbuffered file whose write() may fail or be cut short"""
    disk = None

    def write(self, data):
        d = self.disk
        if d is not None:
            cut = d.on('write', self.name, len(data))
            if cut is not None:
                return super().write(bytes(data)[:cut])
        return super().write(data)

    def close(self):
        d = self.disk
        was = self.closed
        super().close()
        if d is not None and not was:
            d.on_close(self)


class Disk(object):
    """plan: list of {'fn': open|write|close|mkdir|symlink|unlink|rmdir|listdir|rename, 'n': index of the first failing call,
    'count': how many calls fail (None: all the following ones), 'errno': name, 'short': write only so many bytes first}"""

    def __init__(self, sim, prefix, plan, only=None):
        self.sim = sim
        self.prefix = os.path.realpath(prefix)
        self.plan = [dict(p) for p in plan]
        self.calls = {}
        self.only = only
        self.opened = []          # Raw objects opened for writing, in order
        self.fired = []
        self.enabled = True

    def covers(self, path):
        if isinstance(path, int) or not self.enabled:
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'surrogateescape')
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if not p.startswith(self.prefix + os.sep) and p != self.prefix:
            return False
        return self.only is None or self.only(p)

    def on(self, fn, path, size=0):
        """counts a call; raises the scripted error or returns how many bytes to let through (None: all)"""
        if not self.covers(path):
            return None
        n = self.calls.get(fn, 0)
        self.calls[fn] = n + 1
        for p in self.plan:
            if p['fn'] != fn or n < p['n'] or (p.get('count') is not None and n >= p['n'] + p['count']):
                continue
            if p.get('match') and p['match'] not in str(path):
                continue
            self.sim.fault('disk:{}:{}'.format(fn, p.get('errno', 'short')))
            self.fired.append((fn, n, os.path.basename(str(path))))
            if fn == 'write' and p.get('short') and size > 1:
                return max(1, size // 2)
            code = getattr(errno, p['errno'])
            raise OSError(code, os.strerror(code), str(path))
        return None

    def on_close(self, f):
        self.on('close', f.name)

    # ------------------------------------------------------------------ patched calls
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        writing = any(c in mode for c in WRITE_MODES)
        if not self.covers(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not writing:
            self.on('read', file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.on('open', file)
        raw = Raw(os.fspath(file), mode.replace('b', '').replace('t', ''))
        raw.disk = self
        self.opened.append(raw)
        buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)

    def install(self):
        builtins.open = self.open
        io.open = self.open

        def wrap(name, fn, idx=0):
            real = REAL[name]

            def f(*a, **k):
                if a:
                    self.on(fn, a[idx] if len(a) > idx else a[0])
                return real(*a, **k)
            f.__name__ = name
            setattr(os, name, f)
        wrap('mkdir', 'mkdir')
        wrap('symlink', 'symlink', 1)
        wrap('unlink', 'unlink')
        wrap('remove', 'unlink')
        wrap('rmdir', 'rmdir')
        wrap('rename', 'rename', 1)
        wrap('replace', 'rename', 1)

        def listdir(path='.'):
            self.on('listdir', path)
            return sorted(REAL['listdir'](path))
        os.listdir = listdir
        return self

    def uninstall(self):
        builtins.open = real_open
        io.open = real_open
        for n, f in REAL.items():
            setattr(os, n, f)


class Console(io.StringIO):
    """report stream; from the n-th write on (for `count` writes, None: for ever) every write or flush raises"""

    def __init__(self, sim, plan=None):
        super().__init__()
        self.sim = sim
        self.plan = plan
        self.writes = 0
        self.failed = 0
        self.tty = bool(plan and plan.get('tty'))

    def isatty(self):
        return self.tty

    def _check(self, what):
        p = self.plan
        if not p or 'n' not in p:
            return
        n = self.writes
        if n >= p['n'] and (p.get('count') is None or n < p['n'] + p['count']):
            self.failed += 1
            self.sim.fault('console:{}:{}'.format(what, p['errno']))
            if p['errno'] == 'CLOSED':
                raise ValueError('I/O operation on closed file.')
            code = getattr(errno, p['errno'])
            raise OSError(code, os.strerror(code))

    def write(self, s):
        self._check('write')
        self.writes += 1
        return super().write(s)

    def flush(self):
        p = self.plan
        if p and p.get('flush'):
            self._check('flush')
        return super().flush()
