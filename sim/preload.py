"""imports third-party modules (with their cached bytecode), then slash from /repo's working tree, always recompiled"""
import os
import sys

REPO = os.environ.get('VSIM_REPO', '/repo')


def load():
    import warnings
    warnings.simplefilter('ignore')
    import simenv
    simenv.patch_datetime()
    import IPython.terminal.embed, arrow, confetti, dessert, emport, gossip, logbook, logbook.more, requests, sentinels  # noqa
    import sqlalchemy, sqlalchemy.orm, vintage, xmlrpc.client, xmlrpc.server, pkg_resources  # noqa
    import sqlite3, smtplib, email, unittest.mock, http.client, socketserver  # noqa
    sys.pycache_prefix = os.path.join(os.environ['VSIM_SCRATCH'], 'pyc')
    sys.path.insert(0, REPO)
    import slash
    assert os.path.realpath(slash.__file__).startswith(os.path.realpath(REPO) + os.sep), slash.__file__
    import slash.frontend.slash_run, slash.frontend.main, slash.plugins, slash.resuming, slash.parallel.server, slash.parallel.worker  # noqa
    return slash


def warm():
    """fill the caches (lazy imports, source lines, regular expressions) that every run would otherwise fill for itself"""
    import glob
    import inspect
    import linecache
    import sys
    import traceback
    for path in glob.glob(os.path.join(REPO, 'slash', '**', '*.py'), recursive=True) + glob.glob(os.path.join(os.path.dirname(__file__), '*.py')):
        linecache.getlines(path)
    f = sys._getframe()
    while f is not None:
        inspect.getframeinfo(f, 5)
        f = f.f_back
    for m in list(sys.modules.values()):
        try:
            hasattr(m, '__file__')
        except Exception:
            pass
    try:
        raise ValueError('x')
    except ValueError:
        traceback.format_exc()
    from slash.utils import traceback_proxy
    traceback_proxy.create_traceback_proxy(frame_correction=0)
    _memo_findsource(inspect)
    import sqlalchemy
    from sqlalchemy import orm
    base = orm.declarative_base()

    class Row(base):
        __tablename__ = 'x'
        id = sqlalchemy.Column(sqlalchemy.Integer, primary_key=True)
        name = sqlalchemy.Column(sqlalchemy.Text)
    eng = sqlalchemy.create_engine('sqlite://')
    base.metadata.create_all(eng)
    s = orm.sessionmaker(bind=eng)()
    s.add(Row(name='a'))
    s.commit()
    list(s.query(Row).filter(Row.name == 'a').order_by(Row.id.desc()))
    s.close()
    eng.dispose()
    import pkg_resources
    list(pkg_resources.iter_entry_points('slash.site.customize'))


def _memo_findsource(inspect):
    """the same answer for the same code object, without walking sys.modules every time (slash asks for every frame of every
    handled exception)"""
    real = inspect.findsource
    cache = {}

    def findsource(obj):
        code = getattr(obj, 'f_code', None)
        if code is None:
            return real(obj)
        got = cache.get(code)
        if got is None:
            try:
                got = (code, real(obj), None)
            except OSError as e:
                got = (code, None, str(e))
            cache[code] = got
        if got[2] is not None:
            raise OSError(got[2])
        return got[1]
    inspect.findsource = findsource
