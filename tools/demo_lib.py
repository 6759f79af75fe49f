"""Runs small suites with slash from the current directory's tree, keeping everything in a scratch folder."""
import atexit
import io
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.getcwd()
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='slash-demo.')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ['HOME'] = SCRATCH
os.environ['TMPDIR'] = SCRATCH
os.environ['PYTHONPATH'] = REPO
os.chdir(SCRATCH)
for k in list(os.environ):
    if k.startswith('SLASH'):
        del os.environ[k]


def write(name, text):
    path = os.path.join(SCRATCH, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
    return path


def run(argv, stream=None, **kw):
    from slash.frontend.slash_run import slash_run

    class Args(object):
        cmd = 'run'
    args = Args()
    args.argv = argv
    return slash_run(args, report_stream=stream if stream is not None else io.StringIO(), **kw)


def results(app):
    return {r.test_metadata.function_name: r for r in app.session.results.iter_test_results()}


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.stdout.flush()
        sys.exit(1)
