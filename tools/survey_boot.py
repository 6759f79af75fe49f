"""shared start-up of the development aids: scratch folder, clean environment, preloaded modules"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))


def boot():
    if not os.environ.get('VSIM_SCRATCH'):
        import tempfile, subprocess, shutil
        scratch = tempfile.mkdtemp(prefix='vsim.', dir='/dev/shm')
        env = {k: v for k, v in os.environ.items() if not k.startswith(('SLASH', 'PYTHON'))}
        env.update(VSIM_SCRATCH=scratch, HOME=scratch + '/home', TMPDIR=scratch, PYTHONHASHSEED=os.environ.get('VSIM_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', LANG='C.UTF-8', TZ='UTC', COLUMNS='80')
        os.makedirs(scratch + '/home')
        try:
            rc = subprocess.call([sys.executable] + sys.argv, env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)
    import preload
    preload.load()
    preload.warm()
    import props
    p = props.get(sys.argv[1])
    p.warmup(os.environ['VSIM_SCRATCH'])
    return p
