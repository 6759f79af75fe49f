"""check.py PROP [--tier quick|thorough] [--replay FILE]  -- decides one property by simulation (see DESIGN.md)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    import tempfile
    scratch = tempfile.mkdtemp(prefix='vsim.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('SLASH', 'PYTHON')) and k not in ('TMUX',)}
    env.update(VSIM_SCRATCH=scratch, HOME=os.path.join(scratch, 'home'), TMPDIR=scratch, PYTHONHASHSEED=os.environ.get('VSIM_HASHSEED', '0'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', LANG='C.UTF-8', TZ='UTC', COLUMNS='80')
    os.makedirs(env['HOME'])
    import subprocess
    import shutil
    import signal
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env=env)

    def fwd(signum, _):
        p.send_signal(signum)
    signal.signal(signal.SIGTERM, fwd)
    try:
        rc = p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 2 if rc < 0 else rc


def main():
    if not os.environ.get('VSIM_SCRATCH') or '--replay' in sys.argv and os.environ.get('VSIM_CHILD') != '1':
        os.environ['VSIM_CHILD'] = '1'
        return reexec()
    os.environ.pop('VSIM_CHILD', None)
    sys.path.insert(0, HERE)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    args = ap.parse_args()
    import preload
    preload.load()
    preload.warm()
    import harness
    import props
    prop = props.get(args.prop)
    scratch = os.environ['VSIM_SCRATCH']
    prop.warmup(scratch)
    if args.selftest:
        return harness.selftest(props, scratch)
    if args.replay:
        return harness.run_replay(prop, args.replay, scratch)
    return harness.run_check(prop, args.tier, args.seed, scratch)


if __name__ == '__main__':
    sys.exit(main())
