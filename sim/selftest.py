"""setup_cmd: everything is interpreted, so nothing is compiled; verifies that the tools the checks rely on are here and that a
run is a pure function of its seed on this machine."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, VSIM_SELFTEST='1')
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, 'check.py'), 'S11', '--selftest'], env=env))
