"""Run the unmodified code of /repo on a concrete input, in a scratch directory (used by replay)."""
import json
import os
import resource
import shutil
import subprocess
import tempfile
from .loader import REPO

WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'worker.py')
PY = '/opt/venv/bin/python'


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def call(action, timeout=200, keep=None, **args):
    """worker.<action>(**args) under the project's own interpreter; returns its JSON result"""
    d = tempfile.mkdtemp(prefix='vreplay')
    try:
        env = dict(os.environ)
        env['PYTHONPATH'] = '/opt/vp'
        env['PYBOX_REPO'] = REPO
        env['NUMBA_OPT'] = '0'
        env['NUMBA_CACHE_DIR'] = os.path.join(d, 'nbcache')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['OMP_NUM_THREADS'] = env.get('OMP_NUM_THREADS', '4')
        p = subprocess.run([PY, WORKER, action], input=json.dumps(args), capture_output=True, text=True,
                           cwd=d, env=env, timeout=timeout, preexec_fn=limits)
        for line in p.stdout.splitlines()[::-1]:
            if line.startswith('RESULT '):
                return json.loads(line[7:])
        return {'exception': 'worker failed (exit %s): %s' % (p.returncode, p.stderr[-1500:])}
    except subprocess.TimeoutExpired:
        return {'exception': 'not finished after %s s' % timeout}
    finally:
        shutil.rmtree(d, ignore_errors=True)
