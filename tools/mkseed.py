"""Write and validate planted bugs (development tool; no check uses it).
usage: mkseed.py SPEC.py [id ...]; SPEC defines SEEDS = [dict(id, property, file, edits=[(old, new, nth)], needs, breaks, demo)]"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

OUT = '/verif/seeded'
MUT = '/tmp/mut'
HELP = ['worker.py', 'worker_more.py', 'solvermodel.py', 'propmodel.py', 'drivermodel.py']
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
PYBOX="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def call(action, **args):
    """run the real code in a scratch directory"""
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, PYTHONPATH='/opt/vp', PYBOX_REPO=os.environ['PYBOX'], NUMBA_OPT='0', NUMBA_CACHE_DIR=d + '/nb',
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='4')
        p = subprocess.run(['/opt/venv/bin/python', HERE + '/worker.py', action], input=json.dumps(args), capture_output=True, text=True, cwd=d, env=env)
        for line in p.stdout.splitlines()[::-1]:
            if line.startswith('RESULT '):
                return json.loads(line[7:])
        sys.exit('no result: ' + p.stderr[-1500:])


def close(a, b):
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-300


def check(ok, what):
    if not ok:
        print('FAIL', what)
        sys.exit(1)


'''


def main():
    s = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    want = sys.argv[2:]
    for sd in m.SEEDS:
        if want and sd['id'] not in want:
            continue
        d = os.path.join(OUT, sd['id'])
        os.makedirs(d, exist_ok=True)
        subprocess.run('git -C %s checkout -q -- . && git -C %s reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (MUT, MUT, MUT, MUT), shell=True)
        p = os.path.join(MUT, sd['file'])
        t = open(p).read()
        for old, new, nth in sd['edits']:
            i = -1
            for _ in range(nth):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        open(p, 'w').write(t)
        diff = subprocess.run(['git', '-C', MUT, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(HEAD + sd['demo'].lstrip())
        for h in HELP:
            if h == 'worker.py' or h[:4] in ('work', 'solv') and sd.get('more') or h[:4] in sd.get('also', ()):
                shutil.copy('/verif/vt/' + h, d)
        json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=MUT, capture_output=True, text=True)
        print(sd['id'], 'clean', a.returncode, a.stdout[-300:], a.stderr[-300:], '| patched', b.returncode, b.stdout[-200:].strip(), b.stderr[-200:].strip(), '| diff lines', diff.count('\n'), flush=True)


main()
