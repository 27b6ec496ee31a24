"""mkseed.py <seedfile.py>: makes and confirms planted bugs in a scratch copy.

A seed file defines SEEDS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo=python source)].
A seed is kept in /verif/seeded/<id> if the stable tests pass with it, the
demonstration passes without and fails with it.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
seeds = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg MPLCONFIGDIR="$w"
export WAKET_DISABLE_CACHING=1 WAKET_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export REPO_DIR="$PWD"
cd "$w" && timeout 280 /opt/venv/bin/python "$d/demo.py"
'''
def one(s):
    w = tempfile.mkdtemp(prefix='/tmp/seed_')
    try:
        wt = w + '/repo'
        shutil.copytree('/repo', wt, symlinks=True)
        for f, old, new in s['edits']:
            t = open(f'{wt}/{f}').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(f'{wt}/{f}', 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
        assert diff
        d = f"/verif/seeded/{s['id']}"
        dm = w + '/d'; os.makedirs(dm)
        open(dm + '/demo.sh', 'w').write(DEMO); os.chmod(dm + '/demo.sh', 0o755)
        open(dm + '/demo.py', 'w').write(s['demo'])
        a = subprocess.run(['bash', dm + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
        b = subprocess.run(['bash', dm + '/demo.sh'], cwd=wt, env=env, capture_output=True, text=True)
        if a.returncode != 0:
            return f"{s['id']}: demo fails on the unchanged tree\n{a.stdout[-500:]}{a.stderr[-1500:]}"
        if b.returncode == 0:
            return f"{s['id']}: demo passes with the bug"
        e2 = dict(env, PYTHONPATH=wt)
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=600', '-n', '4', '--dist', 'loadfile', '--tb=short', '-rA', 'tests'], cwd=wt, env=e2, capture_output=True, text=True)
        passed = set(m.replace('/', '.').replace('.py::', '::') for m in re.findall(r'PASSED (tests/\S+)', p.stdout))
        miss = stable - passed
        if miss:
            return f"{s['id']}: tests fail: {sorted(miss)}"
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(dm + '/demo.sh', d); shutil.copy(dm + '/demo.py', d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        return f"{s['id']}: kept ({(b.stdout + b.stderr).strip().splitlines()[-1][:120]})"
    finally:
        shutil.rmtree(w)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [s for s in seeds if not only or s['id'] in only]):
        print(r, flush=True)
