"""mutate.py <file.py> [ids]: runs the checks on planted bugs, several at a time.

The file defines M = [(id, 'P01 P02', [(file, old, new), ...]), ...].  Each one
is applied to a scratch copy that is bind-mounted over /repo in a mount
namespace of its own.  (For development only: no check uses this.)
"""
import os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ms = runpy.run_path(sys.argv[1])['M']
only = [a for a in sys.argv[2:] if not a.startswith('-')]
tests = '-t' in sys.argv
def one(m):
    i, props, edits = m
    if props == 'ALL':
        props = ' '.join('P%02d' % k for k in range(1, 36))
    w = tempfile.mkdtemp(prefix='/tmp/mut_')
    out = []
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        for f, old, new in edits:
            p = f'{w}/repo/wake_t/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return f'{i}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        if tests:
            env = dict(os.environ, PYTHONPATH=w + '/repo', WAKET_DISABLE_CACHING='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', WAKET_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
            q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--tb=short', 'tests'], cwd=w + '/repo', env=env, capture_output=True, text=True)
            out.append('tests ' + q.stdout.strip().splitlines()[-1][:60])
        for p in props.split():
            os.makedirs(w + '/ev', exist_ok=True)
            q = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/ev /verif/evidence && timeout 900 /verif/bin/check {p}'], capture_output=True, text=True)
            cl = sorted(set(re.findall(r'^  (\S+): ', q.stdout, re.M)))
            out.append(f"{p} {'CAUGHT' if q.returncode == 1 else 'rc=%d' % q.returncode} {' '.join(cl)[:70]}" + ('' if q.returncode < 2 else q.stdout[-300:] + q.stderr[-300:]))
    finally:
        shutil.rmtree(w)
    return f"{i}: " + ' | '.join(out)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [m for m in ms if not only or m[0] in only]):
        print(r, flush=True)
