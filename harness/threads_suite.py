"""Number of threads, repetition and compilation (Threads.tla)."""
import os
import subprocess
import sys

import numpy as np

from vlib import SCRATCH, SEED, THOROUGH, MachineryError

HERE = os.path.dirname(os.path.abspath(__file__))
BIG, SMALL = 20000, 120


def start(tag, n, threads, reps, compiled=True, cache=True):
    env = dict(os.environ)
    env.update(WAKET_NUM_THREADS=str(threads), NUMBA_NUM_THREADS=str(max(threads, 2)),
               WAKET_DISABLE_CACHING='0' if cache else '1')
    env.pop('NUMBA_DISABLE_JIT', None)
    if not compiled:
        env['NUMBA_DISABLE_JIT'] = '1'
    out = os.path.join(SCRATCH, f'threads_{tag}.npz')
    log = open(os.path.join(SCRATCH, f'threads_{tag}.log'), 'w')
    p = subprocess.Popen(
        [sys.executable, os.path.join(HERE, 'threads_worker.py'), out, str(SEED), str(n),
         str(reps), 'thorough' if THOROUGH else 'quick'],
        env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, out, log.name


def wait(job, limit=700):
    p, out, log = job
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return None, 'no end'
    if p.returncode or not os.path.exists(out):
        with open(log) as f:
            return None, f.read()
    with np.load(out) as z:
        return {k: z[k] for k in z.files}, None


def split(res):
    """{(scenario, rep): {quantity: array}}"""
    d = {}
    for k, v in res.items():
        s, rep, q = k.split('|')
        d.setdefault((s, int(rep)), {})[q] = v
    return d


def events(ref, tag, res, threads, compiled, suffix):
    ev = []
    for (s, rep), v in sorted(split(res).items(), key=lambda x: x[0][1]):
        if 'error' in v:
            ev.append({'a': 'fail', 'error': str(v['error'])})
            continue
        b, a = (int(x) for x in v.pop('set'))
        base = ref.setdefault(s, v)
        dev = {}
        for q, x in v.items():
            y = base.get(q)
            if y is None or y.shape != x.shape:
                dev[q] = 2000000000
                continue
            size = np.max(np.abs(y)) or 1.
            with np.errstate(all='ignore'):
                d = np.max(np.abs(x - y)) / size * 1e12
            dev[q] = int(min(d, 2e9)) if np.isfinite(d) else 2000000000
        ev.append({'a': 'run', 's': s + suffix, 'threads': threads, 'compiled': compiled,
                   'rep': rep, 'run': tag, 'dev': dev,
                   'finite': bool(all(np.all(np.isfinite(x)) for x in v.values()))})
        ev.append({'a': 'setting', 'before': b, 'after': a})
    return ev


def run(chk, pid):
    chk.model('MCThreads', 'MCThreadsBig.cfg' if THOROUGH else None)
    # The first run compiles; the others use what it has stored.
    first = start('one', BIG, 1, 1)
    interp = start('plain', SMALL, 1, 1, compiled=False)
    jobs = [('one', 1, True, '', wait(first))]
    many = [(f't{t}', t, start(f't{t}', BIG, t, 3 if THOROUGH else 2))
            for t in ((2, 3, 5, 8) if THOROUGH else (3, 8))]
    small = start('small', SMALL, 2, 1)
    jobs += [(tag, t, True, '', wait(j)) for tag, t, j in many]
    tr = []
    for group in ([j for j in jobs],
                  [('plain', 1, False, '_small', wait(interp)),
                   ('small', 2, False, '_small', wait(small))]):
        ref, ev, err = {}, [], None
        for tag, t, compiled, suffix, (res, e) in group:
            if res is None:
                if '/repo/wake_t' not in (e or '') and e != 'no end':
                    raise MachineryError(f'worker {tag}: {e}')
                ev.append({'a': 'fail'})
                err = e
                continue
            ev += events(ref, tag, res, t, compiled, suffix)
        for x in ev:
            err = err or x.pop('error', None)
        tr.append({'id': group[0][0], 'cfg': {'tol': 100, 'loose': 100000}, 'ev': ev,
                   'error': err})
    chk.validate('TraceThreads', tr)
