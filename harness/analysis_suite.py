"""Bunch analysis (Analysis.tla)."""
import math
import os
import random
import shutil

import numpy as np
import scipy.constants as ct

from files_suite import SPECIES, same, state
from vlib import OFF, SCRATCH, SEED, THOROUGH, guarded
from wake_t import ParticleBunch
from wake_t.diagnostics import (
    analyze_bunch, analyze_bunch_list, read_parameters_from_file,
    save_parameters_to_file)

SCALE = 10000
TABLE = [(a, b, c, round(math.sqrt(1 + a*a + b*b + c*c)))
         for a in range(-3, 4) for b in range(-3, 4) for c in range(1, 12)
         if math.isqrt(1 + a*a + b*b + c*c)**2 == 1 + a*a + b*b + c*c]
NAMES = ['prop_dist', 'theta_x', 'theta_y', 'x_avg', 'y_avg', 'sigma_x', 'sigma_y',
         'sigma_z', 'alpha_x', 'alpha_y', 'beta_x', 'beta_y', 'gamma_x', 'gamma_y',
         'emitt_x', 'emitt_y', 'avg_slice_emitt_x', 'avg_slice_emitt_y', 'avg_ene',
         'rel_ene_spread', 'avg_slice_rel_ene_spread', 'i_peak', 'q_tot']


def cov(ps, f, g):
    W = sum(p['w'] for p in ps)
    return W * sum(p['w'] * p[f] * p[g] for p in ps) - \
        sum(p['w'] * p[f] for p in ps) * sum(p['w'] * p[g] for p in ps)


def det(ps, f, g):
    return cov(ps, f, f) * cov(ps, g, g) - cov(ps, f, g)**2


def square(n):
    return n >= 0 and math.isqrt(n)**2 == n and math.isqrt(n) <= 400


def particle(rng, energy, P):
    p = {'x': rng.randint(-2, 2), 'y': rng.randint(-2, 2), 'z': rng.randint(0, 6),
         'w': rng.randint(1, 2)}
    if energy:
        p['px'], p['py'], p['pz'], p['g'] = rng.choice(TABLE)
    else:
        p['px'], p['py'], p['pz'], p['g'] = rng.randint(-2, 2), rng.randint(-2, 2), P, 0
    return p


def good(ps):
    W = sum(p['w'] for p in ps)
    d = W * W - sum(p['w']**2 for p in ps)
    for f, g in (('x', 'px'), ('y', 'py')):
        v = det(ps, f, g)
        # well away from cancellation, small enough for the integers of TLC
        if v <= 0 or v * SCALE > 2e9 or v * 20 < cov(ps, f, f) * cov(ps, g, g) or d == 0:
            return False
    return len({p['z'] for p in ps}) > 1


def make(rng, sliced, slices=None):
    """Sliced bunches have the same particles in a slice whatever the rounding;
    the others have a foremost particle alone in its slice (statistics of slices with
    few particles are undefined, and those of at least one slice must exist)."""
    kind = 'slices' if sliced else rng.choice(['twiss', 'energy'])
    P = rng.choice([2, 5, 50])
    n = 0
    while True:
        if kind != 'slices':
            ps = [particle(rng, kind == 'energy', P) for _ in range(rng.randint(3, 6))]
            ps[rng.randrange(len(ps))]['z'] = 7
        else:
            n = slices or rng.choice([1, 2, 2, 3])
            ps = []
            for k in range(n):
                while True:
                    s = [particle(rng, True, P)
                         for _ in range(rng.choice([1, 3, 3] if n < 3 else [1, 1, 3]))]
                    if len(s) == 3:     # weights for which the emittance is rational
                        for p, w in zip(s, rng.sample([1, 2, 3], 3)):
                            p['w'] = w
                    if len(s) == 1 or all(
                            square(det(s, a, b)) and 0 < det(s, a, b)
                            and det(s, a, b) * 20 >= cov(s, a, a) * cov(s, b, b)
                            for a, b in (('x', 'px'), ('y', 'py'))) \
                            and square(cov(s, 'g', 'g')):
                        break
                for p in s:
                    p['z'] = 2 * k + 1
                ps += s
            end = rng.choice([p for p in ps if p['z'] == 2 * n - 1])
            end['z'] = 2 * n
            tail = particle(rng, True, P)
            tail['z'] = 0
            ps.append(tail)
            rng.shuffle(ps)
        if good(ps):
            break
    return {'ps': ps, 'prop': rng.randint(0, 5), 'slices': n, 'P': P,
            'exact': {'energy': kind != 'twiss', 'twiss': kind == 'twiss',
                      'slices': kind == 'slices'}}


def build(b, u, sp):
    a = {k: np.array([p[k] for p in b['ps']], dtype=float)
         for k in ('x', 'y', 'z', 'px', 'py', 'pz', 'w')}
    q, m = SPECIES[sp]
    o = ParticleBunch(a['w'] * u['w'], a['x'] * u['x'], a['y'] * u['x'],
                      (a['z'] + u['z0']) * u['z'], a['px'], a['py'], a['pz'],
                      q_species=q, m_species=m)
    o.prop_distance = b['prop'] * u['s']
    return o


def code(v):
    v = float(v) * SCALE
    return int(round(v)) if np.isfinite(v) and abs(v) < 2**27 else OFF


def observe(v, b, u, q):
    """v: dictionary of one bunch."""
    x, P = u['x'], b['P']
    exact = 1e-6
    out = {'x_avg': v['x_avg'] / x, 'y_avg': v['y_avg'] / x,
           'sigma_x2': (v['sigma_x'] / x)**2, 'sigma_y2': (v['sigma_y'] / x)**2,
           'sigma_z2': (v['sigma_z'] / u['z'])**2,
           'emitt_x2': (v['emitt_x'] / x)**2, 'emitt_y2': (v['emitt_y'] / x)**2,
           'avg_ene': v['avg_ene'], 'rel_ene_spread2': v['rel_ene_spread']**2,
           'theta_x': v['theta_x'], 'theta_y': v['theta_y'],
           'beta_em_x': v['beta_x'] * v['emitt_x'] / P / x**2,
           'beta_em_y': v['beta_y'] * v['emitt_y'] / P / x**2,
           'alpha_em_x': v['alpha_x'] * v['emitt_x'] / x,
           'alpha_em_y': v['alpha_y'] * v['emitt_y'] / x,
           'unit_x': v['beta_x'] * v['gamma_x'] - v['alpha_x']**2,
           'unit_y': v['beta_y'] * v['gamma_y'] - v['alpha_y']**2,
           'avg_slice_emitt_x': v['avg_slice_emitt_x'] / x,
           'avg_slice_emitt_y': v['avg_slice_emitt_y'] / x,
           'avg_slice_rel_ene_spread': v['avg_slice_rel_ene_spread']}
    out = {k: code(w) for k, w in out.items()}
    out['prop_dist'] = code(v['prop_dist'] / u['s'])
    out['q_tot'] = code(v['q_tot'] / (u['w'] * q))
    out['i_peak'] = code(v['i_peak'] * 2 * u['z'] / ct.c / abs(u['w'] * q))
    return out


def equal(a, b):
    return set(a) == set(b) and all(
        np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True) for k in a)


def trace(rng, name):
    u = {'x': rng.choice([1e-6, 2e-4]), 'z': rng.choice([1e-6, 4e-5]),
         'z0': rng.choice([0, 0, -7]), 's': rng.choice([1., .125]),
         'w': rng.choice([1e6, 3.])}
    sp = rng.choice(['electron', 'electron', 'positron', 'proton'])
    q = SPECIES[sp][0]
    sliced = rng.random() < .5
    mode = rng.choice(['number', 'length'])
    n = rng.choice([1, 2, 2, 3])
    bs = [make(rng, sliced, n if mode == 'number' else None)
          for _ in range(rng.randint(1, 4))]
    kw = {}
    if sliced:
        kw = {'n_slices': n} if mode == 'number' else {'n_slices': 99, 'len_slice': 2 * u['z']}
    objs = [build(b, u, sp) for b in bs]
    d = os.path.join(SCRATCH, f'ana_{rng.randrange(10**9)}')
    ev, err, dicts = [], None, []
    stored = {}
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < .5 or not dicts:
            single = rng.random() < .3
            pick = [rng.randrange(len(bs)) for _ in range(1 if single else rng.randint(1, 4))]
            before = [state(o) for o in objs]
            with np.errstate(all='ignore'):
                if single:
                    res, err = guarded(analyze_bunch, objs[pick[0]], **kw)
                else:
                    res, err = guarded(analyze_bunch_list, [objs[i] for i in pick], **kw)
            if err:
                ev.append({'a': 'fail'})
                break
            names = set(NAMES) <= set(res)
            out = []
            if names:
                m = 1 if single else min(len(np.atleast_1d(res[k])) for k in NAMES)
                for j in range(m):
                    v = {k: float(res[k] if single else res[k][j]) for k in NAMES}
                    with np.errstate(all='ignore'):
                        out.append(observe(v, bs[pick[min(j, len(pick) - 1)]], u, q))
            ev.append({'a': 'analyze', 'bs': [i + 1 for i in pick], 'out': out,
                       'names': names,
                       'same': all(same(x, state(o)) for x, o in zip(before, objs))})
            dicts.append(res)
        elif r < .75 or not stored:
            k, f = rng.randrange(len(dicts)), rng.randint(1, 2)
            keep = {a: np.array(b) for a, b in dicts[k].items()}
            _, e = guarded(save_parameters_to_file, dicts[k], os.path.join(d, 'sub'), f'p{f}')
            ev.append({'a': 'store', 'f': f, 'd': k + 1, 'ok': not e and equal(keep, dicts[k])})
            err = e or err
            stored[f] = k
        else:
            f = rng.choice(sorted(stored))
            res, e = guarded(read_parameters_from_file, os.path.join(d, 'sub', f'p{f}.h5'))
            ev.append({'a': 'load', 'f': f, 'equals': [] if e else [
                k + 1 for k, x in enumerate(dicts) if equal(x, res)]})
            err = e or err
    shutil.rmtree(d, ignore_errors=True)
    return {'id': name, 'cfg': {'files': 2, 'bunches': bs}, 'ev': ev, 'error': err}


def run(chk, pid):
    chk.model('MCAnalysis', 'MCAnalysisBig.cfg' if THOROUGH else None, workers=2)
    rng = random.Random(SEED * 982451653 + 26)
    n = 1000 if THOROUGH else 120
    chk.validate('TraceAnalysis', [trace(rng, f'ana_{SEED}_{i}') for i in range(n)])
