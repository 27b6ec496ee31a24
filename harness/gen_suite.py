"""Generation of bunches (Generate.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, guarded
from wake_t.utilities.bunch_generation import (
    get_gaussian_bunch_from_size, get_gaussian_bunch_from_twiss,
    get_matched_bunch)

RES = 10000
FS = 1e-15 * ct.c
SPECIES = {'electron': {}, 'positron': {'q_species': ct.e},
           'proton': {'q_species': ct.e, 'm_species': ct.m_p},
           'ion': {'q_species': 3 * ct.e, 'm_species': 7 * ct.m_p},
           'same': {'q_species': -ct.e, 'm_species': ct.m_e}}
BASE = dict(ax=1, ay=1, bx=1, by=1, fx=0, fy=0, sp=1, st=1, c=0, ox=0, oy=0, tx=0, ty=0)


def request(rng, n, kind):
    r = dict(BASE)
    r.update(n=n, ene=rng.choice([20, 500, 3000]), q=rng.randint(1, 90), name=rng.choice(['', 'w']))
    if kind == 'unit':
        return r
    r.update(ax=rng.randint(1, 5), ay=rng.randint(1, 5), bx=rng.randint(1, 5),
             by=rng.randint(1, 5), fx=rng.randint(-3, 3), fy=rng.randint(-3, 3),
             sp=rng.randint(0, 5), st=rng.randint(1, 9), c=rng.randint(-20, 20),
             ox=rng.randint(-9, 9), oy=rng.randint(-9, 9), tx=rng.randint(-9, 9),
             ty=rng.randint(-9, 9))
    if kind in ('size', 'matched_np', 'matched_kx', 'matched_both'):
        r['fx'] = r['fy'] = 0
    if kind.startswith('matched'):
        r['ay'], r['by'] = rng.choice([(r['ax'], r['bx']), (2 * r['ax'], 2 * r['bx'])])
    return r


def call(rng, r, kind, u, sp, seed):
    """Generate with the real code."""
    e = r['ene']
    X, T = u['x'], u['t']
    common = dict(ene=e, ene_sp=float(r['sp']), s_t=float(r['st']), xi_c=r['c'] * FS,
                  q_tot=u['qsign'] * float(r['q']), n_part=r['n'], **SPECIES[sp])
    if r['n'] > 2 and rng.random() < .2:
        common['n_part'] = float(r['n'])
    for k, v, w in (('x_off', r['ox'], X), ('y_off', r['oy'], X), ('theta_x', r['tx'], T),
                    ('theta_y', r['ty'], T)):
        if v or rng.random() < .5:
            common[k] = v * w
    if r['name'] or rng.random() < .3:
        common['name'] = r['name'] or None
    en = {'en_x': r['ax'] * r['bx'] * X * T * e, 'en_y': r['ay'] * r['by'] * X * T * e}
    np.random.seed(seed)
    if kind in ('unit', 'twiss'):
        return get_gaussian_bunch_from_twiss(
            a_x=r['fx'], a_y=r['fy'], b_x=r['ax'] / r['bx'] * X / T,
            b_y=r['ay'] / r['by'] * X / T, **en, **common)
    if kind == 'size':
        return get_gaussian_bunch_from_size(s_x=r['ax'] * X, s_y=r['ay'] * X, **en, **common)
    beta = r['ax'] / r['bx'] * X / T
    kx = e * ct.m_e * ct.c / (ct.e * beta**2)
    n_p = 2 * ct.epsilon_0 * ct.c * kx / ct.e
    kw = {'matched_np': {'n_p': n_p}, 'matched_kx': {'k_x': kx},
          'matched_both': {'n_p': 3 * n_p, 'k_x': kx}}[kind]
    return get_matched_bunch(**en, **common, **kw)


def q(a):
    a = float(a) * RES
    return int(round(a)) if np.isfinite(a) and abs(a) < 2**28 else OFF


def observe(b, r, u):
    X, T, e = u['x'], u['t'], r['ene']
    out = []
    for i in range(len(b.x)):
        pz = b.pz[i]
        out.append({'x': q(b.x[i] / X), 'y': q(b.y[i] / X),
                    'xp': q((b.px[i] - r['tx'] * T * e) / pz / T),
                    'yp': q((b.py[i] - r['ty'] * T * e) / pz / T),
                    'z': q(b.xi[i] / FS), 'e': q((pz / e - 1) * 100)})
    return out


names = set()


def got(b, r, sp):
    s = SPECIES[sp]
    qs, ms = s.get('q_species', -ct.e), s.get('m_species', ct.m_e)
    tot = float(np.sum(b.q)) * np.sign(qs) * 1e12
    fresh = isinstance(b.name, str) and b.name not in names
    if r['name'] == '':
        names.add(b.name)
    w = np.asarray(b.w)
    return {'q': int(round(tot)) if abs(tot - round(tot)) < 1e-6 else OFF,
            'equal': bool(np.all(w > 0) and np.ptp(w) <= 1e-12 * abs(w[0])
                          and np.allclose(b.q, w * qs, rtol=1e-12, atol=0)),
            'species': b.q_species == qs and b.m_species == ms,
            'name': str(b.name), 'fresh': fresh}


def trace(rng, name):
    u = {'x': rng.choice([1e-6, 3e-5]), 't': rng.choice([1e-3, 2e-5]),
         'qsign': rng.choice([1, 1, 1, -1])}
    n_seeds = rng.randint(1, 2)
    ev, err = [], None
    sizes = [rng.choice([1, 2, 3, 6]) for _ in range(n_seeds)]
    seeds = [rng.randrange(2**31) for _ in range(n_seeds)]
    for k in range(n_seeds):
        sp = rng.choice(sorted(SPECIES))
        r = request(rng, sizes[k], 'unit')
        b, err = guarded(call, rng, r, 'unit', u, sp, seeds[k])
        if err:
            break
        ev.append({'a': 'learn', 's': k + 1, 'r': r, 'ps': observe(b, r, u),
                   'got': got(b, r, sp)})
    for _ in range(rng.randint(3, 8)):
        if err:
            break
        k = rng.randrange(n_seeds)
        sp = rng.choice(sorted(SPECIES))
        kind = rng.choice(['twiss', 'twiss', 'twiss', 'size', 'matched_np', 'matched_kx',
                           'matched_both'])
        if kind.startswith('matched'):
            sp = rng.choice(['electron', 'same'])
        r = request(rng, sizes[k], kind)
        b, err = guarded(call, rng, r, kind, u, sp, seeds[k])
        if not err:
            ev.append({'a': 'make', 's': k + 1, 'r': r, 'ps': observe(b, r, u),
                       'got': got(b, r, sp)})
    if err:
        ev.append({'a': 'fail'})
    return {'id': name, 'cfg': {'seeds': n_seeds}, 'ev': ev, 'error': err}


def sample(rng, name, n):
    """Moments of a large bunch of unit size."""
    u = {'x': 1e-6, 't': 1e-3, 'qsign': 1}
    r = request(rng, n, 'unit')
    b, err = guarded(call, rng, r, 'unit', u, 'electron', rng.randrange(2**31))
    if err:
        return {'id': name, 'cfg': {'seeds': 1}, 'ev': [{'a': 'fail'}], 'error': err}
    d = [b.x / u['x'], b.px / b.pz / u['t'], b.y / u['x'], b.py / b.pz / u['t'], b.xi / FS,
         (b.pz / r['ene'] - 1) * 100]
    m = {'mean': [q(np.mean(v)) for v in d], 'var': [q(np.var(v)) for v in d],
         'cov': [q(np.mean(d[i] * d[j])) for i in range(6) for j in range(i)],
         'tol': int(6 * RES / np.sqrt(n))}
    return {'id': name, 'cfg': {'seeds': 1}, 'ev': [{'a': 'sample', 'n': n, 'm': m}],
            'error': None}


def run(chk, pid):
    chk.model('MCGenerate', workers=2)
    rng = random.Random(SEED * 472882027 + 29)
    n = 1500 if THOROUGH else 200
    ts = [trace(rng, f'gen_{SEED}_{i}') for i in range(n)]
    ts += [sample(rng, f'gen_sample_{SEED}_{i}', 200000) for i in range(4)]
    chk.validate('TraceGenerate', ts)
