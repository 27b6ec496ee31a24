"""Coherent synchrotron radiation (Csr.tla)."""
import itertools
import math
import random

import numpy as np
import scipy.constants as ct
from scipy import stats
from scipy.linalg import expm

from optics_suite import frame
from vlib import SEED, THOROUGH, guarded
import wake_t
from wake_t import Beamline, Dipole, Drift, ParticleBunch, Quadrupole
from wake_t.beamline_elements import TMElement
from wake_t.physics_models.collective_effects.csr import (
    reset_csr_calculator, set_csr_settings)


# -- reference calculation -----------------------------------------------------
def trajectory(parts):
    """Points (s, position, direction) along consecutive arcs and lines."""
    s, x, z, a = [0.], [0.], [0.], [0.]
    for L, th, n in parts:
        s0, x0, z0, a0 = s[-1], x[-1], z[-1], a[-1]
        for k in range(1, n + 1):
            t, l = th * k / n, L * k / n
            if th:
                r = L / th
                x.append(x0 + r * (math.cos(a0) - math.cos(a0 + t)))
                z.append(z0 + r * (math.sin(a0 + t) - math.sin(a0)))
            else:
                x.append(x0 + l * math.sin(a0))
                z.append(z0 + l * math.cos(a0))
            s.append(s0 + l)
            a.append(a0 + t)
    s, x, z, a = map(np.array, (s, x, z, a))
    return s, np.array([x, z]), np.array([np.sin(a), np.cos(a)])


def kernel(i, tr, nb, h, gamma):
    s, pos, d = tr
    ig2 = 1 / gamma**2
    be2 = 1 - ig2
    be = math.sqrt(be2)
    grid = np.arange(-nb, 0) * h
    ds = s[:i] - s[i]
    vec = pos[:, [i]] - pos[:, :i]
    R = np.sqrt((vec**2).sum(0))
    w = ds + be * R
    j = np.where(w <= grid[0])[0]
    j = j[-1] if len(j) else 0
    ds, vec, R, w, t = ds[j:], vec[:, j:], R[j:], w[j:], d[:, j:i]
    n = vec / R
    x = (n * t).sum(0)
    K = (be * (x - n[0] * d[0, i] - n[1] * d[1, i])
         - be2 * (1 - t[0] * d[0, i] - t[1] * d[1, i]) - ig2) / R \
        - (1 - be * x) / w * ig2
    K[:-1] += K[1:]
    K *= .5 * np.diff(ds, append=0)
    K = np.cumsum(K[::-1])[::-1]
    wmin = w.min()
    if grid[0] < wmin:
        m = np.where(grid < wmin)[0][-1]
        far = straight(i, tr, np.append(grid[:m + 1], wmin), gamma)
        KS = np.append((far[-1] - far + K[0])[:-1], np.interp(grid[m + 1:], w, K))
    else:
        KS = np.interp(grid, w, K)
    return np.diff(np.diff(KS, append=0), append=0) / h * (1e-7 * ct.c**2)


def straight(i, tr, w, gamma):
    """Contribution of the straight line before the trajectory."""
    s, pos, d = tr
    g2, ig2 = gamma**2, 1 / gamma**2
    be2 = 1 - ig2
    be = math.sqrt(be2)
    v = pos[:, i] - pos[:, 0]
    e1, eo = d[:, 0], d[:, i]
    along = v @ e1
    up = -v + along * e1
    a2 = up @ up
    a = math.sqrt(a2)
    inf = s[0] - s[i] + along
    q = inf + gamma * (gamma * (w - inf) - be * np.sqrt(g2 * (w - inf)**2 + a2))
    R = (w - q) / be
    K = be * (1 - e1 @ eo) * np.log(R[0] / R) \
        - (be2 * (e1 @ eo) - 1) * np.log((inf - q + R) / (inf - q[0] + R[0])) \
        + ig2 * np.log(w[0] / w)
    if a2 / R[1]**2 > 1e-7:
        K -= be * (up / a @ eo) * (np.arctan((q[0] - inf) / a) - np.arctan((q - inf) / a))
    return K


def kick(c, q, gamma, tr, s0, s1, nb, tie=(0, 0)):
    z = -c[4]
    hist, edges = np.histogram(z, nb, weights=np.abs(q))
    h = edges[1] - edges[0]
    mid = edges[1:] - h / 2
    pdf = stats.gaussian_kde(mid, bw_method=len(q)**(-1 / 5), weights=hist)
    hist = pdf(mid) * h * hist.sum()
    i1 = np.abs(tr[0] - s1 - tie[1]).argmin()
    i0 = np.abs(tr[0] - s0 - tie[0]).argmin()
    K = sum(kernel(i, tr, nb, h, gamma) for i in range(i0 + 1, i1 + 1)) / (i1 - i0)
    lam = np.convolve(hist, K[::-1]) / h * (s1 - s0)
    dE = np.interp((z - mid[0]) / h, np.arange(len(lam)), lam)
    return dE * 1e-9 / (math.sqrt(gamma**2 - 1) * .511e-3)


def matrix(L, th, k1, gamma):
    h = -th[0] / th[1]
    p = math.sqrt(gamma**2 - 1)
    be = p / gamma
    A = np.zeros((6, 6))
    A[0, 1] = A[2, 3] = 1
    A[1, 0] = -(k1 + h * h)
    A[3, 2] = k1
    A[1, 5] = A[4, 0] = h / be
    A[4, 5] = -1 / p**2
    return expm(A * L)


def coordinates(b, gamma):
    p = math.sqrt(gamma**2 - 1)
    f = frame(b)
    return np.array([f[0], f[1] / p, f[2], f[3] / p, -f[4], (f[6] - gamma) / p])


def reference(c, q, gamma, el, parts, steps, nb, tie=(0, 0)):
    """Coordinates after each step; parts: trajectory incl. this element."""
    L, th, k1 = el['L'], el['th'], el['k1']
    M = matrix(L / max(steps, 1), (th, L), k1, gamma)
    out, kicks = [], 0.
    if steps == 0:
        return [M @ c], 0.
    tr = trajectory(parts)
    start = sum(x[0] for x in parts[:-1])
    c = c.copy()
    for k in range(steps):
        c = M @ c
        d = kick(c, q, gamma, tr, start + k * L / steps, start + (k + 1) * L / steps, nb,
                 tie)
        c[5] += d
        kicks = max(kicks, np.max(np.abs(d)))
        out.append(c.copy())
    return out, kicks


def agree(x, y, size):
    return bool(np.all(np.isfinite(x)) and
                np.max(np.abs(x[5] - y[5])) <= 1e-4 * size + 1e-12
                and np.max(np.abs(x[:5] - y[:5])) <= 1e-4 * size + 1e-13)


TIES = [(0, 0), (1e-9, 1e-9), (-1e-9, -1e-9), (1e-9, -1e-9), (-1e-9, 1e-9)]


class MyElement(TMElement):
    def _print_element_properties(self):
        pass


def make_bunch(rng, g):
    n = rng.randint(20, 60)
    gamma = 10**g.uniform(2, 3)
    p = math.sqrt(gamma**2 - 1)
    sz = 10**g.uniform(-5.5, -2.7)
    a = g.normal(size=(6, n))
    q = rng.choice([1e-10, 1e-9, 3e-9])
    w = g.uniform(.5, 2, n)
    w *= q / ct.e / w.sum()
    return ParticleBunch(w, a[0] * 1e-5, a[1] * 1e-5, a[2] * sz, a[3] * p * 1e-5,
                         a[4] * p * 1e-5, p * (1 + 1e-4 * a[5]),
                         q_species=rng.choice([-ct.e, ct.e]))


def ceil(a, b):
    return -(-a // b)


def csr_trace(rng, name):
    g = np.random.default_rng(rng.randrange(2**31))
    reset_csr_calculator()
    set = {'step': rng.choice([50, 80, 100]), 'traj': rng.choice([7.3, 11.7, 23.1]),
           'bins': rng.choice([40, 100])}

    big = rng.random() < .06       # long trajectories
    if big:
        set['traj'] = .19

    def settings():
        set_csr_settings(csr_step=set['step'] * 1e-3, csr_traj_step=set['traj'] * 1e-3,
                         n_bins=set['bins'])
    settings()
    cfg = {'els': [], 'step': set['step'], 'bins': set['bins']}
    ev, err = [], None
    log = []       # (id or None, (L, theta, points)) of all elements tracked
    bunches = [make_bunch(rng, g) for _ in range(rng.choice([1, 1, 2]))]
    used = rng.random() < .3
    if used:       # beamlines tracked before the trace starts
        for _ in range(rng.randint(1, 3)):
            Dipole(.2, .1, csr_on=True, order=1).track(make_bunch(rng, g), show_progress_bar=False)
        if rng.random() < .5:
            reset_csr_calculator()
        else:
            Drift(.1).track(make_bunch(rng, g), show_progress_bar=False)
    for _ in range(2 if big else rng.randint(3, 7)):
        r = rng.random() if not big else 1.
        if r < .1:
            reset_csr_calculator()
            ev.append({'a': 'reset'})
            continue
        if r < .2:
            set = {'step': rng.choice([40, 60, 100, 300]), 'traj': rng.choice([7.3, 11.7, 23.1]),
                   'bins': rng.choice([40, 100])}
            settings()
            ev.append({'a': 'settings', 'step': set['step'], 'bins': set['bins']})
            continue
        b = rng.choice(bunches)
        n = rng.choice([0, 0, 1, 2, 3, 4, 5])
        kind = rng.choice(['drift', 'bend', 'bend', 'quad', 'both'])
        el = {'len': rng.choice([60, 90, 100, 130, 200, 240, 300, 600]),
              'csr': rng.random() < .8, 'n': n}
        L = el['len'] * 1e-3
        th = g.uniform(.02, .3) * rng.choice([-1, 1]) if kind in ('bend', 'both') else 0.
        k1 = g.uniform(-5, 5) if kind in ('quad', 'both') else 0.
        spec = {'L': L, 'th': th, 'k1': k1}
        mean = np.average(np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2), weights=b.w)
        gamma = float(mean) if rng.random() < .6 else float(mean) * 1.01
        kw = dict(gamma_ref=gamma if gamma != mean else rng.choice([None, gamma]),
                  csr_on=el['csr'], n_out=n or None, order=1)
        obj = Drift(L, **kw) if kind == 'drift' else \
            Dipole(L, theta=th, **kw) if kind == 'bend' else \
            Quadrupole(L, k1=k1, **kw) if kind == 'quad' else \
            MyElement(L, th, k1, 0., kw['gamma_ref'], el['csr'], n or None, 1)
        cfg['els'].append(el)
        e = len(cfg['els'])
        c0, s0 = coordinates(b, gamma), b.prop_distance
        line = rng.random() < .25
        outs, err = guarded(Beamline([obj]).track if line else obj.track, b,
                            show_progress_bar=False)
        if err:
            ev.append({'a': 'fail'})
            break
        seen = [coordinates(o, gamma) for o in outs]
        last = coordinates(b, gamma)
        where = all(abs(o.prop_distance - s0 - L * (i + 1) / n) < 1e-9
                    for i, o in enumerate(outs)) if n else True
        where = bool(where and abs(b.prop_distance - s0 - L) < 1e-9)
        parts = max(n, 1)
        best = parts * ceil(el['len'], parts * set['step'])
        explains, mine = [], {}
        hists = {()}
        for k in range(len(log)):
            hists.add(tuple(range(k, len(log))))
            hists.add(tuple(i for i in range(k, len(log)) if log[i][0]))
        if len(log) > 1:
            hists.add((0,))
            hists.add(tuple(range(len(log) - 1)))
        for full in (False, True):
            if explains:
                break
            # rounding may add a point to a trajectory or move a boundary
            # that lies between two points: considered if nothing else fits
            for steps in sorted({best, best + parts, best - parts, parts, 1, 0}):
                if steps < 0 or (steps % parts and steps):
                    continue
                pts = [0]
                if steps:
                    per = math.ceil(el['len'] / steps / set['traj'])
                    f = math.ceil(L / (L / steps / per))
                    pts = [f] + [x for x in (steps * per, steps * per + 1) if x != f]
                for h in sorted(hists) if steps else [()]:
                    alts = [log[i][1][2] for i in h] + [pts]
                    combos = itertools.product(*alts) if full else [[x[0] for x in alts]]
                    ties = TIES if full or steps and pts[0] % steps else TIES[:1]
                    for combo, tie in itertools.product(combos, ties):
                        line = [log[i][1][:2] for i in h] + [(L, th)]
                        with np.errstate(all='ignore'):
                            ref, size = reference(
                                c0, b.q, gamma, spec,
                                [(*x, m) for x, m in zip(line, combo)],
                                steps, set['bins'], tie)
                        marks = [ref[steps // n * (i + 1) - 1] for i in range(n)] \
                            if steps and n else []
                        ok = agree(last, ref[-1], size or 1e-7) and (
                            not steps or len(marks) == len(seen)
                            and all(agree(x, y, size) for x, y in zip(seen, marks)))
                        if ok:
                            ids = [log[i][0] for i in h]
                            x = {'steps': steps, 'hist': ids if None not in ids else [-1]}
                            if x not in explains:
                                explains.append(x)
                            mine.setdefault(steps, [combo[-1]] if th else
                                            [combo[-1]] + [q for q in pts if q != combo[-1]])
                            break
        ev.append({'a': 'track', 'e': e, 'explains': explains, 'outs': len(outs),
                   'where': where})
        log.append((e if el['csr'] else None, (L, th, mine.get(best) or mine.get(best + parts) or [best])))
    reset_csr_calculator()
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err}


def gammas(b):
    return np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)


def law(name, dev, bound):
    return {'a': 'law', 'law': 'P24.' + name, 'max': int(bound * 1e9),
            'dev': int(min(dev * 1e9, 2e9)) if np.isfinite(dev) else 2000000000}


def loss_trace(rng, name):
    """The mean energy loss of long Gaussian bunches in a long bend."""
    n, q = 1000, 10**rng.uniform(-11, -10)
    sz = 10**rng.uniform(-4.7, -4.3)
    L, th = .6, rng.choice([-1, 1]) * rng.uniform(.1, .15)
    p = rng.uniform(800, 2000)
    xi = stats.norm.ppf((np.arange(n) + .5) / n) * sz
    loss = []
    for qs, fac in ((-ct.e, 1), (ct.e, 1), (-ct.e, 2)):
        reset_csr_calculator()
        set_csr_settings(csr_step=.06, csr_traj_step=1.1e-3, n_bins=200)
        b = ParticleBunch(np.full(n, fac * q / ct.e / n), np.zeros(n), np.zeros(n), xi.copy(),
                          np.zeros(n), np.zeros(n), np.full(n, p), q_species=qs)
        b.theta_ref = 0.
        outs, err = guarded(Dipole(L, th, csr_on=True, n_out=10, order=1).track, b,
                            show_progress_bar=False)
        if err:
            return {'id': name, 'cfg': {'els': [], 'step': 1, 'bins': 1},
                    'ev': [{'a': 'fail'}], 'error': err}
        loss.append([gammas(o) for o in outs])
    reset_csr_calculator()
    loss = np.array(loss)
    size = np.max(np.abs(loss[0] - loss[0][:, :1])) + 1e-30
    # steady state of a Gaussian bunch, widened by the smoothing of the profile
    rc = ct.e**2 / (4 * np.pi * ct.epsilon_0 * ct.m_e * ct.c**2)
    sig = sz * np.sqrt(1 + n**-.4)
    slope = -.3505 * (q / ct.e) * rc / (abs(L / th)**(2 / 3) * sig**(4 / 3))
    mean = loss.mean(axis=2)
    got = (mean[0, -1] - mean[0, -2]) / (L / 10)
    g0 = np.sqrt(1 + p * p)
    ev = [law('energy-loss', abs(got / slope - 1), .05),
          law('species-sign', np.max(np.abs(loss[1] - loss[0])) / size, 1e-8),
          law('charge', np.max(np.abs(loss[2, 0] - g0 - 2 * (loss[0, 0] - g0))) / size, 1e-4)]
    return {'id': name, 'cfg': {'els': [], 'step': 1, 'bins': 1}, 'ev': ev, 'error': None,
            'scenario': [q, sz, th, p, got / slope]}


def run(chk, pid):
    chk.model('MCCsr', 'MCCsrBig.cfg' if THOROUGH else None, workers=2)
    rng = random.Random(SEED * 49979687 + 24)
    n = 300 if THOROUGH else 40
    chk.validate('TraceCsr', [csr_trace(rng, f'csr_{SEED}_{i}') for i in range(n)]
                 + [loss_trace(rng, f'loss_{SEED}_{i}') for i in range(n // 10)])
