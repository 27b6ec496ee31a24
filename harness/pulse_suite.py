"""Initial laser envelopes and their sums (Pulse.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, guarded
from wake_t import GaussianPulse
from wake_t.physics_models.laser.laser_pulse import (
    LaserPulse, LaguerreGaussPulse, FlattenedGaussianPulse)

LN2 = np.log(2.)


def icode(v, tol=1e-5):
    v = float(v)
    if not np.isfinite(v) or abs(v) > 2**30:
        return OFF
    n = int(round(v))
    return n if abs(v - n) <= tol * max(1, abs(n)) else OFF


def pair(v, tol=1e-5):
    s = max(1., abs(v))
    out = []
    for u in (v.real, v.imag):
        if not np.isfinite(u) or abs(u) > 2**30:
            out.append(OFF)
            continue
        n = int(round(u))
        out.append(n if abs(u - n) <= tol * s else OFF)
    return out


def at(pulse, xi, r, z_pos, as_grid):
    if as_grid:
        xx, rr = np.meshgrid([xi - 1e-6, xi, xi + 3e-6], [0., r], indexing='ij')
        v = pulse.envelope_function(xx, rr, z_pos)
        return complex(np.asarray(v)[1, 1])
    v = pulse.envelope_function(np.array([xi]), np.array([r]), z_pos)
    return complex(np.asarray(v)[0])


def base(rng):
    kw = dict(xi_c=rng.choice([0., -12e-6, 7e-6]), a_0=rng.choice([1., 2., 3., 7.]),
              w_0=rng.choice([5e-6, 17e-6, 80e-6]), tau=rng.choice([5e-15, 33e-15]),
              l_0=rng.choice([.8e-6, 1.03e-6, 10e-6]),
              polarization=rng.choice(['linear', 'circular']))
    q = rng.randint(-2, 3)
    kw['cep_phase'] = q * np.pi / 2
    zr = np.pi * kw['w_0']**2 / kw['l_0']
    kw['z_foc'] = rng.choice([0., .3, -2.]) * zr
    if kw['z_foc'] == 0 and rng.random() < .5:
        del kw['z_foc']
    if q == 0 and rng.random() < .5:
        del kw['cep_phase']
    return kw, q, zr


def point(rng, kw, zr, w, rho, n, d):
    """Coordinates of a point: returns xi, r, z_pos."""
    off = rng.choice([-1, 1]) * kw['tau'] * ct.c / 2 * np.sqrt(2 * n)
    zr = zr * (w / kw['w_0'])**2
    r = w * np.sqrt(rho * (1 + d * d))
    return kw['xi_c'] + off, r, kw.get('z_foc', 0.) + d * zr - off


def shape_event(rng):
    kw, q, zr = base(rng)
    kind = rng.choice(['gauss', 'gauss', 'lg', 'flat'])
    d, n = rng.choice([-1, 0, 0, 1]), rng.choice([0, 0, 1, 2])
    g = rng.random() < .3
    a0 = int(kw['a_0'])
    if kind == 'gauss':
        pulse = rng.choice([
            lambda: GaussianPulse(**kw), lambda: LaguerreGaussPulse(p=0, **kw),
            lambda: FlattenedGaussianPulse(N=0, **kw)])()
        m = rng.choice([0, 0, 1, 2, 3])
        v = at(pulse, *point(rng, kw, zr, kw['w_0'], m * LN2, n, d), g)
        if d == 0 or m == 0:
            return {'a': 'point', 'a0': a0, 'q': q, 'd': d,
                    'v': pair(v * 2**(m + n) * (1 + d * d))}
        return {'a': 'phase', 'a0': a0, 'q': q, 'd': d, 'm': m,
                'mod2': icode(abs(v)**2 * (1 + d * d) * 4**(m + n)),
                'arg': int(round(np.angle(v) * 1e6)) if np.isfinite(v) else 1}
    x = rng.randint(0, 5)
    if kind == 'lg':
        p = rng.randint(0, 4)
        args = point(rng, kw, zr, kw['w_0'], x / 2, n, d)
        v = at(LaguerreGaussPulse(p=p, **kw), *args, g) / \
            at(GaussianPulse(**kw), *args, g)
        return {'a': 'lg', 'p': p, 'x': x, 'd': d, 'v': pair(v * 24)}
    N = rng.randint(0, 4)
    w = kw['w_0'] * np.sqrt(N + 1)
    args = point(rng, kw, zr, w, x / 2, n, d)
    v = at(FlattenedGaussianPulse(N=N, **kw), *args, g) / \
        at(GaussianPulse(**dict(kw, w_0=w)), *args, g)
    return {'a': 'flat', 'N': N, 'x': x, 'd': d, 'v': pair(v * 24 * (N + 1) * 2**N)}


def speed_event(rng):
    a, b, c = rng.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (4, 3, 5)])
    l0 = rng.choice([.8e-6, 10e-6])
    k = 2 * np.pi / l0
    n_p = (k * ct.c * a / b)**2 * ct.m_e * ct.epsilon_0 / ct.e**2
    v = LaserPulse(l0).get_group_velocity(n_p)
    return {'a': 'speed', 'plasma': a, 'light': b, 'hyp': c, 'v': icode(v * c)}


class Plain(LaserPulse):
    """Envelope with integer values."""

    def __init__(self, l_0, polarization, c):
        super().__init__(l_0, polarization)
        self.c = c

    def _envelope_function(self, xi, r, z_pos):
        return self.c[0] + xi * self.c[1] + 1j * r * self.c[2] + 1j * z_pos


def sum_trace(rng, name, n_ev):
    wls = [.8e-6, 1.03e-6]
    pts = [(0., 0., 0.), (1., 2., 0.), (-3., 1., 4.)]
    pulses, leaves = [], []
    for _ in range(rng.randint(3, 5)):
        wl = 0 if rng.random() < .75 else 1
        pol = 'linear' if rng.random() < .75 else 'circular'
        if rng.random() < .6:
            c = [rng.randint(-9, 9) for _ in range(3)]
            p = Plain(wls[wl], pol, c)
            v = [pair(complex(c[0] + x * c[1], r * c[2] + z)) for x, r, z in pts]
        else:
            # constant over all points used
            q, a0 = rng.randint(0, 3), rng.randint(1, 5)
            cls = rng.choice([GaussianPulse, LaguerreGaussPulse,
                              FlattenedGaussianPulse])
            kw = dict(xi_c=0., a_0=float(a0), w_0=1e9, tau=1e9, l_0=wls[wl],
                      cep_phase=q * np.pi / 2, polarization=pol)
            if cls is LaguerreGaussPulse:
                kw['p'] = rng.randint(0, 2)
            p = cls(**kw)
            v = [pair((-1j)**q * a0)] * 3
        pulses.append(p)
        leaves.append({'wl': wl, 'pol': pol, 'v': v})
    ev, err = [], None

    def look(p):
        w = [i for i in (0, 1) if p.l_0 == wls[i]]
        return (w + [9])[0], str(p.polarization)
    for _ in range(n_ev):
        i, j = rng.randrange(len(pulses)), rng.randrange(len(pulses))
        if rng.random() < .4 and len(pulses) < 12:
            new, e = guarded(lambda: pulses[i] + pulses[j])
            if e is None:
                w, pol = look(new)
                ev.append({'a': 'sum', 'i': i + 1, 'j': j + 1, 'ok': True,
                           'wl': w, 'pol': pol})
                same = pulses[i].l_0 == pulses[j].l_0 and \
                    pulses[i].polarization == pulses[j].polarization
                if not same:
                    break
                pulses.append(new)
            elif 'ValueError' in e.splitlines()[-1]:
                ev.append({'a': 'sum', 'i': i + 1, 'j': j + 1, 'ok': False,
                           'wl': 0, 'pol': ''})
                if pulses[i].l_0 == pulses[j].l_0 and \
                        pulses[i].polarization == pulses[j].polarization:
                    err = e
                    break
            else:
                ev.append({'a': 'fail'})
                err = e
                break
        else:
            t = rng.randrange(3)
            v, err = guarded(at, pulses[i], *pts[t], False)
            if err:
                ev.append({'a': 'fail'})
                break
            w, pol = look(pulses[i])
            ev.append({'a': 'value', 'i': i + 1, 't': t + 1, 'v': pair(v),
                       'wl': w, 'pol': pol})
    return {'id': name, 'cfg': {'leaves': leaves}, 'ev': ev, 'error': err}


def law_events(rng):
    """Sums and displacements of pulses with arbitrary parameters."""
    g = np.random.default_rng(rng.randrange(2**31))
    z, r = np.meshgrid(np.linspace(-30e-6, 20e-6, 7), np.linspace(0, 60e-6, 5),
                       indexing='ij')

    def any_pulse(shift=0.):
        kw = dict(xi_c=g.uniform(-2e-5, 2e-5), a_0=g.uniform(.1, 3),
                  w_0=g.uniform(1e-5, 5e-5), tau=g.uniform(1e-14, 9e-14),
                  z_foc=g.uniform(-1e-3, 1e-3), cep_phase=g.uniform(0, 6))
        c = rng.choice(['g', 'l', 'f'])
        if c == 'l':
            kw['p'] = rng.randint(0, 3)
        if c == 'f':
            kw['N'] = rng.randint(0, 6)
        cls = {'g': GaussianPulse, 'l': LaguerreGaussPulse,
               'f': FlattenedGaussianPulse}[c]
        return cls, kw
    ps = [any_pulse() for _ in range(3)]
    a, b, c = [cls(**kw) for cls, kw in ps]
    zp = g.uniform(-1e-3, 1e-3)
    e = [p.envelope_function(z, r, zp) for p in (a, b, c)]
    s = rng.choice([(a + b) + c, a + (b + c), (c + a) + b])
    out = []

    def add(law, x, y):
        m = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-30)
        dev = np.max(np.abs(x - y)) / m * 1e9
        out.append({'a': 'law', 'law': law,
                    'dev': int(min(dev, 2**30)) if np.isfinite(dev) else 2**30})
    add('additive', s.envelope_function(z, r, zp), e[0] + e[1] + e[2])
    # on the grid of a solver too
    s.set_envelope_solver_params(-30e-6, 20e-6, 60e-6, 7, 5, 1e-14)
    s.initialize_envelope()
    rg = np.linspace(6e-6, 54e-6, 5)
    zz, rr = np.meshgrid(z[:, 0], rg, indexing='ij')
    add('additive', s.get_envelope(),
        sum(p.envelope_function(zz, rr, 0.) for p in (a, b, c)))
    cls, kw = ps[0]
    d = g.uniform(-1e-5, 1e-5)
    moved = cls(**dict(kw, xi_c=kw['xi_c'] + d))
    add('displacement', moved.envelope_function(z + d, r, zp), e[0])
    late = cls(**dict(kw, z_foc=kw['z_foc'] + 10 * d))
    add('displacement', late.envelope_function(z, r, zp + 10 * d), e[0])
    big = cls(**dict(kw, a_0=2 * kw['a_0'], cep_phase=kw['cep_phase'] + .7))
    add('shape', big.envelope_function(z, r, zp), 2 * np.exp(-.7j) * e[0])
    return out


def run(chk, pid):
    chk.model('MCPulse', workers=2)
    rng = random.Random(SEED * 67867967 + 20)
    n = 200 if THOROUGH else 30
    traces = []
    for i in range(n):
        ev, err = guarded(lambda: [shape_event(rng) for _ in range(25)]
                          + [speed_event(rng)])
        traces.append({'id': f'shape_{SEED}_{i}', 'cfg': {'leaves': []},
                       'ev': ev if not err else [{'a': 'fail'}], 'error': err})
        traces.append(sum_trace(rng, f'sum_{SEED}_{i}', 30))
        ev, err = guarded(law_events, rng)
        traces.append({'id': f'law_{SEED}_{i}', 'cfg': {'leaves': []},
                       'ev': ev if not err else [{'a': 'fail'}], 'error': err})
    chk.validate('TracePulse', traces)
