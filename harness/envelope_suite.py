"""Envelope solver and tridiagonal systems (Envelope.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, collect, guarded, internal
from laser_suite import ref_step
from wake_t.physics_models.laser.laser_pulse import LaserPulse

TDMA = internal('wake_t.physics_models.laser.tdma:TDMA')
evolve_envelope = internal('wake_t.physics_models.laser.envelope_solver:evolve_envelope')
evolve_envelope_non_centered = internal(
    'wake_t.physics_models.laser.envelope_solver_non_centered:evolve_envelope_non_centered')


def pair(v, scale=1):
    out = []
    for u in (v.real * scale, v.imag * scale):
        out.append(int(round(u)) if np.isfinite(u) and abs(u) < 1e6 else OFF)
    return out


def tdma_event(rng):
    n = rng.randint(2, 7)

    def cz(m):
        return complex(rng.randint(-m, m), rng.randint(-m, m))
    lo = [cz(3) for _ in range(n - 1)]
    up = [cz(3) for _ in range(n - 1)]
    if rng.random() < .2:
        lo[rng.randrange(n - 1)] = 0j
    ma = [complex(rng.choice([-1, 1]) * rng.randint(9, 14), rng.randint(-6, 6))
          for _ in range(n)]
    p = [cz(9) for _ in range(n)]
    d = [ma[i] * p[i] + (lo[i - 1] * p[i - 1] if i else 0)
         + (up[i] * p[i + 1] if i < n - 1 else 0) for i in range(n)]
    out = np.full(n, 99. + 0j)
    args = [np.array(v, dtype=complex) for v in (lo, ma, up, d)]
    # The solver is used with real off-diagonals too.
    if rng.random() < .5:
        lo, up = [complex(v.real) for v in lo], [complex(v.real) for v in up]
        d = [ma[i] * p[i] + (lo[i - 1] * p[i - 1] if i else 0)
             + (up[i] * p[i + 1] if i < n - 1 else 0) for i in range(n)]
        args = [np.array(lo).real.copy(), np.array(ma),
                np.array(up).real.copy(), np.array(d, dtype=complex)]
    _, err = guarded(TDMA, *args, out)
    if err:
        return {'a': 'fail'}, err
    obs = [pair(complex(v)) for v in out]
    for o, v in zip(obs, out):
        if abs(complex(*o) - v) > 1e-6:
            o[:] = [OFF, OFF]
    return {'a': 'tdma', 'lo': [pair(v) for v in lo], 'ma': [pair(v) for v in ma],
            'up': [pair(v) for v in up], 'd': [pair(v) for v in d],
            'p': obs}, None


def step_events(rng, n_ev):
    """A history of steps with integer coefficients."""
    ph = rng.random() < .5
    nz = rng.randint(2, 5)
    nr = rng.randint(2, 3 if ph else 5)
    F = 1000 if ph else 10000
    it, iz = rng.choice([1, 2]), rng.choice([1, 2])
    ir = rng.choice([1, 1, 2]) if not ph else 1
    K = rng.randint(1, 4)
    amp = 3 if ph else 9

    def arr():
        a = np.zeros((nz + 2, nr), complex)
        for j in range(nz):
            for k in range(nr):
                a[j, k] = complex(rng.randint(-amp, amp), rng.randint(-amp, amp))
        return a
    a, old = arr(), arr()
    s = [0] * (nz + 2)
    if ph:
        for j in range(nz - 1, -1, -1):
            s[j] = s[j + 1] + rng.choice([-1, 0, 1])
            a[j, 0] = 1j**(s[j] % 4) * rng.randint(1, amp)
            if abs(s[j + 1]) == 0 and j == nz - 1:
                continue
    kp = rng.choice([1., 3.7e4])
    inv_dz = iz * 2 / np.pi if ph else iz
    zmin = rng.choice([0., -3.]) / kp
    zmax = zmin + (nz - 1) / inv_dz / kp
    ev = []
    first = rng.random() < .5
    for i in range(1 if ph else n_ev):
        chi = np.array([[rng.randint(0, 4) for _ in range(nr)]
                        for _ in range(nz)], dtype=float)
        a0, old0 = a.copy(), old.copy()
        fn = evolve_envelope_non_centered if first else evolve_envelope
        _, err = guarded(fn, a, old, chi, K * kp, kp, zmin, zmax, nz,
                         nr / ir / kp, nr, 1 / it / kp / ct.c, 1, ph)
        if err:
            return ev + [{'a': 'fail'}], err
        ev.append({
            'a': 'step', 'first': first, 'ph': ph, 'it': it, 'iz': iz,
            'ir2': ir**2, 'K': K, 's': s,
            'chi': [[int(v) for v in row] for row in chi],
            'cur': [[pair(v, F) for v in row] for row in a0],
            'old': [[pair(v, F) for v in row] for row in old0],
            'new': [[pair(v, F) for v in row] for row in a],
            'kept': bool(np.allclose(old[:nz], a0[:nz], rtol=1e-12, atol=0))})
        if np.max(np.abs(a)) > 30 or not np.all(np.isfinite(a)):
            break
        first = first and rng.random() < .5
    return ev, None


def dev(a, b):
    """Largest deviation relative to the largest value, in 1e-9."""
    m = max(np.max(np.abs(a)), np.max(np.abs(b)))
    if not np.isfinite(m):
        return 2**30
    if m == 0:
        return 0
    return int(min(np.max(np.abs(a - b)) / m * 1e9, 2**30))


class Case:
    """Realistic parameters."""

    def __init__(self, rng):
        self.g = np.random.default_rng(rng.randrange(2**31))
        self.nz, self.nr = rng.randint(14, 24), rng.randint(3, 10)
        self.n_p = 10**rng.uniform(22.5, 24.5)
        self.l0 = rng.choice([.8e-6, 10e-6, .4e-6])
        self.zmin, self.zmax = -60e-6, rng.choice([0., 15e-6])
        self.rmax = rng.uniform(20e-6, 90e-6)
        self.dt = 10**rng.uniform(-14, -12.3)
        self.nt = rng.choice([1, 1, 2, 3])
        self.phase = rng.random() < .6
        self.chi = self.g.uniform(0, 2, (self.nz, self.nr))

    def env(self, fading=False):
        a = self.g.normal(size=(self.nz, self.nr)) + \
            1j * self.g.normal(size=(self.nz, self.nr))
        if fading:
            a[-6:] *= (1e-5 ** np.arange(1, 7))[:, None]
        else:
            a[-1] *= .1
        return a

    def pulse(self, a, steps=0, dt=None, nt=None):
        p = LaserPulse(self.l0)
        p.set_envelope_solver_params(
            self.zmin, self.zmax, self.rmax, self.nz, self.nr, dt or self.dt,
            nt or self.nt, use_phase=self.phase)
        p.envelope_function = lambda xi, r, z_pos: np.array(a)
        p.initialize_envelope()
        return p

    def evolve(self, a, chis, **kw):
        p = self.pulse(a, **kw)
        out = []
        for c in chis:
            p.evolve(np.array(c), self.n_p)
            out.append(np.array(p.get_envelope()))
        return np.array(out)


def laws(rng):
    c = Case(rng)
    chis = [c.chi, c.chi * c.g.uniform(.5, 1.5, c.chi.shape), c.chi]
    a = c.env()
    ev = []

    def add(law, x, y):
        ev.append({'a': 'law', 'law': law, 'dev': dev(x, y)})
    base = c.evolve(a, chis)
    # exact solution of the equation
    kp = np.sqrt(ct.e**2 * c.n_p / (ct.m_e * ct.epsilon_0)) / ct.c
    x = np.zeros((c.nz + 2, c.nr), complex)
    x[:-2] = a
    old = np.zeros_like(x)
    for i, chi in enumerate(chis):
        for _ in range(c.nt):
            new = ref_step(x, old, chi, 2 * np.pi / c.l0, kp, c.zmin, c.zmax,
                           c.rmax, c.dt / c.nt, c.phase, i == 0)
            x, old = new, x
        add('equation', base[i], x[:-2])
    add('zero', c.evolve(a * 0, chis) + 1., base * 0 + 1.)
    add('linear', c.evolve(2.5 * a, chis), 2.5 * base)
    if not c.phase:
        b = c.env()
        z = complex(*c.g.normal(size=2))
        add('linear', c.evolve(a + z * b, chis), base + z * c.evolve(b, chis))
    f = c.env(fading=True)
    z = np.exp(1j * c.g.uniform(0, 6))
    # (the front edge of the grid has a fixed phase, so the pulse has to fade
    # before it)
    add('constant-phase', c.evolve(z * f, chis[:1]), z * c.evolve(f, chis[:1]))
    # what lies behind does not matter
    cut = rng.randint(1, c.nz - 1)
    b, chis2 = a.copy(), [np.array(q) for q in chis]
    b[:cut] = c.env()[:cut] * 3
    for q in chis2:
        q[:cut] = c.g.uniform(0, 2, (cut, c.nr))
    add('behind', c.evolve(b, chis2)[:, cut:], base[:, cut:])
    # sub-steps: after the first update with period dt/n, an update with n
    # sub-steps is n updates
    n = rng.choice([2, 3])
    p = c.pulse(a, dt=c.dt / n, nt=1)
    q = c.pulse(a, dt=c.dt / n, nt=1)
    for r in (p, q):
        r.evolve(np.array(c.chi), c.n_p)
    q.set_envelope_solver_params(c.zmin, c.zmax, c.rmax, c.nz, c.nr,
                                 c.dt / n * n, n, use_phase=c.phase)
    if q.solver_params['dt'] == p.solver_params['dt']:
        for _ in range(2):
            for _ in range(n):
                p.evolve(np.array(c.chi), c.n_p)
            q.evolve(np.array(c.chi), c.n_p)
            add('substeps', p.get_envelope(), q.get_envelope())
    return ev


def run(chk, pid):
    chk.model('MCEnvelope', 'MCEnvelopeBig.cfg' if THOROUGH else None,
              workers=2 if not THOROUGH else 8)
    rng = random.Random(SEED * 49979687 + 19)
    n = 300 if THOROUGH else 40

    def tdma(i):
        ev, err = [], None
        for _ in range(12):
            e, err = tdma_event(rng)
            ev.append(e)
            if err:
                break
        return {'id': f'tdma_{SEED}_{i}', 'cfg': {}, 'ev': ev, 'error': err}

    def step(i):
        ev, err = step_events(rng, 5)
        return {'id': f'step_{SEED}_{i}', 'cfg': {}, 'ev': ev, 'error': err}

    def law(i):
        ev, err = guarded(laws, rng)
        return {'id': f'laws_{SEED}_{i}', 'cfg': {},
                'ev': ev if not err else [{'a': 'fail'}], 'error': err}
    chk.validate('TraceEnvelope', collect(
        chk, [lambda i=i, f=f: f(i) for i in range(n) for f in (tdma, step, law)]))
